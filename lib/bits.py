"""equality of recorded doubles as integers: every bit pattern gets a number"""
import numpy as np


class Ids:
    def __init__(self):
        self.base = np.empty(0, np.uint64)

    def learn(self, *arrs):
        x = np.concatenate([np.ascontiguousarray(a, dtype=np.float64).ravel().view(np.uint64) for a in arrs] + [self.base])
        self.base = np.unique(x)
        return self

    def of(self, a):
        """numbers of known patterns, -1 for others"""
        x = np.ascontiguousarray(a, dtype=np.float64).ravel().view(np.uint64)
        i = np.searchsorted(self.base, x)
        i = np.minimum(i, len(self.base) - 1)
        return np.where(self.base[i] == x, i, -1).tolist()
