"""running the real executables in scratch directories and reading what they wrote"""
import os, re, json, glob
import numpy as np
import vt

NAMES = ["rho", "energy", "rho_vx", "rho_vy", "rho_vz", "bx", "by", "bz"]


def read_h5(run, reader, files):
    """{file: dict(ok, attr, data={name: array})} in one call of the independent reader"""
    if not files:
        return {}
    run.h5n = getattr(run, "h5n", 0) + 1
    out = run.path("h5r", "o%d" % run.h5n)
    rc, so, se = vt.sh([reader, out] + list(files), 120)
    if rc != 0:
        raise vt.Broken("h5r failed: %s" % se[-500:])
    raw = np.fromfile(out + ".bin", dtype=np.float64)
    res = {}
    for line in open(out + ".json"):
        e = json.loads(line)
        for n, d in e["data"].items():
            k = int(np.prod(d["dims"])) if d["dims"] else 1
            d["a"] = raw[d["off"]:d["off"] + k].reshape(d["dims"])
        res[e["file"]] = e
    os.remove(out + ".bin")
    return res


def stack(e, names, dim):
    """interior array [k,j,i,v] from the data sets, None when one is missing"""
    if not e["ok"] or any(n not in e["data"] for n in names):
        return None
    a = [e["data"][n]["a"] for n in names]
    if len({x.shape for x in a}) != 1:
        return None
    a = np.stack(a, -1)
    return a[None] if dim == 2 else a


class Exe:
    """one run of an executable in its own directory"""

    def __init__(self, run, exe, ini, np_=1, threads=1, timeout=120, name=None, d=None, args=None):
        run.xn = getattr(run, "xn", 0) + 1
        self.dir = d or run.sub("x%d_%s" % (run.xn, name or ""))
        open(self.dir + "/p.ini", "w").write(ini if isinstance(ini, str) else vt.ini_text(ini))
        cmd = [exe] + (args if args is not None else ["p.ini"])
        e = {"OMP_NUM_THREADS": str(threads)}
        if np_ or "_mpi." in os.path.basename(exe):
            self.rc, self.out, self.err = vt.mpirun(max(np_, 1), cmd, timeout, e, self.dir)
        else:
            self.rc, self.out, self.err = vt.sh(cmd, timeout, e, self.dir)

    def files(self, pat):
        return sorted(f for f in os.listdir(self.dir) if re.fullmatch(pat, f))

    def final_time(self):
        m = re.findall(r"final time is (\S+)", self.out)
        return float(m[-1]) if m else None
