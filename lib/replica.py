"""reference / replica events for TraceReplica.tla from driver cases"""
import numpy as np
import vt
import states

ID = dict(perm=[1, 2, 3], refl=[0, 0, 0], shift=[0, 0, 0], per=[0, 0, 0])


def scales(vars_, arrs, nf=1):
    """scale per variable from reference arrays [k,j,i,v]"""
    m = np.max([np.nanmax(np.abs(a), axis=(0, 1, 2)) for a in arrs], axis=0)
    m = m.reshape(len(vars_), nf).max(axis=1)
    m = np.where(np.isfinite(m), m, 1.0)
    r, e = max(m[0], 1e-300), max(m[1], 1e-300)
    s = [{1: r, 2: e, 3: (r * e) ** 0.5, 4: e ** 0.5}[k["g"]] for k in vars_]
    return np.repeat(np.array(s), nf)


def q(a, sc, res=1e-9):
    return vt.quant(a, sc, res).reshape(-1).tolist()


def steps_of(case):
    """[(it, {rank: (t,dt)}, tag or None)] over recorded steps; the first entry is the start state"""
    out = []
    n = len(case.ev)
    st = [[e for e in evs if e["ev"] in ("begin", "step", "state")] for evs in case.ev]
    m = min(len(x) for x in st)
    for k in range(m):
        out.append((st[0][k]["it"], [(st[r][k]["t"], st[r][k]["dt"], st[r][k]["it"]) for r in range(n)]))
    return out


def f(x):
    return float("nan") if isinstance(x, str) else x


class Ref:
    def __init__(self, case, solver, nd=1, res=1e-9, tags=None):
        self.case, self.solver, self.nd, self.res = case, solver, nd, res
        self.vars = states.variables(solver)
        self.dim = states.dim_of(solver)
        self.nf = nd ** self.dim
        self.steps = steps_of(case)
        dumped = {}
        for tg in dict.fromkeys(case.tags()):
            a = case.interior(tg)
            it = [e for e in case.ev[0] if e["ev"] == "dump" and e["tag"] == tg][0]["it"]
            dumped[it] = a
        self.dumped = dumped
        self.sc = scales(self.vars, list(dumped.values()), self.nf)
        ts = [f(x[0]) for s in self.steps for x in s[1]] + [f(x[1]) for s in self.steps for x in s[1]]
        ts = [abs(x) for x in ts if np.isfinite(x)] + [1e-300]
        self.tsc = max(ts)
        a = next(iter(dumped.values()))
        self.size = [a.shape[2], a.shape[1], a.shape[0]]

    def event(self):
        st = []
        for it, rk in self.steps:
            st.append(dict(it=it, t=int(vt.quant(f(rk[0][0]), self.tsc, self.res)), dt=int(vt.quant(f(rk[0][1]), self.tsc, self.res)),
                           cells=q(self.dumped[it], self.sc, self.res) if it in self.dumped else []))
        return dict(ev="ref", id=self.case.id, dim=self.dim, nd=self.nd, vars=self.vars, size=self.size, steps=st)

    def replica(self, case, rel=None, tol=3, solver=None, sc=None, nosteps=False):
        solver = solver or self.solver
        vars_ = states.variables(solver)
        dim = states.dim_of(solver)
        rel = rel or ID
        byit = {}
        pieces = None
        for tg in dict.fromkeys(case.tags()):
            ds = case.dumps(tg)
            it = ds[0][1]["it"]
            pl, ps = [], []
            for a, e in ds:
                g = e["gw"]
                b = a[:, g:-g, g:-g, :] if a.shape[0] == 1 else a[g:-g, g:-g, g:-g, :]
                ps.append(dict(org=e["org"], size=[b.shape[2], b.shape[1], b.shape[0]]))
                pl.append(b)
            byit[it] = pl
            pieces = ps
        if sc is None:
            # scale of the corresponding reference variable
            rs = {}
            for k, s in zip(self.vars, self.sc[::self.nf]):
                rs[k["g"]] = s
            sc = np.repeat(np.array([rs[k["g"]] for k in vars_]), self.nd ** dim)
        st = []
        for it, rk in steps_of(case):
            st.append(dict(it=[x[2] for x in rk], t=[int(vt.quant(f(x[0]), self.tsc, self.res)) for x in rk],
                           dt=[int(vt.quant(f(x[1]), self.tsc, self.res)) for x in rk],
                           cells=[q(b, sc, self.res) for b in byit[it]] if it in byit and it in self.dumped else []))
        size = [max(p["org"][a] + p["size"][a] for p in pieces) for a in range(3)]
        return dict(ev="rep", id=case.id, dim=dim, nd=self.nd, vars=vars_, rel=rel, pieces=pieces, size=size, tol=tol, steps=st)


def corrupt(e):
    if e["ev"] != "rep":
        return False
    for s in reversed(e["steps"]):
        if s["cells"]:
            s["cells"][-1][len(s["cells"][-1]) // 2] += 40
            return True
    s["t"][-1] += 1000


def judge(run, groups, name, K=6, pool=None, timeout=800):
    """groups: list of [ref event, rep events...]; returns list of (id, why)"""
    from concurrent.futures import ThreadPoolExecutor
    size = lambda g: sum(sum(len(c) for c in s["cells"]) if e["ev"] == "rep" else len(s["cells"]) for e in g for s in e["steps"])
    groups = [g for g in groups if len(g) > 1]
    parts = [[] for _ in range(K)]
    load = [0] * K
    for g in sorted(groups, key=size, reverse=True):
        i = load.index(min(load))
        parts[i] += g
        load[i] += size(g) + 200
    own = pool is None
    pool = pool or ThreadPoolExecutor(K)
    fs = [pool.submit(vt.validate, run, "TraceReplica", "TraceReplica", p, "%s%d" % (name, i), timeout, canary=corrupt)
          for i, p in enumerate(parts) if p]
    res = []
    for x in fs:
        res += x.result()
    if own:
        pool.shutdown()
    return res, sum(load)


# ---- transformed initial states (mirrors Relation.tla) ----
def relation(perm=(1, 2, 3), refl=(0, 0, 0), shift=(0, 0, 0), per=(0, 0, 0)):
    return dict(perm=list(perm), refl=list(refl), shift=list(shift), per=list(per))


def _refx(rel, a, n, x, stag):
    y = n - 1 - x + stag if rel["refl"][a] else x
    if rel["per"][a]:
        return (y + rel["shift"][a]) % n
    if n == 1:
        return np.zeros_like(y)
    return np.where(y < n, y, n - 1)


def transform(A, rvars, pvars, rel, nd=1, rdim=3, pdim=3, psize=None):
    """A[k,j,i,val] of the reference -> array of the replica"""
    n = [A.shape[2], A.shape[1], A.shape[0]]
    inv = [rel["perm"].index(b + 1) for b in range(3)]
    size = psize or [n[inv[b]] for b in range(3)]
    pf, rf = nd ** pdim, nd ** rdim
    out = np.zeros((size[2], size[1], size[0], len(pvars) * pf))
    g = np.meshgrid(np.arange(size[0]), np.arange(size[1]), np.arange(size[2]), indexing="ij")
    g = [x.transpose(2, 1, 0) for x in g]
    for v, k in enumerate(pvars):
        ra = 0 if k["ax"] == 0 else inv[k["ax"] - 1] + 1
        w = [i for i, r in enumerate(rvars) if r["g"] == k["g"] and r["ax"] == ra]
        if not w:
            continue
        w = w[0]
        sg = -1 if k["ax"] and rel["refl"][ra - 1] else 1
        idx = [_refx(rel, a, n[a], g[rel["perm"][a] - 1], 1 if k["st"] and ra == a + 1 else 0) for a in range(3)]
        for d in range(pf):
            dc = [d % nd, (d // nd) % nd, d // (nd * nd)]
            q = [nd - 1 - dc[rel["perm"][a] - 1] if rel["refl"][a] else dc[rel["perm"][a] - 1] for a in range(3)]
            rd = q[0] + nd * q[1] + (nd * nd * q[2] if rdim == 3 else 0)
            out[..., v * pf + d] = sg * A[idx[2], idx[1], idx[0], w * rf + rd]
    return out


def moved(rel, xs, fill=None):
    """per reference axis list -> per replica axis list"""
    return [xs[rel["perm"].index(b + 1)] for b in range(3)]


def moved_bc(rel, bc):
    out = []
    for b in range(3):
        a = rel["perm"].index(b + 1)
        p = [bc[2 * a], bc[2 * a + 1]]
        out += p[::-1] if rel["refl"][a] else p
    return out
