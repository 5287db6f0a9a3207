"""random configurations of all solvers and the projections judged by TraceFv.tla"""
import math
import numpy as np
from concurrent.futures import ThreadPoolExecutor
import vt, states, problems

FVS = ["Hydro_Muscl_2D", "Hydro_Muscl_3D", "MHD_Muscl_2D", "MHD_Muscl_3D"]
SDMS = [("Hydro_SDM_2D_degree%d" % n, n) for n in (2, 3, 4)] + [("Hydro_SDM_3D_degree%d" % n, n) for n in (2, 3)]
SDMS_MPI = [("Hydro_SDM_2D_degree2", 2), ("Hydro_SDM_2D_degree3", 3), ("Hydro_SDM_3D_degree2", 2)]
RK = [dict(), dict(forward_euler="false", ssprk2="true"), dict(forward_euler="false", ssprk3="true"),
      dict(forward_euler="false", ssprk54="true")]
LIM = [dict(), dict(limiter_enabled="true", M_TVB=0.0), dict(limiter_enabled="true", limiter_characteristics_enabled="true", M_TVB=0.5),
       dict(positivity_enabled="true"), dict(limiter_enabled="true", positivity_enabled="true", M_TVB=0.0)]


class Gen:
    def __init__(self, run, rng):
        self.run, self.rng, self.n = run, rng, 0

    def case(self, s, nd=1, label="", N=None, L=None, bc=None, kind="rough", A=None, grav=None, m=(1, 1, 1), steps=5, kw=None,
             extra=None, every=1, state=None, problem="blast"):
        """a run from a random (or given) state; m > 1 splits the global grid"""
        rng = self.rng
        self.n += 1
        dim = states.dim_of(s)
        g = states.ghost(s)
        sdm = "SDM" in s
        if N is None:
            if sdm:
                n = [rng.randrange(3, 6) for _ in range(3)]
            else:
                lo, hi = (g + 1, 8) if dim == 3 else (g + 1, 14)
                n = [rng.randrange(lo, hi) for _ in range(3)]
            if max(m) > 1:
                n = [max(g, 2) + rng.randrange(3) for _ in range(3)]
            N = [n[a] * m[a] for a in range(3)]
        if dim == 2:
            N = [N[0], N[1], 1]
        L = L or [rng.choice([1.0, 0.75, 1.625]) for _ in range(3)]
        bc = bc or [3] * 6
        kw = dict(dict(gamma=1.4, cfl=0.4, tend=100.0, nstepmax=1000), **(kw or {}))
        d = [L[a] / N[a] for a in range(3)]
        if A is None:
            st = dict(gamma=kw["gamma"], kind=kind)
            st.update(state or {})
            A = states.sdm_state(s, N, nd, d, vt.SEED * 1000 + self.n, **st) if sdm else \
                states.state(s, N, d, vt.SEED * 1000 + self.n, **st)
        cid = "%s_%s_np%d%d%d_n%d-%d-%d_bc%s_%d" % (s, label, *m, *N, "".join(map(str, bc[:2 * dim])), self.n)
        f = self.run.path("in", cid + ".bin")
        states.write(f, A)
        cmds = ["params", "new %d %d" % (dim, nd) if sdm else "new", "set " + f]
        sec = {}
        if grav is not None:
            sec = {"gravity": dict(static="true")}
            G = grav if not isinstance(grav, str) else np.random.default_rng(self.n).uniform(-1, 1, (N[2], N[1], N[0], dim))
            gf = self.run.path("in", "g_" + cid + ".bin")
            states.write(gf, G)
            cmds.append("gravity " + gf)
            problem = "rising_bubble"
        cmds.append("dump s0")
        if every:
            cmds.append("step %d %d s" % (steps, every))
        ini = problems.ini(s, problem, [N[a] // m[a] for a in range(3)], bc, sections=sec,
                           mesh=dict(xmax=L[0], ymax=L[1], zmax=L[2]), m=m, extra=extra, **kw)
        c = vt.Case(cid, ini, cmds, dict(s=s, nd=nd, N=N, L=L, d=d, bc=bc[:2 * dim], dim=dim, m=m, np=m[0] * m[1] * m[2],
                                         grav=grav is not None, gamma=kw["gamma"], steps=steps // every if every else 0, A=A, kw=kw))
        return c


def execute(run, cases, bad, pool, chunks=3):
    """run cases on the binaries they need"""
    sel = {}
    for c in cases:
        k = ("drv_sdm" if "SDM" in c.meta["s"] else "drv") + ("_mpi" if c.meta["np"] > 1 else "")
        sel.setdefault((k, c.meta["np"]), []).append(c)
    b = vt.build(*sorted({k for k, _ in sel}))
    ser = [pool.submit(vt.run_cases, run, b[k], cs, 1, 1, 400, k, chunks) for (k, n), cs in sel.items() if n == 1]
    par = [(k, n, cs) for (k, n), cs in sel.items() if n > 1]
    jobs = ser + [pool.submit(lambda: [x for k, n, cs in par for x in vt.run_cases(run, b[k], cs, n, 1, 300, "%s_np%d" % (k, n))])]
    for j in jobs:
        for c in j.result():
            bad.append(dict(id=c.id, why="run did not complete rc=%s" % c.rc, detail=c.err, ini=c.ini))


def series(c):
    """global interior arrays of the dumps in order"""
    return [c.interior(t) for t in dict.fromkeys(c.tags())]


def weights(nd, dim):
    """integration weights of the solution points (exact integrals of the Lagrange polynomials)"""
    if nd == 1:
        return np.ones(1)
    x = np.array([0.5 * (1 - math.cos(math.pi * (2 * i + 1) / (2 * nd))) for i in range(nd)])
    w = []
    for i in range(nd):
        p = np.poly1d([1.0])
        for j in range(nd):
            if j != i:
                p = p * np.poly1d([1.0, -x[j]]) / (x[i] - x[j])
        w.append(np.polyint(p)(1.0))
    w = np.array(w)
    o = w
    for _ in range(dim - 1):
        o = np.outer(w, o).ravel()
    return o


def totals(a, vars_, nd, dim):
    w = weights(nd, dim)
    nf = len(w)
    out, mag = [], []
    for v in range(len(vars_)):
        x = a[..., v * nf:(v + 1) * nf] * w
        out.append(math.fsum(x.ravel().tolist()))
        mag.append(float(np.abs(x).sum()))
    return out, mag


def scale_groups(vars_, mag):
    r, e = max(mag[0], 1e-300), max(mag[1], 1e-300)
    return [{1: r, 2: e, 3: math.sqrt(r * e), 4: math.sqrt(e)}[k["g"]] for k in vars_]


def ev_cons(c, visc=False, bn0=False, tol=300):
    s, nd, dim = c.meta["s"], c.meta["nd"], c.meta["dim"]
    V = states.variables(s)
    A = series(c)
    t0, mag = totals(A[0], V, nd, dim)
    n = A[0].shape[0] * A[0].shape[1] * A[0].shape[2]
    sc = scale_groups(V, mag)
    for v, k in enumerate(V):
        if k["g"] == 4:
            sc[v] = max(math.sqrt(mag[1] * n), mag[v])
    steps = []
    for a in A[1:]:
        t, mg = totals(a, V, nd, dim)
        sc = [max(x, y) if np.isfinite(y) else x for x, y in zip(sc, scale_groups(V, mg))]
        steps.append([int(vt.quant(t[v] - t0[v], sc[v], 1e-13)) for v in range(len(V))])
    return dict(ev="cons", id=c.id, dim=dim, bc=c.meta["bc"], grav=int(c.meta["grav"]), visc=int(visc), bn0=int(bn0 or not s.startswith("MHD")),
                vars=V, tol=tol, want=c.meta["steps"], steps=steps)


def mag_flux(c, a):
    """fluxes through faces, with the layer above (periodic image; boundary layer repeats)"""
    d, dim = c.meta["d"], c.meta["dim"]
    area = [d[1] * d[2], d[0] * d[2], d[0] * d[1]] if dim == 3 else [d[1], d[0], 0]
    out = []
    for q in range(3):
        f = a[..., 5 + q] * area[q]
        pad = np.concatenate([f, f[:, :, :1]], 2)
        pad = np.concatenate([pad, pad[:, :1]], 1)
        pad = np.concatenate([pad, pad[:1]], 0)
        out.append(pad)
    return out


def ev_div(c, tol=6, A=None, cid=None):
    A = series(c) if A is None else A
    dim = c.meta["dim"]
    F = [mag_flux(c, a) for a in A]
    m = max(max(np.nanmax(np.abs(x)) for x in f[:dim]) for f in F) or 1.0
    steps = [[vt.quant(x, m, 1e-9).ravel().tolist() if i < dim else [] for i, x in enumerate(f)] for f in F]
    return dict(ev="div", id=cid or c.id, dim=dim, bc=c.meta["bc"] + [3] * (6 - len(c.meta["bc"])), size=c.meta["N"], tol=tol,
                want=len(A), steps=steps)


def ev_uni(c, tol=200):
    s, nd, dim = c.meta["s"], c.meta["nd"], c.meta["dim"]
    V = states.variables(s)
    nf = nd ** dim
    A = series(c)
    base = A[0]
    mag = [float(np.abs(base[..., v * nf:(v + 1) * nf]).max()) for v in range(len(V))]
    sc = scale_groups(V, mag)
    steps = []
    for a in A[1:]:
        r = []
        for v in range(len(V)):
            x = vt.quant(a[..., v * nf:(v + 1) * nf] - base[..., v * nf:(v + 1) * nf], sc[v], 1e-12)
            r.append([int(x.min()), int(x.max())])
        steps.append(r)
    return dict(ev="uni", id=c.id, vars=V, tol=tol, want=c.meta["steps"], steps=steps)


def pressure(s, a, gamma, nd=1):
    """pressure at every point; a [k,j,i,v] interior (MHD: needs upper faces, periodic image used)"""
    dim = states.dim_of(s)
    nf = nd ** dim
    nv = a.shape[-1] // nf
    u = a.reshape(a.shape[:3] + (nv, nf))
    if s.startswith("MHD"):
        b = [0.5 * (a[..., 5] + np.roll(a[..., 5], -1, 2)), 0.5 * (a[..., 6] + np.roll(a[..., 6], -1, 1)),
             0.5 * (a[..., 7] + np.roll(a[..., 7], -1, 0))]
        if dim == 2:
            b[2] = a[..., 7]
        e = a[..., 1] - 0.5 * sum(x * x for x in b) - 0.5 * (a[..., 2] ** 2 + a[..., 3] ** 2 + a[..., 4] ** 2) / a[..., 0]
        return (gamma - 1) * e[..., None]
    k = 0.5 * sum(u[..., i, :] ** 2 for i in range(2, nv)) / u[..., 0, :]
    return (gamma - 1) * (u[..., 1, :] - k)


def avg_pressure(a, gamma):
    return (gamma - 1) * (a[..., 1] - 0.5 * sum(a[..., i] ** 2 for i in range(2, a.shape[-1])) / a[..., 0])


def sgn(x):
    """integer with the sign of x, magnitude in 1e-9 units"""
    if not np.isfinite(x):
        return -1
    q = int(min(abs(x) * 1e9, 1e9)) or 1
    return q if x > 0 else -q


def ev_pos(c, skip_mhd_border=True):
    s, nd, dim = c.meta["s"], c.meta["nd"], c.meta["dim"]
    nf = nd ** dim
    steps = []
    st = {e["it"]: e for e in c.ev[0] if e["ev"] == "step"}
    for tg in dict.fromkeys(c.tags()):
        a = c.interior(tg)
        e0 = [e for e in c.ev[0] if e["ev"] == "dump" and e["tag"] == tg][0]
        if nd > 1:
            # spectral difference: the averages carry the guarantee
            w = weights(nd, dim)
            a = (a.reshape(a.shape[:3] + (-1, nf)) * w).sum(axis=-1)
        with np.errstate(all="ignore"):
            p = pressure(s, a, c.meta["gamma"], 1) if nd == 1 else avg_pressure(a, c.meta["gamma"])
        if s.startswith("MHD"):
            bc = c.meta["bc"]
            if bc[1] != 3:
                p = p[:, :, :-1]
            if bc[3] != 3:
                p = p[:, :-1]
            if dim == 3 and bc[5] != 3:
                p = p[:-1]
        e = st.get(e0["it"])
        dt = 1 if e is None else (e["dt"] if not isinstance(e["dt"], str) else float("nan"))
        steps.append(dict(rho=sgn(np.min(a[..., 0])), p=sgn(np.min(p)), fin=int(np.isfinite(a).all()), dt=sgn(dt)))
    return dict(ev="pos", id=c.id, want=len(steps), steps=steps)


def corrupt(e):
    if e["ev"] == "cons":
        for v in range(len(e["vars"])):
            e["steps"][-1][v] += 10 * e["tol"] + 10
    elif e["ev"] == "div":
        n = e["size"]
        e["steps"][-1][0][(n[0] + 1) + 1 if n[1] > 1 else 1] += 1000
    elif e["ev"] == "uni":
        e["steps"][-1][-1][1] += 10 * e["tol"]
    else:
        e["steps"][-1]["p"] = -1


def judge(run, events, name, pool, K=4):
    parts = [events[i::K] for i in range(K)]
    fs = [pool.submit(vt.validate, run, "TraceFv", "TraceFv", p, "%s%d" % (name, i), 800, canary=corrupt) for i, p in enumerate(parts) if p]
    return [x for f in fs for x in f.result()]
