"""P19: limiter and positivity procedure keep averages and act only where needed: cells before and after, against Limiter.tla"""
import random
import numpy as np
from concurrent.futures import ThreadPoolExecutor
import vt, states, problems, fv
from checks.p21 import digits

SOLVERS = [("Hydro_SDM_2D_degree%d" % n, 2, n) for n in (1, 2, 3, 4, 5, 6)] + [("Hydro_SDM_3D_degree%d" % n, 3, n) for n in (2, 3, 4)]
SMALLR = 1e-8
# exactly representable in single precision, in which the settings are read
TVB = [0.0, 0.0, 0.0, 19 / 512, 5 / 16, 40.0]
KINDS = ["rough", "smooth", "linear", "uniform", "strong", "spiky", "vacuum", "faint"]


def cells(kind, N, n, dim, rng, gamma):
    """degrees of freedom [k,j,i,v,f] of conserved variables"""
    g = np.random.default_rng(rng.randrange(1 << 30))
    nz = N[2] if dim == 3 else 1
    nf, nv = n**dim, dim + 2
    x = np.array([0.5 * (1 - np.cos(np.pi * (2 * i + 1) / (2 * n))) for i in range(n)])
    f = np.arange(nf)
    pos = [x[f % n], x[f // n % n], x[f // n // n % n] if dim == 3 else np.zeros(nf)]
    K, J, I = np.meshgrid(np.arange(nz), np.arange(N[1]), np.arange(N[0]), indexing="ij")
    X = [c[..., None] + p for c, p in zip((I, J, K), pos)]          # in cell widths
    shape = X[0].shape
    dens, pres = np.ones(shape), np.ones(shape)
    vel = [np.zeros(shape) for _ in range(dim)]
    W = w = fv.weights(n, dim)
    U = np.empty(shape[:3] + (nv, nf))
    if kind in ("linear", "uniform"):
        s = 0.0 if kind == "uniform" else 0.02
        base = [1.0 + g.uniform(0, 1), 4.0 + g.uniform(0, 4)] + list(g.uniform(-1, 1, dim))
        for v in range(nv):
            U[..., v, :] = base[v] + sum(s * g.uniform(-1, 1) * X[a] for a in range(dim))
        return U
    if kind == "smooth":
        ph = g.uniform(0, 6, 8)
        q = [sum(np.sin(0.5 * X[a] + ph[(3 * v + a) % 8]) for a in range(dim)) / dim for v in range(nv)]
        amp = 0.3
    else:
        # cell-wise jumps and noise inside the cells
        jump, noise = dict(rough=(0.3, 0.1), strong=(1.2, 0.3), spiky=(0.2, 0.9), vacuum=(1.5, 1.5), faint=(2e-5, 1e-5))[kind]
        noise = noise * g.choice([0.05, 0.4, 1.0], shape[:3] + (1,))
        q = [jump * g.standard_normal(shape[:3] + (1,)) + noise * g.standard_normal(shape) for v in range(nv)]
        amp = 1.0
    dens = np.exp(amp * q[0])
    pres = np.exp(amp * q[1])
    mach = g.choice([0.2, 1.0, 3.0]) if kind != "smooth" else 0.5      # "faint" only has faint momenta
    m = [amp * mach * q[2 + a] * np.sqrt(dens * pres) for a in range(dim)]
    U[..., 0, :], U[..., 1, :] = dens, pres / (gamma - 1) + 0.5 * sum(y * y for y in m) / dens
    for a in range(dim):
        U[..., 2 + a, :] = m[a]
    if kind in ("vacuum", "spiky"):
        # exaggerate the deviations from the average where that keeps the average itself: negative values inside
        ave = (U * w).sum(-1, keepdims=True)
        p = (gamma - 1) * (ave[..., 1, :] - 0.5 * sum(ave[..., 2 + a, :]**2 for a in range(dim)) / ave[..., 0, :])
        f = g.choice([0.3, 1.0, 2.0, 5.0], shape[:3] + (1, 1))
        V = ave + f * (U - ave)
        if g.random() < 0.5:      # only some variables
            keep = g.random(shape[:3] + (nv, 1)) < 0.5
            V = np.where(keep, V, ave + 0.3 * (U - ave))
        U = V
    return U


def check(run, t0):
    rng = random.Random(vt.SEED)
    pool = ThreadPoolExecutor(8)
    B = vt.build("drv_sdm", "drv_sdm_hi")
    mc = [pool.submit(vt.model, run, "MCLimiter", "MCLimiterT" if vt.THOROUGH else "MCLimiter"), pool.submit(vt.model, run, "MCFixed", "MCFixed")]
    bad = []
    todo = {"drv_sdm": [], "drv_sdm_hi": []}
    for s, dim, n in SOLVERS:
        for kind in KINDS * (12 if vt.THOROUGH else 2):
            N = [rng.randrange(3, 6) for _ in range(3)] if n < 4 or dim == 2 else [3, 3, 3]
            if dim == 2:
                N[2] = 1
            gamma = rng.choice([1.5, 1.25, 1.625, 2.0])
            U = cells(kind, N, n, dim, rng, gamma)
            A = U.reshape(U.shape[:3] + (-1,))
            m = rng.choice(TVB) if kind != "faint" else 0.0
            ch = rng.choice(["true", "false"])
            cid = "%s_%s_%d" % (s, kind, len(todo["drv_sdm"]) + len(todo["drv_sdm_hi"]))
            f = run.path("in", cid + ".bin")
            states.write(f, A)
            L = [rng.choice([1.0, 0.75, 7.25]) for _ in range(3)]
            ini = problems.ini(s, "blast", N, [2] * 6, gamma=gamma, mesh=dict(xmax=L[0], ymax=L[1], zmax=L[2]),
                               extra=dict(hydro=dict(smallr=SMALLR), sdm=dict(limiter_enabled="true", positivity_enabled="true", limiter_characteristics_enabled=ch, M_TVB=m)))
            c = vt.Case(cid, ini, ["params", "new %d %d" % (dim, n), "set " + f, "bc", "dump a", "prestep", "limit", "dump b",
                                   "set " + f, "bc", "prestep", "positivity", "dump c"],
                        dict(dim=dim, n=n, N=N, kind=kind, gamma=gamma, m=m))
            todo["drv_sdm_hi" if (dim, n) in ((2, 1), (2, 5), (2, 6), (3, 4)) else "drv_sdm"].append(c)
    for k, cs in todo.items():
        for c in vt.run_cases(run, B[k], cs, 1, 1, 300, k, 4):
            bad.append(dict(id=c.id, why="run did not complete rc=%s" % c.rc, detail=c.err, ini=c.ini))
    evs, kinds = [], {}
    per = dict(limit=40 if vt.THOROUGH else 14, positive=40 if vt.THOROUGH else 14)
    for c in todo["drv_sdm"] + todo["drv_sdm_hi"]:
        if not c.ok:
            continue
        dim, n, N = c.meta["dim"], c.meta["n"], c.meta["N"]
        nf, nv = n**dim, dim + 2
        a, b, p = [c.dumps(t)[0][0] for t in "abc"]
        gw = c.dumps("a")[0][1]["gw"]
        gz = gw if dim == 3 else 0

        def dof(x, k, j, i):
            return [[digits(y) for y in x[k, j, i, v * nf:(v + 1) * nf].tolist()] for v in range(nv)]
        where = [(k + gz, j + gw, i + gw) for k in range(N[2]) for j in range(N[1]) for i in range(N[0])]
        for ev, post in (("limit", b), ("positive", p)):
            few = per[ev] if nf < 27 else max(2, per[ev] // (2 if nf < 64 else 3))
            pick = rng.sample(where, min(few, len(where)))
            if ev == "positive":            # prefer cells the procedure changed
                ch = [x for x in where if not np.array_equal(a[x], post[x])]
                pick = rng.sample(ch, min(few - 2, len(ch))) + pick[:2]
            for k, j, i in pick:
                fin = bool(np.isfinite(post[k, j, i]).all())
                e = dict(ev=ev, id="%s_%s_%d-%d-%d" % (ev, c.id, i, j, k), dim=dim, n=n, g=digits(c.meta["gamma"]), u=dof(a, k, j, i), nan=not fin,
                         post=dof(post if fin else a, k, j, i), same=bool(np.array_equal(a[k, j, i], post[k, j, i])))
                if ev == "limit":
                    e["m"] = digits(c.meta["m"])
                    e["nb"] = [dof(a, *[x + s * (d == y) for y, x in ((2, k), (1, j), (0, i))]) for d in range(dim) for s in (-1, 1)]
                else:
                    e["smallr"] = digits(SMALLR)
                evs.append(e)
                key = (ev, c.meta["kind"], "kept" if e["same"] else "changed")
                kinds[key] = kinds.get(key, 0) + 1
        run.samples.append(c.id)

    def corrupt(e):
        if e["nan"] or e["same"]:
            return False
        e["post"][0][0][-6] += 1

    def weight(e):
        return len(e["u"]) * len(e["u"][0]) * (1 + 2 * e["dim"])
    K = 7
    parts, load = [[] for _ in range(K)], [0] * K
    for e in sorted(evs, key=weight, reverse=True):
        k = load.index(min(load))
        load[k] += weight(e)
        parts[k].append(e)
    for f in [pool.submit(vt.validate, run, "TraceLimiter", "TraceLimiter", q, "t%d" % i, 800, canary=corrupt) for i, q in enumerate(parts) if q]:
        for i, w in f.result():
            bad.append(dict(id=i, why=w))
    for f in mc:
        f.result()
    run.samples = rng.sample(run.samples, min(8, len(run.samples)))
    return vt.finish(run, bad, t0, rule="cells of random, smooth, linear, uniform, strong and nearly empty states before and after the limiter and the positivity "
                     "procedure of every spectral-difference solver, judged by TraceLimiter.tla: averages kept; the limited slopes in characteristic "
                     "variables; nothing changed where nothing needs to; admissible at all flux points; squeezed no more than needed",
                     extra=dict(cells={"/".join(k): v for k, v in sorted(kinds.items())}, events=len(evs)))
