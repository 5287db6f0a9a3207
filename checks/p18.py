"""P18: design order: one step from linear data up to second order (Smooth.tla); exactness of the spectral-difference operators
and of the methods of time on polynomial flows (Operator.tla)"""
import random
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, poly, fv
from checks.p21 import digits

C0 = (0, 0, 0)
EPS = 2.0**-15


def linear_case(run, rng, s, dim, mhd, riem, impl, slope, grav, num):
    """fields linear in position, of variation EPS per cell"""
    g = states.ghost(s)
    n = 2 * (g + 2) + 1 - (1 if rng.random() < 0.5 else 0) if not (mhd and dim == 3) else 2 * (g + 2) - 1
    N = [n, n + (rng.choice([0, 1]) if dim == 2 else 0), n if dim == 3 else 1]
    h = [rng.choice([0.5, 1.0, 0.75]) for _ in range(3)]
    gamma = rng.choice([1.5, 1.25, 2.0])
    B = lambda lo, hi: rng.randrange(int(lo * 64), int(hi * 64) + 1) / 64
    slopes = lambda: [EPS * B(-1, 1) / h[d] if d < dim else 0.0 for d in range(3)]
    r, p = dict(v=B(0.75, 2), g=slopes()), dict(v=B(0.75, 2), g=slopes())
    nvel = 3 if dim == 3 or mhd else 2
    top = rng.choice([0.25, 1, 4])
    u = [dict(v=B(-top, top), g=slopes()) if d < nvel else dict(v=0.0, g=[0.0] * 3) for d in range(3)]
    b = [dict(v=0.0, g=[0.0] * 3) for d in range(3)]
    if mhd:
        b = [dict(v=rng.choice([-1, 1]) * B(0.25, 1), g=slopes()) for d in range(3)]
        last = dim - 1
        b[last]["g"][last] = -sum(b[d]["g"][d] for d in range(last))
    acc = [0.0] * 3
    if grav:
        acc = [EPS * B(-1, 1) if d < dim else 0.0 for d in range(3)]
    at = lambda f, X: f["v"] + sum(f["g"][d] * X[d] for d in range(3))
    K, J, I = np.meshgrid(np.arange(N[2]), np.arange(N[1]), np.arange(N[0]), indexing="ij")
    X = [h[d] * (x + 0.5) if d < dim else 0.0 * x for d, x in enumerate((I, J, K))]
    R, P, U, Bc = at(r, X), at(p, X), [at(x, X) for x in u], [at(x, X) for x in b]
    E = P / (gamma - 1) + 0.5 * R * sum(x * x for x in U) + 0.5 * sum(x * x for x in Bc)
    cols = [R, E] + [R * x for x in U[:nvel]]
    if mhd:
        for d in range(3):
            F = list(X)
            if d < dim:
                F[d] = F[d] - 0.5 * h[d]
            cols.append(at(b[d], F))
    A = np.stack(cols, axis=3)
    cid = "%s_%s_i%d_s%g%s_%d" % (s, riem, impl, slope, "_g" if grav else "", num)
    f = run.path("in", cid + ".bin")
    states.write(f, A)
    cmds = ["params", "new", "set " + f]
    sec = {}
    if grav:
        sec = {"gravity": dict(static="true")}
        gf = run.path("in", "g_" + cid + ".bin")
        states.write(gf, np.zeros((N[2], N[1], N[0], dim)) + acc[:dim])
        cmds.append("gravity " + gf)
    cmds += ["step 1 1 s"]
    ini = problems.ini(s, "rising_bubble" if grav else "blast", N, [2] * 6, sections=sec, gamma=gamma, riemann=riem, impl=impl, slope=slope, tend=100.0, cfl=rng.choice([0.25, 0.375]),
                       mesh=dict(xmax=N[0] * h[0], ymax=N[1] * h[1], zmax=N[2] * h[2]))
    return vt.Case(cid, ini, cmds, dict(s=s, dim=dim, N=N, h=h, gamma=gamma, r=r, p=p, u=u, b=b, acc=acc, g=g, mhd=mhd, nvel=nvel))


def smooth_event(c, rng, few):
    m = c.meta
    step = [e for e in c.ev[0] if e["ev"] == "step"]
    if not step:
        return None
    q = c.interior(c.tags()[-1])
    N, g, dim = m["N"], m["g"], m["dim"]
    mid = lambda n: range(g + 1, n - g - 1)
    inner = [(i, j, k) for i in mid(N[0]) for j in mid(N[1]) for k in (mid(N[2]) if dim == 3 else [0])]
    cells, fin = [], True
    for i, j, k in rng.sample(inner, min(few, len(inner))):
        v = q[k, j, i].tolist()
        fin = fin and bool(np.isfinite(v).all())
        v = [x if np.isfinite(x) else 0.0 for x in v]
        if m["nvel"] == 2:
            v = v[:4] + [0.0] + v[4:]
        cells.append(dict(at=[i, j, k], q=[digits(x) for x in v]))
    lin = lambda f: dict(v=digits(f["v"]), g=[digits(x) for x in f["g"]])
    return dict(ev="smooth", id=c.id, dim=dim, nan=not fin, gamma=digits(m["gamma"]), g1=digits(1 / (m["gamma"] - 1)), h=[digits(x) for x in m["h"]], dt=digits(step[0]["dt"]),
                r=lin(m["r"]), p=lin(m["p"]), u=[lin(x) for x in m["u"]], b=[lin(x) for x in m["b"]], acc=[digits(x) for x in m["acc"]], cells=cells,
                tol=digits(TOL * EPS**2), judged=[v for v in range(1, len(cells[0]["q"]) + 1) if v != 2 or not any(m["acc"])])


# of the square of the variation per cell; what remains of the third power is below a thirtieth of this
TOL = 0.00015


def flow(shape, dim, n, rng):
    """products of polynomials within what n values per direction represent"""
    vel = lambda deg: poly.poly(rng, dim, deg, 0.25, rng.randrange(-64, 65) / 64)
    if shape == "density":
        return dict(r=poly.poly(rng, dim, n - 1, 1 / 8, 2.0), p=poly.poly(rng, dim, n - 1, 1 / 16, 8.0), u=[vel(0) for _ in range(dim)])
    if shape == "uniform":
        return dict(r={C0: 1.25}, p={C0: 2.0}, u=[vel(0) for _ in range(dim)])
    if shape == "motion":
        d = (n - 1) // 2
        return dict(r={C0: 1.5}, p=poly.poly(rng, dim, n - 1, 1 / 16, 20.0), u=[vel(d) for _ in range(dim)])
    # velocity and density share the degree
    d = rng.randrange(0, (n - 1) // 2 + 1)
    return dict(r=poly.poly(rng, dim, max(0, n - 1 - 2 * d), 1 / 64, 3.0), p=poly.poly(rng, dim, n - 1, 1 / 16, 30.0), u=[vel(d) for _ in range(dim)])


def sdm_cases(run, rng, full):
    todo = {"drv_sdm": [], "drv_sdm_hi": []}
    num = 0
    big = lambda dim, n: n**dim > 30

    def add(s, dim, n, ev, shape, method, riem):
        nonlocal num
        num += 1
        st = dict(euler=1, ssp2=2, ssp3=3, ssp54=5)[method] if ev == "step" else 1
        N = [2 * st + rng.choice([1, 2]) + (0 if ev == "step" else 2) for _ in range(3)]
        if dim == 3:
            N = [2 * st + 1 + (0 if ev == "step" else 2)] * 3
        else:
            N[2] = 1
        h = [rng.choice([0.125, 0.1875, 0.25] if ev == "step" else [0.25, 0.375, 0.5, 0.1875]) for _ in range(3)]
        lo = [-(N[d] // 2 + rng.choice([0, 1, 0.5])) * h[d] for d in range(3)]
        gamma = rng.choice([1.5, 1.25, 2.0])
        fl = flow(shape, dim, n, rng)
        if ev == "step":
            fl["p"] = {C0: 8.0}
        A = poly.state(fl, poly.points(N, n, dim, lo, h), dim, gamma)
        nf = n**dim
        if not (A[..., :nf].min() > 0.1) or fl["p"] and poly.value(fl["p"], poly.points(N, n, dim, lo, h)).min() <= 0.1:
            return
        cid = "%s_%s_%s_%s_%s_%d" % (s, ev, shape, method, riem, num)
        f = run.path("in", cid + ".bin")
        states.write(f, A)
        # as long as rounding errors (times n^2 dt / h at every stage) stay small: powers of dt matter
        dt = min(h[:dim]) * min(1.0, 10**(5 / st) / (n * n))
        dt = round(dt * 2**20) / 2**20
        mesh = {}
        for a, x in enumerate("xyz"):
            mesh[x + "min"], mesh[x + "max"] = lo[a], lo[a] + N[a] * h[a]
        ini = problems.ini(s, "blast", N, [2] * 6, gamma=gamma, riemann=riem, mesh=mesh, extra=dict(sdm=poly.METHODS[method]))
        cmds = ["params", "new %d %d" % (dim, n), "set " + f, "bc"]
        cmds += ["timeint %r" % dt, "dump d"] if ev == "step" else ["fdiv %r" % dt, "dumpext d Uaux %d" % ((dim + 2) * nf)]
        todo[poly.binary(dim, n)].append(vt.Case(cid, ini, cmds, dict(dim=dim, n=n, N=N, h=h, lo=lo, gamma=gamma, flow=fl, A=A, ev=ev, dt=dt, method=method, st=st, shape=shape)))

    for s, dim, n in poly.SOLVERS:
        for rep in range(6 if full else 1):
            for shape in ("density", "uniform", "motion", "products"):
                add(s, dim, n, "euler", shape, "euler", rng.choice(["llf", "hll", "hllc", "approx"]))
            for method in poly.METHODS:
                if dim == 3 and n > 2 and method == "ssp54" and not full:
                    continue
                add(s, dim, n, "step", "density", method, rng.choice(["llf", "hll", "hllc", "approx"]))
    return todo


def sdm_event(c, rng):
    m = c.meta
    dim, n, N, h, st = m["dim"], m["n"], m["N"], m["h"], m["st"]
    q = c.interior("d")
    w = st if m["ev"] == "step" else 1
    inner = [(i, j, k) for i in range(w, N[0] - w) for j in range(w, N[1] - w) for k in (range(w, N[2] - w) if dim == 3 else [0])]
    cells = rng.sample(inner, min(len(inner), 1 if n**dim > 30 else 2))
    nf = n**dim
    base = [float(np.abs(m["A"][..., v * nf:(v + 1) * nf]).max()) for v in range(dim + 2)]
    if m["ev"] == "step":
        scale = [max(1.0, x) for x in base]
        kw = dict(dt=digits(m["dt"]), method=m["method"])
    else:
        scale = [max(1.0, 1e-6 * n**2 * (max(base) + 60) * 2 / min(h[:dim]))] * (dim + 2)
        kw = {}
    return poly.event(m["ev"], c.id, dim, n, m["flow"], m["lo"], h, m["gamma"], q, cells, scale, **kw)


def corrupt(e):
    if e["nan"]:
        return False
    e["cells"][0]["q"][0][5] += 9
    return True


def check(run, t0):
    rng = random.Random(vt.SEED)
    pool = ThreadPoolExecutor(8)
    full = vt.THOROUGH
    B = vt.build("drv", "drv_sdm", "drv_sdm_hi")
    mc = [pool.submit(vt.model, run, "MCOperator", "MCOperatorT" if full else "MCOperator"), pool.submit(vt.model, run, "MCSmooth", "MCSmoothT" if full else "MCSmooth")]
    bad, cs = [], []
    for s in fv.FVS:
        mhd, dim = s.startswith("MHD"), states.dim_of(s)
        for impl in problems.IMPL[s]:
            for riem in problems.RIEMANN["MHD" if mhd else "Hydro"]:
                for slope in (1.0, 2.0):
                    for grav in ([False] if mhd else [False, True]):
                        for rep in range(6 if full else 1):
                            cs.append(linear_case(run, rng, s, dim, mhd, riem, impl, slope, grav, len(cs)))
    for c in vt.run_cases(run, B["drv"], cs, 1, 1, 300, "smooth", 5):
        bad.append(dict(id=c.id, why="run did not complete rc=%s" % c.rc, detail=c.err, ini=c.ini))
    evs = [e for e in (smooth_event(c, rng, 3 if full else 2) for c in cs if c.ok) if e]
    sd = sdm_cases(run, rng, full)
    for k, x in sd.items():
        for c in vt.run_cases(run, B[k], x, 1, 1, 300, k, 4):
            bad.append(dict(id=c.id, why="run did not complete rc=%s" % c.rc, detail=c.err, ini=c.ini))
    sd = [c for x in sd.values() for c in x]
    ops = [sdm_event(c, rng) for c in sd if c.ok]
    fs = [pool.submit(vt.validate, run, "TraceSmooth", "TraceSmooth", evs[i::7], "smooth%d" % i, 800, canary=corrupt) for i in range(7)]
    res = [x for f in fs for x in f.result()] + poly.judge(run, ops, "ops", pool)
    for f in mc:
        f.result()
    ini = {c.id: c.ini for c in cs + sd}
    bad += [dict(id=i, why=str(w), ini=ini.get(i)) for i, w in res]
    run.samples = [dict(id=e["id"], cells=[c["at"] for c in e["cells"]]) for e in evs[:5]]
    return vt.finish(run, bad, t0, rule="one step from linear data is right up to the square of the variation per cell; on polynomial flows flux divergences and steps of the Runge-Kutta methods are exact", extra=dict(operators=len(ops), kinds=dict(Counter(c.meta["ev"] + " " + c.meta["shape"] for c in sd if c.ok)), runs=len(cs), smooth=len(evs)))
