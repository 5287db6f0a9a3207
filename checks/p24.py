"""P24: what viscosity adds to the flux divergence, for polynomial flows, against Operator.tla"""
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, poly, fv
from checks.p21 import digits

C0 = (0, 0, 0)
# exactly representable in single precision, in which the settings are read
MU = [1 / 1024, 1 / 64, 1 / 4, 2.0]
SHAPES = ["shear", "rich", "linear", "products", "uniform"]


def flow(shape, dim, n, rng):
    """degrees at most n - 1 for velocities and momenta"""
    n1 = n - 1
    vel = lambda deg, tot=None: poly.poly(rng, dim, deg, 0.25, rng.randrange(-32, 33) / 64, tot)
    r = {C0: rng.choice([1.0, 0.75, 2.5])}
    p = {C0: 50.0}
    if shape == "uniform":
        u = [vel(0) for _ in range(dim)]
    elif shape == "linear":
        u = [vel(min(1, n1), 1) for _ in range(dim)]
    elif shape == "shear":
        a, b = rng.sample(range(dim), 2)
        u = [{C0: rng.randrange(-16, 17) / 64} for _ in range(dim)]
        for k in range(1, n1 + 1):
            e = [0, 0, 0]
            e[b] = k
            u[a][tuple(e)] = rng.choice([-1, 1]) * rng.randrange(8, 65) / 256
    elif shape == "products":
        dv = rng.randrange(n1 + 1)
        u = [vel(dv) for _ in range(dim)]
        r = poly.poly(rng, dim, n1 - dv, 1 / 64, 3.0)
        p = poly.poly(rng, dim, n1, 1 / 16, 60.0)
    else:
        u = [vel(n1) for _ in range(dim)]
    return dict(r=r, p=p, u=u)


def total(m, d):
    """change of the totals when d, what viscosity adds, acts for a while (TraceFv event "cons")"""
    V = states.variables(m["s"])
    t, mag = fv.totals(d, V, m["nd"], m["dim"])
    sc = [max(mag[1:] + [mag[0], 1e-6])] * len(V)
    return dict(ev="cons", dim=m["dim"], bc=[3] * (2 * m["dim"]), grav=0, visc=0, bn0=1, vars=V, tol=3000, want=1,
                steps=[[int(vt.quant(t[v], sc[v], 1e-13)) for v in range(len(V))]])


def check(run, t0):
    rng = random.Random(vt.SEED)
    pool = ThreadPoolExecutor(8)
    full = vt.THOROUGH
    B = vt.build("drv_sdm", "drv_sdm_hi")
    mc = pool.submit(vt.model, run, "MCOperator", "MCOperatorT" if full else "MCOperator")
    bad, todo = [], {"drv_sdm": [], "drv_sdm_hi": []}
    num = 0
    for s, dim, n in poly.SOLVERS:
        for shape in SHAPES * (8 if full else 2) + ["rich", "products"] * (0 if full or (dim, n) == (3, 4) else 1):
            num += 1
            N = [rng.choice([5, 6]) if dim == 2 else 5 for _ in range(3)]
            if dim == 2:
                N[2] = 1
            h = [rng.choice([0.25, 0.375, 0.5, 0.1875]) for _ in range(3)]
            # the cells judged lie near the origin
            lo = [-(2 + rng.choice([0, 1, 0.5])) * x for x in h]
            gamma = rng.choice([1.5, 1.25, 2.0])
            fl = flow(shape, dim, n, rng)
            A = poly.state(fl, poly.points(N if dim == 3 else N[:2] + [1], n, dim, lo, h), dim, gamma)
            mu = rng.choice(MU)
            cid = "%s_%s_mu%g_%d" % (s, shape, mu, num)
            f = run.path("in", cid + ".bin")
            states.write(f, A)
            meta = dict(dim=dim, n=n, N=N, h=h, lo=lo, gamma=gamma, flow=fl, A=A, mu=mu, shape=shape)
            nv = (dim + 2) * n**dim
            bc = [2] * 6
            riem = rng.choice(["llf", "hll", "hllc", "approx"])
            mesh = {}
            for a, x in enumerate("xyz"):
                mesh[x + "min"], mesh[x + "max"] = lo[a], lo[a] + N[a] * h[a]
            k = poly.binary(dim, n)
            for tag, hy in (("0", dict(mu=0.0)), ("v", dict(mu=mu)), ("k", dict(mu=0.0, kappa=0.75)), ("vk", dict(mu=mu, kappa=0.75))):
                ini = problems.ini(s, "blast", N, bc, gamma=gamma, riemann=riem, mesh=mesh, extra=dict(hydro=hy))
                todo[k].append(vt.Case(cid + "_" + tag, ini, ["params", "new %d %d" % (dim, n), "set " + f, "bc", "fdiv 0.001", "dumpext d Uaux %d" % nv],
                                       dict(meta, tag=tag, cid=cid)))
    # any state, at rest and uniform near the border: the totals of mass, momenta and energy
    G = fv.Gen(run, rng)
    rough = {"drv_sdm": [], "drv_sdm_hi": []}
    for s, dim, n in poly.SOLVERS:
        for kind in ["rough", "smooth"] * (6 if full else 2):
            num += 1
            N = [9 if dim == 2 else 7 + (n < 3) for _ in range(3)]
            if dim == 2:
                N[2] = 1
            h = [rng.choice([0.25, 0.375, 0.1]) for _ in range(3)]
            g = np.random.default_rng(rng.randrange(1 << 30))
            A = states.sdm_state(s, N, n, h, g.integers(1 << 30), gamma=1.5, kind=kind)
            nf = n**dim
            edge = np.ones(A.shape[:3], bool)
            edge[(slice(3, -3) if dim == 3 else slice(None), slice(3, -3), slice(3, -3))] = False
            A[edge] = np.repeat([1.0, 2.0] + [0.0] * dim, nf)
            cid = "%s_total_%s_%d" % (s, kind, num)
            f = run.path("in", cid + ".bin")
            states.write(f, A)
            mu = rng.choice(MU)
            mesh = dict(xmax=N[0] * h[0], ymax=N[1] * h[1], zmax=N[2] * h[2])
            ini = problems.ini(s, "blast", N, [2] * 6, gamma=1.5, riemann="hllc", mesh=mesh, extra=dict(hydro=dict(mu=mu)))
            inv = problems.ini(s, "blast", N, [2] * 6, gamma=1.5, riemann="hllc", mesh=mesh, extra=dict(hydro=dict(mu=0.0)))
            nv = (dim + 2) * nf
            for t, i in (("v", ini), ("0", inv)):
                rough[poly.binary(dim, n)].append(vt.Case(cid + "_" + t, i, ["params", "new %d %d" % (dim, n), "set " + f, "bc", "fdiv 0.001", "dumpext d Uaux %d" % nv],
                                                          dict(s=s, nd=n, dim=dim, bc=[2] * 2 * dim, grav=False, steps=1, cid=cid, A=A, mu=mu, h=h)))
    for k in todo:
        todo[k] += rough[k]
    for k, cs in todo.items():
        for c in vt.run_cases(run, B[k], cs, 1, 1, 300, k, 4):
            bad.append(dict(id=c.id, why="run did not complete rc=%s" % c.rc, detail=c.err, ini=c.ini))
    groups = {}
    cons = []
    lone = {}
    for c in rough["drv_sdm"] + rough["drv_sdm_hi"]:
        lone.setdefault(c.meta["cid"], []).append(c)
    for cid, (v, i) in lone.items():
        if v.ok and i.ok:
            m = v.meta
            d = i.interior("d") - v.interior("d")
            cons.append(dict(total(m, d), id=cid))
    total_ini = {cid: v.ini for cid, (v, i) in lone.items()}
    for c in [c for k in todo for c in todo[k] if "tag" in c.meta]:
        groups.setdefault(c.meta["cid"], {})[c.meta["tag"]] = c
    evs, count, kappa = [], {}, 0
    for cid, g in groups.items():
        if not all(c.ok for c in g.values()):
            continue
        m = g["v"].meta
        dim, n, N, h = m["dim"], m["n"], m["N"], m["h"]
        D = {t: c.interior("d") for t, c in g.items()}
        for a, b in (("0", "k"), ("v", "vk")):
            kappa += 1
            nf = n**dim
            if not np.array_equal(D[a][..., :nf], D[b][..., :nf], equal_nan=True) or not np.array_equal(D[a][..., 2 * nf:], D[b][..., 2 * nf:], equal_nan=True):
                bad.append(dict(id=cid + "_kappa", why="conduction changes the fluxes of mass or momentum", ini=g[b].ini))
        inner = [(i, j, k) for i in range(2, N[0] - 2) for j in range(2, N[1] - 2) for k in (range(2, N[2] - 2) if dim == 3 else [0])]
        cells = rng.sample(inner, min(len(inner), 1 if n**dim > 30 else 2))
        # rounding: of the inviscid fluxes, and of the gradients
        hm = min(h[:dim])
        um = 2.0
        base = [float(np.abs(m["A"][..., v * n**dim:(v + 1) * n**dim]).max()) for v in range(dim + 2)]
        visc = m["mu"] * n**4 * um / hm**2
        scale = [1.0] + [max(1.0, visc * (um if v == 1 else 1), 1e-6 * n**2 * (base[1] + 60) * um / hm) for v in range(1, dim + 2)]
        evs.append(poly.event("viscous", cid, dim, n, m["flow"], m["lo"], h, m["gamma"], D["0"] - D["v"], cells, scale, mu=digits(m["mu"])))
        count[m["shape"]] = count.get(m["shape"], 0) + 1
    late = pool.submit(vt.validate, run, "TraceFv", "TraceFv", cons, "totals", 600, canary=fv.corrupt)
    res = poly.judge(run, evs, "visc", pool) + late.result()
    ini = dict(total_ini)
    ini.update({cid: g["v"].ini for cid, g in groups.items()})
    bad += [dict(id=i, why=str(w), ini=ini.get(i)) for i, w in res]
    mc.result()
    run.samples = [dict(id=e["id"], n=e["n"], dim=e["dim"], cells=[c["at"] for c in e["cells"]]) for e in evs[:5]]
    return vt.finish(run, bad, t0, rule="what viscosity adds to the flux divergence of a polynomial flow is the divergence of its viscous stress and of that stress's work; nothing is added to mass; conduction leaves mass and momentum alone",
                     extra=dict(flows=count, totals=len(cons), conduction_pairs=kappa, values=sum(len(e["cells"]) * e["n"]**e["dim"] * (e["dim"] + 2) for e in evs)))
