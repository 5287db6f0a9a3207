"""P12: a uniform state stays uniform"""
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, fv

M2 = [(2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1), (1, 3, 1), (3, 2, 1)]
M3 = [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 2), (1, 2, 2), (1, 1, 3)]


def uniform(s, N, nd, rng, gamma):
    dim = states.dim_of(s)
    r, p = rng.choice([1.0, 0.3, 7.0]), rng.choice([1.0, 0.05, 20.0])
    m = rng.choice([0.0, 0.4, 3.0])
    c = (gamma * p / r) ** 0.5
    nv = 3 if dim == 3 or s.startswith("MHD") else 2
    u = [m * c * rng.uniform(-1, 1) for _ in range(nv)]
    q = [r, p / (gamma - 1) + 0.5 * r * sum(x * x for x in u)] + [r * x for x in u]
    if s.startswith("MHD"):
        b = [p ** 0.5 * rng.choice([0.0, 0.3, 1.5, -1.0]) for _ in range(3)]
        q[1] += 0.5 * sum(x * x for x in b)
        q += b
    nf = nd ** dim
    A = np.empty((N[2] if dim == 3 else 1, N[1], N[0], len(q) * nf))
    for v, x in enumerate(q):
        A[..., v * nf:(v + 1) * nf] = x
    return A


def check(run, t0):
    rng = random.Random(vt.SEED)
    pool = ThreadPoolExecutor(10)
    mc = pool.submit(vt.model, run, "FiniteVolume", "MCFiniteVolume")
    full = vt.THOROUGH
    G = fv.Gen(run, rng)
    cs, bad = [], []
    steps = 60 if full else 12

    def add(s, nd, lab, kw, extra=None, m=(1, 1, 1)):
        dim = states.dim_of(s)
        g = states.ghost(s)
        n = [rng.randrange(max(g, 2), max(g, 2) + 4) for _ in range(3)]
        N = [n[a] * m[a] for a in range(3)]
        if dim == 2:
            N[2] = 1
        bc = []
        for a in range(3):
            bc += rng.choice([[3, 3], [2, 2]])
        kw = dict(kw, gamma=rng.choice([1.4, 1.6666]))
        gm = float(np.float32(kw["gamma"]))
        A = uniform(s, N, nd, rng, gm)
        L = [rng.choice([1.0, 0.1, 3.0]) for _ in range(3)]
        cs.append(G.case(s, nd, lab, N=N, L=L, bc=bc, A=A, m=m, steps=steps, every=max(1, steps // 4), kw=kw, extra=extra))

    for s in fv.FVS:
        mhd = s.startswith("MHD")
        dim = states.dim_of(s)
        for impl in problems.IMPL[s]:
            for riem in problems.RIEMANN["MHD" if mhd else "Hydro"]:
                for slope in [1.0, 2.0] + ([] if mhd else [0.0]):
                    for rep in range(8 if full else 4):
                        add(s, 1, "%s_i%d_sl%g" % (riem, impl, slope), dict(riemann=riem, impl=impl, slope=slope))
                add(s, 1, "%s_i%d_m" % (riem, impl), dict(riemann=riem, impl=impl, slope=2.0), m=rng.choice(M3 if dim == 3 else M2))
    for s, nd in fv.SDMS:
        dim = states.dim_of(s)
        for r, rk in enumerate(fv.RK):
            for l, lim in enumerate(fv.LIM + [None]):
                if not full and (r + l + nd + dim) % 2:
                    continue
                ex = dict(sdm=dict(rk, **(lim or {})))
                if lim is None:
                    ex["hydro"] = dict(mu=0.0002)  # the step limit ignores viscosity
                for rep in range(4 if full else 2):
                    riem = ["llf", "hll", "hllc", "approx"][(r + l + rep) % 4]
                    add(s, nd, "%s_rk%d_l%d" % (riem, r, l), dict(riemann=riem, cfl=0.3), ex)
                    if (s, nd) in fv.SDMS_MPI and l == r % 4:
                        add(s, nd, "%s_rk%d_l%d_m" % (riem, r, l), dict(riemann=riem, cfl=0.3), ex, m=rng.choice(M3 if dim == 3 else M2))
    fv.execute(run, cs, bad, pool)
    evs = [fv.ev_uni(c) for c in cs if c.ok]
    byid = {c.id: c for c in cs}
    for i, why in fv.judge(run, evs, "uni", pool):
        bad.append(dict(id=i, why=why, ini=byid[i].ini, cmds=byid[i].cmds))
    mc.result()
    run.samples = [dict(id=e["id"], deviation=e["steps"][-1]) for e in evs[:5]]
    return vt.finish(run, bad, t0, rule="uniform states (rest, subsonic, supersonic, strong field) in every solver x variant x Riemann solver x slope type "
                     "and every spectral-difference degree x option set, periodic and outflow, elongated cells, several processes, %d steps" % steps,
                     extra=dict(runs=len(evs)))
