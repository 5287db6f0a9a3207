"""P10: the magnetic field stays divergence free"""
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, fv


def check(run, t0):
    rng = random.Random(vt.SEED)
    pool = ThreadPoolExecutor(10)
    mcs = [pool.submit(vt.model, run, "Ct", c) for c in ("MCCt2", "MCCt3")]
    full = vt.THOROUGH
    G = fv.Gen(run, rng)
    cs, bad = [], []
    steps = 25 if full else 5
    M2 = [(2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1), (1, 3, 1), (3, 2, 1)]
    M3 = [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 2), (1, 2, 2), (1, 1, 3)]

    def bcs(dim):
        bc = []
        for a in range(3):
            bc += rng.choice([[3, 3], [1, 1], [2, 2], [1, 2], [2, 1]])
        return bc

    for s in ("MHD_Muscl_2D", "MHD_Muscl_3D"):
        dim = states.dim_of(s)
        for impl in problems.IMPL[s]:
            for riem in problems.RIEMANN["MHD"]:
                for rep in range(4 if full else 2):
                    kw = lambda: dict(riemann=riem, impl=impl, gamma=rng.choice([1.4, 1.6666]), slope=rng.choice([1.0, 2.0]))
                    st = lambda: dict(mach=rng.choice([0.3, 1.0, 2.0]), b=rng.choice([0.3, 1.0]))
                    lab = "%s_i%d" % (riem, impl)
                    cs.append(G.case(s, 1, lab, kw=kw(), steps=steps, state=st()))
                    cs.append(G.case(s, 1, lab, kw=kw(), steps=steps, state=st(), bc=bcs(dim)))
                    cs.append(G.case(s, 1, lab, kw=kw(), steps=steps, state=st(), bc=rng.choice([[3] * 6, bcs(dim)]), m=rng.choice(M3 if dim == 3 else M2)))
        # built-in problems, from their own initial state
        for prob in problems.MHD:
            for rep in range(3 if full else 1):
                sec, mesh = problems.variants(prob, dim, True, rng)
                g = states.ghost(s)
                lo, hi = (g + 1, 8) if dim == 3 else (g + 1, 14)
                for m in [(1, 1, 1), rng.choice(M3 if dim == 3 else M2)]:
                    n = [rng.randrange(lo, hi) for _ in range(3)]
                    N = [n[a] * m[a] if a < dim or a < 2 else 1 for a in range(3)]
                    if dim == 2:
                        N[2] = 1
                    L = [mesh.get(x + "max", 1.0) - mesh.get(x + "min", 0.0) for x in "xyz"]
                    bc = [3] * 6
                    impl = rng.choice(problems.IMPL[s])
                    cid = "%s_%s_i%d_np%d%d%d_n%d-%d-%d_%d" % (s, prob, impl, *m, *N, rep)
                    ini = problems.ini(s, prob, n, bc, sections=sec, mesh=mesh, m=m, impl=impl, riemann=rng.choice(problems.RIEMANN["MHD"]),
                                       cfl=0.4, tend=100.0, nstepmax=1000, gamma=1.6666, slope=2.0)
                    c = vt.Case(cid, ini, ["params", "new", "dump s0", "step %d 1 s" % steps],
                                dict(s=s, nd=1, N=N, L=L, d=[L[a] / N[a] for a in range(3)], bc=bc[:2 * dim], dim=dim, m=m, np=m[0] * m[1] * m[2],
                                     grav=False, gamma=1.6666, steps=steps, prob=prob))
                    cs.append(c)
    fv.execute(run, cs, bad, pool, 2)
    evs = []
    for c in cs:
        if c.ok:
            p = c.meta.get("prob")
            if p in ("blast", "implode", "rotor", "kelvin_helmholtz", "wave"):
                c.meta["bc"] = c.meta["bc"][:]
            evs.append(fv.ev_div(c))
    byid = {c.id: c for c in cs}
    for i, why in fv.judge(run, evs, "div", pool, 6):
        bad.append(dict(id=i, why=why, ini=byid[i].ini, cmds=byid[i].cmds))
    for m in mcs:
        m.result()
    run.samples = [dict(id=e["id"], cells=e["size"], steps=len(e["steps"])) for e in evs[:5]]
    return vt.finish(run, bad, t0, rule="2D and 3D MHD x variants x Riemann solvers x boundaries x process grids from random divergence-free states, and every "
                     "built-in problem: divergence of every cell at every step", extra=dict(runs=len(evs)))
