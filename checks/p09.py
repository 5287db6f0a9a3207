"""P09: conservation of the domain totals"""
import random
from concurrent.futures import ThreadPoolExecutor
import vt, states, problems, fv


def walls(rng, dim):
    bc = []
    for a in range(3):
        bc += rng.choice([[1, 1], [1, 1], [3, 3]])
    if all(x == 3 for x in bc[:2 * dim]):
        bc[:2] = [1, 1]
    return bc


def check(run, t0):
    rng = random.Random(vt.SEED)
    pool = ThreadPoolExecutor(10)
    mc = pool.submit(vt.model, run, "FiniteVolume", "MCFiniteVolume")
    mc2 = pool.submit(vt.model, run, "Ct", "MCCt2")
    mc3 = pool.submit(vt.model, run, "Ct", "MCCt3")
    full = vt.THOROUGH
    G = fv.Gen(run, rng)
    cs, evs, bad = [], [], []
    steps = 30 if full else 6
    M2 = [(2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1), (1, 3, 1), (3, 2, 1)]
    M3 = [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 2), (1, 2, 2), (1, 1, 3)]

    def add(c, **kw):
        cs.append((c, kw))

    for s in fv.FVS:
        mhd = s.startswith("MHD")
        dim = states.dim_of(s)
        for impl in problems.IMPL[s]:
            for riem in problems.RIEMANN["MHD" if mhd else "Hydro"]:
                for rep in range(4 if full else 2):
                    kw = lambda: dict(riemann=riem, impl=impl, gamma=rng.choice([1.4, 1.6666]), slope=rng.choice([1.0, 2.0] + ([] if mhd else [0.0])))
                    st = lambda: dict(mach=rng.choice([0.3, 0.8, 2.0]))
                    lab = "%s_i%d" % (riem, impl)
                    add(G.case(s, 1, lab + "_per", kw=kw(), steps=steps, state=st()))
                    w = walls(rng, dim)
                    if mhd:
                        # a wall mirrors cells, so only fields that stay tangential to every wall close the domain
                        c0 = G.case(s, 1, lab + "_wall", kw=kw(), steps=steps, state=dict(mach=0.5, b=0.0), bc=w)
                        if dim == 2:
                            A = c0.meta["A"].copy()
                            A[..., 7] = 0.4
                            A[..., 1] += 0.08
                            c0.meta["A"] = A
                            states.write(run.path("in", c0.id + ".bin"), A)
                        add(c0, bn0=True)
                    else:
                        add(G.case(s, 1, lab + "_wall", kw=kw(), steps=steps, state=st(), bc=w))
                        add(G.case(s, 1, lab + "_grav", kw=kw(), steps=steps, state=st(), grav="rand"))
                    if rng.random() < 0.5 or full:
                        m = rng.choice(M3 if dim == 3 else M2)
                        add(G.case(s, 1, lab + "_perm", kw=kw(), steps=steps, state=st(), m=m))
        m = rng.choice(M3 if dim == 3 else M2)
        # listed findings
        if mhd:
            add(G.case(s, 1, "wallfield", steps=steps, bc=[1, 1] + [3] * 4))
        else:
            add(G.case(s, 1, "wallgrav", steps=steps, bc=[1] * 6, grav="rand"))
        if not mhd:
            add(G.case(s, 1, "wallm", steps=steps, bc=[1] * 6, m=m))
            add(G.case(s, 1, "gravm", steps=steps, grav="rand", m=m))
    for s, nd in fv.SDMS:
        dim = states.dim_of(s)
        for r, rk in enumerate(fv.RK):
            for l, lim in enumerate(fv.LIM):
                if not full and (r + l + nd + dim) % 2:
                    continue
                ex = dict(sdm=dict(rk, **lim))
                riem = ["llf", "hll", "hllc", "approx"][(r + l) % 4]
                kw = dict(riemann=riem, cfl=0.3)
                big = "positivity_enabled" in lim or "limiter_enabled" in lim
                st = dict(mach=0.3, rho=(0.7, 1.6), p=(0.8, 1.8))
                lab = "%s_rk%d_l%d" % (riem, r, l)
                add(G.case(s, nd, lab + "_per", kw=kw, extra=ex, steps=steps // 2, state=st, kind="rough" if big else "smooth"))
                add(G.case(s, nd, lab + "_wall", kw=kw, extra=ex, steps=steps // 2, state=st, kind="rough" if big else "smooth", bc=walls(rng, dim)))
                if (s, nd) in fv.SDMS_MPI and (l == r % 4 or full):
                    m = rng.choice(M3 if dim == 3 else M2)
                    add(G.case(s, nd, lab + "_perm", kw=kw, extra=ex, steps=steps // 2, state=st, kind="rough" if big else "smooth", m=m))
        add(G.case(s, nd, "viscper", kw=dict(riemann="llf", cfl=0.2), extra=dict(hydro=dict(mu=0.02)), steps=steps // 2, state=dict(mach=0.5),
                   kind="smooth"))
        add(G.case(s, nd, "visc", kw=dict(riemann="llf", cfl=0.2), extra=dict(hydro=dict(mu=0.02)), steps=steps // 2, state=dict(mach=0.5),
                   kind="smooth"), visc=True)
    fv.execute(run, [c for c, _ in cs], bad, pool)
    for c, kw in cs:
        if c.ok:
            evs.append(fv.ev_cons(c, **kw))
    byid = {c.id: c for c, _ in cs}
    for i, why in fv.judge(run, evs, "cons", pool):
        bad.append(dict(id=i, why=why, ini=byid[i].ini, cmds=byid[i].cmds))
    for m in (mc, mc2, mc3):
        m.result()
    run.samples = [dict(id=e["id"], drift=e["steps"][-1]) for e in evs[:5]]
    return vt.finish(run, bad, t0, rule="every finite-volume solver x variant x Riemann solver (periodic, walls, gravity, several processes) and "
                     "every spectral-difference degree x Runge-Kutta x limiter options (and viscosity): totals after each of %d steps" % steps,
                     extra=dict(runs=len(evs)))
