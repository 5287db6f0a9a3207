"""P14: results do not depend on thread count or scheduling"""
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, fv, replica


def check(run, t0):
    rng = random.Random(vt.SEED)
    full = vt.THOROUGH
    pool = ThreadPoolExecutor(8)
    mcs = [pool.submit(vt.model, run, s, c) for s, c in
           (("MCSchedule", "MCSchedule2"), ("MCSchedule", "MCSchedule3"), ("Reduction", "MCReduction"))]
    b = vt.build("drv_sched", "drv_sched_mpi", "drv_sched_sdm")
    G = fv.Gen(run, rng)
    bad = []

    def mixed(dim):
        bc = []
        for a in range(3):
            bc += rng.choice([[3, 3], [1, 2], [2, 1], [1, 1]])
        return bc

    # ---------------------------------------------------------------- loop experiments
    race = []

    def experiment(c, steps):
        i = c.cmds.index("params")
        c.cmds = ["sched 2 0 1"] + [x for x in c.cmds if not x.startswith(("dump", "step"))] + ["step %d 0 s" % steps, "schedreport " + c.id]
        race.append(c)

    for s in fv.FVS:
        dim, g = states.dim_of(s), states.ghost(s)
        for impl in problems.IMPL[s]:
            for rep in range(3 if full else 1):
                for riem in (problems.RIEMANN[s.split("_")[0]] if full else [problems.RIEMANN[s.split("_")[0]][-1]]):
                    n = [g + rng.randrange(2) for _ in range(3)] if dim == 3 else [g + 1 + rng.randrange(3) for _ in range(3)]
                    bc = rng.choice([[3] * 6, mixed(dim)])
                    hy = s.startswith("Hydro")
                    experiment(G.case(s, 1, "race_%s_i%d" % (riem, impl), N=n, bc=mixed(dim), every=0, kw=dict(riemann=riem, impl=impl),
                                      grav="random" if hy else None), 2)
                    experiment(G.case(s, 1, "race_%s_i%d" % (riem, impl), N=n, bc=[3] * 6, every=0, kw=dict(riemann=riem, impl=impl)), 2)
        # process boundaries
        m = rng.choice([(2, 1, 1), (1, 2, 1)] + ([(1, 1, 2)] if dim == 3 else []))
        experiment(G.case(s, 1, "race", N=[(g + (dim == 2)) * m[a] for a in range(3)], m=m, bc=mixed(dim), every=0), 2)
        # initial states
        for prob in problems.of(s):
            sec, mesh = problems.variants(prob, dim, not s.startswith("Hydro"), rng)
            if prob == "kelvin_helmholtz" and s.startswith("Hydro"):
                sec["KH"].update(perturbation_sine=False, perturbation_sine_robertson=True)
            n = [g + 1, g, g] if dim == 3 else [g + 3, g + 2, 1]
            ini = problems.ini(s, prob, n, [3] * 6, sections=sec, mesh=mesh, cfl=0.4, tend=100.0, nstepmax=10)
            c = vt.Case("%s_race_init_%s" % (s, prob), ini, ["params", "new"], dict(s=s, nd=1, np=1))
            experiment(c, 0)
    for s, nd in (("Hydro_SDM_2D_degree2", 2), ("Hydro_SDM_2D_degree3", 3), ("Hydro_SDM_3D_degree2", 2)):
        dim = states.dim_of(s)
        for k, (lim, visc) in enumerate([(l, v) for l in fv.LIM for v in (0, 1)] if full else [(fv.LIM[-1], 0), (fv.LIM[2], 1)]):
            kw = {}
            ex = dict(sdm=dict(lim, **rng.choice(fv.RK[1:])))
            if visc:
                ex["hydro"] = dict(mu=0.002)
            n = [3, 2, 2] if dim == 3 else [4, 3, 1]
            experiment(G.case(s, nd, "race_l%d_v%d" % (k, visc), N=n, bc=rng.choice([[3] * 6, mixed(dim)]), every=0, extra=ex), 1)
        for prob in (["sod", "implode", "blast", "four_quadrant", "kelvin_helmholtz", "gresho_vortex", "wedge", "jet", "isentropic_vortex", "shu_osher"]
                     if dim == 2 else ["implode", "blast", "jet", "sod"]):
            sec, mesh = problems.variants(prob, dim, False, rng) if prob in problems.HYDRO2D else ({}, {})
            if prob == "kelvin_helmholtz":
                sec["KH"].update(perturbation_sine=False, perturbation_sine_robertson=True)
            bc = [2, 2, 1, 1, 2, 2]
            ini = problems.ini(s, prob, [4, 3, 2], bc, sections=sec, mesh=mesh, cfl=0.2, tend=100.0, nstepmax=10)
            c = vt.Case("%s_race_init_%s" % (s, prob), ini, ["params", "new %d %d" % (dim, nd)], dict(s=s, nd=nd, np=1))
            experiment(c, 1 if prob in ("wedge", "jet") else 0)
    # wedge boundaries of the finite-volume solver
    ini = problems.ini("Hydro_Muscl_2D", "wedge", [6, 5, 1], [2, 2, 1, 1, 1, 1], cfl=0.4, tend=100.0, nstepmax=10)
    experiment(vt.Case("Hydro_Muscl_2D_race_init_wedge", ini, ["params", "new"], dict(s="Hydro_Muscl_2D", nd=1, np=1)), 2)

    # ---------------------------------------------------------------- whole runs
    twins = []      # (reference, variant) with identical results expected bit for bit
    near = []       # rounding differences allowed: contributions added atomically
    steps = 8 if full else 4

    def whole(kw, orders, nthreads, big):
        ref = None
        base = G.n
        for o in [("o", 0)] + [("o", k) for k in orders] + [("t", k) for k in nthreads]:
            st = rng.getstate()
            G.n = base
            c = G.case(every=0, **kw)
            rng.setstate(st)
            mode = "sched 1 %d %d" % (o[1], vt.SEED + base) if o[0] == "o" else "sched 0 0 0"
            c.cmds = [mode] + [x for x in c.cmds if not x.startswith(("dump", "step"))] + ["hash h0", "dump s0", "state"]
            for k in range(steps):
                c.cmds += ["step 1 0 s", "hash h%d" % (k + 1)]
            c.cmds.append("dump s%d" % steps)
            c.id += "_%s%d" % o
            c.meta["th"] = o[1] if o[0] == "t" else 1
            if ref is None:
                ref = c
                whole.refs.append(c)
            else:
                twins.append((ref, c))
        G.n = base + 1
        rng.random()
    whole.refs = []
    conf = []
    for s in fv.FVS:
        dim, g = states.dim_of(s), states.ghost(s)
        for impl in problems.IMPL[s]:
            hy = s.startswith("Hydro")
            n = [7 + rng.randrange(5) for _ in range(3)] if dim == 3 else [14 + rng.randrange(14) for _ in range(3)]
            for rep in range(3 if full else 1):
                for bc in ([3] * 6, mixed(dim)):
                    conf.append(dict(s=s, nd=1, label="run_i%d" % impl, N=n, bc=bc, grav="random" if hy and rep == 0 and bc != [3] * 6 else None,
                                     kw=dict(riemann=rng.choice(problems.RIEMANN[s.split("_")[0]]), impl=impl)))
        m = rng.choice([(2, 2, 1), (1, 2, 1)] + ([(1, 2, 2)] if dim == 3 else []))
        conf.append(dict(s=s, nd=1, label="run", m=m, bc=mixed(dim)))
    for s, nd in (("Hydro_SDM_2D_degree2", 2), ("Hydro_SDM_2D_degree3", 3), ("Hydro_SDM_3D_degree2", 2)):
        for k, lim in enumerate(fv.LIM):
            n = [5, 4, 3] if states.dim_of(s) == 3 else [9, 7, 1]
            conf.append(dict(s=s, nd=nd, label="run_l%d" % k, N=n, bc=rng.choice([[3] * 6, mixed(2)]),
                             extra=dict(sdm=dict(lim, **rng.choice(fv.RK)), hydro=dict(mu=rng.choice([0.0, 0.001])))))
    for kw in conf:
        whole(kw, [1, 2, 3], [2, 3, 8] if not full else [1, 2, 3, 4, 5, 6, 8, 8, 8], False)

    # ---------------------------------------------------------------- run everything
    allc = race + whole.refs + [c for _, c in twins]
    sel = {}
    for c in allc:
        k = "drv_sched_sdm" if "SDM" in c.meta["s"] else ("drv_sched_mpi" if c.meta["np"] > 1 else "drv_sched")
        sel.setdefault((k, c.meta["np"], c.meta.get("th", 1)), []).append(c)

    def go(k, n, th, cs, ch):
        return [x for x in vt.run_cases(run, b[k], cs, n, th, 600, "%s_np%d_t%d" % (k, n, th), ch)]
    jobs = [pool.submit(go, k, n, th, cs, 6 if k == "drv_sched" and th == 1 else 3 if th == 1 else 1) for (k, n, th), cs in sel.items() if n == 1]
    jobs.append(pool.submit(lambda: [x for (k, n, th), cs in sel.items() if n > 1 for x in go(k, n, th, cs, 1)]))
    for j in jobs:
        for c in j.result():
            bad.append(dict(id=c.id, why="run did not complete rc=%s" % c.rc, detail=c.err, ini=c.ini))

    # ---------------------------------------------------------------- judge
    evs, atomic, nl = [], set(), {}
    for c in race:
        if not c.ok:
            continue
        for r in range(c.meta["np"]):
            for e in c.ev[r]:
                if e["ev"] in ("loop", "reduce"):
                    e = dict(e)
                    e["id"] = "%s/%s" % (c.id, e["loop"])
                    if e["ev"] == "loop":
                        nl[e["loop"]] = nl.get(e["loop"], 0) + e["n"] * e["runs"]
                        if e["adds"]:
                            atomic.add((c.meta["s"], c.meta.get("kw", {}).get("impl", 0)))
                    evs.append(e)
    groups = []
    for ref, c in twins:
        if not (ref.ok and c.ok):
            continue
        if (c.meta["s"], c.meta["kw"].get("impl", 0)) in atomic:
            R = replica.Ref(ref, c.meta["s"])
            groups.append([R.event(), R.replica(c, tol=20)])
        else:
            H = lambda x: [[e["it"], e["t"], e["dt"], e["h"]] for r in range(len(x.ev)) for e in x.events("hash", r)]
            evs.append(dict(ev="twin", id=c.id, ref=H(ref), run=H(c)))

    def corrupt(e):
        if e["ev"] == "loop":
            e["shared"] = [dict(reg="x", off=0, by=[dict(it=0, k="w", v=0), dict(it=1, k="a", v=0)])]
        elif e["ev"] == "twin":
            e["run"][-1][3] = "0"
        else:
            e["result"] += 1
    K = 6
    fs = [pool.submit(vt.validate, run, "TraceSchedule", "TraceSchedule", evs[i::K], "sch%d" % i, 600, canary=corrupt) for i in range(K)]
    g2 = pool.submit(replica.judge, run, groups, "near", 4, ThreadPoolExecutor(4))
    rej = [x for f in fs for x in f.result()] + g2.result()[0]
    byid = {c.id: c for c in allc}
    for i, why in rej:
        c = byid[i.split("/")[0]]
        bad.append(dict(id=i, why=why, ini=c.ini, cmds=c.cmds))
    for m in mcs:
        m.result()
    run.samples = [dict(loop=k, iterations=v) for k, v in sorted(nl.items(), key=lambda x: -x[1])[:5]]
    return vt.finish(run, bad, t0, rule="every parallel loop of every solver, variant, limiter, boundary and initial state: each iteration alone before and after "
                     "all others; whole runs in 4 orders and on 1..8 threads", extra=dict(loops=len(nl), iterations=sum(nl.values()), whole_runs=len(twins)))
