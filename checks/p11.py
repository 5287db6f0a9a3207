"""P11: implementation variants of a scheme compute the same solution"""
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, replica

SOLVERS = ["Hydro_Muscl_2D", "Hydro_Muscl_3D", "MHD_Muscl_2D", "MHD_Muscl_3D"]


def check(run, t0):
    rng = random.Random(vt.SEED)
    b = vt.build("drv")
    pool = ThreadPoolExecutor(7)
    mc = pool.submit(vt.model, run, "Replica", "MCReplica")
    full = vt.THOROUGH
    bad, fam = [], []
    count = 0

    def add(s, prob, sections, mesh, bc, riem, kind, slope, mach=0.8):
        nonlocal count
        dim = states.dim_of(s)
        g = states.ghost(s)
        lo, hi = (g, 9) if dim == 3 else (g, 17)
        N = [rng.randrange(lo + 1, hi), rng.randrange(lo + 1, hi), rng.randrange(lo + 1, hi) if dim == 3 else 1]
        count += 1
        kw = dict(sections=sections, mesh=mesh, riemann=riem, gamma=rng.choice([1.4, 1.6666]), slope=slope, cfl=0.4, tend=100.0,
                  nstepmax=10)
        steps = 6 if full else 4
        cmds = ["params", "new"]
        if kind != "problem":
            L = [mesh.get(x + "max", 1.0) - mesh.get(x + "min", 0.0) for x in "xyz"]
            d = [L[a] / N[a] for a in range(3)]
            f = run.path("in", "%d.bin" % count)
            states.write(f, states.state(s, N, d, vt.SEED * 1000 + count, gamma=kw["gamma"], kind=kind, mach=mach))
            cmds.append("set " + f)
            if "gravity" in sections:
                gf = run.path("in", "g%d.bin" % count)
                r = np.random.default_rng(count)
                states.write(gf, r.uniform(-1, 1, (N[2] if dim == 3 else 1, N[1], N[0], dim)))
                cmds.append("gravity " + gf)
        cmds += ["state", "dump s0", "step 1 1 s", "step %d %d s" % (steps - 1, steps - 1)]
        cs = []
        for impl in problems.IMPL[s]:
            cid = "%s_%s_%s_sl%g%s_n%d-%d-%d_bc%s_%d_i%d" % (s, prob if kind == "problem" else kind, riem, slope,
                                                           "_g" if "gravity" in sections else "", *N, "".join(map(str, bc[:2 * dim])), count, impl)
            cs.append(vt.Case(cid, problems.ini(s, prob, N, bc, impl=impl, **kw), cmds))
        fam.append((s, cs))

    def randbc(dim):
        bc = []
        for a in range(3):
            bc += [3, 3] if rng.random() < 0.4 else [rng.choice([1, 2]), rng.choice([1, 2])]
        return bc

    for s in SOLVERS:
        dim = states.dim_of(s)
        mhd = s.startswith("MHD")
        R = problems.RIEMANN["MHD" if mhd else "Hydro"]
        for prob in problems.of(s):
            for rep in range(3 if full else 2):
                sec, mesh = problems.variants(prob, dim, mhd, rng)
                add(s, prob, sec, mesh, randbc(dim), rng.choice(R), "problem", rng.choice([1.0, 2.0]))
        for riem in R:
            for slope in [1.0, 2.0] + ([] if mhd else [0.0]):
                for grav in [False] if mhd else [False, True]:
                    for kind in ["rough", "smooth"] if full else ["rough"]:
                        prob = "rising_bubble" if grav else "blast"
                        sec, mesh = problems.variants(prob, dim, mhd, rng)
                        # cells of any aspect ratio
                        mesh = dict(mesh, xmax=rng.choice([1.0, 2.0]), ymax=rng.choice([0.7, 1.0]), zmax=rng.choice([1.0, 1.5]))
                        add(s, prob, sec, mesh, randbc(dim), riem, kind, slope, mach=rng.choice([0.3, 0.8, 2.5]))
    allc = [c for _, cs in fam for c in cs]
    for c in vt.run_cases(run, b["drv"], allc, 1, 1, 300, "var", 7):
        bad.append(dict(id=c.id, why="run did not complete rc=%s" % c.rc, detail=c.err, ini=c.ini))
    groups, byid = [], {}
    for s, cs in fam:
        if not cs[0].ok:
            continue
        R = replica.Ref(cs[0], s)
        g = [R.event()]
        for c in cs[1:]:
            if c.ok:
                g.append(R.replica(c))
                byid[c.id] = c
        groups.append(g)
    res, n = replica.judge(run, groups, "var", pool=pool)
    for i, why in res:
        bad.append(dict(id=i, why=why, ini=byid[i].ini, cmds=byid[i].cmds))
    mc.result()
    run.samples = [dict(id=e["id"]) for g in groups[:5] for e in g[1:]]
    return vt.finish(run, bad, t0, rule="all finite-volume solvers: every variant against variant 0, every built-in problem and random states x "
                     "Riemann solvers x slope types x gravity, random sizes, aspect ratios and boundaries, 4 steps",
                     extra=dict(families=len(groups), values_compared=n))
