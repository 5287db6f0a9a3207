"""P01: results do not depend on the process decomposition"""
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, replica, fv
from p03 import grids

SOLVERS = ["Hydro_Muscl_2D", "Hydro_Muscl_3D", "MHD_Muscl_2D", "MHD_Muscl_3D"]
SDM2D = ["sod", "implode", "blast", "four_quadrant", "kelvin_helmholtz", "gresho_vortex", "wedge", "jet", "isentropic_vortex", "shu_osher"]
SDM3D = ["implode", "blast", "jet", "sod"]


def check(run, t0):
    rng = random.Random(vt.SEED)
    b = vt.build("drv", "drv_mpi", "drv_sdm", "drv_sdm_mpi")
    pool = ThreadPoolExecutor(7)
    mc = pool.submit(vt.model, run, "Replica", "MCReplica")
    full = vt.THOROUGH
    bad = []
    nps = [1, 2, 3, 4, 6, 8] + ([5, 7, 12] if full else [])
    reps = {np_: [] for np_ in nps}
    refs = []
    pairs = []
    count = 0
    seen = set()

    def add(s, np_, m, prob, sections, mesh, bc, riem, impl, kind, gx=None):
        nonlocal count
        dim = states.dim_of(s)
        g = states.ghost(s)
        # local sizes: small, non-cubic, sometimes at the minimum (ghost width)
        hi = 3 if dim == 3 else 5
        n = [max(g, 2) + rng.randrange(hi), max(g, 2) + rng.randrange(hi), max(g, 2) + rng.randrange(hi) if dim == 3 else 1]
        for a in range(dim):
            if m[a] == 1:
                n[a] += rng.randrange(2, 5 if dim == 3 else 9)
        N = [n[a] * m[a] for a in range(3)]
        count += 1
        cid = "%s_%s_i%d_%s_np%d_%d%d%d_n%d-%d-%d_bc%s_%d" % (s, prob if kind == "problem" else kind, impl, riem, np_, *m, *n,
                                                        "".join(map(str, bc[:2 * dim])), count)
        kw = dict(sections=sections, mesh=mesh, riemann=riem, impl=impl, gamma=rng.choice([1.4, 1.6666]), slope=rng.choice([1.0, 2.0]),
                  cfl=0.4, tend=100.0, nstepmax=10)
        steps = 4
        cmds = ["params", "new"]
        if kind != "problem":
            L = [kw["mesh"].get(x + "max", 1.0) - kw["mesh"].get(x + "min", 0.0) for x in "xyz"]
            d = [L[a] / N[a] for a in range(3)]
            f = run.path("in", "%d.bin" % count)
            states.write(f, states.state(s, N, d, vt.SEED * 1000 + count, gamma=kw["gamma"], kind=kind, mach=0.8))
            cmds.append("set " + f)
            if "gravity" in sections:
                gf = run.path("in", "g%d.bin" % count)
                r = np.random.default_rng(count)
                states.write(gf, r.uniform(-1, 1, (N[2] if dim == 3 else 1, N[1], N[0], dim)))
                cmds.append("gravity " + gf)
        cmds += ["state", "dump s0"] + ["step %d 0" % (steps - 1), "step 1 1 s"] if False else ["state", "dump s0", "step 1 1 s", "step %d %d s" % (steps - 1, steps - 1)]
        ref = vt.Case("ref_" + cid, problems.ini(s, prob, N, bc, **kw), cmds)
        rep = vt.Case(cid, problems.ini(s, prob, n, bc, m=m, **kw), cmds)
        refs.append(ref)
        reps[np_].append(rep)
        pairs.append((s, ref, rep))

    def randbc(dim):
        bc = []
        for a in range(3):
            bc += [3, 3] if rng.random() < 0.35 else [rng.choice([1, 2]), rng.choice([1, 2])]
        return bc

    for s in SOLVERS:
        dim = states.dim_of(s)
        mhd = s.startswith("MHD")
        R = problems.RIEMANN["MHD" if mhd else "Hydro"]
        work = []
        for prob in problems.of(s):
            for impl in problems.IMPL[s]:
                work.append((prob, impl, "problem"))
        for impl in problems.IMPL[s]:
            for riem in R:
                for kind in ["rough", "smooth"] if full else ["rough"]:
                    work.append((("rising_bubble" if not mhd and riem in ("hllc", "llf") else "blast"), impl, kind, riem))
        k = 0
        for w in work:
            prob, impl, kind = w[:3]
            for rep in range(6 if full else 2):
                np_ = nps[1:][k % (len(nps) - 1)] if rep or k % 5 else 1
                k += 1
                gs = list(grids(np_, dim))
                if dim == 3 and np_ > 2:
                    g2 = [m for m in gs if max(m) < np_]
                    if g2 and rng.random() < 0.75:
                        gs = g2
                m = rng.choice(gs)
                sec, mesh = problems.variants(prob, dim, mhd, rng)
                add(s, np_, m, prob, sec, mesh, randbc(dim), w[3] if len(w) > 3 else rng.choice(R), impl, kind)
    # spectral-difference solvers
    srefs, sreps = [], {np_: [] for np_ in nps}

    def sdm(s, nd, np_, prob, bc, kind, opt, visc, riem):
        nonlocal count
        dim = states.dim_of(s)
        m = rng.choice([x for x in grids(np_, dim) if max(x) < max(np_, 3) or np_ <= 3])
        n = [rng.randrange(1, 4) if m[a] > 1 else rng.randrange(2, 6) for a in range(3)]
        if dim == 2:
            n[2] = 1
        N = [n[a] * m[a] for a in range(3)]
        count += 1
        sections, mesh = problems.variants(prob, dim, False, rng)
        if prob == "jet":
            sections = dict(jet=dict(u_jet=1.5, pos_jet=rng.choice([0.0, 0.4]), width_jet=0.23, p_jet=1.1, rho_jet=1.6, p_bulk=0.7, rho_bulk=1.1))
        extra = dict(sdm=opt)
        if visc:
            extra["hydro"] = dict(mu=0.01)
        kw = dict(sections=sections, mesh=mesh, riemann=riem, gamma=rng.choice([1.4, 1.6666]), slope=0.0, cfl=0.3, tend=100.0, nstepmax=10, extra=extra)
        cid = "%s_%s%s_np%d_%d%d%d_n%d-%d-%d_bc%s_%d" % (s, kind or prob, "_viscous" if visc else "", np_, *m, *n, "".join(map(str, bc[:2 * dim])), count)
        cmds = ["params", "new %d %d" % (dim, nd)]
        if kind:
            f = run.path("in", "%d.bin" % count)
            states.write(f, states.sdm_state(s, N, nd, [1.0 / N[a] for a in range(3)], vt.SEED * 1000 + count, gamma=kw["gamma"], kind=kind, mach=0.4))
            cmds.append("set " + f)
        cmds += ["state", "dump s0", "step 1 1 s", "step 3 3 s"]
        ref = vt.Case("ref_" + cid, problems.ini(s, prob, N, bc, **kw), cmds, dict(nd=nd))
        rep = vt.Case(cid, problems.ini(s, prob, n, bc, m=m, **kw), cmds, dict(nd=nd))
        srefs.append(ref)
        sreps[np_].append(rep)
        pairs.append((s, ref, rep))

    for s, nd in fv.SDMS_MPI:
        dim = states.dim_of(s)
        k = 0
        for prob in SDM2D if dim == 2 else SDM3D:
            for rep in range(4 if full else 1):
                k += 1
                bc = [2, 2, 1, 1, 2, 1] if prob in ("wedge", "jet") else randbc(dim)
                sdm(s, nd, nps[1:][k % (len(nps) - 1)], prob, bc, "", dict(rng.choice(fv.RK), **dict(fv.LIM[k % 5], positivity_enabled="true" if prob == "implode" or k % 5 > 2 else "false")), False, rng.choice(problems.RIEMANN["Hydro"]))
        for r, rk in enumerate(fv.RK):
            for l, lim in enumerate(fv.LIM):
                if not full and (r + l + nd + dim) % 2:
                    continue
                k += 1
                sdm(s, nd, nps[1:][k % (len(nps) - 1)], "blast", randbc(dim), "rough", dict(rk, **lim), False, problems.RIEMANN["Hydro"][(k + l) % 4])
        sdm(s, nd, 4, "blast", [3] * 6, "smooth", {}, True, "hllc")
    jobs = [pool.submit(vt.run_cases, run, b["drv"], refs, 1, 1, 240, "ref", 2), pool.submit(vt.run_cases, run, b["drv_sdm"], srefs, 1, 1, 240, "sref", 2)]
    jobs.append(pool.submit(lambda: [x for np_ in nps for k, rs in (("drv_mpi", reps), ("drv_sdm_mpi", sreps))
                                     for x in vt.run_cases(run, b[k], rs[np_], np_=np_, name="%snp%d" % (k, np_))]))
    for j in jobs:
        for c in j.result():
            bad.append(dict(id=c.id, why="run did not complete rc=%s" % c.rc, detail=c.err, ini=c.ini))
    groups = []
    byid = {}
    for s, ref, rep in pairs:
        if not (ref.ok and rep.ok):
            continue
        R = replica.Ref(ref, s, nd=ref.meta.get("nd", 1))
        groups.append([R.event(), R.replica(rep)])
        byid[rep.id] = rep
    res, n = replica.judge(run, groups, "dec", pool=pool)
    for i, why in res:
        bad.append(dict(id=i, why=why, ini=byid[i].ini, cmds=byid[i].cmds))
    mc.result()
    run.samples = [dict(id=e["id"], pieces=e["pieces"]) for g in groups[:4] for e in g[1:]]
    return vt.finish(run, bad, t0, rule="all finite-volume solvers x variants x problems (and random states x Riemann solvers), spectral-difference solvers x problems "
                     "(wedge and jet boundaries included), Runge-Kutta methods and limiters, process "
                     "grids of %s processes, random boundary combinations, 4 steps" % nps, extra=dict(pairs=len(groups), values_compared=n))
