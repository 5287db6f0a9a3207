"""P13: the schemes treat directions and orientation alike"""
import itertools
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, replica

FV = [("Hydro_Muscl_2D", 1), ("Hydro_Muscl_3D", 1), ("MHD_Muscl_2D", 1), ("MHD_Muscl_3D", 1)]
SDM = [("Hydro_SDM_2D_degree%d" % n, n) for n in (2, 3, 4)] + [("Hydro_SDM_3D_degree%d" % n, n) for n in (2, 3)]
GV = lambda dim: [dict(g=3, ax=a, st=0) for a in range(1, dim + 1)]
SDMOPT = [dict(), dict(limiter_enabled="true", M_TVB=0.0), dict(limiter_enabled="true", M_TVB=0.25),
          dict(positivity_enabled="true", limiter_enabled="true", M_TVB=0.0, ssprk3="true", forward_euler="false"),
          dict(ssprk2="true", forward_euler="false"), dict(mu=0.02)]


def check(run, t0):
    rng = random.Random(vt.SEED)
    b = vt.build("drv", "drv_sdm")
    pool = ThreadPoolExecutor(7)
    mc = pool.submit(vt.model, run, "MCRelation", "MCRelation")
    full = vt.THOROUGH
    bad, fam = [], []
    count = 0

    def make(s, nd, N, L, bc, kw, A, grav, cid, steps):
        """case of solver s with initial array A"""
        f = run.path("in", cid + ".bin")
        states.write(f, A)
        cmds = ["params", "new %d %d" % (states.dim_of(s), nd) if nd > 1 else "new", "set " + f]
        sec = {}
        if grav is not None:
            sec = {"gravity": dict(static="true")}
            gf = run.path("in", "g_" + cid + ".bin")
            states.write(gf, grav)
            cmds.append("gravity " + gf)
        cmds += ["dump s0", "step 1 1 s", "step %d %d s" % (steps - 1, steps - 1)]
        kw = dict(kw)
        extra = kw.pop("sdm", None)
        mesh = {"xmax": L[0], "ymax": L[1], "zmax": L[2]}
        prob = "rising_bubble" if grav is not None else "blast"
        ini = problems.ini(s, prob, N, bc, sections=sec, mesh=mesh, extra=extra, **kw)
        return vt.Case(cid, ini, cmds, dict(nd=nd))

    def family(s, nd, kw, grav, kind, rels, label, steps=4, mach=0.8, extrude=None, inplane=False, pper=None):
        nonlocal count
        dim = states.dim_of(s)
        sdm = "SDM" in s
        mhd = s.startswith("MHD")
        count += 1
        g = states.ghost(s)
        if sdm:
            N = [rng.randrange(3, 6) for _ in range(3)]
        else:
            lo, hi = (g + 1, 8) if dim == 3 else (g + 1, 13)
            N = [rng.randrange(lo, hi) for _ in range(3)]
        if dim == 2:
            N[2] = 1
        L = [rng.choice([1.0, 0.7, 1.6]) for _ in range(3)]
        bc = []
        per = [0, 0, 0]
        for a in range(3):
            p = rng.random() < (pper if pper is not None else 0.5 if not mhd else 0.7)
            per[a] = int(p)
            bc += [3, 3] if p else [rng.choice([1, 2]), rng.choice([1, 2])]
        d = [L[a] / N[a] for a in range(3)]
        if sdm:
            A = states.sdm_state(s, N, nd, d, vt.SEED * 1000 + count, gamma=kw["gamma"], kind=kind, mach=mach)
        else:
            A = states.state(s, N, d, vt.SEED * 1000 + count, gamma=kw["gamma"], kind=kind, mach=mach)
        if inplane:
            u2 = A[..., 4] ** 2 / A[..., 0] + A[..., 7] ** 2
            A[..., 1] -= 0.5 * u2
            A[..., 4] = 0
            A[..., 7] = 0
        G = np.random.default_rng(count).uniform(-1, 1, (N[2], N[1], N[0], dim)) if grav else None
        name = "%s_%s_%d" % (s, label, count)
        ref = make(s, nd, N, L, bc, kw, A, G, name + "_ref", steps)
        reps = []
        rvars = states.variables(s)
        for i, (perm, refl, shift) in enumerate(rels(dim)):
            rel = replica.relation(perm, [r if (not mhd or per[a]) else 0 for a, r in enumerate(refl)],
                                   [int(x * N[a]) if per[a] else 0 for a, x in enumerate(shift)], per)
            if extrude:
                s3, nu = extrude, rng.randrange(g + 1, g + 3)
                pv = states.variables(s3)
                psz = replica.moved(rel, [N[0], N[1], nu])
                PL = replica.moved(rel, [L[0], L[1], 1e13])
                u = rng.choice([[3, 3], [2, 2]] + ([] if mhd else [[1, 1]]))
                pbc = replica.moved_bc(rel, bc[:4] + u)
                B = replica.transform(A, rvars, pv, rel, nd, 2, 3, psz)
                GB = None if G is None else replica.transform(G, GV(2), GV(3), rel, 1, 2, 3, psz)
                P = make(s3, nd, psz, PL, pbc, kw, B, GB, name + "_x%d_p%s" % (i, "".join(map(str, perm))), steps)
            else:
                s3 = s
                B = replica.transform(A, rvars, rvars, rel, nd, dim, dim)
                GB = None if G is None else replica.transform(G, GV(dim), GV(dim), rel, 1, dim, dim)
                P = make(s, nd, replica.moved(rel, N), replica.moved(rel, L), replica.moved_bc(rel, bc), kw, B, GB,
                         name + "_r%d_p%s_f%s_s%s" % (i, "".join(map(str, perm)), "".join(map(str, rel["refl"])),
                                                      "-".join(map(str, rel["shift"]))), steps)
            reps.append((P, rel, s3))
        fam.append((s, nd, ref, reps))

    def rels(dim):
        out = []
        if dim == 2:
            perms = [(2, 1, 3)]
            out += [((2, 1, 3), (0, 0, 0), (0, 0, 0)), ((1, 2, 3), (1, 0, 0), (0.3, 0.6, 0)), ((1, 2, 3), (0, 1, 0), (0.6, 0, 0))]
            if full:
                out += [((2, 1, 3), (1, 1, 0), (0, 0.5, 0)), ((2, 1, 3), (1, 0, 0), (0, 0, 0))]
            return out
        perms = [p for p in itertools.permutations((1, 2, 3)) if p != (1, 2, 3)]
        rng.shuffle(perms)
        cyc = rng.choice([(2, 3, 1), (3, 1, 2)])
        sw = rng.choice([(2, 1, 3), (3, 2, 1), (1, 3, 2)])
        out += [(cyc, (0, 0, 0), (0, 0, 0)), (sw, (0, 0, 0), (0.4, 0.6, 0)), ((1, 2, 3), (1, 1, 1), (0, 0, 0.5))]
        if full:
            out += [(p, [rng.randrange(2) for _ in range(3)], [rng.random() for _ in range(3)]) for p in perms[:4]]
        return out

    def xrels(dim):
        out = [((1, 2, 3), (0, 0, 0), (0, 0, 0)), ((2, 3, 1), (0, 0, 0), (0, 0, 0)), ((1, 3, 2), (0, 0, 0), (0, 0, 0))]
        return out

    for s, nd in FV:
        mhd = s.startswith("MHD")
        for impl in problems.IMPL[s]:
            for riem in problems.RIEMANN["MHD" if mhd else "Hydro"]:
                for rep in range(3 if full else 2):
                    grav = not mhd and rng.random() < 0.5
                    slope = rng.choice([1.0, 2.0] + ([] if mhd else [0.0]))
                    kw = dict(riemann=riem, impl=impl, gamma=rng.choice([1.4, 1.6666]), slope=slope, cfl=0.4, tend=100.0, nstepmax=10)
                    lab = "%s_i%d_sl%g%s" % (riem, impl, slope, "_g" if grav else "")
                    family(s, nd, kw, grav, "rough", rels, lab, mach=rng.choice([0.3, 0.8, 2.0]))
                    if "2D" in s and impl in problems.IMPL[s.replace("2D", "3D")]:
                        # with gravity the step uses the sum of the speeds of all axes: dimension dependent by definition
                        family(s, nd, kw, False, "rough", xrels, "x" + lab, mach=rng.choice([0.3, 0.8]), extrude=s.replace("2D", "3D"), inplane=mhd)
    for s, nd in SDM:
        for k, o in enumerate(SDMOPT):
            kw = dict(riemann="hllc" if k % 2 else "llf", gamma=1.4, slope=0.0, cfl=0.3, tend=100.0, nstepmax=10, sdm=dict(hydro=o) if "mu" in o else dict(sdm=o))
            family(s, nd, kw, False, "smooth" if k in (0, 5) else "rough", rels, "o%d" % k, steps=3, mach=0.4, pper=0 if "mu" in o else None)
            if "2D" in s and nd in (2, 3) and "mu" not in o:  # the plane-stress factor of the viscous tensor is dimension dependent
                family(s, nd, kw, False, "smooth", xrels, "xo%d" % k, steps=3, mach=0.4, extrude=s.replace("2D", "3D"))
    # listed finding: viscous terms see the position of periodic and process boundaries
    kw = dict(riemann="llf", gamma=1.4, slope=0.0, cfl=0.3, tend=100.0, nstepmax=10, sdm=dict(hydro=dict(mu=0.02)))
    family("Hydro_SDM_2D_degree3", 3, kw, False, "smooth", lambda dim: [((1, 2, 3), (0, 0, 0), (0.4, 0, 0))], "viscper", steps=3, mach=0.4, pper=1)
    jobs = []
    for key, sel in (("drv", False), ("drv_sdm", True)):
        cs = [c for s, nd, ref, reps in fam if ("SDM" in s) == sel for c in [ref] + [r[0] for r in reps]]
        jobs.append(pool.submit(vt.run_cases, run, b[key], cs, 1, 1, 300, "sym" + key, 3 if sel else 4))
    for j in jobs:
        for c in j.result():
            bad.append(dict(id=c.id, why="run did not complete rc=%s" % c.rc, detail=c.err, ini=c.ini))
    groups, byid = [], {}
    for s, nd, ref, reps in fam:
        if not ref.ok:
            continue
        R = replica.Ref(ref, s, nd)
        g = [R.event()]
        for P, rel, s3 in reps:
            if P.ok:
                g.append(R.replica(P, rel, solver=s3))
                byid[P.id] = P
        groups.append(g)
    res, n = replica.judge(run, groups, "sym", pool=pool)
    for i, why in res:
        bad.append(dict(id=i, why=why, ini=byid[i].ini, cmds=byid[i].cmds))
    mc.result()
    run.samples = [dict(id=e["id"], rel=e["rel"]) for g in groups[:5] for e in g[1:]]
    return vt.finish(run, bad, t0, rule="every finite-volume solver x variant x Riemann solver and every spectral-difference degree x option "
                     "set: axis exchanges, reflections, shifts and 2D-3D extrusions of random states, random sizes and boundaries",
                     extra=dict(families=len(groups), values_compared=n))
