"""P23: density and pressure stay positive in strong flows"""
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, fv


def check(run, t0):
    rng = random.Random(vt.SEED)
    pool = ThreadPoolExecutor(10)
    mc = pool.submit(vt.model, run, "Positivity", "MCPositivity")
    full = vt.THOROUGH
    cs, bad = [], []

    def add(s, nd, prob, riem, impl, slope, cfl, steps, n, extra=None, lab=""):
        dim = states.dim_of(s)
        mhd = s.startswith("MHD")
        sec, mesh = problems.variants(prob, dim, mhd, rng)
        if prob == "blast":
            sec["blast"].update(pressure_in=rng.choice([4.0, 50.0]), pressure_out=0.1)
            if nd > 1:
                sec["blast"].update(pressure_in=4.0, pressure_out=0.2)
            if mhd:
                sec["blast"].update(pressure_in=10.0, pressure_out=0.2)
        if prob == "kelvin_helmholtz" and not mhd:
            sec["KH"].update(perturbation_sine=False, perturbation_sine_robertson=True)
        bc = [3] * 6 if mhd or prob in ("kelvin_helmholtz", "gresho_vortex", "isentropic_vortex") else rng.choice([[3] * 6, [2] * 6, [1] * 6])
        if prob in ("four_quadrant", "isentropic_vortex"):
            bc = [2] * 6 if prob == "four_quadrant" else [3] * 6
        N = [n, n, n if dim == 3 else 1]
        if prob == "field_loop":
            N[0] *= 2
        gamma = 1.4 if not mhd else 1.6666
        L = [mesh.get(x + "max", 1.0) - mesh.get(x + "min", 0.0) for x in "xyz"]
        cid = "%s_%s_%s_i%d%s_%d" % (s, prob, riem, impl, lab, len(cs))
        ini = problems.ini(s, prob, N, bc, sections=sec, mesh=mesh, impl=impl, riemann=riem, cfl=cfl, tend=100.0, nstepmax=1000, gamma=gamma,
                           slope=slope, extra=extra)
        cmds = ["params", "new %d %d" % (dim, nd) if "SDM" in s else "new", "dump s0", "step %d %d s" % (steps, max(1, steps // 10))]
        cs.append(vt.Case(cid, ini, cmds, dict(s=s, nd=nd, N=N, L=L, bc=bc[:2 * dim], dim=dim, np=1, gamma=float(np.float32(gamma)), m=(1, 1, 1))))

    steps = 120 if full else 60
    for s in fv.FVS:
        mhd = s.startswith("MHD")
        dim = states.dim_of(s)
        probs = [p for p in problems.of(s) if p not in ("rayleigh_taylor", "rising_bubble", "disk", "wave", "rotor")]
        for prob in probs:
            R = problems.RIEMANN["MHD" if mhd else "Hydro"]
            for riem in R:
                for impl in problems.IMPL[s]:
                    n = (12 if full else 8) if dim == 3 else (32 if full else 20)
                    add(s, 1, prob, riem, impl, rng.choice([1.0, 2.0] if not mhd else [1.0, 2.0]), 0.5, steps // (2 if dim == 3 else 1), n)
    for s, nd in fv.SDMS:
        dim = states.dim_of(s)
        for prob in ["sod", "blast", "implode"] + (["four_quadrant", "kelvin_helmholtz", "gresho_vortex"] if dim == 2 else []):
            for k, lim in enumerate([dict(limiter_enabled="true", positivity_enabled="true"),
                                     dict(limiter_enabled="true", positivity_enabled="true", M_TVB=0.0)]):
                if k and not full and prob != "blast":
                    continue
                ex = dict(sdm=dict(lim, forward_euler="false", ssprk3="true"))
                p = prob
                add(s, nd, p if p != "sod" else "implode", rng.choice(["llf", "hll", "hllc"]), 0, 0.0, 0.3, steps // 2, 4 if dim == 3 else 10, ex,
                    "_l%d" % k)
    fv.execute(run, cs, bad, pool, 4)
    evs = [fv.ev_pos(c) for c in cs if c.ok]
    byid = {c.id: c for c in cs}
    for i, why in fv.judge(run, evs, "pos", pool, 2):
        bad.append(dict(id=i, why=why, ini=byid[i].ini, cmds=byid[i].cmds))
    mc.result()
    run.samples = [dict(id=e["id"], last=e["steps"][-1]) for e in evs[:5]]
    return vt.finish(run, bad, t0, rule="built-in shock, blast, implosion, vortex and shear problems, every finite-volume solver and Riemann solver, "
                     "spectral-difference with limiter and positivity: extrema over %d steps" % steps, extra=dict(runs=len(evs)))
