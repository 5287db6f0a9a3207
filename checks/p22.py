"""P22: every built-in problem starts from the state its definition prescribes: cells of real initial states against Initial.tla"""
import math
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems
from p21 import digits, GAMMAS

SDM_ND = [(2, 2), (2, 3), (2, 4), (3, 2), (3, 3)]
SECTION = dict(blast="blast", implode="implode", kelvin_helmholtz="KH", gresho_vortex="Gresho", four_quadrant="riemann2d", isentropic_vortex="isentropic_vortex",
               rayleigh_taylor="rayleigh_taylor", rising_bubble="rising_bubble", disk="disk", orszag_tang="OrszagTang", rotor="rotor", field_loop="FieldLoop",
               wave="wave", jet="jet", wedge="wedge", sod="sod", shu_osher="shu_osher")
WHOLE = ("shape_region", "mode", "config_number", "type")


def q(rng, lo, hi, k=64):
    return round(rng.uniform(lo, hi) * k) / k


def extent(rng, pb, dim):
    """the box of a problem: where it makes sense, off the unit box"""
    free = lambda l=1.0: (lambda a, w: (a, a + w))(q(rng, -0.5, 0.5), q(rng, 0.75, 1.5) * l)
    around = lambda l=1.0: (-q(rng, 0.4, 0.7) * l, q(rng, 0.4, 0.7) * l)
    if pb in ("implode", "blast", "four_quadrant", "sod", "rising_bubble", "rayleigh_taylor", "rotor"):
        b = [free() for _ in range(3)]
        if pb == "blast":
            b[0] = (0.0, b[0][1] + 0.75)
    elif pb == "kelvin_helmholtz":
        b = [free() for _ in range(3)]
        b[dim - 1] = (0.0, 1.0)
    elif pb in ("gresho_vortex", "disk"):
        b = [around() for _ in range(3)]
    elif pb == "field_loop":
        b = [around(2.0) for _ in range(3)]
    elif pb == "isentropic_vortex":
        b = [(0.0, q(rng, 6, 10)), (0.0, q(rng, 6, 10)), (0.0, 1.0)] if rng.random() < 0.5 else [around(10.0), around(10.0), (0.0, 1.0)]
    elif pb == "shu_osher":
        b = [(-5.0, 5.0), free(), free()]
    elif pb == "wave":
        b = [(0.0, q(rng, 2, 4)), (0.0, q(rng, 1, 2)), (0.0, q(rng, 1, 2))]
    else:
        b = [(0.0, q(rng, 1, 4)), (0.0, q(rng, 0.75, 1.5)), (0.0, q(rng, 0.75, 1.5))]
    return [x[0] for x in b], [x[1] for x in b]


def params(rng, pb, dim, mhd, lo, hi):
    """values for all the parameters of a problem"""
    at = lambda a: q(rng, lo[a] + 0.3 * (hi[a] - lo[a]), lo[a] + 0.7 * (hi[a] - lo[a]))
    pos, vel = lambda: q(rng, 0.3, 4), lambda: q(rng, -1, 1)
    w = min(h - l for l, h in list(zip(lo, hi))[:dim])
    if pb == "implode":
        p = {a + b: f() for b in ("_outer", "_inner") for a, f in (("density", pos), ("pressure", pos), ("vx", vel), ("vy", vel))}
        p["shape_region"] = rng.choice([0, 1, 1, 2])
        if dim == 3 or mhd:
            p["vz_outer"], p["vz_inner"] = vel(), vel()
        if mhd:
            for a in "xyz":
                p["B%s_outer" % a] = p["B%s_inner" % a] = vel()
        return p
    if pb == "blast":
        return dict(radius=q(rng, 0.15, 0.4) * w, center_x=at(0), center_y=at(1), center_z=at(2), density_in=pos(), density_out=pos(), pressure_in=pos(),
                    pressure_out=pos())
    if pb == "kelvin_helmholtz":
        return dict(d_in=pos(), d_out=pos(), vflow_in=vel(), vflow_out=vel(), pressure=pos() + 1, w0=q(rng, 0.1, 0.5), mode=rng.choice([1, 2, 3, 4]),
                    delta=q(rng, 0.03, 0.2), amplitude=q(rng, 0.1, 1))
    if pb == "gresho_vortex":
        return dict(rho0=pos(), Ma=q(rng, 0.1, 0.6))
    if pb == "four_quadrant":
        return dict(config_number=rng.randrange(19), x=at(0), y=at(1))
    if pb == "isentropic_vortex":
        return dict(density_ambient=pos(), temperature_ambient=q(rng, 1, 3), vx_ambient=q(rng, 0.1, 1), vy_ambient=q(rng, 0.1, 1), center_x=at(0), center_y=at(1),
                    strength=q(rng, 0.5, 4), tEnd=q(rng, 0.5, 30))
    if pb == "rayleigh_taylor":
        return dict(amplitude=q(rng, 0.1, 0.5), d0=pos(), d1=pos(), gx=q(rng, -0.1, 0.1), gy=q(rng, -0.1, 0.1), gz=q(rng, -0.1, 0.1))
    if pb == "rising_bubble":
        return dict(R=q(rng, 0.15, 0.4) * w, x0=at(0), y0=at(1), z0=at(2), din=pos(), dout=pos(), gx=q(rng, -0.1, 0.1), gy=q(rng, -0.1, 0.1), gz=q(rng, -0.1, 0.1))
    if pb == "disk":
        r = q(rng, 0.15, 0.35, 1024)
        return dict(radius=r, radius_inner=q(rng, 0.02, 0.08, 1024), xc=at(0), yc=at(1), zc=at(2), ref_density=pos(), contrast_density=q(rng, 5, 100),
                    contrast_width=q(rng, 0.05, 0.3), ref_sound_speed=q(rng, 0.3, 0.8), G=pos(), M=pos(), soften=q(rng, 0.05, 0.3))
    if pb == "orszag_tang":
        return dict(kt=rng.choice([0.0, 0.5, 1.0, 2.0]))
    if pb == "rotor":
        r0 = q(rng, 0.1, 0.25)
        return dict(r0=r0, r1=r0 + q(rng, 0.05, 0.2), u0=pos(), p0=pos(), b0=vel())
    if pb == "field_loop":
        return dict(radius=q(rng, 0.3, 0.8), density_in=pos(), amplitude=pos(), vflow=vel())
    if pb == "wave":
        return dict(amplitude=q(rng, 0.01, 0.2, 1024), type=rng.randrange(4))
    if pb == "jet":
        return dict(rho_bulk=pos(), p_bulk=pos(), u_bulk=vel(), v_bulk=vel(), w_bulk=vel() if dim == 3 else 0.0)
    if pb == "wedge":
        p = dict(front_x=at(0), front_angle=q(rng, 0.5, 1.4), rho1=pos(), p1=pos(), u1=vel(), v1=vel(), rho2=pos(), p2=pos(), u2=vel(), v2=vel())
        if dim == 3:
            p.update(w1=vel(), w2=vel())
        return p
    return {}


def flags(rng, pb, lo):
    if pb == "kelvin_helmholtz":
        return dict(rng.choice([dict(), dict(perturbation_sine_robertson=True, perturbation_sine=True), dict(perturbation_sine_robertson=False, perturbation_sine=True),
                                dict(perturbation_sine_robertson=False, perturbation_sine=True), dict(perturbation_rand=True)]))
    if pb == "isentropic_vortex" and lo[0] == 0 and lo[1] == 0:
        return dict(use_tEnd=rng.random() < 0.7)
    return {}


def build(rng, s, nd, pb, m, mode):
    """one instance: mode all parameters, some, one or none set"""
    dim, mhd = states.dim_of(s), s.startswith("MHD")
    lo, hi = extent(rng, pb, dim)
    pool = params(rng, pb, dim, mhd, lo, hi)
    p = dict(pool)
    if mode == "some":
        p = {k: v for k, v in pool.items() if rng.random() < 0.5}
    elif mode == "one":
        k = rng.choice(sorted(pool)) if pool else None
        p = {k: pool[k]} if k else {}
    elif mode == "none":
        p = {}
    if pb == "implode" and mhd:      # a jump of the field along its own axis is not a state of the scheme
        for a in "xyz":
            v = pool["B%s_outer" % a] if "B%s_outer" % a in p or "B%s_inner" % a in p else None
            for k in ("B%s_outer" % a, "B%s_inner" % a):
                p.pop(k, None)
                if v is not None:
                    p[k] = v
    if pb == "rotor":
        if ("r0" in p) != ("r1" in p):
            p.update(r0=pool["r0"], r1=pool["r1"])
    if pb == "blast" and "radius" not in p and rng.random() < 0.5:
        p["radius"] = pool["radius"]
    if pb == "disk":
        if "radius_inner" in p or "radius" in p:
            p.update(radius=pool["radius"], radius_inner=pool["radius_inner"])
    if pb in ("rayleigh_taylor", "rising_bubble"):
        # the pressure must stay positive: 1 + d (g . x)
        worst = 4 * sum(abs(p.get(k, d)) * max(abs(lo[a]), abs(hi[a])) for a, (k, d) in enumerate((("gx", 0), ("gy", -0.1), ("gz", 0))) if a < dim)
        if worst > 0.9:
            for k in ("gx", "gy", "gz"):
                p[k] = p.get(k, 0.0) / 8
    if pb == "isentropic_vortex":
        p.pop("tEnd", None) if rng.random() < 0.5 else None
    f = flags(rng, pb, lo)
    if f.get("use_tEnd") and pb == "isentropic_vortex":
        p.setdefault("tEnd", pool["tEnd"])
    gm = rng.choice(GAMMAS)
    big = nd > 1
    n = [rng.randrange(3, 6) if big else rng.randrange(4, 10) for _ in range(3)]
    if pb == "disk" and rng.random() < 0.5 and m == (1, 1, 1):
        n = [x | 1 for x in n]
    if dim == 2:
        n[2] = 1
    N = [n[a] * m[a] for a in range(3)]
    sec = SECTION.get(pb, "blast")
    t = dict(run=dict(solver_name=s, tend=1.0, nstepmax=1, noutput=0), hydro=dict(problem=pb, gamma0=gm[0] / gm[1], cfl=0.5, riemann="hll"),
             mesh=dict(nx=n[0], ny=n[1], nz=n[2]), mpi=dict(mx=m[0], my=m[1], mz=m[2]), sdm={})
    if nd > 1:
        t.pop("sdm")
    for a in range(3):
        t["mesh"]["xyz"[a] + "min"], t["mesh"]["xyz"[a] + "max"] = lo[a], hi[a]
    for fc in problems.FACES:
        t["mesh"]["boundary_type_" + fc] = 2
    inst = {}
    grav = False
    for k, v in p.items():
        where = "gravity" if k in ("G", "M", "soften") else "run" if k == "tEnd" else sec
        t.setdefault(where, {})[k] = v
        inst[k] = v if k in WHOLE else digits(v)
    for k, v in f.items():
        t.setdefault(sec, {})[k] = v
        inst[k] = v
    if pb in ("rayleigh_taylor", "rising_bubble", "disk") and not mhd and nd == 1:
        grav = True
        g = t.setdefault("gravity", {})
        if pb == "disk":
            g["point"] = True
        else:
            g["static"] = True
    if "tend" in t["run"] and "tEnd" in t["run"]:
        t["run"].pop("tend")
    cmds = ["params", "new" if nd == 1 else "new %d %d" % (dim, nd), "dump i"] + (["dumpgrav g"] if grav else [])
    full = pb in SECTION and set(pool) <= set(p)
    e = dict(problem=pb, dim=dim, mhd=mhd, sdm=nd if nd > 1 else 0, n=N, lo=[digits(x) for x in lo], hi=[digits(x) for x in hi], g=digits(gm[0] / gm[1]), p=inst,
             edge=12 if full else 6, tol=10 if full else 6)
    cid = "%s%s_%s_np%d%d%d_%s_%d" % (s, "_nd%d" % nd if nd > 1 else "", pb, *m, mode, rng.randrange(10**6))
    return vt.Case(cid, t, cmds, dict(np=m[0] * m[1] * m[2], e=e, grav=grav, nd=nd, s=s, dim=dim, box=(lo, hi), n=n, m=m))


def cells(rng, c, u, g, most):
    """cells where the state jumps, at the corners of every process, and others"""
    dim, n, m = c.meta["dim"], c.meta["n"], c.meta["m"]
    d = u[..., 0]
    jump = np.zeros(d.shape)
    for ax in range(3 - dim, 3):
        x = np.abs(np.diff(d, axis=ax))
        a, b = [slice(None)] * 3, [slice(None)] * 3
        a[ax], b[ax] = slice(0, -1), slice(1, None)
        jump[tuple(a)] += x
        jump[tuple(b)] += x
    order = np.argsort(-(jump.ravel() + 1e-9 * np.random.default_rng(rng.randrange(2**31)).random(jump.size)))
    every = [tuple(int(v) for v in np.unravel_index(k, d.shape)) for k in order]
    pick = every[:max(1, most // 3)]
    sh = d.shape
    r = [(rng.choice([b * n[2] for b in range(m[2])]) + rng.choice([0, n[2] - 1]), rng.choice([b * n[1] for b in range(m[1])]) + rng.choice([0, n[1] - 1]),
          rng.choice([b * n[0] for b in range(m[0])]) + rng.choice([0, n[0] - 1])) for _ in range(most // 3)]
    r += [tuple(rng.randrange(x) for x in sh) for _ in range(most)]
    if c.meta["e"]["problem"] == "disk":
        r.insert(0, tuple(x // 2 for x in sh))
    for x in r:
        if len(pick) >= most:
            break
        if x not in pick:
            pick.append(x)
    nd = c.meta["nd"]
    nf = nd ** dim
    nv = u.shape[-1] // nf
    out = []
    lo, hi = c.meta["box"]
    N = c.meta["e"]["n"]
    for k, j, i in pick:
        l = [rng.randrange(nd), rng.randrange(nd), rng.randrange(nd) if dim == 3 else 0]
        o = l[0] + nd * l[1] + nd * nd * l[2]
        v = [float(u[k, j, i, x * nf + o]) for x in range(nv)]
        if c.meta["e"]["problem"] in ("disk", "gresho_vortex") and nd == 1:
            # the direction of rotation is only defined by rounding within 1e-9 of the axis
            y = [lo[a] + (hi[a] - lo[a]) * ((i, j)[a] + 0.5) / N[a] - (float(c.meta["centre"][a]) if c.meta["e"]["problem"] == "disk" else 0) for a in (0, 1)]
            if 0 < math.hypot(*y) < 1e-6:
                continue
        out.append(dict(c=[i, j, k], l=l, q=[digits(x) for x in v] if all(math.isfinite(x) for x in v) else [],
                        g=[digits(float(x)) for x in g[k, j, i]] if g is not None else []))
    return out


def cost(e):
    one = dict(wave=6, field_loop=3, disk=4, isentropic_vortex=2, orszag_tang=2.5, kelvin_helmholtz=2).get(e["problem"], 1)
    return one * len(e["cells"])


def corrupt(e):
    if e["nan"] or not e["cells"]:
        return False
    e["cells"][-1]["q"][1][3] += 3
    e["cells"][-1]["q"][1][4] += 3


def check(run, t0):
    rng = random.Random(vt.SEED)
    pool = ThreadPoolExecutor(8)
    T = vt.THOROUGH
    b = vt.build("drv", "drv_sdm", "drv_mpi", "drv_sdm_mpi")
    bad = []
    mc = [pool.submit(vt.model, run, "MCFun", "MCFun"), pool.submit(vt.model, run, "MCInitial", "MCInitialT" if T else "MCInitial")]
    cases = []
    modes = ["all", "some", "one", "none"]
    grids2, grids3 = [(2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1), (1, 3, 1)], [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 2), (1, 2, 2), (2, 2, 1)]
    for s in ("Hydro_Muscl_2D", "Hydro_Muscl_3D", "MHD_Muscl_2D", "MHD_Muscl_3D"):
        for pb in problems.of(s) + ["no_such_problem"]:
            for mode in modes * (4 if T else 1):
                if mode == "one" and not T and rng.random() < 0.5:
                    continue
                cases.append(build(rng, s, 1, pb, (1, 1, 1), mode))
            for _ in range(6 if T else 1):
                cases.append(build(rng, s, 1, pb, rng.choice(grids2 if "2D" in s else grids3), "all"))
            if pb == "four_quadrant":
                for k in range(19):
                    c = build(rng, s, 1, pb, (1, 1, 1), "all")
                    c.ini["riemann2d"]["config_number"] = c.meta["e"]["p"]["config_number"] = k
                    c.id += "_config%d" % k
                    cases.append(c)
    for dim, nd in SDM_ND:
        s = "Hydro_SDM_%dD_degree%d" % (dim, nd)
        for pb in ["sod", "implode", "blast", "kelvin_helmholtz", "gresho_vortex", "wedge", "jet", "isentropic_vortex", "shu_osher"] \
                + (["four_quadrant"] if dim == 2 else []) + ["no_such_problem"]:
            for mode in ["all", "some"] * (3 if T else 1):
                if T or rng.random() < 0.8:
                    cases.append(build(rng, s, nd, pb, (1, 1, 1), mode))
            if (dim, nd) in ((2, 2), (2, 3), (3, 2)) and (T or rng.random() < 0.6):
                cases.append(build(rng, s, nd, pb, rng.choice(grids2 if dim == 2 else grids3), "all"))
    groups = {}
    for c in cases:
        np_ = c.meta["np"]
        exe = ("drv" if np_ == 1 else "drv_mpi") if c.meta["nd"] == 1 else ("drv_sdm" if np_ == 1 else "drv_sdm_mpi")
        groups.setdefault((exe, np_), []).append(c)
    failed = []
    for (exe, np_), cs in sorted(groups.items()):
        failed += vt.run_cases(run, b[exe], cs, np_, 1, 120, "%s_%d" % (exe, np_))
    for c in failed:
        bad.append(dict(id=c.id, why="no initial state: rc=%s" % c.rc, detail=c.err, ini=c.ini))
    evs = []
    for c in cases:
        if not c.ok:
            continue
        e = dict(c.meta["e"], id=c.id)
        if e["problem"] == "disk":
            box = c.meta["box"]
            d = c.ini.get("disk", {})
            c.meta["centre"] = [d.get("xc", (box[0][0] + box[1][0]) / 2), d.get("yc", (box[0][1] + box[1][1]) / 2)]
        u = c.interior("i")
        g = c.interior("g") if c.meta["grav"] else None
        e["nan"] = not bool(np.isfinite(u).all()) or (g is not None and not bool(np.isfinite(g).all()))
        e["cells"] = [] if e["nan"] else cells(rng, c, u, g, 60 if T else {"wave": 4, "disk": 7}.get(e["problem"], 9))
        evs.append(e)
    K = 7
    parts, load = [[] for _ in range(K)], [0] * K
    for e in sorted(evs, key=cost, reverse=True):
        k = load.index(min(load))
        load[k] += cost(e)
        parts[k].append(e)
    for x in mc:
        x.result()
    for f in [pool.submit(vt.validate, run, "TraceInitial", "TraceInitial", p, "t%d" % i, 850, canary=corrupt) for i, p in enumerate(parts) if p]:
        for i, w in f.result():
            bad.append(dict(id=i, why=w))
    run.samples = [e["id"] for e in rng.sample(evs, min(8, len(evs)))]
    nc = sum(len(e["cells"]) for e in evs)
    return vt.finish(run, bad, t0, rule="%d initial states of all built-in problems (finite volumes 2D/3D with and without field, spectral differences, serial and decomposed; "
                     "all, some, one or none of the parameters set): %d cells or points, with their gravity, recomputed by TLC from Initial.tla" % (len(evs), nc),
                     extra=dict(states=len(evs), cells=nc))
