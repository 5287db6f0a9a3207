"""P25: the jet and the wedge problem are fed through their boundaries: ghost points of the real solvers against Inflow.tla"""
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, p22
from p21 import digits, GAMMAS
from p22 import q

GRIDS = {(2, 1): [(1, 1, 1)], (2, 2): [(2, 1, 1), (1, 2, 1)], (2, 4): [(2, 2, 1)], (2, 3): [(3, 1, 1), (1, 3, 1)],
         (3, 1): [(1, 1, 1)], (3, 2): [(2, 1, 1), (1, 2, 1), (1, 1, 2)], (3, 4): [(1, 2, 2), (2, 1, 2), (2, 2, 1)]}


def build(rng, run, s, nd, pb, m, mode):
    dim = states.dim_of(s)
    n = [rng.randrange(2, 6) for _ in range(3)]
    if dim == 2:
        n[2] = 1
    N = [n[a] * m[a] for a in range(3)]
    lo = [q(rng, -0.5, 0.5) for _ in range(3)]
    hi = [lo[a] + q(rng, 0.75, 2.5) for a in range(3)]
    at = lambda a: q(rng, lo[a] + 0.2 * (hi[a] - lo[a]), lo[a] + 0.8 * (hi[a] - lo[a]))
    pos, vel = lambda: q(rng, 0.3, 4), lambda: q(rng, -1, 1)
    t = 0.0
    if pb == "jet":
        c = at(1)
        if dim == 3:
            c = q(rng, max(lo[1], lo[2]), min(hi[1], hi[2])) if max(lo[1], lo[2]) < min(hi[1], hi[2]) else c
        pool = dict(rho_jet=pos(), u_jet=q(rng, 0.3, 2), v_jet=vel(), p_jet=pos(), rho_bulk=pos(), p_bulk=pos(), u_bulk=vel(), v_bulk=vel(), pos_jet=c,
                    width_jet=q(rng, 0.2, 1.2))
        if dim == 3:
            pool.update(w_jet=vel(), w_bulk=vel())
        times = [0.0, q(rng, 0.1, 2)]
    else:
        pool = dict(front_x=at(0), front_angle=q(rng, 0.5, 1.5), rho1=pos(), p1=pos(), u1=vel(), v1=vel(), rho2=pos(), p2=pos(), u2=vel(), v2=vel(),
                    shock_speed=q(rng, 1, 8))
        times = [0.0] + [round(rng.uniform(0, (hi[0] - lo[0]) / 4) * 4096) / 4096 for _ in range(2)]
    if mode == "some":
        keep = ("pos_jet", "width_jet") if pb == "jet" else ()
        pool = {k: v for k, v in pool.items() if k in keep or rng.random() < 0.5}
        if pb == "wedge" and "shock_speed" not in pool:
            times = [x / 8 for x in times]
    gm = rng.choice(GAMMAS)
    ini = dict(run=dict(solver_name=s, tend=100.0, nstepmax=1000, noutput=0), hydro=dict(problem=pb, gamma0=gm[0] / gm[1], cfl=0.2, riemann=rng.choice(["hll", "hllc", "llf"])),
               mesh=dict(nx=n[0], ny=n[1], nz=n[2]), mpi=dict(mx=m[0], my=m[1], mz=m[2]),
               sdm=dict({rng.choice(["ssprk2", "ssprk3", "forward_euler"]): "true"}))
    if "forward_euler" not in ini["sdm"]:
        ini["sdm"]["forward_euler"] = "false"
    for a in range(3):
        ini["mesh"]["xyz"[a] + "min"], ini["mesh"]["xyz"[a] + "max"] = lo[a], hi[a]
    for fc in problems.FACES:
        ini["mesh"]["boundary_type_" + fc] = rng.choice([1, 2])
    ini[pb] = dict(pool)
    nv, nf = 2 + dim, nd ** dim
    cid = "%s_%s_np%d%d%d_%s_%d" % (s, pb, *m, mode, rng.randrange(10**6))
    f = run.path("in", cid + ".bin")
    (np.arange(N[0] * N[1] * N[2] * nv * nf, dtype="<f8") + 1).tofile(f)
    cmds = ["params", "new %d %d" % (dim, nd), "step 2 1 r", "bc", "dump r"]
    for k, x in enumerate(times):
        cmds += ["setnb %s -77777777" % f, "vars %r 100" % x, "bc", "dump t%d" % k]
    e = dict(problem=pb, dim=dim, mhd=False, sdm=nd, n=N, lo=[digits(x) for x in lo], hi=[digits(x) for x in hi], g=digits(gm[0] / gm[1]),
             p={k: digits(v) for k, v in pool.items()}, edge=12 if mode == "all" else 6, tol=10 if mode == "all" else 6)
    return vt.Case(cid, ini, cmds, dict(np=m[0] * m[1] * m[2], e=e, nd=nd, dim=dim, n=n, m=m, times=times, N=N))


def points(rng, c, tag, most):
    """ghost points outside the domain, those of corners and the nozzle first among them; some between processes"""
    dim, nd, N = c.meta["dim"], c.meta["nd"], c.meta["N"]
    nf, nv = nd ** dim, 2 + dim
    out = []
    for arr, e in c.dumps(tag):
        g, o = e["gw"], e["org"]
        sz = [c.meta["n"][a] + 2 * g if a < dim else 1 for a in range(3)]
        all_ = []
        for z in range(sz[2]):
            for y in range(sz[1]):
                for x in range(sz[0]):
                    gc = [o[0] + x - g, o[1] + y - g, o[2] + z - g if dim == 3 else 0]
                    side = sum(gc[a] < 0 or gc[a] >= N[a] for a in range(dim))
                    ghost = not all(g <= (x, y, z)[a] < sz[a] - g for a in range(dim))
                    if ghost:
                        w = 0.3 if side == 0 else 1.0
                        if side and (gc[0] < 0 or gc[1] < 0 or gc[1] >= N[1]):
                            w = 2.0
                        all_.append((rng.random() ** (1 / w), gc, (z, y, x)))
        all_.sort(reverse=True)
        for _, gc, i in all_[:most]:
            for _ in range(2):
                l = [rng.randrange(nd), rng.randrange(nd), rng.randrange(nd) if dim == 3 else 0]
                v = [float(arr[i][x * nf + l[0] + nd * l[1] + nd * nd * l[2]]) for x in range(nv)]
                out.append(dict(c=gc, l=l, q=[digits(x) for x in v] if np.isfinite(v).all() else []))
    return out


def corrupt(e):
    p = [x for x in e["points"] if x["q"]]
    if not p or not e["tags"]:
        return False
    p[-1]["q"][0] = digits(12345.678)


def check(run, t0):
    rng = random.Random(vt.SEED)
    pool = ThreadPoolExecutor(8)
    T = vt.THOROUGH
    b = vt.build("drv_sdm", "drv_sdm_mpi")
    mc = pool.submit(vt.model, run, "MCInflow", "MCInflowT" if T else "MCInflow")
    cases, bad = [], []
    for dim, nd, pb in [(2, k, p) for k in (2, 3, 4) for p in ("wedge", "jet")] + [(3, k, "jet") for k in (2, 3)]:
        s = "Hydro_SDM_%dD_degree%d" % (dim, nd)
        for rep in range(16 if T else 5):
            cases.append(build(rng, run, s, nd, pb, (1, 1, 1), "all" if rep % 3 else "some"))
        if (dim, nd) in ((2, 2), (2, 3), (3, 2)):
            for (d, np_), ms in GRIDS.items():
                for m in ms:
                    if d == dim and np_ > 1:
                        for _ in range(3 if T else 1):
                            cases.append(build(rng, run, s, nd, pb, m, "all"))
    groups = {}
    for c in cases:
        groups.setdefault(("drv_sdm" if c.meta["np"] == 1 else "drv_sdm_mpi", c.meta["np"]), []).append(c)
    for (exe, np_), cs in sorted(groups.items()):
        for c in vt.run_cases(run, b[exe], cs, np_, 1, 120, "%s_%d" % (exe, np_)):
            bad.append(dict(id=c.id, why="did not complete: rc=%s" % c.rc, detail=c.err, ini=c.ini))
    evs, byid = [], {}
    for c in cases:
        if not c.ok:
            continue
        byid[c.id] = c
        small = c.meta["np"] > 1
        for k, x in enumerate(c.meta["times"]):
            evs.append(dict(c.meta["e"], id="%s:t%d" % (c.id, k), t=digits(x), tags=True, points=points(rng, c, "t%d" % k, 6 if small else 14)))
        now = float(c.dumps("r")[0][1]["t"])
        if not np.isfinite(now):      # a wild flow is none of this property's business
            continue
        evs.append(dict(c.meta["e"], id="%s:run" % c.id, t=digits(now), tags=False, edge=min(9, c.meta["e"]["edge"]),
                        points=points(rng, c, "r", 5 if small else 10)))
    K = 6
    parts, load = [[] for _ in range(K)], [0] * K
    for e in sorted(evs, key=lambda e: len(e["points"]), reverse=True):
        k = load.index(min(load))
        load[k] += len(e["points"])
        parts[k].append(e)
    for f in [pool.submit(vt.validate, run, "TraceInflow", "TraceInflow", p, "t%d" % i, 800, canary=corrupt) for i, p in enumerate(parts) if p]:
        for i, w in f.result():
            c = byid.get(i.rsplit(":", 1)[0])
            bad.append(dict(id=i, why=w, ini=c.ini if c else None, cmds=c.cmds if c else None))
    mc.result()
    run.samples = [e["id"] for e in rng.sample(evs, min(8, len(evs)))]
    return vt.finish(run, bad, t0, rule="jet (2D, 3D) and wedge (2D) of every degree, serial and decomposed, all or some parameters set, at several times and after real steps: "
                     "%d ghost points judged by TLC from Inflow.tla" % sum(load), extra=dict(cases=len(cases), points=sum(load)))
