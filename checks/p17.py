"""P17: the parameter file selects the solver and its numerics: resolved settings, runs and updates against Params.tla"""
import math
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, fv, snap, states, vtk
from p21 import digits, GAMMAS

FACES = ["bxmin", "bxmax", "bymin", "bymax", "bzmin", "bzmax"]
KEY = dict(nstepmax=("run", "nstepmax"), tend=("run", "tend"), noutput=("run", "noutput"), nlog=("run", "nlog"),
           riemann=("hydro", "riemann"), gamma0=("hydro", "gamma0"), cfl=("hydro", "cfl"), iorder=("hydro", "iorder"), slope=("hydro", "slope_type"),
           smallc=("hydro", "smallc"), smallr=("hydro", "smallr"), cp=("hydro", "cp"), mu=("hydro", "mu"), kappa=("hydro", "kappa"),
           niter=("hydro", "niter_riemann"), impl=("OTHER", "implementationVersion"))
for _a in "xyz":
    KEY.update({"n" + _a: ("mesh", "n" + _a), _a + "min": ("mesh", _a + "min"), _a + "max": ("mesh", _a + "max"),
                "b%smin" % _a: ("mesh", "boundary_type_%smin" % _a), "b%smax" % _a: ("mesh", "boundary_type_%smax" % _a)})
INTS = ["nstepmax", "noutput", "nlog", "iorder", "niter", "nx", "ny", "nz", "impl"] + FACES
UNIT = dict(smallc=20, smallr=20, smallp=40, smallpp=60)
MUSCL = ["Hydro_Muscl_2D", "Hydro_Muscl_3D", "MHD_Muscl_2D", "MHD_Muscl_3D"]
SDM = ["Hydro_SDM_2D_degree%d" % n for n in range(1, 7)] + ["Hydro_SDM_3D_degree%d" % n for n in (2, 3, 4)]
NAMES = ["approx", "llf", "hll", "hllc", "hlld"]


def real(k, x):
    return digits(x * 2.0**UNIT.get(k, 0))


def choice(rng, k):
    """a value a document can give to a key"""
    q = lambda lo, hi: round(rng.uniform(lo, hi) * 64) / 64
    if k in FACES:
        return rng.choice([0, 1, 2, 3, 4])
    if k in ("nx", "ny", "nz"):
        return rng.randrange(4, 40)
    if k in ("xmin", "ymin", "zmin"):
        return q(-4, 0.5)
    if k in ("xmax", "ymax", "zmax"):
        return q(1, 6)
    return dict(nstepmax=lambda: rng.choice([0, 1, 7, 123456]), tend=lambda: q(0, 9), noutput=lambda: rng.choice([0, -1, 1, 13]),
                nlog=lambda: rng.choice([1, 3, 77]), riemann=lambda: rng.choice(NAMES + ["exact", "HLLC", "hllx", "hl"]),
                gamma0=lambda: rng.choice([1.125, 1.5, 1.75, 2.0]), cfl=lambda: q(0.1, 0.9), iorder=lambda: rng.choice([1, 2]),
                slope=lambda: rng.choice([0.0, 1.0, 1.5, 2.0, 3.0, -1.0]), smallc=lambda: 2.0**-rng.randrange(3, 20), smallr=lambda: 2.0**-rng.randrange(3, 20),
                cp=lambda: q(0, 5), mu=lambda: q(0, 1), kappa=lambda: q(0, 1), niter=lambda: rng.choice([1, 5, 20]),
                impl=lambda: rng.choice([0, 1, 2, 2, 3, -1, 7]))[k]()


def document(rng, s, keep):
    return {k: choice(rng, k) for k in KEY if rng.random() < keep}


def ini(s, d, m=(1, 1, 1)):
    t = dict(run=dict(solver_name=s), mpi=dict(mx=m[0], my=m[1], mz=m[2]))
    for k, v in d.items():
        a, b = KEY[k]
        t.setdefault(a, {})[b] = v
    return t


def asdoc(s, d):
    r = dict(solver=s)
    for k in KEY:
        r[k] = [] if k not in d else [d[k] if k in INTS or k == "riemann" else real(k, d[k])]
    return r


def settings(run, rng, pool, bad):
    """settings documents through the real reader and HydroParams::setup, serial and on every rank"""
    cases = []
    k = 0

    def add(s, d, m=(1, 1, 1)):
        nonlocal k
        k += 1
        cases.append(vt.Case("set_%s_%d%d%d_%d" % (s, *m, k), ini(s, d, m), ["params"], dict(s=s, d=d, m=m, np=m[0] * m[1] * (m[2] if "3D" in s else 1))))
    rep = 12 if vt.THOROUGH else 2
    for s in MUSCL + SDM:
        add(s, {})
        for _ in range(rep):
            add(s, document(rng, s, rng.choice([0.3, 0.6, 0.95])))
    for s in MUSCL + SDM[1:2] + SDM[-2:-1]:
        for c in NAMES + ["roe"]:
            for v in (0, 1, 2, 3):
                if rng.random() < (1 if vt.THOROUGH else 0.5):
                    add(s, dict(riemann=c, impl=v))
    for _ in range(30 if vt.THOROUGH else 6):
        add(rng.choice(MUSCL), document(rng, s, 0.6), rng.choice([(2, 1, 1), (1, 2, 1), (2, 2, 1)]))
    for _ in range(30 if vt.THOROUGH else 4):
        add(rng.choice(["Hydro_Muscl_3D", "MHD_Muscl_3D"]), document(rng, s, 0.6), rng.choice([(1, 1, 2), (2, 1, 2), (1, 2, 2)]))
    b = vt.build("drv", "drv_sdm", "drv_mpi")
    jobs = [pool.submit(vt.run_cases, run, b["drv"], [c for c in cases if c.meta["np"] == 1 and "SDM" not in c.id], 1, 1, 120, "set"),
            pool.submit(vt.run_cases, run, b["drv_sdm"], [c for c in cases if c.meta["np"] == 1 and "SDM" in c.id], 1, 1, 120, "setsdm")]
    for n in (2, 4):
        cs = [c for c in cases if c.meta["np"] == n]
        if cs:
            jobs.append(pool.submit(vt.run_cases, run, b["drv_mpi"], cs, n, 1, 120, "set%d" % n))
    for j in jobs:
        for c in j.result():
            bad.append(dict(id=c.id, why="the settings were not accepted rc=%s" % c.rc, detail=c.err, ini=c.ini))
    evs = []
    for c in cases:
        if not c.ok:
            continue
        for rank in range(c.meta["np"]):
            for e in c.events("params", rank):
                p = {x: e[x] for x in ("dim", "nbvar", "gw", "nx", "ny", "nz", "isize", "jsize", "ksize", "bc", "nstepmax", "noutput", "nlog", "iorder",
                                       "niter", "riemann", "impl")}
                p.update(mhd=bool(e["mhd"]), output=bool(e["enable_output"]))
                names = dict(slope="slope_type")
                p["real"] = {x: real(x, e[names.get(x, x)]) for x in ("xmin", "ymin", "zmin", "xmax", "ymax", "zmax", "dx", "dy", "dz", "tend", "gamma0",
                             "gamma6", "cfl", "slope", "smallr", "smallc", "smallp", "smallpp", "cp", "mu", "kappa")}
                evs.append(dict(id=c.id + "_r%d" % rank, t="params", doc=asdoc(c.meta["s"], c.meta["d"]), m=list(c.meta["m"]), p=p, nan=False))
    return evs


def runs(run, rng, pool, bad):
    """the executables, started with every solver name and with settings that can not work"""
    b = vt.build("ppk_full", "ppk_mpi")
    todo = []

    def add(exe, s, m=(1, 1, 1), np_=1, what="run", n=None):
        todo.append((exe, s, m, np_, what, n or ([4, 5, 3] if "SDM" not in s else [3, 2, 2])))
    for s in MUSCL + SDM:
        add("ppk_full", s)
    wrong = ["Hydro_Sdm_2D", "Hydro_SDM_2D", "Hydro_SDM_2D_degree7", "Hydro_SDM_3D_degree5", "hydro_muscl_2D", "Hydro_Muscl_2D ", "Hydro_Muscl_2", "Hydro_Muscl",
             "MHD_Muscl_1D", "Unknown", "unknown", "Hydro_Mood_2D_degree1", "XHydro_Muscl_2D", "MHD_Muscl_3D_degree2", "MHD_SDM_2D_degree2", ""]
    for s in wrong if vt.THOROUGH else rng.sample(wrong, 6) + [""]:
        add("ppk_full", s.replace(" ", "x"))
    add("ppk_full", "Hydro_Muscl_2D", what="missing")
    add("ppk_full", "Hydro_Muscl_2D", what="directory")
    add("ppk_full", "Hydro_Muscl_2D", what="noarg")
    for s, m, p in (("Hydro_Muscl_2D", (2, 1, 1), 2), ("Hydro_Muscl_2D", (1, 2, 3), 2), ("MHD_Muscl_3D", (1, 1, 2), 2), ("Hydro_Muscl_3D", (2, 1, 1), 1),
                    ("Hydro_Muscl_2D", (1, 1, 1), 2), ("MHD_Muscl_2D", (2, 2, 1), 2), ("Hydro_Muscl_3D", (2, 1, 2), 2), ("MHD_Muscl_3D", (0, 1, 1), 1),
                    ("Hydro_Muscl_2D", (-1, -2, 1), 2), ("Hydro_Muscl_4D", (2, 1, 1), 2)):
        add("ppk_mpi", s, m, p)
    add("ppk_mpi", "Hydro_Muscl_2D", (2, 1, 1), 2, "missing")

    def go(k):
        exe, s, m, np_, what, n = todo[k]
        mpi = exe == "ppk_mpi"
        d = dict(run=dict(solver_name=s, tend=1.0, nstepmax=1, noutput=1), mesh=dict(nx=n[0], ny=n[1], nz=n[2]),
                 hydro=dict(problem="blast", riemann="hll"), output=dict(hdf5_enabled="no", vtk_enabled="yes", outputPrefix="t", outputVtkAscii="no"),
                 mpi=dict(mx=m[0], my=m[1], mz=m[2]))
        if s == "":
            del d["run"]["solver_name"]
        dirs = run.sub("run_%d" % k)
        args = dict(missing=["absent.ini"], directory=["."], noarg=[]).get(what)
        x = snap.Exe(run, b[exe], d, np_ if mpi else 0, timeout=100, d=dirs, args=args)
        out = [f for f in sorted(os.listdir(dirs)) if f != "p.ini" and not f.startswith("core")]
        e = dict(id="%s_%s_%d%d%d_np%d_%s" % (exe, s or "noname", *[abs(v) for v in m], np_, what), t="run", solver=s, m=list(m), n=n, np=np_, ini=what == "run",
                 ok=x.rc == 0, files=len(out), fields=[], values=0, kind="", nan=False)
        if x.rc is None:
            bad.append(dict(id=e["id"], why="the run did not end", detail=x.err[-400:]))
        vals = {}
        for f in out:
            if re.fullmatch(r"t_(time)?0000000(_mpi\d+)?\.vt[iu]", f):
                r = vtk.read(dirs + "/" + f)
                if r["ok"]:
                    e["kind"] = r["kind"]
                    e["fields"] = [c for c in r["cell"] if c not in ("mpi_rank", "rank")]
                    for c in e["fields"]:
                        vals[c] = vals.get(c, 0) + len(np.ravel(r["arrays"][c]))
        if len(set(vals.values())) == 1:
            e["values"] = list(vals.values())[0]
        return e
    # process counts matter: parallel starts one after the other
    ser = [pool.submit(go, k) for k in range(len(todo)) if todo[k][0] == "ppk_full"]
    par = pool.submit(lambda: [go(k) for k in range(len(todo)) if todo[k][0] == "ppk_mpi"])
    return [j.result() for j in ser] + par.result()


def blocks(run, rng, pool, bad):
    """two uniform blocks, one step without slopes"""
    G = fv.Gen(run, rng)
    cases = []
    log = lambda a, b: round(math.exp(rng.uniform(math.log(a), math.log(b))) * 1024) / 1024

    def prim(mhd, dim):
        d, p = log(0.3, 4), log(0.3, 4)
        c = math.sqrt(p / d)
        v = [round(rng.gauss(0, 0.8 * c) * 1024) / 1024 for _ in range(3)]
        f = [round(rng.gauss(0, 0.8 * math.sqrt(p)) * 1024) / 1024 for _ in range(3)] if mhd else [0.0] * 3
        if dim == 2 and not mhd:
            v[2] = 0.0
        return [d, p] + v + f

    def add(s, nd, name, impl, axis):
        mhd, dim = s.startswith("MHD"), states.dim_of(s)
        g = rng.choice(GAMMAS)
        gam = g[0] / g[1]
        l, r = prim(mhd, dim), prim(mhd, dim)
        r[5 + axis] = l[5 + axis]
        n = [3, 3, 3 if dim == 3 else 1] if mhd else [2, 3, 2 if dim == 3 else 1]
        n[axis] = 6
        V = states.variables(s)
        A = np.zeros((n[2], n[1], n[0], len(V)))
        for q, lo in ((l, 0), (r, 3)):
            e = q[1] / (gam - 1) + 0.5 * q[0] * sum(x * x for x in q[2:5]) + 0.5 * sum(x * x for x in q[5:8])
            u = [q[0], e] + [q[0] * x for x in q[2:5]] + q[5:8]
            sl = [slice(None)] * 3
            sl[2 - axis] = slice(lo, lo + 3)
            A[tuple(sl)] = u[:len(V)]
        if nd > 1:
            A = np.repeat(A, nd ** dim, axis=-1)
        kw = dict(gamma=gam, cfl=0.375, slope=0.0, impl=impl, riemann=name or "approx")
        c = G.case(s, nd, "blk_%s_i%d_a%d" % (name or "none", impl, axis), N=n, L=[0.75 * n[0], 0.5 * n[1], 0.625 * n[2]], bc=[3] * 6, A=A, steps=1, kw=kw)
        if not name:
            del c.ini["hydro"]["riemann"]
        c.meta.update(l=l, r=r, g=g, axis=axis, name=name, impl=impl)
        cases.append(c)
    rep = 4 if vt.THOROUGH else 1
    for _ in range(rep):
        for s in MUSCL:
            mhd = s.startswith("MHD")
            for impl in (0, 1, 2) if mhd else (0, 1):
                good = ["llf", "hll", "hlld"] if mhd else ["approx", "llf", "hll", "hllc"]
                for name in good + [rng.choice([x for x in NAMES if x not in good] + ["roe", ""])]:
                    add(s, 1, name, impl, rng.randrange(states.dim_of(s)))
        for s, nd in fv.SDMS:
            for name in rng.sample(NAMES[:4], 2) + [rng.choice(["hlld", "hlx", ""])]:
                add(s, nd, name, 0, rng.randrange(states.dim_of(s)))
    fv.execute(run, cases, bad, pool, 2)
    evs = []
    for c in cases:
        if not c.ok:
            continue
        m = c.meta
        a = fv.series(c)
        if len(a) < 2 or a[1] is None:
            bad.append(dict(id=c.id, why="no step was made"))
            continue
        dim, nd, axis = m["dim"], m["nd"], m["axis"]
        new = a[1]
        nv = new.shape[-1] // nd ** dim
        w = fv.weights(nd, dim)
        av = np.stack([(new[..., v * nd**dim:(v + 1) * nd**dim] * w).sum(-1) for v in range(nv)], -1)
        st = c.events("step")
        dt = st[0]["dt"]
        other = [rng.randrange(av.shape[2 - x]) for x in range(3)]

        def at(i):
            ix = list(other)
            ix[axis] = i
            u = [float(x) for x in av[ix[2], ix[1], ix[0]]]
            return [digits(x) for x in (u[:5] + [0.0] if nv == 4 else u[:5])[:5]]
        good = bool(np.isfinite(av).all()) and math.isfinite(dt)
        tol = 5 if m["name"] not in ("llf", "hll", "hllc", "hlld") or (m["name"] == "hlld" and not m["s"].startswith("MHD")) else 9
        evs.append(dict(id=c.id, t="cell", solver=m["s"], riemann=[m["name"]] if m["name"] else [], axis=axis + 1, g=dict(n=m["g"][0], d=m["g"][1]),
                        l=[digits(x) for x in m["l"]], r=[digits(x) for x in m["r"]], k=digits(dt / m["d"][axis]) if good else [], tol=tol,
                        lr=[at(2), at(3)] if good else [], rl=[at(5), at(0)] if good else [], nan=not good))
    return evs


def cost(e):
    return dict(params=0.6, run=0.1, cell=4)[e["t"]] * (2.5 if e.get("tol") == 5 else 1)


def corrupt(e):
    if e["nan"]:
        return False
    if e["t"] == "params":
        e["p"]["real"]["cfl"][4] += 40
        e["p"]["impl"] += 1
    elif e["t"] == "run":
        e["ok"] = not e["ok"]
    else:
        e["lr"][0][0][4] += 40
        e["lr"][1][0][4] += 40


def check(run, t0):
    rng = random.Random(vt.SEED)
    pool = ThreadPoolExecutor(8)
    side = ThreadPoolExecutor(4)
    vt.build("drv", "drv_sdm", "drv_mpi", "ppk_full", "ppk_mpi")
    bad = []
    mc = side.submit(vt.model, run, "MCParams", "MCParamsT" if vt.THOROUGH else "MCParams")
    evs = []
    for f in (settings, blocks, runs):
        evs += f(run, random.Random(rng.random()), pool, bad)
    K = 7
    parts = [[] for _ in range(K)]
    load = [0] * K
    for e in sorted(evs, key=cost, reverse=True):
        k = load.index(min(load))
        load[k] += cost(e)
        parts[k].append(e)
    for f in [pool.submit(vt.validate, run, "TraceParams", "TraceParams", p, "t%d" % i, 800, canary=corrupt) for i, p in enumerate(parts) if p]:
        for i, w in f.result():
            bad.append(dict(id=i, why=w))
    mc.result()
    run.samples = [e["id"] for e in rng.sample(evs, min(8, len(evs)))]
    n = {t: sum(e["t"] == t for e in evs) for t in ("params", "run", "cell")}
    return vt.finish(run, bad, t0, rule="%d settings documents with absent, usual and unusable choices resolved by the real reader (all 13 solver names, serial and on "
                     "every process); %d starts of the executables (all solver names, unknown names, missing files, processes not matching the topology); %d one-step "
                     "updates of cells beside an interface compared with the flux of the solver that the document selects" % (n["params"], n["run"], n["cell"]),
                     extra=dict(counts=n))
