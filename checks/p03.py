"""P03: processes tile the domain with consistent neighbours and boundaries"""
import itertools, os, glob, random
from concurrent.futures import ThreadPoolExecutor
import vt

SOLVERS = [("Hydro_Muscl_2D", 2, 2), ("Hydro_Muscl_3D", 3, 2), ("MHD_Muscl_2D", 2, 3), ("MHD_Muscl_3D", 3, 3)]


def grids(np_, dim):
    for a in range(1, np_ + 1):
        for b in range(1, np_ + 1):
            if dim == 2:
                if a * b == np_:
                    yield (a, b, 1)
            else:
                for c in range(1, np_ + 1):
                    if a * b * c == np_:
                        yield (a, b, c)


def _corrupt(e):
    if e["ev"] == "topo":
        e["ranks"][0]["nbc"][1] += 1
    else:
        e["exit"] = 1 - min(1, e["exit"])


def check(run, t0):
    rng = random.Random(vt.SEED)
    vt.model(run, "MCTopology", "MCTopology")
    b = vt.build("drv", "drv_mpi", "ppk_mpi")
    bad, events = [], []
    nps = [1, 2, 3, 4, 6, 8] + ([5, 7, 9, 12] if vt.THOROUGH else [])
    nbc = 6 if vt.THOROUGH else 2
    faces = ["xmin", "xmax", "ymin", "ymax", "zmin", "zmax"]
    L = [(0.0, 1.0), (-1.0, 2.0), (0.5, 4.5), (0.0, 0.75)]
    for np_ in nps:
        cases = []
        for sname, dim, gw in SOLVERS:
            for m in grids(np_, dim):
                for r in range(nbc):
                    # a different code on every face in turn, periodic included
                    bc = [rng.choice([1, 2, 3]) for _ in range(6)]
                    if r == 0:
                        bc = [1 + (i * 7 + r) % 3 for i in rng.sample(range(6), 6)]
                    n = [rng.randint(gw, 7), rng.randint(gw, 7), rng.randint(gw, 7) if dim == 3 else 1]
                    dom = [rng.choice(L) for _ in range(3)]
                    mesh = dict(nx=n[0], ny=n[1], nz=n[2])
                    for a, x in enumerate("xyz"):
                        mesh[x + "min"], mesh[x + "max"] = dom[a]
                    for f, c in zip(faces, bc):
                        mesh["boundary_type_" + f] = c
                    ini = dict(run=dict(solver_name=sname, tend=1.0, nstepmax=1, noutput=0), mesh=mesh,
                               mpi=dict(mx=m[0], my=m[1], mz=m[2]), hydro=dict(problem="blast"))
                    cases.append(vt.Case("t%d_%s_%d%d%d_%d" % (np_, sname, *m, r), ini, ["params"],
                                         dict(dim=dim, gw=gw, m=m, n=n, bc=bc, dom=dom)))
        for c in vt.run_cases(run, b["drv_mpi"], cases, np_=np_, name="np%d" % np_):
            bad.append(dict(id=c.id, why="set-up did not complete: rc=%s" % c.rc, detail=c.err, ini=c.ini))
        for c in cases:
            if not c.ok:
                continue
            k = c.meta
            ranks = []
            for evs in c.ev:
                e = [x for x in evs if x["ev"] == "params"][0]
                ranks.append(dict(rank=e["myrank"], pos=e["pos"], nrank=e["nrank"], nbc=e["nbc"],
                                  d=[int(round(e[x] * 1e9)) for x in ("dx", "dy", "dz")],
                                  size=[e["isize"], e["jsize"], e["ksize"]], n=[e["nx"], e["ny"], e["nz"]],
                                  lo=[e["imin"], e["jmin"], e["kmin"]], hi=[e["imax"], e["jmax"], e["kmax"]],
                                  gw=e["gw"]))
            events.append(dict(ev="topo", id=c.id, dim=k["dim"], m=list(k["m"]), n=k["n"], bc=k["bc"], gw=k["gw"],
                               len=[int(round((x[1] - x[0]) * 1e6)) for x in k["dom"]], ranks=ranks))
    events = [e for e in events if len(e["ranks"])]
    # ------------------------------------------------ launches of the executable
    todo = []
    for dim, sname in ((2, "Hydro_Muscl_2D"), (3, "MHD_Muscl_3D")):
        for np_, m in ([(1, (1, 1, 1)), (2, (2, 1, 1)), (2, (1, 1, 1)), (3, (2, 1, 1)), (2, (3, 1, 1)), (4, (2, 3, 1)),
                        (4, (1, 2, 1)), (1, (0, 1, 1)), (2, (-1, -2, 1)), (1, (2, 2, 1))] +
                       ([(4, (1, 2, 2)), (2, (1, 1, 2)), (4, (2, 1, 1)), (4, (1, 1, 2)), (2, (2, 2, 2)), (1, (1, 1, 0)),
                         (3, (1, 1, 2))] if dim == 3 else [(4, (2, 2, 1)), (3, (3, 1, 1))])):
            todo.append((dim, sname, np_, m))

    def launch(a):
        i, (dim, sname, np_, m) = a
        d = run.sub("launch%d" % i)
        ini = dict(run=dict(solver_name=sname, tend=1.0, nstepmax=2, noutput=-1),
                   mesh=dict(nx=6, ny=6, nz=6, boundary_type_xmin=2, boundary_type_xmax=2),
                   mpi=dict(mx=m[0], my=m[1], mz=m[2]), hydro=dict(problem="blast", riemann="hll", cfl=0.3),
                   output=dict(outputdir="./", outputprefix="o", vtk_enabled=True, hdf5_enabled=False))
        open(os.path.join(d, "p.ini"), "w").write(vt.ini_text(ini))
        rc, so, se = vt.mpirun(np_, [b["ppk_mpi"], "p.ini"], 60, cwd=d)
        files = [f for f in os.listdir(d) if f != "p.ini"]
        return dict(ev="launch", id="launch_%s_np%d_%d_%d_%d" % (sname, np_, *m), dim=dim, m=list(m), n=[6, 6, 6],
                    bc=[2, 2, 1, 1, 1, 1], np=np_, exit=255 if rc is None else (rc if rc >= 0 else 128 - rc),
                    finals=so.count("final time is"), files=len(files)), (rc, so[-500:], se[-500:])
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(launch, enumerate(todo)))
    info = {}
    for e, d in res:
        events.append(e)
        info[e["id"]] = d
    for i, why in vt.validate(run, "TraceTopology", "TraceTopology", events, "topo", canary=_corrupt):
        ev = [e for e in events if e["id"] == i][0]
        bad.append(dict(id=i, why=why, event=ev, out=info.get(i)))
    run.samples = [events[0], events[-1]]
    return vt.finish(run, bad, t0, rule="every process grid of %s processes for every finite-volume solver, random "
                     "boundary codes on all faces, sizes and domains; launches of the executable with matching and "
                     "mismatching grids" % nps, extra=dict(setups=len(events) - len(res), launches=len(res)),
                     assumptions=["MPI library gives Cartesian coordinates"])
