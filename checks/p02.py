"""P02: ghost cells hold their prescribed value"""
import random, itertools, os
import numpy as np
from concurrent.futures import ThreadPoolExecutor
import vt
from p03 import grids

# vector axis of each variable (0 scalar)
AX = {"Hydro_Muscl_2D": [0, 0, 1, 2], "Hydro_Muscl_3D": [0, 0, 1, 2, 3],
      "MHD_Muscl_2D": [0, 0, 1, 2, 3, 1, 2, 3], "MHD_Muscl_3D": [0, 0, 1, 2, 3, 1, 2, 3]}
FV = [("Hydro_Muscl_2D", 2, 2, 1), ("MHD_Muscl_2D", 2, 3, 1), ("Hydro_Muscl_3D", 3, 2, 1), ("MHD_Muscl_3D", 3, 3, 1)]
SDM = [("Hydro_SDM_2D_degree%d" % n, 2, 1, n) for n in (2, 3, 4)] + [("Hydro_SDM_3D_degree%d" % n, 3, 1, n) for n in (2, 3)]
FACES = ["xmin", "xmax", "ymin", "ymax", "zmin", "zmax"]


def tagged(dim, G, nv, nd, path):
    nf = nd ** dim
    n = G[0] * G[1] * (G[2] if dim == 3 else 1) * nv * nf
    (np.arange(n, dtype="<f8") + 1).tofile(path)


def _corrupt(e):
    v = e["ranks"][-1]["vals"]
    v[len(v) // 3] += 1


def check(run, t0):
    rng = random.Random(vt.SEED)
    b = vt.build("drv", "drv_mpi", "drv_sdm", "drv_sdm_mpi")
    pool = ThreadPoolExecutor(4)
    mc = pool.submit(vt.model, run, "MCHalo", "MCHalo")
    bad, events = [], []
    full = vt.THOROUGH

    def bcs(k, dim):
        """cover every code on every face and every pair of codes on adjacent axes over the cases"""
        out = []
        for i in range(k):
            ax = []
            for a in range(3):
                if rng.random() < 0.34:
                    ax += [3, 3]
                else:
                    ax += [rng.choice([1, 2]), rng.choice([1, 2])]
            out.append(ax)
        return out

    def add(cases, s, np_, m, bc, n=None, tagx=""):
        sname, dim, gw, nd = s
        lo = max(gw, 2)
        if n is None:
            n = [rng.randint(lo, 4), rng.randint(lo, 4), rng.randint(lo, 3 if gw < 3 else 4) if dim == 3 else 1]
            if n[0] == n[1]:
                n[1] += 1
            if rng.random() < (0.35 if np_ <= 4 else 0.15):   # elongated sub-domains
                n[rng.randrange(dim)] = rng.randint(8, 11)
        mesh = dict(nx=n[0], ny=n[1], nz=n[2])
        for f, c in zip(FACES, bc):
            mesh["boundary_type_" + f] = c
        G = [n[i] * m[i] for i in range(3)]
        ax = AX.get(sname) or AX["Hydro_Muscl_%dD" % dim]
        cid = "%s_np%d_%d%d%d_n%d%d%d_bc%s%s" % (sname, np_, *m, *n, "".join(map(str, bc[:2 * dim])), tagx)
        if any(c.id == cid for c in cases):
            return
        f = run.path("in", cid + ".bin")
        tagged(dim, G, len(ax), nd, f)
        ini = dict(run=dict(solver_name=sname, tend=1.0, nstepmax=1, noutput=0), mesh=mesh,
                   mpi=dict(mx=m[0], my=m[1], mz=m[2]), hydro=dict(problem="blast"))
        cases.append(vt.Case(cid, ini, ["params", "new %d %d" % (dim, nd), "setnb %s -77777777" % f, "bc", "dump a"],
                             dict(dim=dim, gw=gw, nd=nd, m=m, n=n, bc=bc, ax=ax)))

    batches = []
    # serial: all nine combinations per axis pair (mixed with the other axes), by coverage of faces x codes
    for s in FV + SDM:
        sname, dim, gw, nd = s
        key = "drv_sdm" if "SDM" in sname else "drv"
        cases = []
        combos = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3)]
        allbc = list(itertools.product(combos, repeat=dim))
        if not full and dim == 3:
            # pairwise cover of 5x5x5 by latin square
            allbc = [(combos[i], combos[j], combos[(i + j) % 5]) for i in range(5) for j in range(5)]
            if nd >= 3 or gw >= 3:
                allbc = allbc[::2]
        for x in allbc:
            bc = [c for p in x for c in p] + [1, 1] * (3 - dim)
            add(cases, s, 1, (1, 1, 1), bc)
        batches.append((key, 1, cases))
    mp = [1, 2, 3, 4, 6, 8] + ([12] if full else [])
    for np_ in mp:
        for key, group in (("drv_mpi", FV), ("drv_sdm_mpi", [s for s in SDM if (s[1], s[3]) in ((2, 2), (2, 3), (3, 2))])):
            cases = []
            for s in group:
                sname, dim, gw, nd = s
                gs = list(grids(np_, dim))
                if not full and dim == 3 and len(gs) > 4:
                    g0 = [m for m in gs if max(m) < np_] or gs
                    gs = rng.sample(g0, min(3, len(g0))) + [rng.choice(gs)]
                for m in gs:
                    for bc in bcs((4 if full else 2) if dim == 2 else (3 if full else 1), dim):
                        add(cases, s, np_, m, bc)
                    if dim == 2 or full:
                        add(cases, s, np_, m, [3] * 6)
            if key == "drv_sdm_mpi" and np_ == 8 and not full:
                cases = cases[::2]
            batches.append((key, np_, cases))

    for key, np_, cases in batches:
        for c in vt.run_cases(run, b[key], cases, np_=np_, name=key + str(np_)):
            bad.append(dict(id=c.id, why="ghost fill did not complete: rc=%s" % c.rc, detail=c.err, ini=c.ini))
        for c in cases:
            if not c.ok:
                continue
            k = c.meta
            ranks = []
            for r, (arr, e) in enumerate(c.dumps("a")):
                o = e["org"]
                pos = [o[i] // k["n"][i] for i in range(3)]
                q = vt.quant(arr, 1.0, 1.0)
                # exactness: non integers become a value no cell can have
                q[np.where(arr != q)] = -2000000001
                ranks.append(dict(pos=pos, vals=q.reshape(-1).tolist()))
            events.append(dict(ev="halo", id=c.id, dim=k["dim"], m=list(k["m"]), n=k["n"], bc=k["bc"], gw=k["gw"],
                               nd=k["nd"], ax=k["ax"], ranks=ranks))
    # split over parallel TLC runs, balanced by size
    size = lambda e: sum(len(r["vals"]) for r in e["ranks"])
    K = 6
    parts = [[] for _ in range(K)]
    load = [0] * K
    for e in sorted(events, key=size, reverse=True):
        i = load.index(min(load))
        parts[i].append(e)
        load[i] += size(e)
    fs = [pool.submit(vt.validate, run, "TraceHalo", "TraceHalo", p, "halo%d" % i, 800,
                      canary=_corrupt) for i, p in enumerate(parts)]
    byid = {e["id"]: e for e in events}
    for f in fs:
        for i, why in f.result():
            e = byid[i]
            bad.append(dict(id=i, why=why, event={k: v for k, v in e.items() if k != "ranks"}))
    mc.result()
    run.samples = [{k: v for k, v in e.items() if k != "ranks"} for e in events[:3]]
    return vt.finish(run, bad, t0, rule="every finite-volume solver and SDM degree; all combinations of the three "
                     "conditions over the axes (pairwise in 3D), process grids of %s processes" % mp,
                     extra=dict(ghost_arrays=sum(len(e["ranks"]) for e in events), cells_compared=sum(load)))
