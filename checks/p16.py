"""P16: VTK snapshots"""
import os, random, math
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, fv, snap, vtk, bits


def sig6(a):
    return np.array([float("%.6g" % x) for x in np.asarray(a, dtype=float).ravel()])


def quant6(x, s):
    return [int(round(v / s * 1e6)) if math.isfinite(v) else -10 ** 9 for v in x]


def event(c, out, num):
    dim, nd, m, N = c.meta["dim"], c.meta["nd"], c.meta["m"], c.meta["N"]
    np_ = m[0] * m[1] * m[2]
    sdm = "SDM" in c.meta["s"]
    n = [N[a] // m[a] for a in range(3)]
    ext = "vtu" if sdm else "vti"
    mhd = c.meta["s"].startswith("MHD")
    names = snap.NAMES if mhd else snap.NAMES[:2 + dim]
    nf = nd ** dim
    ds = c.dumps("pre")
    if c.meta["mpi"]:
        fn = ["%s_time%07d_mpi%05d.%s" % (c.id, num, r, ext) for r in range(np_)]
    else:
        fn = ["%s_%07d.%s" % (c.id, num, ext)]
    F = [vtk.read(out + "/" + f) for f in fn]
    why = "; ".join("%s: %s" % (f["file"], f["why"]) for f in F if not f["ok"])
    asc = c.meta["ascii"]
    if not why and any(bool(f.get("text")) != bool(asc) for f in F) and not sdm:
        why = "text and binary mixed up"
    conv = sig6 if asc else (lambda a: np.asarray(a, dtype=float).ravel())
    want, pieces = [], []
    I = bits.Ids()
    vals = []
    for a, e in ds:
        g = e["gw"]
        b = a[:, g:-g, g:-g, :] if a.shape[0] == 1 else a[g:-g, g:-g, g:-g, :]
        vals.append([conv(b[..., v * nf:(v + 1) * nf]) for v in range(len(names))])
    I.learn(*[x for p in vals for x in p])
    L, lo, d = c.meta["L"], c.meta["lo"], c.meta["d"]
    for (a, e), p in zip(ds, vals):
        want.append(dict(pc=[e["org"][x] // n[x] for x in range(3)], v=[I.of(x) for x in p]))
    for f in F:
        q = dict(file=f["file"], names=[x for x in f["cell"]], types=[f["fmt"].get(x, "") for x in f["cell"]], v=[I.of(conv(f["arrays"][x])) for x in f["cell"]],
                 extent=f["piece"] or [], whole=f["whole"] or [], origin=[], spacing=[], points=[], conn=[], offsets=[], ctypes=[], edges=[], npoints=f["npoints"],
                 ncells=f["ncells"], cycle=-1, time=-1)
        if not sdm and f["ok"]:
            q["origin"], q["spacing"] = quant6(f["origin"], 1.0), quant6(f["spacing"], max(d[:dim]))
        if sdm and f["ok"]:
            P = f["arrays"].get("Points", np.zeros(0))
            P = P.reshape(-1, 3) if P.size % 3 == 0 else np.zeros((0, 3))
            Z = np.zeros((len(P), 3))
            for x in range(dim):
                Z[:, x] = (P[:, x] - lo[x]) / d[x] * 1e4
            if dim == 2:
                Z[:, 2] = P[:, 2] * 1e4
            Z = np.where(np.isfinite(Z), np.clip(np.rint(Z), -1e8, 1e8), -1e8).astype(int)
            q["points"] = Z.tolist()
            i64 = lambda k: [int(v) for v in f["arrays"].get(k, np.zeros(0))]
            q["conn"], q["offsets"], q["ctypes"] = i64("connectivity"), i64("offsets"), i64("types")
            # subdivision of an element along each axis, from the sub-cells of the first element
            org = [want[len(pieces)]["pc"][x] * n[x] * 10000 for x in range(3)]
            ed = []
            for x in range(dim):
                st = [1, nd, nd * nd][x]
                nc = 2 ** dim
                corner = [1, 2, 4][x]
                try:
                    ed.append([int(Z[q["conn"][t * st * nc]][x] - org[x]) for t in range(nd)] +
                              [int(Z[q["conn"][(nd - 1) * st * nc + corner]][x] - org[x])])
                except IndexError:
                    ed.append([0] * (nd + 1))
            q["edges"] = ed
            q["cycle"] = int(f["fields"].get("CYCLE", -1) or 0)
            q["time"] = int(vt.quant(f["fields"].get("TIME", -1), max(c.meta["t"], 1e-3), 1e-7))
        pieces.append(q)
    index = dict(there=0)
    if c.meta["mpi"]:
        x = vtk.read("%s/%s_time%07d.p%s" % (out, c.id, num, ext))
        if not x["ok"]:
            why = why or "index: " + x["why"]
        if x["ok"]:
            index = dict(there=1, names=x["order"][-len(names):], types=[x["fmt"].get(k, "") for k in x["order"][-len(names):]], sources=[p["source"] or "" for p in x["pieces"]],
                         extents=[p["extent"] or [] for p in x["pieces"]], whole=x["whole"] or [], origin=quant6(x["origin"], 1.0) if x["origin"] else [],
                         spacing=quant6(x["spacing"], max(d[:dim])) if x["spacing"] else [])
    sol = [int(round(1e4 * 0.5 * (1 - math.cos(math.pi * (2 * i + 1) / (2 * nd))))) for i in range(nd)]
    z = [0.0] * (3 - dim)
    return dict(ev="vtk", id=c.id, kind="mesh" if sdm else "image", dim=dim, nd=nd, n=n, m=list(m), names=names, type="Float64", why=why, want=want, pieces=pieces, index=index,
                origin=quant6(list(lo[:dim]) + z, 1.0), spacing=quant6(list(d[:dim]) + z, max(d[:dim])), sol=sol, num=num,
                time=int(vt.quant(c.meta["t"], max(c.meta["t"], 1e-3), 1e-7)))


def corrupt(e):
    k = e["pieces"][-1]
    if k["v"]:
        k["v"][-1][-1] += 1
    else:
        e["why"] = "x"


def check(run, t0):
    rng = random.Random(vt.SEED + 16)
    full = vt.THOROUGH
    pool = ThreadPoolExecutor(8)
    mcs = [pool.submit(vt.model, run, "MCVtk", c) for c in ("MCVtk2_1", "MCVtk2_3", "MCVtk3_1", "MCVtk3_3")]
    gen = fv.Gen(run, rng)
    out = run.sub("vtk")
    S, bad = [], []

    def add(s, nd, m, mpi, asc, it, ints, first, ghost=0):
        dim, sdm = states.dim_of(s), "SDM" in s
        g = states.ghost(s)
        n = rng.sample([2, 3, 4], 3) if sdm else [g + x + (dim == 2) * y for x, y in zip(rng.sample([0, 1, 2], 3), rng.sample([0, 2, 4], 3))]
        if sdm and nd ** dim > 20:
            n = [2, 3, 2] if mpi else [2, 2, 2]
        N = [n[0] * m[0], n[1] * m[1], n[2] * m[2] if dim == 3 else 1]
        L = [rng.choice([1.0, 0.75, 1.625]) for _ in range(3)]
        lo = [rng.choice([0.0, -0.5, 0.25]) if a < dim else 0.0 for a in range(3)]
        o = dict(hdf5_enabled=False, vtk_enabled=True, outputDir=out)
        if asc is not None:
            o["outputVtkAscii"] = bool(asc)
        if ghost:
            o["ghostIncluded"] = True
        A = None
        if ints:
            nv = (5 + 3 * s.startswith("MHD") if dim == 3 or s.startswith("MHD") else 4) * nd ** dim
            A = np.array(rng.sample(range(1, 999999), N[0] * N[1] * N[2] * nv), dtype=float).reshape(N[2], N[1], N[0], nv)
            A *= np.where(np.random.default_rng(len(S)).random(A.shape) < .3, -1, 1)
        mesh = dict((x + "min", lo[a]) for a, x in enumerate("xyz") if a < dim)
        mesh.update((x + "max", lo[a] + L[a]) for a, x in enumerate("xyz") if a < dim)
        c = gen.case(s, nd, "%s_%s%s" % ("txt" if asc else "bin", "mpi" if mpi else "ser", "i" if ints else ""), N=N, m=m, L=L, A=A, every=0,
                     extra=dict(output=o, mesh=mesh), kw=dict(cfl=0.2))
        c.cmds = [x for x in c.cmds if not x.startswith("dump")]
        if it and not ints:
            c.cmds.append("step %d 0 x" % it)
        c.cmds += ["save"] * first + ["dump pre", "save"]
        c.ini["output"]["outputPrefix"] = c.id
        c.meta.update(np=m[0] * m[1] * m[2], mpi=mpi, ascii=int(bool(asc)), lo=lo, first=first)
        S.append(c)

    for s in fv.FVS:
        dim = states.dim_of(s)
        grids = [(2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 2, 1), (1, 3, 1)] + ([(1, 1, 2), (2, 1, 2), (1, 2, 2), (2, 2, 2), (1, 2, 3)] if dim == 3 else [])
        for asc in (None, 1):
            for ints in (0, 1):
                for r in range(3 if full else 1):
                    add(s, 1, (1, 1, 1), 0, asc, rng.choice([0, 1, 2, 3]), ints, rng.choice([0, 2]), ghost=r == 1)
        for asc in (0, 1):
            for m in (grids if full else [(2, 2, 2 if dim == 3 else 1)] + rng.sample(grids, 2)):
                add(s, 1, m, 1, asc, rng.choice([0, 1, 2]), rng.random() < .5, rng.choice([0, 3]), ghost=rng.random() < .3)
        for it in (1, 2):
            add(s, 1, (1, 1, 1), 0, 0, it, 0, 0)
    for s, nd in fv.SDMS:
        for asc in (0, 1):
            add(s, nd, (1, 1, 1), 0, asc, rng.choice([0, 1, 2]), asc or rng.random() < .5, rng.choice([0, 2]))
        add(s, nd, (1, 1, 1), 0, 0, rng.choice([1, 2]), 0, 1)
    for s, nd in fv.SDMS_MPI:
        dim = states.dim_of(s)
        for asc in (0, 1):
            for m in [(2, 2, 2) if dim == 3 else (2, 2, 1)] + rng.sample([(2, 1, 1), (1, 2, 1), (3, 2, 1)] + ([(1, 1, 2)] if dim == 3 else []), 3 if full else 1):
                add(s, nd, m, 1, asc, rng.choice([0, 1, 2]), asc or rng.random() < .4, rng.choice([0, 1]))
    fv.execute(run, S, bad, pool)
    evs = []
    for c in S:
        if not c.ok:
            continue
        st = [e for e in c.ev[0] if e["ev"] == "saved"][-1]
        c.meta["t"] = float(st["t"])
        if st["saved"] != c.meta["first"] + 1:
            bad.append(dict(id=c.id, why="%s snapshots counted after %d were written" % (st["saved"], c.meta["first"] + 1), ini=c.ini))
            continue
        evs.append(event(c, out, c.meta["first"]))
    byid = {c.id: c for c in S}
    K = 6
    for f in [pool.submit(vt.validate, run, "TraceVtk", "TraceVtk", evs[i::K], "t%d" % i, 800, canary=corrupt) for i in range(K) if evs[i::K]]:
        for i, why in f.result():
            bad.append(dict(id=i, why=why, ini=byid[i].ini, cmds=byid[i].cmds))
    for f in mcs:
        f.result()
    pool.shutdown()
    run.samples = [dict(id=e["id"], n=e["n"], m=e["m"]) for e in evs[::max(1, len(evs) // 8)]]
    return vt.finish(run, bad, t0, rule="image and unstructured-grid snapshots, text and binary, serial and parallel, of random and integer-coded states: every value, extent, "
                     "origin, spacing, node, index entry",
                     extra=dict(snapshots=len(evs), parallel=sum(e["index"]["there"] for e in evs), values=sum(len(v) for e in evs for p in e["want"] for v in p["v"])))
