"""P07: HDF5 snapshots"""
import os, random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, fv, snap, bits


def blocks(c, tag):
    """[(array with ghosts, event, coordinates)] of every process"""
    n = [c.meta["N"][a] // c.meta["m"][a] for a in range(3)]
    return [(a, e, [e["org"][x] // n[x] for x in range(3)]) for a, e in c.dumps(tag)]


def kind_of(np_mode, ghost, allg, reas):
    if np_mode == 0:
        return "ghost" if ghost else "plain"
    if not reas:
        return "slabg" if ghost or allg else "slab"
    return "all" if allg else "ghost" if ghost else "plain"


def ev_file(c, e, names, kind):
    """the file against the blocks of all processes"""
    dim, m = c.meta["dim"], c.meta["m"]
    n = [c.meta["N"][a] // m[a] for a in range(3)]
    pre, post = blocks(c, "pre"), blocks(c, "post")
    gw = pre[0][1]["gw"]
    w = [gw, gw, gw if dim == 3 else 0]
    B = []
    for (a, _, pc), (g, ev, _) in zip(pre, post):
        x = g.copy()
        s = (slice(None) if dim == 2 else slice(gw, -gw), slice(gw, -gw), slice(gw, -gw))
        x[s] = a[s]
        B.append((x, ev["rank"], pc))
    st = [s for s in c.ev[0] if s["ev"] == "saved"][0]
    missing = [q for q in names if not e["ok"] or q not in e["data"] or e["data"][q]["cls"] != "float" or e["data"][q]["size"] != 8]
    got = [e["data"][q]["a"] for q in names] if not missing else [np.zeros((1, 1)) for _ in names]
    I = bits.Ids().learn(*[x for x, _, _ in B])
    d3 = [[int(x) for x in (list(g.shape[::-1]) + [1, 1, 1])[:3]] for g in got]
    at = e["attr"] if e["ok"] else {}
    T = bits.Ids().learn([st["t"]])
    grid = [at.get(k) for k in ("mx", "my", "mz")]
    return dict(ev="file", id=c.id, dim=dim, n=n, m=list(m), w=w, kind=kind, names=names, missing=missing, dims=d3,
                blocks=[dict(pc=pc, rank=r, v=[I.of(x[..., v]) for v in range(len(names))]) for x, r, pc in B],
                file=[I.of(g) for g in got], step=[st["saved"] - 1, int(at.get("time step", -1))], time=[T.of([st["t"]])[0], T.of([at.get("total time", -1.0)])[0]],
                sizes=[int(at.get(k, -1)) for k in ("nx", "ny", "nz")], grid=[] if None in grid else [int(x) for x in grid])


def ev_load(c, r):
    a, b = c.interior("pre"), r.interior("back")
    st = [s for s in c.ev[0] if s["ev"] == "saved"][0]
    sr = [s for s in r.ev[0] if s["ev"] == "state"][0]
    I, T = bits.Ids().learn(a), bits.Ids().learn([st["t"]])
    nv = a.shape[-1]
    return dict(ev="load", id=r.id, want=[I.of(a[..., v]) for v in range(nv)], got=[I.of(b[..., v]) for v in range(b.shape[-1])],
                step=[st["saved"] - 1, sr["saved"]], time=[T.of([st["t"]])[0], T.of([sr["t"]])[0]])


def corrupt(e):
    if e["ev"] == "file":
        v = e["file"][-1]
        v[len(v) // 2] += 1
    elif e["ev"] == "load":
        e["got"][0][0] += 1
    else:
        e["fine"][0][0] += 1


def judge(run, pool, evs, bad, cases, name="t", K=6):
    seen = set()
    for f in [pool.submit(vt.validate, run, "TraceSnapshot", "TraceSnapshot", evs[i::K], name + "%d" % i, 800, canary=corrupt) for i in range(K) if evs[i::K]]:
        for i, why in f.result():
            if i not in seen:
                c = next((c for c in cases if c.id == i), None)
                bad.append(dict(id=i, why=why, ini=c and c.ini, cmds=c and c.cmds))
            seen.add(i)


def check(run, t0):
    rng = random.Random(vt.SEED + 7)
    full = vt.THOROUGH
    pool = ThreadPoolExecutor(8)
    mcs = [pool.submit(vt.model, run, "MCSnapshot", c) for c in ("MCSnapshot2", "MCSnapshot3")]
    gen = fv.Gen(run, rng)
    out = run.sub("h5")
    S = []

    def add(s, m, mode, ghost, allg, reas, comp, it, bc, first=0):
        dim = states.dim_of(s)
        g = states.ghost(s)
        n = [g + rng.randrange(0, 3) + (dim == 2) * rng.randrange(0, 3) for _ in range(3)]
        N = [n[a] * m[a] for a in range(3)]
        o = dict(hdf5_enabled=True, vtk_enabled=False, outputDir=out)
        if ghost:
            o["ghostIncluded"] = True
        if allg:
            o["allghostIncluded"] = True
        if not reas:
            o["reassembleInFile"] = False
        if comp is not None:
            o["outputHdf5CompressionLevel"] = comp
        lab = kind_of(mode, ghost, allg, reas) + ("" if comp is None else "_z%d" % comp)
        c = gen.case(s, 1, lab, N=N, m=m, bc=bc, every=0, kind=rng.choice(["rough", "smooth"]), extra=dict(output=o), kw=dict(cfl=0.2),
                     grav="random" if not s.startswith("MHD") and rng.random() < .2 else None)
        c.meta.update(kind=kind_of(mode, ghost, allg, reas), np=max(c.meta["np"], 1), mode=mode)
        c.ini["output"]["outputPrefix"] = c.id
        c.cmds.pop()          # the dump of the start
        if it:
            c.cmds.append("step %d 0 x" % it)
        # earlier snapshots move the number on
        c.cmds += ["save"] * first + ["dump pre", "save", "bc", "dump post"]
        c.meta["first"] = first
        S.append(c)

    for s in fv.FVS:
        dim = states.dim_of(s)

        def bc():
            return [3] * 6 if rng.random() < .5 else sum([[3, 3] if rng.random() < .3 else [rng.choice([1, 2]), rng.choice([1, 2])] for _ in range(3)], [])
        # one process, serial executable
        for ghost in (0, 1):
            for comp in [None, rng.choice([1, 5, 9]), 0] + ([3, 7] if full else []):
                add(s, (1, 1, 1), 0, ghost, 0, 1, comp, rng.choice([0, 1, 2, 3]), bc())
        for it in (1, 2):
            add(s, (1, 1, 1), 0, 0, 0, 1, None, it, bc())
        grids = [(2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1)] if dim == 2 else [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 2)]
        if full:
            grids += [(1, 3, 1), (3, 2, 1), (2, 3, 1)] if dim == 2 else [(2, 2, 2), (1, 1, 3), (3, 1, 1), (1, 3, 2)]
        k = 0
        for ghost, allg, reas in [(0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1), (0, 0, 0), (1, 0, 0), (0, 1, 0)]:
            gs = grids if full else (rng.sample(grids, 3) if (ghost, allg, reas) in ((0, 0, 1), (1, 0, 1)) else [rng.choice(grids)])
            for m in gs:
                k += 1
                add(s, m, 1, ghost, allg, reas, None, k % 4, bc())
    for c in S:
        c.meta["np"] = c.meta["m"][0] * c.meta["m"][1] * c.meta["m"][2]
    bad = []
    fv.execute(run, S, bad, pool)
    b = vt.build("h5r")
    fn = {c.id: "%s/%s_%07d.h5" % (out, c.id, c.meta["first"]) for c in S}
    H = snap.read_h5(run, b["h5r"], [fn[c.id] for c in S if c.ok])
    # reading back: same settings, and other process grids where the arrangement allows
    R = []
    for c in S:
        if not c.ok:
            continue
        dim, N, m0 = c.meta["dim"], c.meta["N"], c.meta["m"]
        ms = [m0]
        if c.meta["kind"] in ("plain", "ghost"):
            g = states.ghost(c.meta["s"])
            o = [m for m in [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 1, 2), (3, 1, 1), (1, 3, 1)] if m != m0 and (dim == 3 or m[2] == 1)
                 and all(N[a] % m[a] == 0 and (N[a] // m[a] >= g or a == 2 and dim == 2) for a in range(3))]
            if o:
                ms.append(rng.choice(o))
        for m in ms:
            n = [N[a] // m[a] for a in range(3)]
            ini = vt.merge(c.ini, dict(mesh=dict(nx=n[0], ny=n[1], nz=n[2]), mpi=dict(mx=m[0], my=m[1], mz=m[2]),
                                       run=dict(restart_enabled=1, restart_filename=fn[c.id])))
            r = vt.Case(c.id + "_back%d%d%d" % m, ini, ["params", "new", "state", "dump back"], dict(c.meta, m=m, np=m[0] * m[1] * m[2]))
            R.append((c, r))
    fv.execute(run, [r for _, r in R], bad, pool)
    evs = []
    for c in S:
        if c.ok:
            names = snap.NAMES if c.meta["s"].startswith("MHD") else snap.NAMES[:2 + c.meta["dim"]]
            evs.append(ev_file(c, H[fn[c.id]], names, c.meta["kind"]))
    for c, r in R:
        if r.ok:
            evs.append(ev_load(c, r))
    judge(run, pool, evs, bad, S + [r for _, r in R])
    for f in mcs:
        f.result()
    pool.shutdown()
    run.samples = [dict(id=e["id"], kind=e.get("kind", "")) for e in evs[::max(1, len(evs) // 8)]]
    n = lambda k: sum(e["ev"] == k for e in evs)
    return vt.finish(run, bad, t0, rule="every arrangement of snapshots (interiors, outer ghosts, all ghosts, one after the other), compression levels, process grids and both "
                     "iteration parities: every value of the file is the value of the cell that belongs there, and reading it back restores state, number and time",
                     extra=dict(files=n("file"), loads=n("load"), values=sum(sum(map(len, e["file"])) for e in evs if e["ev"] == "file")))
