"""P05: the step limit"""
import json, random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, fv, cfl

GAM = 1.5


def conserved(pal, mhd, e, dim, ax=0):
    """conserved variables of a palette entry"""
    r, p, u = float(e["r"]), float(e["p"]), float(pal["u"])
    v = [x / u for x in e["v"]]
    if not mhd:
        v = v[:dim]
    U = [r, p / (GAM - 1) + 0.5 * r * sum(x * x for x in v)] + [r * x for x in v]
    if mhd:
        U[1] += 0.5 * pal["field"] ** 2
        U += [float(pal["field"]) if a == ax else 0.0 for a in range(3)]
    return U


def plants(pal, rng, s, nd, N, m, kind, ax, full):
    """states with one limiting cell: (array, gravity or None, palette entries of every process)"""
    dim = states.dim_of(s)
    mhd = kind == "mhd"
    P = pal["mhd"][ax] if mhd else pal["hydro"]
    C = [conserved(pal, mhd, e, dim, ax) for e in P]
    nv, nf = len(C[0]), nd ** dim
    n = [N[a] // m[a] for a in range(3)]
    where = []
    for pz in range(m[2]):
        for py in range(m[1]):
            for px in range(m[0]):
                o = [px * n[0], py * n[1], pz * n[2]]
                cs = {(x, y, z) for x in (0, n[0] - 1) for y in (0, n[1] - 1) for z in (0, n[2] - 1)}
                for _ in range(2):
                    cs.add(tuple(rng.randrange(n[a]) for a in range(3)))
                where += [tuple(o[a] + c[a] for a in range(3)) for c in sorted(cs)]
    rank = lambda x, y, z: (x // n[0]) + m[0] * ((y // n[1]) + m[1] * (z // n[2]))
    np_ = m[0] * m[1] * m[2]
    fast = list(range(1, len(P) - 1))
    out = []
    kk = rng.randrange(100)
    for w in where + [None] * 2:
        kk += 1
        idx = np.zeros((N[2], N[1], N[0], nf), int)
        if w is None:
            for q in np.ndindex(idx.shape):
                idx[q] = rng.choice([0] + fast)
        else:
            f = fast[kk % len(fast)]
            if dim == 2 and P[f]["v"][2] and abs(P[f]["v"][2]) > 8:
                f = fast[(kk + 1) % len(fast)]
            idx[w[2], w[1], w[0], kk % nf] = f
        A = np.array(C)[idx]                                  # k j i pt v
        A = np.ascontiguousarray(np.moveaxis(A, -1, -2)).reshape(N[2], N[1], N[0], nv * nf)
        q = None
        if kind == "grav":
            q = np.full(idx.shape[:3], 2)
            for c in np.ndindex(q.shape):
                q[c] = rng.choice([2, 3, 4] if idx[c][0] == 0 else [3, 4])
            if w is not None and kk % 2:
                idx[:] = 0
                q[:] = rng.choice([2, 3])
                q[w[2], w[1], w[0]] = rng.choice([4, 6])
                A = np.array(C)[idx][:, :, :, 0]
        out.append((A, idx, q))
    return out, C, rank, np_


def check(run, t0):
    rng = random.Random(vt.SEED + 5)
    full = vt.THOROUGH
    pool = ThreadPoolExecutor(8)
    palf = run.path("palette.json")
    vt.model(run, "CflGen", "CflGen", out_env=dict(OUT=palf))
    mcs = [pool.submit(vt.model, run, "StepLimit", "StepLimit")]
    pal = json.load(open(palf))
    G = fv.Gen(run, rng)
    bad, cases = [], []
    ALL = [(s, 1) for s in fv.FVS] + fv.SDMS
    nfile = [0]

    def exact(s, nd, m, kind="", ax=0, impl=0, clip=False):
        dim = states.dim_of(s)
        g = states.ghost(s)
        kind = kind or ("mhd" if s.startswith("MHD") else "hydro")
        n = [max(g, 2) + rng.randrange(3) for _ in range(3)]
        N = [n[a] * m[a] for a in range(3)]
        if dim == 2:
            N[2] = 1
        inv = rng.sample([4, 8, 16], 3)
        if kind == "grav":
            inv = [16, 8, 4]
            rng.shuffle(inv)
            if dim == 2 and 16 not in inv[:2]:
                inv[0] = 16
        L = [N[a] / inv[a] for a in range(3)]
        cn, cd = (1, 2) if kind == "grav" else rng.choice([(1, 2), (1, 4), (3, 8), (7, 8)])
        ps, C, rank, np_ = plants(pal, rng, s, nd, N, m, kind, ax, full)
        bc = [3] * 6 if kind == "mhd" else rng.choice([[3] * 6, [2] * 6, [1] * 6])
        zero = np.zeros((N[2], N[1], N[0], dim)) if kind == "grav" else None
        c = G.case(s, nd, "%s%d_i%d%s" % (kind, ax, impl, "clip" if clip else ""), N=N, L=L, m=m, bc=bc, A=ps[0][0], grav=zero, every=0,
                   kw=dict(gamma=GAM, cfl=cn / cd, impl=impl, tend=1e6, nstepmax=100000),
                   extra=dict(sdm=dict(limiter_enabled="true")) if "SDM" in s else None)
        cmds = c.cmds[:2]
        evs = []
        f8 = " ".join(map(repr, C[-1]))
        for A, idx, q in ps:
            nfile[0] += 1
            f = run.path("in", "p%d.bin" % nfile[0])
            states.write(f, A)
            cmds.append("set " + f)
            U = sorted({(rank(i, j, k), int(x)) for k, j, i, pt in np.ndindex(idx.shape) for x in [idx[k, j, i, pt]]})
            R = [[x for r, x in U if r == p] for p in range(np_)]
            if q is not None:
                us = [sum(pal["hydro"][x]["c"] + abs(pal["hydro"][x]["v"][d]) for d in range(dim)) for x in range(len(pal["hydro"]))]
                ginv = 16
                # total gravity in units of 1/4:  32 g cn = (q^2-4) u^2 cd invh
                gt = np.zeros(q.shape)
                cells = {}
                for kji in np.ndindex(q.shape):
                    x = int(idx[kji][0])
                    t = (int(q[kji]) ** 2 - 4) * us[x] ** 2 * cd * ginv
                    assert t % (32 * cn) == 0
                    gt[kji] = t // (32 * cn)
                    cells.setdefault(rank(kji[2], kji[1], kji[0]), set()).add((x + 1, int(q[kji]), t // (32 * cn)))
                sg = rng.choice([1, -1])
                part = [0.5, 0.5] if dim == 2 else [0.5, 0.25, 0.25]
                rng.shuffle(part)
                gf = run.path("in", "pg%d.bin" % nfile[0])
                states.write(gf, np.stack([gt / 4 * part[d] * (sg if d else -sg) for d in range(dim)], -1))
                cmds.append("gravity " + gf)
                R = [sorted(map(list, cells[p])) for p in range(np_)]
            else:
                R = [[x + 1 for x in r] for r in R]
            cmds += ["setghost " + f8] + ([] if "SDM" in s else ["setother " + f8])
            t_, te = 0.0, 1e6
            if clip:
                # around the step of the fastest palette entry
                t_, te = 1.0, 1.0 + rng.choice([2.0 ** -9, 2.0 ** -7, 2.0 ** -6, 2.0 ** -5])
            cmds += ["vars %r %r" % (t_, te), "step 1 0 s"]
            evs.append(dict(ev="exact", id=c.id, kind=kind, dim=dim, N=nd, inv=inv, invh=max(inv[:dim]), ax=ax + 1, cn=cn, cd=cd, resc=0, ranks=R,
                            t=[0] + vt.big(t_), tend=[0] + vt.big(te) if te < 100 else [1, 0, 0, 0, 0, 0, 0]))
        c.cmds = cmds
        c.meta["ev"] = evs
        cases.append(c)

    for rep in range(6 if full else 2):
        for s, nd in ALL:
            sdm = "SDM" in s
            dim = states.dim_of(s)
            grids = [(1, 1, 1)]
            if not sdm or (s, nd) in fv.SDMS_MPI:
                grids += [rng.choice([(2, 1, 1), (1, 2, 1), (3, 1, 1)]), rng.choice([(2, 2, 1), (1, 3, 1)] if dim == 2 else [(2, 2, 1), (1, 1, 2), (1, 1, 3)])]
            for k, m in enumerate(grids):
                for impl in [0] if sdm else (problems.IMPL[s] if k == 0 else [rng.choice(problems.IMPL[s])]):
                    exact(s, nd, m, impl=impl, ax=rng.randrange(3), clip=False)
                if s.startswith("Hydro_Muscl"):
                    exact(s, nd, m, kind="grav", impl=rng.choice(problems.IMPL[s]))
            if s.startswith("MHD"):
                for ax in range(3):
                    exact(s, nd, (1, 1, 1), ax=ax, impl=rng.choice(problems.IMPL[s]))
            exact(s, nd, grids[-1], clip=True)
            if sdm:           # step rescaled to the order of the scheme
                cn, cd = {(2, 2): (1, 2), (2, 3): (3, 4), (2, 4): (1, 1), (3, 2): (3, 4), (3, 3): (9, 8)}[(dim, nd)]
                for on, rk in ((1, fv.RK[2]), (1, fv.RK[3]), (0, fv.RK[1]), (0, fv.RK[2])):
                    N = [3, 4, 3 if dim == 3 else 1]
                    e = dict(r=6, p=1, v=[0, 0, 0])
                    A = np.broadcast_to(np.repeat(conserved(pal, False, e, dim), nd ** dim), (N[2], N[1], N[0], (2 + dim) * nd ** dim)).copy()
                    c = G.case(s, nd, "resc%d" % on, N=N, L=[x / 2 for x in N], A=A, every=0, kw=dict(gamma=GAM, cfl=cn / cd, tend=1e6),
                               extra=dict(sdm=dict(dict(rk), rescale_dt_enabled="true" if on or rk is fv.RK[1] else "false")))
                    c.cmds = c.cmds[:3] + ["vars 0 1000000", "step 1 0 s"]
                    c.meta["ev"] = [dict(ev="exact", id=c.id, kind="hydro", dim=dim, N=nd, inv=[2, 2, 2], invh=2, ax=1, cn=cn, cd=cd,
                                         resc=on, ranks=[[1]], t=[0] * 7, tend=[1, 0, 0, 0, 0, 0, 0])]
                    cases.append(c)
            # evolving states
            for k, m in enumerate(grids):
                for grav in ([False, True] if s.startswith("Hydro_Muscl") else [False]):
                    c = G.case(s, nd, "dyn%s" % ("grav" if grav else ""), m=m, every=1, steps=3 if not full else 6,
                               kind="smooth" if sdm else rng.choice(["rough", "smooth"]),
                               bc=[3] * 6 if s.startswith("MHD") else None, grav="random" if grav else None,
                               extra=dict(sdm=dict(fv.RK[1])) if sdm else None, state=dict(mach=0.4) if sdm else None,
                               kw=dict(cfl=0.375 if not sdm else 0.1875, gamma=1.5, impl=0 if sdm else rng.choice(problems.IMPL[s])))
                    c.meta["dyn"] = 1
                    if grav:
                        c.meta["G"] = np.random.default_rng(G.n).uniform(-1, 1, (c.meta["N"][2], c.meta["N"][1], c.meta["N"][0], c.meta["dim"]))
                    cases.append(c)
    fv.execute(run, cases, bad, pool)
    evs = []
    for c in cases:
        if not c.ok:
            continue
        st = [[e for e in c.ev[r] if e["ev"] == "step"] for r in range(c.meta["np"])]
        if "dyn" not in c.meta:
            if any(len(x) != len(c.meta["ev"]) for x in st):
                bad.append(dict(id=c.id, why="recorded %d steps of %d" % (len(st[0]), len(c.meta["ev"])), cmds=c.cmds[-6:]))
                continue
            for k, e in enumerate(c.meta["ev"]):
                evs.append(dict(e, dts=[vt.big(x[k]["dt"]) for x in st], k=k))
        else:
            A = fv.series(c)
            N, m, nd, dim = c.meta["N"], c.meta["m"], c.meta["nd"], c.meta["dim"]
            for k in range(min(len(A) - 1, len(st[0]))):
                s = c.meta["s"]
                C0 = c.meta["kw"]["cfl"]
                if "G" in c.meta:
                    W = [C0 / cfl.dt_cells(s, A[k], c.meta["d"], 1.5, C0, nd, c.meta["G"])[..., None]]
                else:
                    W = [x / c.meta["d"][a] * nd for a, x in enumerate(cfl.speeds(s, A[k], 1.5, nd))]
                top = float(sum(W).max())
                if not np.isfinite(top):
                    break
                u = 2.0 ** np.floor(np.log2(9e8 / top))
                Wq = np.stack([np.rint(w * u).astype(int) for w in W], -1)      # k j i pt d
                n = [N[a] // m[a] for a in range(3)]
                R = []
                for pz in range(m[2]):
                    for py in range(m[1]):
                        for px in range(m[0]):
                            b = Wq[pz * n[2]:(pz + 1) * n[2], py * n[1]:(py + 1) * n[1], px * n[0]:(px + 1) * n[0]]
                            R.append(b.reshape(-1, b.shape[-1]).tolist())
                evs.append(dict(ev="dyn", id=c.id, step=k + 1, ranks=R, inv=[int(round(min(C0 / x[k]["dt"] * u, 2e9))) if x[k]["dt"] > 0 else 2000000000 for x in st],
                                short=[0] * len(st), tol=20))

    def corrupt(e):
        if e["ev"] == "dyn":
            e["inv"][0] += 1000
        elif e["resc"] == 0 and e["tend"][0] == 1:
            e["dts"][0] = [x + (3 if k > 2 else 0) for k, x in enumerate(e["dts"][0])]
        else:
            return False
    K = 6
    seen = set()
    for f in [pool.submit(vt.validate, run, "TraceCfl", "TraceCfl", evs[i::K], "t%d" % i, 600, canary=corrupt) for i in range(K)]:
        for i, why in f.result():
            if i not in seen:
                c = next(c for c in cases if c.id == i)
                bad.append(dict(id=i, why=why, ini=c.ini, cmds=c.cmds[:8]))
            seen.add(i)
    for m in mcs:
        m.result()
    run.samples = [dict(id=e["id"], cells=sum(map(len, e["ranks"]))) for e in evs[:5]]
    return vt.finish(run, bad, t0, rule="one limiting cell planted at every corner and random places of every process's interior, ghosts and stale buffer filled with a faster fluid, "
                     "signal speeds exact; and the steps of evolving random states against every recorded cell",
                     extra=dict(exact=sum(e["ev"] == "exact" for e in evs), evolving=sum(e["ev"] == "dyn" for e in evs), runs=len(cases)))
