"""P20: static gravity"""
import math, random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, fv, replica

SV = ["Hydro_Muscl_2D", "Hydro_Muscl_3D"]


def corrupt(e):
    if e["ev"] == "step":
        e["imp"][0] += 50 * e["tol"] + 1000000
    elif e["ev"] == "fall":
        e["gain"][0][1] += 10 * e["tol"]
    elif e["ev"] == "same":
        e["diff"][0] = 10 * e["tol"] + 1
    elif e["ev"] == "uniform":
        e["hi"][0] += 1
    else:
        e["pts"][0]["a"][0] += 2


def ev_step(c):
    """one event per recorded step"""
    dim, K = c.meta["dim"], c.meta["K"]
    tags = list(dict.fromkeys(c.tags()))
    A = [c.interior(t) for t in tags]
    dts = {e["it"]: e["dt"] for e in c.ev[0] if e["ev"] == "step"}
    out = []
    for n, (a, b) in enumerate(zip(A, A[1:])):
        it = [e for e in c.ev[0] if e["ev"] == "dump" and e["tag"] == tags[n + 1]][0]["it"]
        dt = dts[it]
        S = a[..., 0] + b[..., 0]
        v = b[..., 2:2 + dim] / b[..., 0:1]
        B = S * S * dt / (16 * b[..., 0])
        big = max((np.abs(K) * S[..., None] * (1 + np.abs(v))).sum(), (K * K * B[..., None]).sum(), S.max(), 1.0)
        res = big / 5e8
        # rounding of the totals over dt/8
        noise = 4e-15 * max(np.abs(x).sum() for x in (a[..., 0], a[..., 1], *[a[..., 2 + d] for d in range(dim)])) / (dt / 8) / res
        q = lambda x: np.asarray(vt.quant(x, 1.0, res)).ravel()
        on = np.nonzero(np.any(K != 0, axis=-1).ravel())[0]
        SS, BB, AA = q(S), q(B), [q(S * v[..., d]) for d in range(dim)]
        KK = K.reshape(-1, dim)
        cells = [[int(x) for x in KK[i]] + [int(SS[i])] + [int(AA[d][i]) for d in range(dim)] + [int(BB[i])] for i in on]
        tot = lambda v_: math.fsum((b[..., v_] - a[..., v_]).ravel().tolist()) / (dt / 8)
        i1 = lambda x: int(vt.quant(x, 1.0, res))
        out.append(dict(ev="step", id="%s_step%d" % (c.id, n), dim=dim, tol=int(50 + noise), cells=cells, imp=[i1(tot(2 + d)) for d in range(dim)],
                        ene=i1(tot(1)), mass=i1(tot(0))))
    return out


def ev_fall(c):
    dim, k = c.meta["dim"], c.meta["k"]
    tags = list(dict.fromkeys(c.tags()))
    a, b = c.interior(tags[0]), c.interior(tags[-1])
    e1 = [e for e in c.ev[0] if e["ev"] == "dump" and e["tag"] == tags[-1]][0]
    t = e1["t"]
    gain = (b[..., 2:2 + dim] / b[..., :1] - a[..., 2:2 + dim] / a[..., :1]) / (t / 4)
    ei = lambda x: x[..., 1] - 0.5 * (x[..., 2:2 + dim] ** 2).sum(-1) / x[..., 0]
    dr, de = b[..., 0] / a[..., 0] - 1, ei(b) / ei(a) - 1
    g = [[int(vt.quant(f(gain[..., d]), 1.0, 1e-8)) for f in (np.min, np.max)] for d in range(dim)]
    dev = [int(vt.quant(f(x), 1.0, 1e-11)) for x in (dr, de) for f in (np.min, np.max)]
    return dict(ev="fall", id=c.id, dim=dim, k=list(k), gain=g, dev=dev, tol=100)


def check(run, t0):
    rng = random.Random(vt.SEED + 20)
    nrng = np.random.default_rng(vt.SEED + 20)
    full = vt.THOROUGH
    pool = ThreadPoolExecutor(8)
    mc = pool.submit(vt.model, run, "MCGravity", "MCGravityT" if full else "MCGravity")
    gen = fv.Gen(run, rng)
    steps, falls, sames, fields, off, fam = [], [], [], [], [], []

    def kinds(N, m, dim):
        """gravity fields in quarter units: in one cell at a time, along one axis, everywhere"""
        n = [N[a] // m[a] for a in range(3)]
        out = []
        cells = set()
        for p in np.ndindex(*m):
            cells.add(tuple(p[a] * n[a] for a in range(3)))
            cells.add(tuple((p[a] + 1) * n[a] - 1 for a in range(3)))
        cells = sorted(cells)
        rng.shuffle(cells)
        cells = cells[:8 if full else 3] + [tuple(rng.randrange(x) for x in N)]
        for q in cells:
            K = np.zeros((N[2], N[1], N[0], dim), int)
            K[q[2], q[1], q[0]] = [rng.choice([-3, -1, 1, 2, 4]) for _ in range(dim)]
            out.append(("cell", K))
        for d in range(dim):
            K = np.zeros((N[2], N[1], N[0], dim), int)
            K[..., d] = nrng.integers(-4, 5, K.shape[:-1])
            out.append(("axis%d" % d, K))
        out.append(("dense", nrng.integers(-4, 5, (N[2], N[1], N[0], dim))))
        return out

    for s in SV:
        dim = states.dim_of(s)
        grids = [(1, 1, 1), (2, 1, 1), (1, 2, 1)] + ([(1, 1, 2)] if dim == 3 else [])
        if full:
            grids += [(2, 2, 1)] + ([(2, 2, 2), (1, 2, 2)] if dim == 3 else [(3, 1, 1)])
        for impl in (0, 1):
            for m in grids if (full or impl == 0) else [(1, 1, 1), rng.choice(grids[1:])]:
                N = [rng.randrange(3, 6 if dim == 3 else 9) * m[a] for a in range(3)]
                if dim == 2:
                    N[2] = 1
                for name, K in kinds(N, m, dim):
                    e = dict(OTHER=dict(implementationVersion=impl), hydro=dict(riemann=rng.choice(["hllc", "hll", "approx"]), slope_type=rng.choice([1.0, 2.0]),
                             iorder=rng.choice([2, 2, 1])))
                    c = gen.case(s, 1, "v%d_%s" % (impl, name), N=N, grav=K / 4.0, m=m, steps=2, extra=e, state=dict(kind=rng.choice(["rough", "smooth"])),
                                 kw=dict(cfl=0.25))
                    c.meta["K"] = K
                    steps.append(c)
            # uniform fluid falls; the same with a process grid
            for m in [(1, 1, 1), rng.choice(grids[1:])]:
                for _ in range(3 if full else 2):
                    k = [rng.randrange(-4, 5) for _ in range(dim)]
                    N = [rng.randrange(3, 6) * m[a] for a in range(3)]
                    if dim == 2:
                        N[2] = 1
                    U = np.zeros((N[2], N[1], N[0], 2 + dim))
                    r, v, p = rng.uniform(.5, 2), [rng.uniform(-1, 1) for _ in range(dim)], rng.uniform(.5, 2)
                    U[..., 0], U[..., 1] = r, p / 0.4 + .5 * r * sum(x * x for x in v)
                    for d in range(dim):
                        U[..., 2 + d] = r * v[d]
                    c = gen.case(s, 1, "v%d_fall" % impl, N=N, A=U, grav=np.broadcast_to(np.array(k) / 4.0, (N[2], N[1], N[0], dim)).copy(), m=m,
                                 steps=6, every=6, extra=dict(OTHER=dict(implementationVersion=impl)))
                    c.meta["k"] = k
                    falls.append(c)
            # a zero field and none
            for m in [(1, 1, 1), rng.choice(grids[1:])]:
                for bc in ([3] * 6, [rng.choice([1, 2, 4]) for _ in range(6)]):
                    if m != (1, 1, 1) and bc[0] != 3:
                        continue
                    N = [rng.randrange(3, 6) * m[a] for a in range(3)]
                    if dim == 2:
                        N[2] = 1
                    e = dict(OTHER=dict(implementationVersion=impl))
                    A = states.state(s, N, [1 / x for x in N], rng.randrange(9999), gamma=1.4, kind="smooth")
                    pr = []
                    for g in (None, np.zeros((N[2], N[1], N[0], dim))):
                        # the last step is cut to the end time: the same size with and without
                        pr.append(gen.case(s, 1, "v%d_zero" % impl, N=N, A=A, grav=g, m=m, steps=1, bc=bc, L=[1.0] * 3, kw=dict(tend=0.002), extra=e))
                    sames.append(pr)
    # a field that varies from cell to cell: mirrored, turned and shifted with the state
    GV = lambda dim: [dict(g=3, ax=a, st=0) for a in range(1, dim + 1)]
    for s in SV:
        dim = states.dim_of(s)
        V = states.variables(s)
        for impl in (0, 1):
            for it in range(3 if full else 1):
                for lab, dims in [("x", [0]), ("y", [1]), ("z", [2]), ("all", [0, 1, 2])]:
                    if max(dims) >= dim and lab != "all":
                        continue
                    N = [rng.randrange(3, 7) for _ in range(3)]
                    N[2] = N[2] if dim == 3 else 1
                    per = [rng.randrange(2) for _ in range(3)]
                    bc = [x for a in range(3) for x in ([3, 3] if per[a] else [rng.choice([1, 2]), rng.choice([1, 2])])]
                    L = [rng.choice([1.0, .75, 1.625]) for _ in range(3)]
                    A = states.state(s, N, [L[a] / N[a] for a in range(3)], rng.randrange(10 ** 6), gamma=1.4, kind="rough")
                    G = np.zeros((N[2], N[1], N[0], dim))
                    # along the turned axes only or along all of them
                    for d in range(dim):
                        if lab == "all" or d not in dims or rng.random() < .5:
                            G[..., d] = nrng.uniform(-2, 2, G.shape[:-1])
                    kw = dict(cfl=0.3, riemann=rng.choice(["hllc", "hll", "approx"]), slope=rng.choice([1.0, 2.0]), impl=impl)
                    ref = gen.case(s, 1, "v%d_turn%s_ref" % (impl, lab), N=N, L=L, bc=bc, A=A, grav=G, steps=3, kw=kw)
                    reps = []
                    perm = rng.choice([(2, 1, 3)] if dim == 2 else [(2, 3, 1), (3, 1, 2), (1, 3, 2)])
                    for pm, rf in [((1, 2, 3), [int(a in dims) for a in range(3)])] + ([(perm, [0, 0, 0])] if lab == "all" else []):
                        rel = replica.relation(pm, [r if a < dim else 0 for a, r in enumerate(rf)], [rng.randrange(N[a]) if per[a] else 0 for a in range(3)], per)
                        P = gen.case(s, 1, "v%d_turn%s_p%s" % (impl, lab, "".join(map(str, pm))), N=replica.moved(rel, N), L=replica.moved(rel, L),
                                     bc=replica.moved_bc(rel, bc), A=replica.transform(A, V, V, rel, 1, dim, dim),
                                     grav=replica.transform(G, GV(dim), GV(dim), rel, 1, dim, dim), steps=3, kw=kw)
                        reps.append((P, rel))
                    fam.append((s, ref, reps))
    # fields set up by the problems
    for s in SV:
        dim = states.dim_of(s)
        for m in [(1, 1, 1), (2, 1, 1), (1, 2, 1)] + ([(1, 1, 2), (2, 1, 2)] if dim == 3 else []):
            np_ = m[0] * m[1] * m[2]
            for pb in ("rising_bubble", "rayleigh_taylor"):
                k = [rng.choice([-4, -3, -1, 1, 2, 5]) for _ in range(dim)]
                sec = {pb: {"g" + "xyz"[d]: k[d] / 4.0 for d in range(dim)}, "gravity": dict(static="true")}
                ini = problems.ini(s, pb, [4, 4, 4 if dim == 3 else 1], [3] * 6, sections=sec, m=m)
                fields.append(vt.Case("%s_%s_np%d%d%d" % (s, pb, *m), ini, ["params", "new", "dumpgrav g"], dict(dim=dim, s=s, np=np_, k=k, m=m)))
            soft, G, M = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([1, 3])
            n = [4, 6, 4 if dim == 3 else 1]
            sec = dict(gravity=dict(point="true", x=0.0, y=0.0, z=0.0, G=float(G), M=float(M), soften=soft / 2.0), disk=dict(radius=3.0))
            mesh = {}
            for a, q in enumerate("xyz"):
                o = rng.choice([0.0, -5.0, 2.0])
                mesh[q + "min"], mesh[q + "max"] = o, o + n[a] * m[a]
            ini = problems.ini(s, "disk", n, [2] * 6, sections=sec, mesh=mesh, m=m)
            fields.append(vt.Case("%s_disk_np%d%d%d" % (s, *m), ini, ["params", "new", "dumpgrav g"],
                                  dict(dim=dim, s=s, np=np_, soft=soft, gm=G * M, N=[n[a] * m[a] for a in range(3)], m=m)))
        for pb in ("rising_bubble", "rayleigh_taylor", "disk"):
            ini = problems.ini(s, pb, [6, 6, 6 if dim == 3 else 1], [2] * 6)
            off.append(vt.Case("%s_%s_nogravity" % (s, pb), ini, ["params", "new", "dump s0", "step 1 1 s"], dict(dim=dim, s=s, np=1)))
    bad = []
    turned = [c for s, ref, reps in fam for c in [ref] + [r[0] for r in reps]]
    fv.execute(run, steps + falls + [c for p in sames for c in p] + fields + off + turned, bad, pool)
    failed = {b["id"] for b in bad}
    evs = []
    for c in steps:
        if c.id not in failed:
            evs += ev_step(c)
    for c in falls:
        if c.id not in failed:
            evs.append(ev_fall(c))
    for a, b in sames:
        if a.id in failed or b.id in failed:
            continue
        x, y = a.interior(a.tags()[-1]), b.interior(b.tags()[-1])
        V = states.variables(a.meta["s"])
        sc = fv.scale_groups(V, [float(np.abs(x[..., v]).max()) for v in range(len(V))])
        evs.append(dict(ev="same", id=b.id, tol=200, diff=[int(vt.quant(np.abs(x[..., v] - y[..., v]).max(), sc[v], 1e-13)) for v in range(len(V))]))
    for c in fields:
        if c.id in failed:
            continue
        dim, m = c.meta["dim"], c.meta["m"]
        if "k" in c.meta:
            f = [a for a, _ in c.dumps("g")]
            lo, hi = [min(x[..., d].min() for x in f) * 4 for d in range(dim)], [max(x[..., d].max() for x in f) * 4 for d in range(dim)]
            ex = lambda x: int(x) if x == int(x) and abs(x) < 1e6 else 10 ** 8
            evs.append(dict(ev="uniform", id=c.id, dim=dim, k=c.meta["k"], lo=[ex(x) for x in lo], hi=[ex(x) for x in hi]))
            continue
        N, pts = c.meta["N"], []
        for a, e in c.dumps("g"):
            gw, o = e["gw"], e["org"]
            sh = a.shape
            for k, j, i in np.ndindex(*sh[:3]):
                if rng.random() > (1.0 if full else 0.5):
                    continue
                q = [o[0] + i - gw, o[1] + j - gw, o[2] + k - gw]
                aa = [2 * q[d] + 1 - N[d] for d in range(dim)]
                g = [float(x) for x in a[k, j, i]]
                pts.append(dict(a=aa, g2=[[0] + vt.big(x * x) for x in g], sg=[1 if x > 0 else -1 for x in g]))
        for n in range(0, len(pts), 400):
            evs.append(dict(ev="point", id="%s_%d" % (c.id, n), dim=dim, soft=c.meta["soft"], gm=c.meta["gm"], pts=pts[n:n + 400]))
    groups = []
    for s, ref, reps in fam:
        if ref.ok:
            R = replica.Ref(ref, s)
            groups.append([R.event()] + [R.replica(P, rel) for P, rel in reps if P.ok])
    rj = pool.submit(replica.judge, run, groups, "turn", 2)
    parts = [evs[i::4] for i in range(4)]
    fs = [pool.submit(vt.validate, run, "TraceGravity", "TraceGravity", p, "g%d" % i, 800, canary=corrupt) for i, p in enumerate(parts)]
    seen = set()
    every = {c.id: c for c in steps + falls + [c for p in sames for c in p] + fields}
    for f in fs:
        for i, why in f.result():
            c = every.get(i) or every.get(i.rsplit("_", 1)[0])
            if i not in seen:
                bad.append(dict(id=i, why=why, ini=c and c.ini, cmds=c and c.cmds[:8]))
            seen.add(i)
    every.update((c.id, c) for c in turned)
    for i, why in rj.result()[0]:
        c = every.get(i)
        bad.append(dict(id=i, why=why, ini=c and c.ini, cmds=c and c.cmds[:8]))
    mc.result()
    pool.shutdown()
    n = lambda k: sum(e["ev"] == k for e in evs)
    run.samples = [dict(id=e["id"], ev=e["ev"]) for e in evs[::max(1, len(evs) // 6)]]
    return vt.finish(run, bad, t0, rule="the gain of momentum and energy of every recorded step with gravity in one cell, along one axis and everywhere, the free "
                     "fall of a uniform fluid, zero against no gravity, and the gravity fields set up by the built-in problems, satisfy the source step of Gravity.tla; fields varying from cell to cell are turned with the state",
                     extra=dict(steps=n("step"), falls=n("fall"), zero=n("same"), fields=n("uniform") + n("point"), without_gravity=len(off), turned=len(turned)))
