"""P08: restarts"""
import os, random, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, fv, snap, replica
from checks.p07 import judge as snap_judge

RES = 1e-9


def F(x):
    return float(np.float32(x))


def clock(c):
    """[(it, t, dt, saved)] from the start of the loop on"""
    return [(e["it"], replica.f(e["t"]), replica.f(e["dt"]), e["saved"]) for e in c.ev[0] if e["ev"] in ("begin", "step")]


def numbers(d, prefix):
    return sorted(int(f[len(prefix) + 1:-3]) for f in os.listdir(d) if f.startswith(prefix + "_") and f.endswith(".h5") and f[len(prefix) + 1:-3].isdigit())


def h5(d, prefix, n):
    return "%s/%s_%07d.h5" % (d, prefix, n)


def kill_run(run, exe, ini, d, at, delay, timeout=100):
    """start the run and end it the hard way after snapshot `at' has appeared"""
    open(d + "/p.ini", "w").write(vt.ini_text(ini))
    p = subprocess.Popen([exe, "p.ini"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                         env={**os.environ, **vt.ENV, "OMP_NUM_THREADS": "1"}, start_new_session=True)
    t0 = time.time()
    fn = h5(d, "o", at)
    while p.poll() is None and not os.path.exists(fn) and time.time() - t0 < timeout:
        time.sleep(0.002)
    time.sleep(delay)
    k = p.poll() is None
    if k:
        os.killpg(p.pid, signal.SIGKILL)
    p.wait()
    return k, p.returncode


def check(run, t0):
    rng = random.Random(vt.SEED + 8)
    full = vt.THOROUGH
    pool = ThreadPoolExecutor(8)
    mcs = [pool.submit(vt.model, run, "Restart", c) for c in ("MCRestart", "MCRestartR")]
    b = vt.build("drv", "drv_mpi", "ppk", "h5r")
    gen = fv.Gen(run, rng)
    out = run.sub("h5")
    bad, S = [], []

    def grids(dim):
        return rng.choice([(2, 1, 1), (1, 2, 1), (2, 2, 1)] + ([(1, 1, 2), (1, 2, 2)] if dim == 3 else []))

    def bcs():
        return sum([[3, 3] if rng.random() < .35 else [rng.choice([1, 2]), rng.choice([1, 2])] for _ in range(3)], [])

    # ---- uninterrupted runs
    def add(s, lab, m0, m1, bc, nout, prob=None, ghost=0, impl=0, reset=0, grav=False):
        dim, mhd, g = states.dim_of(s), s.startswith("MHD"), states.ghost(s)
        k = [max(m0[a], m1[a]) for a in range(3)]
        n = [k[a] * (g + rng.randrange(0, 2) + (dim == 2) * rng.randrange(0, 3)) + (k[a] == 1) * rng.randrange(1, 4) for a in range(3)]
        N = [n[0], n[1], n[2] if dim == 3 else 1]
        o = dict(hdf5_enabled=True, vtk_enabled=False, outputDir=out)
        if ghost:
            o["ghostIncluded"] = True
        kw = dict(cfl=0.4, tend=100.0, nstepmax=60, noutput=nout, impl=impl, riemann=rng.choice(problems.RIEMANN["MHD" if mhd else "Hydro"]), slope=rng.choice([1.0, 2.0]))
        if prob:
            sec, mesh = problems.variants(prob, dim, mhd, rng)
            kw["gamma"] = 1.4
            ini = problems.ini(s, prob, N, bc, sections=sec, mesh=mesh, extra=dict(output=o), **kw)
            ini["mpi"] = dict(mx=m0[0], my=m0[1], mz=m0[2])
            c = vt.Case("%s_%s_np%d%d%d_n%d-%d-%d_bc%s_%d" % (s, lab, *m0, *N, "".join(map(str, bc[:2 * dim])), len(S)), ini, ["params", "new"],
                        dict(s=s, nd=1, N=N, dim=dim, bc=bc[:2 * dim], m=m0, np=m0[0] * m0[1] * m0[2], set=[]))
            for a, x in enumerate("xyz"):
                c.ini["mesh"]["n" + x] = N[a] // m0[a]
        else:
            c = gen.case(s, 1, lab, N=N, m=m0, bc=bc, every=0, kind="rough", extra=dict(output=o), kw=kw, grav="random" if grav else None)
            c.meta["set"] = [x for x in c.cmds if x.startswith("gravity")]
            c.cmds = [x for x in c.cmds if not x.startswith("dump")]
        c.ini["output"]["outputPrefix"] = c.id
        c.meta.update(m1=m1, reset=reset, nout=nout, start=list(c.cmds))
        c.meta["np"] = m0[0] * m0[1] * m0[2]
        S.append(c)

    one = (1, 1, 1)
    for s in fv.FVS:
        dim, mhd = states.dim_of(s), s.startswith("MHD")
        for rep in range(3 if full else 1):
            add(s, "same", one, one, bcs(), rng.choice([3, 4]), impl=rng.choice(problems.IMPL[s]))
            add(s, "same", one, one, bcs(), -1, ghost=1, impl=rng.choice(problems.IMPL[s]))
            m = grids(dim)
            add(s, "par", m, m, bcs(), rng.choice([3, 4]))
            add(s, "join", grids(dim), one, bcs(), rng.choice([-1, 4]))
            add(s, "split", one, grids(dim), bcs(), rng.choice([2, 4]), ghost=rng.choice([0, 1]))
            add(s, "regrid", (2, 1, 1), (1, 2, 1), bcs(), 3)
            add(s, "reset", one, rng.choice([one, (2, 1, 1)]), bcs(), 4, reset=1)
        probs = [p for p in problems.of(s) if p not in ("wave",)]
        for p in probs:
            m0, m1 = rng.choice([(one, one), (one, one), (one, (2, 1, 1)), ((1, 2, 1), (1, 2, 1))])
            add(s, p, m0, m1, bcs(), rng.choice([3, 4]), prob=p, impl=rng.choice(problems.IMPL[s]))
        if not mhd:
            add(s, "grav", one, rng.choice([one, (2, 1, 1)]), [3] * 6, 3, grav=True)
            for p in ("rayleigh_taylor", "rising_bubble"):
                add(s, p, (2, 1, 1), one, [3, 3, 1, 1, 3, 3], 3, prob=p)
        if s == "Hydro_Muscl_2D":
            # boundaries set by the problem
            add(s, "wedge", one, one, [1] * 6, 4, prob="wedge") if "wedge" in problems.of(s) else None
    # how long a step is decides where the run ends
    P = []
    for c in S:
        p = vt.Case(c.id, vt.merge(c.ini, dict(run=dict(noutput=0))), c.meta["start"] + ["step 4 0 x"], c.meta)
        P.append(p)
    fv.execute(run, P, bad, pool)
    keep = []
    for c, p in zip(S, P):
        if not p.ok:
            continue
        t = [replica.f(e["t"]) for e in p.ev[0] if e["ev"] == "step"][-1]
        k = rng.uniform(7, 11) / 4
        if not np.isfinite(t) or t <= 0:
            bad.append(dict(id=c.id, why="no finite step", ini=c.ini))
            continue
        c.ini["run"]["tend"] = repr(F(t * k))
        c.cmds = c.meta["start"] + ["save", "dump s0", "run 1 60 s", "save"]
        keep.append(c)
    S = keep
    fv.execute(run, S, bad, pool)

    # ---- restarts
    need = [(c, n) for c in S if c.ok for n in numbers(out, c.id)]
    H = snap.read_h5(run, b["h5r"], [h5(out, c.id, n) for c, n in need])
    R = []
    for c in S:
        if not c.ok:
            continue
        cl = clock(c)
        nums = [n for cc, n in need if cc is c]
        at = {}
        for n in nums:
            e = H[h5(out, c.id, n)]
            tt = e["attr"].get("total time", -1) if e["ok"] else -1
            w = [i for i, x in enumerate(cl) if abs(x[1] - tt) <= 1e-13 * max(abs(tt), 1e-3)]
            if w:
                at[n] = w[-1]
        if not at:
            bad.append(dict(id=c.id, why="no snapshot of a recorded step among %s" % nums, ini=c.ini))
            continue
        inner = [n for n in at if 0 < at[n] < len(cl) - 1]
        pick = set(rng.sample(inner, min(len(inner), len(inner) if full else 2)))
        if rng.random() < .15 or full:
            pick.add(min(at))
        if rng.random() < .3 or full:
            pick.add(max(at))
        if not pick:
            pick = {max(at)}
        for n in sorted(pick):
            m = c.meta["m1"]
            N = c.meta["N"]
            ini = vt.merge(c.ini, dict(run=dict(restart_enabled=1, restart_filename=h5(out, c.id, n)), mpi=dict(mx=m[0], my=m[1], mz=m[2]),
                                       mesh=dict(nx=N[0] // m[0], ny=N[1] // m[1], nz=N[2] // m[2])))
            if c.meta["reset"]:
                ini["run"]["restart_reset_totaltime"] = "true"
            rid = "%s_re%d_np%d%d%d" % (c.id, n, *m)
            ini["output"] = dict(ini["output"], outputPrefix=rid)
            r = vt.Case(rid, ini, ["params", "new"] + c.meta["set"] + ["save", "dump s0", "run 1 60 s", "save"],
                        dict(c.meta, m=m, np=m[0] * m[1] * m[2], num=n, at=at[n]))
            R.append((c, r, cl, nums))

    # ---- restarts at twice the resolution, and runs that are killed, meanwhile
    fk = pool.submit(kills, run, b, rng.random(), full)
    fv.execute(run, [r for _, r, _, _ in R], bad, pool)
    H2 = {}
    ok = [x for x in R if x[1].ok]
    H2 = snap.read_h5(run, b["h5r"], [h5(out, r.id, n) for c, r, cl, nums in ok for n in numbers(out, r.id)])
    groups, evs = [], []
    for c, r, cl, nums in ok:
        groups.append(track(c, r))
        evs.append(counter(c, r, cl, nums, out, H, H2))
    byid = {r.id: r for _, r, _, _ in R}
    res, nval = replica.judge(run, groups, "re", pool=pool)
    kev, kbad = fk.result()
    bad += kbad
    K = 4
    parts = evs + kev
    for f in [pool.submit(vt.validate, run, "TraceRestart", "TraceRestart", parts[i::K], "c%d" % i, 600, canary=corrupt) for i in range(K) if parts[i::K]]:
        res += f.result()
    for i, why in res:
        c = byid.get(i)
        bad.append(dict(id=i, why=why, ini=c and c.ini, cmds=c and c.cmds))
    nup = upscale(run, rng, gen, pool, bad, full, out, b)
    for m in mcs:
        m.result()
    pool.shutdown()
    run.samples = [dict(id=e["id"], num=e["num"], steps=len(e["got"])) for e in evs[::max(1, len(evs) // 8)]]
    return vt.finish(run, bad, t0, rule="runs restarted from snapshots of random and built-in problems (same and other process grids, every snapshot arrangement that can be "
                     "read on another grid, gravity, reset clock, killed executables): states, steps, clock and snapshot numbers are those of the uninterrupted run; "
                     "restarts at twice the resolution start from the prolonged coarse state",
                     extra=dict(restarts=len(evs), killed=len(kev), upscaled=nup, values_compared=nval))


def track(c, r):
    """the uninterrupted run from the snapshot on, as reference of the restarted one"""
    A = replica.Ref(c, c.meta["s"])
    e = A.event()
    k = r.meta["at"]
    st = e["steps"][k:]
    off = st[0]["t"] if c.meta["reset"] else 0
    ref = dict(e, id="ref_" + r.id, steps=[dict(s, it=i, t=s["t"] - off, dt=s["dt"] if i else 0) for i, s in enumerate(st)])
    rep = A.replica(r)
    for i, s in enumerate(rep["steps"]):
        its = dict(enumerate(dict.fromkeys(r.tags())))
        if i == 0:
            s["dt"] = [0] * len(s["dt"])
        if i in its:
            pl = []
            for a, ev in r.dumps("s%d" % i):
                g = ev["gw"]
                x = a[:, g:-g, g:-g, :] if a.shape[0] == 1 else a[g:-g, g:-g, g:-g, :]
                pl.append(replica.q(x, A.sc, A.res))
            s["cells"] = pl
    if c.meta["reset"]:
        m = max(1, min(len(ref["steps"]) - 1, len(rep["steps"])))
        ref["steps"], rep["steps"] = ref["steps"][:m], rep["steps"][:m]
    return [ref, rep]


def counter(c, r, cl, nums, out, H, H2):
    cr = clock(r)
    sc = max(max(abs(x[1]) for x in cl), max([abs(x[1]) for x in cr if np.isfinite(x[1])] + [0]))
    q = lambda x: int(vt.quant(x, sc, RES))
    k, n = r.meta["at"], r.meta["num"]
    nout, tend = c.meta["nout"], float(c.ini["run"]["tend"])
    room = int(nout > 0 and tend / nout > 1.01 * max(x[2] for x in cl[1:]))
    rn = numbers(out, r.id)
    names = snap.NAMES if c.meta["s"].startswith("MHD") else snap.NAMES[:2 + c.meta["dim"]]
    A = replica.Ref(c, c.meta["s"])
    files = []
    if room and not c.meta["reset"]:
        for m in rn:
            if m not in nums:
                continue
            e, f = H[h5(out, c.id, m)], H2[h5(out, r.id, m)]
            a, b = snap.stack(e, names, c.meta["dim"]), snap.stack(f, names, c.meta["dim"])
            if a is None or b is None or a.shape != b.shape:
                files.append(dict(num=m, attr=-1, t=[0, 0], a=[], b=[0]))
            else:
                files.append(dict(num=m, attr=int(f["attr"].get("time step", -1)), t=[q(e["attr"].get("total time", -1)), q(f["attr"].get("total time", -1))],
                                  a=replica.q(a, A.sc, RES), b=replica.q(b, A.sc, RES)))
    return dict(ev="rs", id=r.id, num=n, room=room, reset=int(c.meta["reset"]), tol=3, want=[dict(t=q(x[1]), dt=q(x[2]), saved=x[3]) for x in cl[k:]],
                got=[dict(t=q(x[1]), dt=q(x[2]), saved=x[3]) for x in cr], wnums=[x for x in nums if x >= n], gnums=rn, files=files)


def corrupt(e):
    if len(e["got"]) > 1:
        e["got"][-1]["dt"] += 50
        e["got"][0]["saved"] += 1
    elif e["files"]:
        e["files"][0]["attr"] += 1
    else:
        e["got"][0]["saved"] += 1


def kills(run, b, seed, full):
    """executables ended by SIGKILL and restarted until they reach the end"""
    rng = random.Random(seed)
    evs, bad = [], []

    def one(i, s):
        rg = random.Random(seed + i)
        dim, mhd = states.dim_of(s), s.startswith("MHD")
        sec, mesh = problems.variants("blast", dim, mhd, rg)
        n = [14, 12, 10] if dim == 3 else [48, 40, 1]
        ini = problems.ini(s, "blast", n, [rg.choice([1, 2, 3])] * 6 if not mhd else [3] * 6, sections=sec, mesh=mesh, tend="0.25", nstepmax=1000, noutput=5, cfl=0.4,
                           extra=dict(output=dict(outputDir=".", outputPrefix="o", hdf5_enabled=True, vtk_enabled=False)))
        d0, d1 = run.sub("k%d_ref" % i), run.sub("k%d" % i)
        x = snap.Exe(run, b["ppk"], ini, 0, 1, 100, d=d0)
        cid = "%s_killed_%d" % (s, i)
        if x.rc != 0:
            return None, dict(id=cid, why="run failed rc=%s" % x.rc, detail=x.err[-500:], ini=ini)
        killed, cur = 0, ini
        start = 0
        for at in [rg.choice([1, 2]), rg.choice([3, 4]), 99]:
            if at == 99:
                y = snap.Exe(run, b["ppk"], cur, 0, 1, 100, d=d1)
                if y.rc != 0:
                    return None, dict(id=cid, why="restarted run failed rc=%s" % y.rc, detail=y.err[-500:], ini=cur)
                break
            k, _ = kill_run(run, b["ppk"], cur, d1, at, rg.choice([0, 0.001, 0.01, 0.03]))
            killed += k
            nums = numbers(d1, "o")
            H = snap.read_h5(run, b["h5r"], [h5(d1, "o", q) for q in nums])
            good = [q for q in nums if H[h5(d1, "o", q)]["ok"] and all(v in H[h5(d1, "o", q)]["data"] for v in ("rho", "energy")) and q < max(nums + [1])]
            if not good:
                break
            start = rg.choice(good[-2:])
            run.notes.append("killed=%s after %d, files %s, restarted from %d" % (k, at, nums, start))
            cur = vt.merge(ini, dict(run=dict(restart_enabled=1, restart_filename="o_%07d.h5" % start)))
        names = snap.NAMES if mhd else snap.NAMES[:2 + dim]
        w, g = numbers(d0, "o"), numbers(d1, "o")
        H = snap.read_h5(run, b["h5r"], [h5(d0, "o", q) for q in w] + [h5(d1, "o", q) for q in g])
        files = []
        sc = None
        V = states.variables(s)
        for q in [q for q in w if q in g]:
            e, f = H[h5(d0, "o", q)], H[h5(d1, "o", q)]
            a, c = snap.stack(e, names, dim), snap.stack(f, names, dim)
            if sc is None and a is not None:
                sc = replica.scales(V, [a])
            if a is None or c is None or a.shape != c.shape:
                files.append(dict(num=q, attr=-1, t=[0, 0], a=[], b=[0]))
                continue
            files.append(dict(num=q, attr=int(f["attr"].get("time step", -1)), t=[int(vt.quant(h["attr"].get("total time", -1), .25, RES)) for h in (e, f)],
                              a=replica.q(a, sc), b=replica.q(c, sc)))
        z = [dict(t=0, dt=0, saved=1)]
        return dict(ev="rs", id=cid, num=0, room=1, reset=0, tol=3, want=z, got=[dict(z[0])], wnums=w, gnums=g, files=files), None
    L = ["Hydro_Muscl_2D", "MHD_Muscl_3D"] + (["Hydro_Muscl_3D", "MHD_Muscl_2D"] * 3 if full else [])
    with ThreadPoolExecutor(4) as ex:
        for e, bd in ex.map(lambda p: one(*p), enumerate(L)):
            if bd:
                bad.append(bd)
            elif e:
                evs.append(e)
    return evs, bad


def upscale(run, rng, gen, pool, bad, full, out, b):
    S = []
    one = (1, 1, 1)
    for s in fv.FVS:
        dim, mhd, g = states.dim_of(s), s.startswith("MHD"), states.ghost(s)
        ms = [(one, one), (one, one), (one, (2, 1, 1)), ((1, 2, 1), (1, 2, 1)), ((2, 1, 1), (1, 2, 1))] + ([(one, (1, 1, 2))] if dim == 3 else [])
        if full:
            ms = ms * 3
        for i, (m0, m1) in enumerate(ms):
            k = [max(m0[a], m1[a]) for a in range(3)]
            n = [k[a] * (g + rng.randrange(0, 2)) + (k[a] == 1) * rng.randrange(0, 3) for a in range(3)]
            N = [n[0], n[1], n[2] if dim == 3 else 1]
            bc = [3] * 6 if i % 2 else sum([[3, 3] if rng.random() < .3 else [rng.choice([1, 2]), rng.choice([1, 2])] for _ in range(3)], [])
            evolve = i in (1, 3) if not full else i % 3 == 1
            o = dict(hdf5_enabled=True, vtk_enabled=False, outputDir=out, ghostIncluded=True)
            nv = 5 + 3 * mhd if dim == 3 or mhd else 4
            A = None
            if not evolve:
                A = np.array([rng.randrange(1, 400000) for _ in range(N[0] * N[1] * N[2] * nv)], dtype=float).reshape(N[2], N[1], N[0], nv)
            L = [1.0, 0.75, 1.625]
            c = gen.case(s, 1, "up" + ("e" if evolve else ""), N=N, m=m0, bc=bc, every=0, A=A, L=L, extra=dict(output=o))
            c.cmds = [x for x in c.cmds if not x.startswith("dump")]
            c.ini["output"]["outputPrefix"] = c.id
            if evolve:
                c.cmds.append("step %d 0 x" % rng.choice([1, 2, 3]))
            c.cmds += ["save", "dump c"]
            c.meta.update(np=m0[0] * m0[1] * m0[2], m1=m1, evolve=evolve)
            S.append(c)
    fv.execute(run, S, bad, pool)
    R = []
    for c in S:
        if c.ok:
            m = c.meta["m1"]
            N = [c.meta["N"][a] * (2 if a < c.meta["dim"] else 1) for a in range(3)]
            ini = vt.merge(c.ini, dict(run=dict(restart_enabled=1, restart_filename=h5(out, c.id, 0), restart_upscale="true"), mpi=dict(mx=m[0], my=m[1], mz=m[2]),
                                       mesh=dict(nx=N[0] // m[0], ny=N[1] // m[1], nz=N[2] // m[2])))
            r = vt.Case(c.id + "_fine%d%d%d" % m, ini, ["params", "new", "state", "dump f"],
                        dict(c.meta, m=m, np=m[0] * m[1] * m[2], N=N, d=[c.meta["L"][a] / N[a] for a in range(3)]))
            R.append((c, r))
    fv.execute(run, [r for _, r in R], bad, pool)
    H = snap.read_h5(run, b["h5r"], [h5(out, c.id, 0) for c, _ in R])
    ups, divs = [], []
    for c, r in R:
        if not r.ok:
            continue
        s, dim = c.meta["s"], c.meta["dim"]
        mhd = s.startswith("MHD")
        f = r.interior("f")
        cs = [e for e in c.ev[0] if e["ev"] == "saved"][-1]
        fs = [e for e in r.ev[0] if e["ev"] == "state"][-1]
        if fs["t"] != cs["t"] or fs["saved"] != 0:
            bad.append(dict(id=r.id, why="clock %s and number %s read back, %s and 0 were saved" % (fs["t"], fs["saved"], cs["t"]), ini=r.ini))
        if c.meta["evolve"]:
            if mhd:
                divs.append(fv.ev_div(r, 6, [f], r.id))
            continue
        e = H[h5(out, c.id, 0)]
        names = snap.NAMES if mhd else snap.NAMES[:2 + dim]
        a = snap.stack(e, names, dim) if e["ok"] else None
        if a is None:
            bad.append(dict(id=c.id, why="no coarse file", ini=c.ini))
            continue
        g = states.ghost(s)
        st = [0] * 5 + [1, 2, 3 if dim == 3 else 0] if mhd else [0] * len(names)
        fl = lambda x: np.where(np.isfinite(x) & (np.abs(x) < 1e8), np.rint(np.nan_to_num(x)), -7).astype(int).ravel().tolist()
        ups.append(dict(ev="up", id=r.id, n=r.meta["N"], w=[g, g, g if dim == 3 else 0], st=st, coarse=[fl(a[..., v]) for v in range(a.shape[-1])],
                        fine=[fl(2 * f[..., v]) for v in range(f.shape[-1])]))
    snap_judge(run, pool, ups, bad, S + [r for _, r in R], name="u")
    byid = {r.id: r for _, r in R}
    for i, why in fv.judge(run, divs, "ud", pool, K=2):
        bad.append(dict(id=i, why=why, ini=byid[i].ini))
    return len(ups) + len(divs)
