"""P04: the clock"""
import random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, fv, cfl, snap

F = lambda x: round(x * 2**22) / 2**22      # exact in single precision as well


def clock(c, r, used=None):
    out = []
    for e in c.ev[r]:
        if e["ev"] in ("begin", "step"):
            out.append(dict(it=e["it"], t=vt.big(e["t"]), dt=vt.big(e["dt"]), used=-1))
    for k, u in enumerate(used or []):
        if k + 1 < len(out):
            out[k + 1]["used"] = u
    return out


def event(cid, ranks, t0, tend, nmax, whole=1, utol=2000, **kw):
    e = dict(ev="run", id=cid, ranks=ranks, t0=vt.big(t0), tend=vt.big(tend), nmax=nmax, nout=0, first=0, exact=0, out=0, snaps=[], index=[-1],
             whole=whole, utol=utol, ulp=3 + int(tend * 4))
    e.update(kw)
    return e


def check(run, t0):
    rng = random.Random(vt.SEED)
    full = vt.THOROUGH
    pool = ThreadPoolExecutor(8)
    mcs = [pool.submit(vt.model, run, "MCTimeLoop", c) for c in ("MCTimeLoop", "MCTimeLoopR")]
    exe = pool.submit(vt.build, "ppk", "ppk_mpi", "h5r")
    G = fv.Gen(run, rng)
    bad, cases = [], []
    ALL = [(s, 1) for s in fv.FVS] + fv.SDMS
    for rep in range(4 if full else 1):
        for s, nd in ALL:
            dim = states.dim_of(s)
            g = states.ghost(s)
            sdm = "SDM" in s
            par = not sdm or (s, nd) in fv.SDMS_MPI
            # the step that really advanced the state, from the mass flux of a contact
            for k, m in enumerate([(1, 1, 1)] + ([rng.choice([(2, 1, 1), (1, 2, 1), (2, 2, 1)])] if par else [])):
                for impl in ([0] if sdm else problems.IMPL[s] if k == 0 else [problems.IMPL[s][-1]]):
                    N = [40 * m[0], g * m[1], g if dim == 3 else 1]
                    mhd = s.startswith("MHD")
                    u = rng.choice([0.75, 1.25, -0.8])
                    rl, rr = (2.0, 0.5) if rng.random() < .5 else (0.7, 1.9)
                    A = cfl.contact(s, N, nd, u, 1.3, 1.4, rl, rr, N[0] // 2, B=(0.3, 0.2, -0.1) if mhd else (0, 0, 0), vt=(0.2, -0.1))
                    ex = dict(sdm=dict(rng.choice(fv.RK))) if sdm else None
                    nst = 3
                    c = G.case(s, nd, "contact_i%d" % impl, N=N, m=m, bc=[2, 2, 3, 3, 3, 3], A=A, every=0, extra=ex,
                               kw=dict(impl=impl, cfl=0.4, tend=100.0, nstepmax=nst))
                    c.cmds.append("run 1 1000000 s")
                    c.meta.update(u=u, rl=rl, rr=rr, t0=0.0, tend=100.0, nmax=nst, cont=True)
                    cases.append(c)
            # stopping
            for mode in ("time", "steps", "both", "one", "none", "late", "zero"):
                m = rng.choice([(2, 1, 1), (1, 2, 1)]) if par and mode in ("time", "one") and rng.random() < .6 else (1, 1, 1)
                c = G.case(s, nd, mode, m=m, every=0, bc=[3] * 6, kind="smooth" if mode == "time" else "rough", kw=dict(cfl=0.4))
                dt = float(cfl.dt_cells(s, c.meta["A"], c.meta["d"], 1.4, 0.4, nd).min())
                t0_ = F(rng.uniform(0.1, 2)) if mode in ("late", "zero") else 0.0
                nmax = {"steps": rng.randrange(1, 6), "none": 0, "both": 1}.get(mode, 60)
                tend = t0_ + {"one": F(dt * .3), "both": F(dt * .5), "zero": 0.0, "none": 1.0, "steps": 10.0}.get(mode, F(dt * rng.uniform(2.5, 7)))
                c.ini["run"].update(tend=repr(tend), nstepmax=nmax, tCurrent=repr(t0_))
                c.cmds.append("run 0 80 s")
                c.meta.update(t0=t0_, tend=tend, nmax=nmax, cont=False)
                cases.append(c)
    # an end just before, at and just after the times a first run steps through
    first = []
    for s, nd in ALL:
        par = "SDM" not in s or (s, nd) in fv.SDMS_MPI
        for rep in range(3 if full else 1):
            m = rng.choice([(1, 1, 1), (2, 1, 1)]) if par else (1, 1, 1)
            c = G.case(s, nd, "first", m=m, every=0, bc=[3] * 6, kind="smooth", kw=dict(cfl=0.4))
            c.ini["run"].update(tend="3.5", nstepmax=5)
            c.cmds.append("run 0 80 s")
            c.meta.update(t0=0.0, tend=3.5, nmax=5, cont=False)
            first.append(c)
    fv.execute(run, first, bad, pool)
    for c in first:
        st = c.events("step") if c.ok else []
        for rep in range(8 if full else 4):
            if len(st) < 3:
                break
            e = rng.choice(st[1:4])
            # (a run ends when less than 1e-14 is left, an end is a number of single precision)
            x = rng.choice([-3e-5, -1e-4, -5e-4, -1e-3, -1e-2, 1e-4, 1e-3, 1e-2]) if rep else -5e-4
            tend = F(e["t"] + x * e["dt"])
            k = vt.Case("%s_end%d" % (c.id, rep), vt.merge(c.ini, dict(run=dict(tend=repr(tend), nstepmax=60))), c.cmds, dict(c.meta, tend=tend, nmax=60))
            cases.append(k)
    fv.execute(run, cases, bad, pool)
    cases = first + cases
    evs = []
    for c in cases:
        if not c.ok:
            continue
        used = None
        if c.meta["cont"]:
            A = fv.series(c)
            d = c.meta["d"]
            V = states.variables(c.meta["s"])
            w = fv.weights(c.meta["nd"], c.meta["dim"])
            mass = [float((a[..., :len(w)] * w).sum()) * d[0] for a in A]
            L = c.meta["N"][1] * c.meta["N"][2]
            dts = [e["dt"] for e in c.events("step")]
            used = [int(vt.quant((mass[k + 1] - mass[k]) / ((c.meta["rl"] - c.meta["rr"]) * c.meta["u"] * L), dts[k], 1e-9)) for k in range(len(dts))
                    if k + 1 < len(mass)]
            if len(used) != c.meta["nmax"]:
                bad.append(dict(id=c.id, why="contact run recorded %d steps" % len(used)))
        evs.append(event(c.id, [clock(c, r, used if r == 0 else None) for r in range(c.meta["np"])], c.meta["t0"], c.meta["tend"], c.meta["nmax"]))

    # ---------------------------------------------------------------- the executables: the clock of every snapshot
    b = exe.result()
    jobs = []
    for s in fv.FVS:
        for mode, np_ in (("time", 0), ("steps", 0), ("time", 2)) if full or s in ("Hydro_Muscl_2D", "MHD_Muscl_3D") else (("time", 0),):
            n = [8, 8, 4] if states.dim_of(s) == 3 else [16, 16, 1]
            tend, nmax = (F(rng.uniform(.01, .03)), 60) if mode == "time" else (F(rng.uniform(1, 2)), 4)
            ini = problems.ini(s, "blast", n, [3] * 6, sections=dict(run=dict(tCurrent="0.5" if mode == "time" else "0.0")), cfl=0.4,
                               m=(2, 1, 1) if np_ else (1, 1, 1), noutput=-1,
                               extra=dict(output=dict(outputDir=".", outputPrefix="o", hdf5_enabled="true", vtk_enabled="false")))
            t0_ = 0.5 if mode == "time" else 0.0
            ini["run"].update(tend=repr(t0_ + tend), nstepmax=nmax)
            cid = "%s_exe_%s_np%d" % (s, mode, np_)
            jobs.append((cid, t0_, t0_ + tend, nmax, ini, pool.submit(snap.Exe, run, b["ppk_mpi" if np_ else "ppk"], ini, np_, 1, 120, cid)))
    xs = [(cid, a, e, n, ini, j.result()) for cid, a, e, n, ini, j in jobs]
    H = snap.read_h5(run, b["h5r"], [x.dir + "/" + f for *_, x in xs for f in x.files(r"o_\d{7}\.h5")])
    for cid, a, e, n, ini, x in xs:
        fs = x.files(r"o_\d{7}\.h5")
        if x.rc != 0 or len(fs) < 2:
            bad.append(dict(id=cid, why="run failed rc=%s files=%d" % (x.rc, len(fs)), detail=x.err[-800:], ini=ini))
            continue
        t = [H[x.dir + "/" + f]["attr"].get("total time", -1) for f in fs[1:]]     # the first two hold the initial state
        r = [dict(it=k, t=vt.big(t[k]), dt=vt.big(t[k] - t[k - 1]) if k else vt.big(0.0), used=-1) for k in range(len(t))]
        evs.append(event(cid, [r], a, e, n))
        if abs(x.final_time() - t[-1]) > 1e-6:
            bad.append(dict(id=cid, why="printed final time %r, last snapshot %r" % (x.final_time(), t[-1])))

    def corrupt(e):
        e["ranks"][0][-1]["t"][3] += 7
        e["whole"] = 1
    K = 4
    fs = [pool.submit(vt.validate, run, "TraceTime", "TraceTime", evs[i::K], "t%d" % i, 600, canary=corrupt) for i in range(K)]
    byid = {c.id: c for c in cases}
    for f in fs:
        for i, why in f.result():
            c = byid.get(i)
            bad.append(dict(id=i, why=why, ini=c.ini if c else None, cmds=c.cmds if c else None))
    for m in mcs:
        m.result()
    run.samples = [dict(id=e["id"], steps=len(e["ranks"][0]) - 1) for e in evs[:5]]
    return vt.finish(run, bad, t0, rule="clock readings of every process of runs that stop by time, by step count, by both or do nothing, in every solver; "
                     "the step that advanced the state measured from the mass flux of a contact", extra=dict(runs=len(evs), exe_runs=len(xs)))
