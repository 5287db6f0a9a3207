"""P06: the output schedule"""
import os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vt, states, problems, fv, snap, vtk
from checks.p04 import event, clock, F


def index(d, name, H, n_dim):
    """numbers listed in the time series file; None when an entry does not describe the file it names"""
    p = d + "/" + name
    if not os.path.exists(p):
        return None, "no time series index"
    t = re.sub(r"<!--.*?-->", "", open(p).read(), flags=re.S)
    out = []
    for g in re.split(r"<Grid Name=", t)[2:]:
        m = re.search(r'<Time Value="(\d+)"', g)
        if not m:
            return None, "entry without time"
        num = int(m.group(1))
        names = []
        for a in re.finditer(r'<Attribute Center="Node" Name="([^"]+)">(.*?)</Attribute>', g, flags=re.S):
            dims = [int(x) for x in re.search(r'Dimensions="([\d ]+)"', a.group(2)).group(1).split()]
            fn, ds = re.search(r"(\S+\.h5):/(\S+)", a.group(2)).groups()
            e = H.get(os.path.normpath(os.path.dirname(p) + "/" + fn))
            if e is None or not e["ok"]:
                return None, "entry %d names %s, which was not written there" % (num, fn)
            if e["attr"].get("time step") != num:
                return None, "entry %d names %s, which is number %s" % (num, fn, e["attr"].get("time step"))
            if ds != a.group(1) or ds not in e["data"] or list(e["data"][ds]["dims"]) != dims:
                return None, "entry %d: %s has other dimensions in the file" % (num, ds)
            names.append(ds)
        k = re.search(r'NumberOfElements="([\d ]+)"', g)
        if not k or [int(x) for x in k.group(1).split()] != dims:
            return None, "entry %d: topology" % num
        if n_dim != len(names):
            return None, "entry %d lists %s" % (num, names)
        out.append(num)
    return out, ""


def same(a, b):
    return a is not None and b is not None and a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-12 * (np.abs(b) + 1e-3)))


def check(run, t0):
    rng = random.Random(vt.SEED + 6)
    full = vt.THOROUGH
    pool = ThreadPoolExecutor(8)
    mcs = [pool.submit(vt.model, run, "MCTimeLoop", c) for c in ("MCTimeLoop", "MCTimeLoopR")]
    b = vt.build("ppk", "ppk_mpi", "ppk_full", "h5r")
    bad, evs = [], []
    jobs = []

    def mk(s, nd, label, nout, m=(1, 1, 1), exact=False, sub="", kw=None, ghost=False, allg=False):
        dim = states.dim_of(s)
        sdm = "SDM" in s
        n = [8, 8, 4] if dim == 3 else [12, 8, 1]
        if sdm:
            n = [4, 3, 2] if dim == 3 else [5, 4, 1]
        if exact:
            n = [8, 8, 8] if dim == 3 else [8, 8, 1]
        k = dict(cfl=0.5 if exact else 0.4, tend=repr(F(rng.uniform(.03, .08))), nstepmax=60)
        sec = {}
        if exact:
            sec["blast"] = dict(density_in=1.5, density_out=1.5, pressure_in=1.0, pressure_out=1.0, blast_bx=0.0, blast_by=0.0, blast_bz=0.0)
            k.update(gamma=1.5, tend="0.5" if not sdm else "0.125")
        else:
            sec = problems.variants("blast", dim, s.startswith("MHD"), rng)[0]
            if sdm:  # an unlimited scheme keeps going on mild states only
                sec = vt.merge(sec, dict(blast=dict(density_in=1.2, density_out=1.0, pressure_in=1.1, pressure_out=1.0)))
                k["cfl"] = 0.2
        k.update(kw or {})
        out = dict(outputDir=sub or ".", outputPrefix="o", hdf5_enabled=not sdm, vtk_enabled=True)
        if ghost:
            out["ghostIncluded"] = True
        if allg:
            out["allghostIncluded"] = True
        ini = problems.ini(s, "blast", [n[i] // m[i] for i in range(3)], [3] * 6, sections=sec, m=m, noutput=nout, extra=dict(output=out), **k)
        if sdm:
            ini["sdm"] = dict(ssprk2=True, forward_euler=False)
        return dict(s=s, nd=nd, dim=dim, sdm=sdm, n=n, m=m, np=m[0] * m[1] * m[2], nout=nout, exact=exact, ini=ini, sub=sub, first=0,
                    id="%s_%s_out%d_np%d%s" % (s, label, nout, m[0] * m[1] * m[2], sub.replace("/", "")), t0=0.0,
                    tend=float(ini["run"]["tend"]), nmax=int(ini["run"]["nstepmax"]))

    S = []
    for s in fv.FVS:
        dim = states.dim_of(s)
        for nout in [-1, 0, 1, rng.choice([2, 3]), rng.choice([5, 7, 40])]:
            S.append(mk(s, 1, "r", nout))
        S.append(mk(s, 1, "tie", 4, exact=True))
        S.append(mk(s, 1, "tie", 8 if dim == 2 else 2, exact=True))
        S.append(mk(s, 1, "sub", 3, sub="d/e"))
        S.append(mk(s, 1, "nmax", rng.choice([-1, 3]), kw=dict(nstepmax=rng.randrange(1, 4), tend="1.0")))
        S.append(mk(s, 1, "zero", rng.choice([-1, 2]), kw=dict(nstepmax=0, tend="1.0")))
        m = rng.choice([(2, 1, 1), (1, 2, 1), (2, 2, 1)])
        for nout in ([-1, 3, 0] if full else [rng.choice([-1, -2]), 3]):
            S.append(mk(s, 1, "r", nout, m))
    for s, nd in fv.SDMS:
        for nout in ([-1, 0, 1, 3] if full else [rng.choice([-1, -3]), rng.choice([1, 2, 3])]):
            S.append(mk(s, nd, "r", nout, kw=dict(nstepmax=rng.choice([3, 60]))))
        if nd in (2, 4):
            S.append(mk(s, nd, "tie", 4, exact=True))

    def launch(c, d=None):
        x = run.sub("p_" + c["id"]) if d is None else d
        if c["sub"]:
            os.makedirs(x + "/" + c["sub"], exist_ok=True)
        return snap.Exe(run, b["ppk_full" if c["sdm"] else "ppk_mpi" if c["np"] > 1 else "ppk"], c["ini"], c["np"] if c["np"] > 1 else 0, 1, 120, c["id"], d=x)
    fx = [(c, pool.submit(launch, c)) for c in S]
    xs = [(c, f.result()) for c, f in fx]

    # restarted runs go on in a copy of the directory
    R = []
    for c, x in xs:
        if c["sdm"] or c["sub"] or c["nout"] not in (-1, 2, 3) or c["nmax"] < 5:
            continue
        nums = sorted(int(f[2:9]) for f in x.files(r"o_\d{7}\.h5"))
        if len(nums) < 3:
            continue
        for m in ([nums[len(nums) // 2], nums[-1]] if c["np"] == 1 else [nums[-2]]):
            ini = vt.merge(c["ini"], dict(run=dict(restart_enabled="true", restart_filename="o_%07d.h5" % m)))
            r = dict(c, ini=ini, first=m, id=c["id"] + "_re%d" % m, t0=None)
            d = run.path("p_" + r["id"])
            shutil.copytree(x.dir, d)
            keep = {m} | set(range(m))
            for f in os.listdir(d):
                k = re.search(r"_(?:time)?(\d{7})", f)
                if f.startswith("o_") and k and int(k.group(1)) not in keep:
                    os.remove(d + "/" + f)
            R.append((r, d, pool.submit(launch, r, d)))
    ys = [(c, f.result()) for c, d, f in R]
    byname = {c["id"]: x for c, x in xs}

    # reference: the same run without output, every state recorded
    cases = []
    for c, x in xs + ys:
        ini = vt.merge(c["ini"], dict(run=dict(noutput=0), output=dict(hdf5_enabled=not c["sdm"], vtk_enabled=False)))
        if c["first"]:
            src = byname[c["id"].rsplit("_re", 1)[0]].dir
            ini["run"]["restart_filename"] = src + "/o_%07d.h5" % c["first"]
        k = vt.Case(c["id"], ini, ["new" if not c["sdm"] else "new %d %d" % (c["dim"], c["nd"]), "dump s", "run 1 200 s"],
                    dict(s=c["s"], nd=c["nd"], np=c["np"]))
        c["case"] = k
        cases.append(k)
    fv.execute(run, cases, bad, pool)
    files = [os.path.normpath(os.path.join(x.dir, c["sub"], f)) for c, x in xs + ys if not c["sdm"]
             for f in (os.listdir(os.path.join(x.dir, c["sub"])) if os.path.isdir(os.path.join(x.dir, c["sub"])) else []) if f.endswith(".h5")]
    H = snap.read_h5(run, b["h5r"], files)

    def one(c, x):
        k = c["case"]
        if not k.ok:
            return None
        if x.rc != 0:
            return dict(why="run failed rc=%s" % x.rc, detail=x.err[-800:])
        od = os.path.normpath(os.path.join(x.dir, c["sub"]))
        fs = sorted(os.listdir(od))
        its = [k.interior(t) for t in dict.fromkeys(k.tags())]
        cl = clock(k, 0)
        tt = [e["t"] for e in k.ev[0] if e["ev"] in ("begin", "step")]
        if len(its) != len(tt):
            return dict(why="recorded %d states, %d clock readings" % (len(its), len(tt)))
        names = snap.NAMES if c["s"].startswith("MHD") else snap.NAMES[:2 + c["dim"]]
        h5 = {int(f[2:9]): f for f in fs if re.fullmatch(r"o_\d{7}\.h5", f)}
        ext = "vtu" if c["sdm"] else "vti"
        if c["np"] == 1:
            vt_ = {int(f[2:9]): [f] for f in fs if re.fullmatch(r"o_\d{7}\." + ext, f)}
        else:
            vt_ = {}
            for f in fs:
                m = re.fullmatch(r"o_time(\d{7})_mpi(\d{5})\." + ext, f)
                if m:
                    vt_.setdefault(int(m.group(1)), []).append(f)
            pv = {int(f[6:13]) for f in fs if re.fullmatch(r"o_time\d{7}\.p" + ext, f)}
            if pv != set(vt_) or any(len(v) != c["np"] for v in vt_.values()):
                return dict(why="parallel files: index files %s, pieces %s" % (sorted(pv), {k: len(v) for k, v in vt_.items()}))
        snaps = []
        old = set(range(c["first"])) if c["first"] else set()
        nums = sorted((set(vt_) if c["sdm"] else set(h5)) - old)
        if not c["sdm"] and set(vt_) != set(h5):
            return dict(why="HDF5 snapshots %s, VTK snapshots %s" % (sorted(h5), sorted(vt_)))
        for n in nums:
            if c["sdm"]:
                v = vtk.read(od + "/" + vt_[n][0])
                if not v["ok"]:
                    return dict(why="%s: %s" % (vt_[n][0], v["why"]))
                nf = c["nd"] ** c["dim"]
                N = c["n"]
                if any(q not in v["arrays"] or v["arrays"][q].size != N[0] * N[1] * N[2] * nf for q in names):
                    return dict(why="%s: sizes" % vt_[n][0])
                A = np.concatenate([v["arrays"][q].reshape(N[2], N[1], N[0], nf) for q in names], -1)
                time, attr, rt = v["fields"].get("TIME", -1), v["fields"].get("CYCLE", -1), 1e-5
            else:
                e = H[od + "/" + h5[n]]
                A = snap.stack(e, names, c["dim"])
                time, attr, rt = e["attr"].get("total time", -1), e["attr"].get("time step", -1), 1e-14
                # the text of the same number holds the same state
                w = []
                for f in vt_[n]:
                    v = vtk.read(od + "/" + f)
                    if not v["ok"]:
                        return dict(why="%s: %s" % (f, v["why"]))
                    w.append(v["arrays"][names[0]])
                if A is None or sorted(np.concatenate(w).tolist()) != sorted(A[..., 0].ravel().tolist()):
                    return dict(why="snapshot %d: VTK and HDF5 hold different densities" % n)
            at = [j for j in range(len(tt)) if abs(time - tt[j]) <= rt * max(1e-3, abs(tt[j])) and same(A, its[j])]
            snaps.append(dict(num=n, t=vt.big(time), attr=int(attr) if attr == int(attr) else -1, at=at[0] if at else -1))
        idx = [-1]
        if not c["sdm"]:
            idx, why = index(od, "o.xmf", H, len(names))
            if idx is None:
                return dict(why=why)
        # the exact rule applies when every clock reading is a short binary fraction
        exact = int(c["exact"] and all(t * 1024 == int(t * 1024) for t in tt))
        return event(c["id"], [clock(k, r) for r in range(c["np"])], tt[0], c["tend"], c["nmax"], nout=c["nout"], first=c["first"], out=1,
                     snaps=snaps, index=idx, exact=exact)
    for (c, x), r in zip(xs + ys, pool.map(lambda p: one(*p), xs + ys)):
        if r is None:
            continue
        if "why" in r:
            bad.append(dict(r, id=c["id"], ini=c["ini"]))
        else:
            evs.append(r)

    def corrupt(e):
        if e["snaps"]:
            e["snaps"].pop()
        else:
            e["snaps"] = [dict(num=0, t=e["t0"], attr=0, at=0)]
    K = 4
    for f in [pool.submit(vt.validate, run, "TraceTime", "TraceTime", evs[i::K], "t%d" % i, 600, canary=corrupt) for i in range(K)]:
        for i, why in f.result():
            bad.append(dict(id=i, why=why, ini=next(c["ini"] for c, x in xs + ys if c["id"] == i)))
    for m in mcs:
        m.result()
    run.samples = [dict(id=e["id"], snaps=[(s["num"], s["at"]) for s in e["snaps"]]) for e in evs[:6]]
    return vt.finish(run, bad, t0, rule="runs of the executables (serial, parallel, restarted) with every kind of output count; every file found is read back and "
                     "attributed to the step of an output-free reference run whose state and time it holds",
                     extra=dict(runs=len(xs), restarts=len(ys), exact=sum(e["exact"] for e in evs), snapshots=sum(len(e["snaps"]) for e in evs)))
