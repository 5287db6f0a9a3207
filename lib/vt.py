"""Shared machinery: building harnesses from /repo's working tree, running the
real code, projecting recordings to integer traces and letting TLC judge."""
import os, sys, json, time, hashlib, subprocess, shutil, fcntl, re, struct, math, signal, threading
from concurrent.futures import ThreadPoolExecutor
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, ".out")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
SRC = os.path.join(REPO, "src")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 8


class Broken(Exception):
    """the check itself cannot give an answer (exit 2)"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------- build
INC = ["-I" + SRC, "-I" + SRC + "/muscl", "-I" + SRC + "/utils", "-I" + SRC + "/utils/config/inih",
       "-I" + BUILD + "/gen"]
COMMON = ["-DKOKKOS_DEPENDENCE", "-DNDEBUG", "-std=c++17", "-DUSE_HDF5", "-DUSE_DOUBLE", "-fopenmp", "-w"]
SER = ["-I/usr/include/hdf5/serial"]
MPI = ["-I/usr/include/hdf5/openmpi", "-I" + SRC + "/utils/mpiUtils",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
       "-DMPI_CUDA_AWARE_OFF", "-DUSE_HDF5_PARALLEL", "-DUSE_MPI"]
L = "/usr/lib/x86_64-linux-gnu/"
KLIBS = ["-lcrypto", "-lcurl", "-lsz", "-lz", "-ldl", "-lm", L + "libpapi.so", L + "libkokkoscontainers.so",
         L + "libkokkoscore.so", "-lhwloc", "-lnuma", "-lmemkind", "-ldl"]
LSER = ["-Wl,-rpath," + L + "hdf5/serial", L + "hdf5/serial/libhdf5.so"] + KLIBS
LMPI = ["-Wl,-rpath," + L + "openmpi/lib:" + L + "hdf5/openmpi", L + "openmpi/lib/libmpi_cxx.so",
        L + "openmpi/lib/libmpi.so", L + "hdf5/openmpi/libhdf5.so"] + KLIBS

BASE_SRC = ["shared/HydroParams.cpp", "shared/SolverBase.cpp", "shared/utils.cpp",
            "utils/io/IO_common.cpp", "utils/io/IO_ReadWrite.cpp", "utils/io/IO_VTK.cpp", "utils/io/IO_HDF5.cpp",
            "utils/config/ConfigMap.cpp", "utils/config/inih/ini.cpp", "utils/config/inih/INIReader.cpp",
            "utils/monitoring/OpenMPTimer.cpp", "utils/monitoring/SimpleTimer.cpp", "utils/monitoring/PapiInfo.cpp"]
MUSCL_SRC = ["muscl/SolverHydroMuscl.cpp", "muscl/SolverMHDMuscl.cpp", "shared/SolverFactory.cpp"]
SDMIO_SRC = ["utils/io/IO_ReadWrite_SDM.cpp", "utils/io/IO_VTK_SDM.cpp", "utils/io/IO_VTK_SDM_Flux.cpp",
             "utils/io/IO_VTK_SDM_shared.cpp"]
MPI_SRC = ["utils/mpiUtils/GlobalMpiSession.cpp", "utils/mpiUtils/ErrorPolling.cpp", "utils/mpiUtils/MpiComm.cpp",
           "utils/mpiUtils/MpiCommCart.cpp"]


def _srcs(rel, extra=()):
    """sources of the tree plus any .cpp newly added next to them (a helper extracted to a new file)"""
    res = []
    for r in rel:
        p = os.path.join(SRC, r)
        if os.path.exists(p):
            res.append(p)
    known = set(json.load(open(os.path.join(HARN, "known_sources.json"))))
    dirs = {os.path.dirname(r) for r in rel}
    for d in sorted(dirs):
        for f in sorted(os.listdir(os.path.join(SRC, d))):
            r = d + "/" + f
            if f.endswith(".cpp") and r not in known:
                res.append(os.path.join(SRC, r))
    return res


def targets():
    T = {}
    T["drv"] = dict(objs=[(s, SER + ["-O1"]) for s in _srcs(BASE_SRC + MUSCL_SRC)] +
                    [(HARN + "/drv.cpp", SER + ["-O1"])], link=LSER)
    T["drv_mpi"] = dict(objs=[(s, MPI + ["-O1"]) for s in _srcs(BASE_SRC + MUSCL_SRC + MPI_SRC)] +
                        [(HARN + "/drv.cpp", MPI + ["-O1"])], link=LMPI)
    SDM = ["-DUSE_SDM"]

    def sdm(name, insts, mpi):
        fl = (MPI if mpi else SER) + SDM + ["-O1"]
        X = "-DVT_SDM=" + " ".join("X(%d,%d)" % a for a in insts)
        T[name] = dict(objs=[(s, fl) for s in _srcs(BASE_SRC + SDMIO_SRC + (MPI_SRC if mpi else []))] +
                       [(HARN + "/drv.cpp", fl + [X])] +
                       [(HARN + "/inst.cpp", fl + ["-DVD=%d" % d, "-DVN=%d" % n]) for d, n in insts],
                       link=LMPI if mpi else LSER)
    sdm("drv_sdm", [(2, 2), (2, 3), (2, 4), (3, 2), (3, 3)], False)
    sdm("drv_sdm_hi", [(2, 1), (2, 5), (2, 6), (3, 4)], False)
    sdm("drv_sdm_mpi", [(2, 2), (2, 3), (3, 2)], True)
    # parallel loops interposed (P14)
    SCH = ["-include", HARN + "/sched.h", "-DVT_SCHED"]
    for n, base in (("drv_sched", SER), ("drv_sched_mpi", MPI)):
        T[n] = dict(objs=[(s, base + ["-O1"] + (SCH if ("muscl/" in s or "SolverBase" in s) else []))
                          for s in _srcs(BASE_SRC + MUSCL_SRC + (MPI_SRC if base is MPI else []))] +
                    [(HARN + "/drv.cpp", base + ["-O1"] + SCH)], link=LSER if base is SER else LMPI)
    fl = SER + SDM + ["-O1"] + SCH
    T["drv_sched_sdm"] = dict(objs=[(s, SER + SDM + ["-O1"] + (SCH if "SolverBase" in s else [])) for s in _srcs(BASE_SRC + SDMIO_SRC)] +
                              [(HARN + "/drv.cpp", fl + ["-DVT_SDM=X(2,2) X(2,3) X(3,2)"])] +
                              [(HARN + "/inst.cpp", fl + ["-DVD=%d" % d, "-DVN=%d" % n]) for d, n in ((2, 2), (2, 3), (3, 2))], link=LSER)
    T["ppk"] = dict(objs=[(s, SER + ["-O1"]) for s in _srcs(BASE_SRC + MUSCL_SRC)] +
                    [(SRC + "/main.cpp", SER + ["-O1"])], link=LSER)
    T["ppk_mpi"] = dict(objs=[(s, MPI + ["-O1"]) for s in _srcs(BASE_SRC + MUSCL_SRC + MPI_SRC)] +
                        [(SRC + "/main.cpp", MPI + ["-O1"])], link=LMPI)
    T["h5r"] = dict(objs=[(HARN + "/h5r.c", SER + ["-O1"])], link=["-Wl,-rpath," + L + "hdf5/serial",
                    L + "hdf5/serial/libhdf5.so"])
    for f in sorted(os.listdir(HARN)):
        if f.startswith("t_") and f.endswith(".cpp"):
            n = f[:-4]
            head = open(os.path.join(HARN, f)).read(600)
            m = re.search(r"VT-FLAVOUR: (\S+)", head)
            fl = m.group(1) if m else "serial"
            m = re.search(r"VT-OPT: (\S+)", head)
            opt = m.group(1) if m else "-O1"
            mpi = "mpi" in fl
            flags = (MPI if mpi else SER) + (SDM if "sdm" in fl else []) + [opt]
            srcs = BASE_SRC + (MPI_SRC if mpi else []) + (SDMIO_SRC if "sdm" in fl else []) + (MUSCL_SRC if "muscl" in fl else [])
            if fl == "none":
                srcs = []
            T[n] = dict(objs=[(s, (MPI if mpi else SER) + (SDM if "sdm" in fl else []) + ["-O1"]) for s in _srcs(srcs)] +
                        [(HARN + "/" + f, flags)], link=LMPI if mpi else LSER)
    # complete executable with every solver registered, compiled without optimisation
    T["ppk_full"] = dict(objs=[(s, SER + SDM + ["-O1"]) for s in _srcs(BASE_SRC + SDMIO_SRC)] +
                         [(s, SER + SDM + ["-O0"]) for s in _srcs(MUSCL_SRC)] +
                         [(SRC + "/main.cpp", SER + SDM + ["-O0"])], link=LSER)
    return T


_hash = {}


def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in _hash:
        with open(p, "rb") as f:
            _hash[k] = hashlib.sha256(f.read()).hexdigest()
    return _hash[k]


def _compile(src, flags):
    cc = "gcc" if src.endswith(".c") else "g++"
    cmd = [cc] + ([] if cc == "gcc" else COMMON + INC) + flags
    key = hashlib.sha256(("\0".join(cmd) + "\0" + src).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "obj")
    idx = os.path.join(d, key + ".dep")
    if os.path.exists(idx):
        try:
            j = json.load(open(idx))
            if all(fhash(p) == h for p, h in j["deps"].items()) and os.path.exists(j["obj"]):
                return j["obj"]
        except Exception:
            pass
    tmpo = os.path.join(d, "%s.%d.o" % (key, os.getpid()))
    tmpd = tmpo + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", tmpd, "-c", src, "-o", tmpo], capture_output=True, text=True, cwd="/tmp")
    if r.returncode != 0:
        raise Broken("compile failed: %s\n%s" % (src, r.stderr[-3000:]))
    txt = open(tmpd).read().replace("\\\n", " ").split(":", 1)[1]
    deps = {p: fhash(p) for p in txt.split() if p.startswith(REPO) or p.startswith(VERIF) or p.startswith(SRC)}
    ch = hashlib.sha256(open(tmpo, "rb").read()).hexdigest()[:16]
    obj = os.path.join(d, key + "." + ch + ".o")
    os.replace(tmpo, obj)
    os.remove(tmpd)
    with open(idx + ".tmp%d" % os.getpid(), "w") as f:
        json.dump(dict(deps=deps, obj=obj, src=src), f)
    os.replace(idx + ".tmp%d" % os.getpid(), idx)
    return obj


def build(*names):
    """(re)build harness binaries from /repo's current working tree; returns {name: path}"""
    t0 = time.time()
    for d in ("obj", "bin", "gen"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    gen = os.path.join(BUILD, "gen", "ppkMHD_version.h")
    if not os.path.exists(gen):
        try:
            s = open(os.path.join(SRC, "ppkMHD_version.h.in")).read()
            s = re.sub(r"@[A-Za-z_]+@", "vt", s)
            open(gen + ".tmp", "w").write(s)
            os.replace(gen + ".tmp", gen)
        except OSError as e:
            raise Broken("version header: %s" % e)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        T = targets()
        units = {}
        for n in names:
            for s, f in T[n]["objs"]:
                units[(s, tuple(f))] = None
        # heavy units first
        order = sorted(units, key=lambda u: -(("inst.cpp" in u[0]) * 4 + ("Solver" in u[0]) * 3 + ("drv" in u[0]) * 2 +
                                              ("HDF5" in u[0])))
        with ThreadPoolExecutor(NCPU) as ex:
            for u, o in zip(order, ex.map(lambda u: _compile(u[0], list(u[1])), order)):
                units[u] = o
        res = {}

        def link(n):
            objs = [units[(s, tuple(f))] for s, f in T[n]["objs"]]
            h = hashlib.sha256("\0".join(objs + T[n]["link"]).encode()).hexdigest()[:16]
            b = os.path.join(BUILD, "bin", n + "." + h)
            if not os.path.exists(b):
                cc = "gcc" if T[n]["objs"][0][0].endswith(".c") else "g++"
                r = subprocess.run([cc] + objs + ["-fopenmp"] + T[n]["link"] + ["-o", b + ".tmp"], capture_output=True,
                                   text=True)
                if r.returncode != 0:
                    raise Broken("link failed: %s\n%s" % (n, r.stderr[-3000:]))
                os.replace(b + ".tmp", b)
            return b
        with ThreadPoolExecutor(NCPU) as ex:
            for n, b in zip(names, ex.map(link, names)):
                res[n] = b
        _prune()
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    log("build %s: %.1fs" % (" ".join(names), time.time() - t0))
    return res


def _prune(limit=3 << 30):
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        fs = [(os.stat(os.path.join(d, f)).st_mtime, os.path.join(d, f)) for f in os.listdir(d) if not f.endswith(".dep")]
        tot = sum(os.path.getsize(f) for _, f in fs)
        for m, f in sorted(fs):
            if tot < limit or time.time() - m < 3600:
                break
            tot -= os.path.getsize(f)
            os.remove(f)


# ----------------------------------------------------------------- running
ENV = dict(OMP_NUM_THREADS="1", OMP_PROC_BIND="false", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_oob_tcp_if_include="lo",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_plm_rsh_agent="/bin/false", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_io="romio321", HDF5_USE_FILE_LOCKING="FALSE")


class Run:
    """one property's scratch area"""

    def __init__(self, pid):
        self.pid = pid
        self.dir = os.path.join(OUT, pid + ("" if not os.environ.get("VT_TAG") else "." + os.environ["VT_TAG"]))
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.n = 0
        self.t0 = time.time()
        self.hangs = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.models = []
        self.notes = []

    def patience(self, timeout):
        """seconds to wait for the next command: a tree that hangs must not use up the whole budget (quick tier)"""
        if THOROUGH:
            return timeout
        if self.hangs > 2:
            return 0
        left = 660 - (time.time() - self.t0)
        return max(0, min(timeout, 150 if not self.hangs else 45, left))

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def sub(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(p, exist_ok=True)
        return p


def sh(cmd, timeout=300, env=None, cwd=None, stdout=None):
    """run in its own process group; returns (rc, out, err); rc None = timeout"""
    e = dict(os.environ)
    e.update(ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o.decode("latin1"), r.decode("latin1")
    except subprocess.TimeoutExpired:
        for sg in (signal.SIGTERM, signal.SIGKILL):
            # first let mpirun end its ranks
            try:
                os.killpg(p.pid, sg)
                p.wait(timeout=4)
            except (OSError, subprocess.TimeoutExpired):
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            o, r = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            o, r = b"", b""
        return None, o.decode("latin1"), r.decode("latin1")


def mpirun(np_, cmd, timeout=300, env=None, cwd=None):
    return sh(["mpirun", "--oversubscribe", "-np", str(np_)] + cmd, timeout, env, cwd)


def ini_text(d):
    """d: {section: {key: value}}"""
    s = ""
    for sec, kv in d.items():
        s += "[%s]\n" % sec
        for k, v in kv.items():
            if isinstance(v, bool):
                v = "true" if v else "false"
            s += "%s=%s\n" % (k, v)
        s += "\n"
    return s


def merge(*ds):
    r = {}
    for d in ds:
        for s, kv in d.items():
            r.setdefault(s, {}).update(kv)
    return r


class Case:
    def __init__(self, cid, ini, cmds, meta=None):
        self.id, self.ini, self.cmds, self.meta = cid, ini, cmds, meta or {}
        self.ev = []      # [rank] -> list of events
        self.ok = False
        self.rc = 0
        self.err = ""

    def dumps(self, tag):
        """list over ranks of (array[k,j,i,v] with ghosts, event)"""
        r = []
        for evs in self.ev:
            for e in evs:
                if e["ev"] == "dump" and e["tag"] == tag:
                    r.append((e["arr"](), e))
        return r

    def interior(self, tag):
        """gathered global interior array [k,j,i,v]"""
        ds = self.dumps(tag)
        if not ds:
            return None
        parts = []
        ext = [0, 0, 0]
        for a, e in ds:
            g = e["gw"]
            b = a[:, g:-g, g:-g, :] if a.shape[0] == 1 else a[g:-g, g:-g, g:-g, :]
            o = e["org"]
            parts.append((b, o))
            for d, n in zip(range(3), (b.shape[2], b.shape[1], b.shape[0])):
                ext[d] = max(ext[d], o[d] + n)
        G = np.full((ext[2], ext[1], ext[0], parts[0][0].shape[3]), np.nan)
        for b, o in parts:
            G[o[2]:o[2] + b.shape[0], o[1]:o[1] + b.shape[1], o[0]:o[0] + b.shape[2], :] = b
        return G

    def events(self, name, rank=0):
        return [e for e in self.ev[rank] if e["ev"] == name]

    def tags(self):
        return [e["tag"] for e in self.ev[0] if e["ev"] == "dump"]


def run_cases(run, binary, cases, np_=1, threads=1, timeout=240, name=None, chunks=1, env=None):
    """run a list of Case through a driver binary; fills case.ev; returns list of failed cases"""
    run.n += 1
    base = run.sub("r%d_%s" % (run.n, name or ("np%d" % np_)))
    groups = [cases[i::chunks] for i in range(chunks)] if chunks > 1 else [cases]
    groups = [g for g in groups if g]

    def go(gi):
        g = groups[gi]
        todo = list(g)
        att = 0
        while todo:
            att += 1
            sc = os.path.join(base, "s%d_%d.txt" % (gi, att))
            with open(sc, "w") as f:
                for c in todo:
                    p = os.path.join(base, "%s.ini" % c.id)
                    if c.ini is not None:
                        open(p, "w").write(c.ini if isinstance(c.ini, str) else ini_text(c.ini))
                    f.write("case %s\n" % c.id)
                    if c.ini is not None:
                        f.write("ini %s\n" % p)
                    for x in c.cmds:
                        f.write(x + "\n")
            out = os.path.join(base, "o%d_%d" % (gi, att))
            cmd = [binary, sc, out]
            e = {"OMP_NUM_THREADS": str(threads)}
            e.update(env or {})
            lim = run.patience(timeout)
            if lim <= 0:
                rc, so, se = None, "", "not run: out of time after earlier runs that did not end"
            elif np_ > 1 or "_mpi." in os.path.basename(binary):
                rc, so, se = mpirun(np_, cmd, lim, e, base)
            else:
                rc, so, se = sh(cmd, lim, e, base)
            if rc is None:
                run.hangs += 1
            done = _collect(todo, out, np_)
            if done and rc == 0:
                return
            # find the first case that did not complete
            for i, c in enumerate(todo):
                if not c.ok:
                    c.rc, c.err = rc, (so[-600:] + se[-1500:])
                    todo = todo[i + 1:]
                    break
            else:
                if rc != 0:
                    todo[-1].ok = False
                    todo[-1].rc, todo[-1].err = rc, (so[-600:] + se[-1500:])
                return
            if rc is None:
                # hang: do not spend the whole budget on a tree that always hangs
                for c in todo:
                    c.rc, c.err = None, "not run after a hang"
                return
            if att > 6:
                for c in todo:
                    c.rc, c.err = rc, "not run after repeated failures"
                return
    with ThreadPoolExecutor(max(1, len(groups))) as ex:
        list(ex.map(go, range(len(groups))))
    return [c for c in cases if not c.ok]


def _collect(cases, out, np_):
    by = {c.id: c for c in cases}
    for c in cases:
        c.ev = [[] for _ in range(np_)]
        c.ok = False
    alldone = True
    ended = {c.id: 0 for c in cases}
    for r in range(np_):
        f = "%s.r%d.ndjson" % (out, r)
        if not os.path.exists(f):
            return False
        bf = "%s.r%d.bin" % (out, r)
        cur = None
        fin = False
        for line in open(f, errors="replace"):
            try:
                e = json.loads(line)
            except ValueError:
                continue
            if e["ev"] == "case":
                if cur is not None:
                    ended[cur.id] += 1
                cur = by.get(e["id"])
            elif e["ev"] == "done":
                if cur is not None:
                    ended[cur.id] += 1
                cur = None
                fin = True
            elif cur is not None:
                if e["ev"] == "dump":
                    e["arr"] = (lambda bf=bf, off=e["off"], sh=tuple(e["shape"]):
                                np.fromfile(bf, dtype="<f8", count=int(np.prod(sh)), offset=off * 8).reshape(sh))
                cur.ev[r].append(e)
        alldone &= fin
    for c in cases:
        c.ok = ended[c.id] == np_
    return alldone


# ----------------------------------------------------------------- TLC
class TLCResult:
    pass


def tlc(run, spec, cfg, trace=None, consts=None, workers=None, timeout=600, simulate=None, heap="3g", out_env=None,
        depth=None, seed=None, extra=()):
    """run TLC on spec/<spec>.tla with spec/<cfg>.cfg; returns object with rc, states, rejects, prints"""
    run.n += 1
    d = run.sub("tlc%d_%s" % (run.n, cfg))
    e = {"JAVA_TOOL_OPTIONS": "-Xmx%s -XX:+UseParallelGC -Xss64m" % heap}
    if trace:
        e["TRACE"] = trace
    if out_env:
        e.update(out_env)
    cfgp = os.path.join(SPEC, cfg + ".cfg")
    if consts:
        txt = open(cfgp).read() + "\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n"
        cfgp = os.path.join(d, cfg + ".cfg")
        open(cfgp, "w").write(txt)
    acc = accelerator()
    cmd = ["java", "-Xss64m", "-DTLA-Library=" + acc, "-cp", acc + ":" + JAR + ":" + CM_JAR, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-config", cfgp,
           "-workers", str(workers or ("1" if trace else "4")), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 50), "-seed", str(seed or SEED)]
    cmd += list(extra) + [os.path.join(SPEC, spec + ".tla")]
    t0 = time.time()
    rc, so, se = sh(cmd, timeout, e, d)
    R = TLCResult()
    R.rc, R.out, R.err, R.wall = rc, so, se, time.time() - t0
    open(os.path.join(d, "out.txt"), "w").write(so + "\n--- stderr\n" + se)
    R.log = os.path.join(d, "out.txt")
    m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", so)
    R.states = int(m[-1][1].replace(",", "")) if m else 0
    R.generated = int(m[-1][0].replace(",", "")) if m else 0
    R.finished = "Model checking completed. No error has been found" in so or (simulate and rc == 0)
    R.violated = re.findall(r"(?:Invariant|property|Postcondition|Action property|Temporal properties?) ?(\S*) (?:is|was|were) violated|Postcondition (\S+)", so)
    R.error = None
    if not R.finished:
        m = re.search(r"Error: (.*)", so)
        R.error = m.group(1) if m else "rc=%s" % rc
    R.rejects = []
    for line in so.splitlines():
        line = line.strip()
        if line.startswith('"REJECT|'):
            R.rejects.append(line)
    R.prints = [l for l in so.splitlines() if l.startswith("<<")]
    return R


CM_JAR = None
for c in ("/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar"):
    if os.path.exists(c):
        CM_JAR = c
if CM_JAR is None:
    CM_JAR = "/opt/veriftools/tla/*"


def accelerator():
    """the compiled operators of Fixed.tla (tools/java/Fixed.java); MCFixed compares them with the definitions"""
    src = os.path.join(VERIF, "tools", "java", "Fixed.java")
    txt = open(src).read() + open(os.path.join(SPEC, "Fixed.tla")).read()
    d = os.path.join(BUILD, "java", hashlib.sha256(txt.encode()).hexdigest()[:16])
    if not os.path.exists(d):
        os.makedirs(os.path.dirname(d), exist_ok=True)
        t = "%s.%d.%d" % (d, os.getpid(), threading.get_ident())
        os.makedirs(t)
        p = subprocess.run(["javac", "-cp", JAR + ":" + CM_JAR, "-d", t, src], capture_output=True, text=True)
        if p.returncode:
            raise Broken("javac: " + p.stderr[-500:])
        open(os.path.join(t, "FixedPure.tla"), "w").write(
            open(os.path.join(SPEC, "Fixed.tla")).read().replace("MODULE Fixed ", "MODULE FixedPure "))
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t)
    return d


def model(run, spec, cfg, **kw):
    """exhaustive model check of the design; anything but success is a broken check"""
    R = tlc(run, spec, cfg, **kw)
    if not R.finished:
        raise Broken("model %s/%s: %s (see %s)" % (spec, cfg, R.error, R.log))
    run.states += R.states
    run.transitions += R.generated
    run.models.append(dict(spec=spec, cfg=cfg, distinct=R.states, generated=R.generated, wall_s=round(R.wall, 1)))
    return R


def write_trace(path, events):
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")))
            f.write("\n")


def validate(run, spec, cfg, events, name, timeout=600, heap="4g", consts=None, canary=None):
    """let TLC judge a list of trace events.  Returns list of (id, why) rejections.
    The trace spec prints <<"REJECT", id, why>> for every event it cannot explain, and consumes the
    whole trace (POSTCONDITION)."""
    if not events:
        return []
    p = run.path("trace_%s.ndjson" % name)
    # binding demonstration on every run: corrupted copies of recorded events must be rejected
    extra = []
    if canary:
        import copy
        for k, e in enumerate(events[:1] + events[-1:]):
            c = copy.deepcopy(e)
            if canary(c) is False:
                continue
            c["id"] = "CANARY%d" % k
            extra.append(c)
    write_trace(p, events + extra)

    def once():
        R = tlc(run, spec, cfg, trace=p, timeout=timeout, heap=heap, consts=consts)
        if not R.finished:
            raise Broken("trace spec %s: %s (see %s)" % (spec, R.error, R.log))
        rej = []
        for l in R.rejects:
            m = re.match(r'"REJECT\|([^|]*)\|(.*)"$', l)
            if not m:
                raise Broken("unreadable rejection %r" % l)
            rej.append((m.group(1), m.group(2)))
        for c in extra:
            if not any(i == c["id"] for i, _ in rej):
                raise Broken("%s accepted a corrupted trace (%s)" % (spec, c["id"]))
        rej = [r for r in rej if not r[0].startswith("CANARY")]
        run.canaries = getattr(run, "canaries", 0) + len(extra)
        return R, rej
    R, rej = once()
    run.states += R.states
    run.transitions += R.generated
    run.traces += len(events)
    if rej:
        R2, rej2 = once()
        rej = [r for r in rej if r in rej2]
    seen, res = set(), []
    for r in rej:
        if r not in seen:
            seen.add(r)
            res.append(r)
    return res


# ----------------------------------------------------------------- projection
def quant(a, scale, res=1e-9):
    """project to integers: round(a/scale/res), saturating to +-2e9; NaN -> 2147483647"""
    x = np.asarray(a, dtype=float) / np.maximum(np.asarray(scale) * res, 1e-300)
    bad = ~np.isfinite(x)
    x = np.where(bad, 0, x)
    q = np.clip(np.rint(x), -2e9, 2e9).astype(np.int64)
    q = np.where(bad, 2147483647, q)
    return q


def limbs(x):
    """time as two limbs hi (1e-6 units) and lo (1e-15 units, 0..999999999)"""
    if isinstance(x, str) or not math.isfinite(x) or abs(x) > 2000:
        return [2147483647, 0]
    from fractions import Fraction
    n = round(Fraction(x) * 10**15)
    hi, lo = divmod(n, 10**9)
    return [int(hi), int(lo)]


def big(x):
    """exact time as six digits in base 10^5, units of 10^-15 (Limbs.tla); not finite or out of range: negative"""
    from fractions import Fraction
    if isinstance(x, str) or not math.isfinite(x) or x < 0 or x > 1e9:
        return [-1, 0, 0, 0, 0, 0]
    n = round(Fraction(x) * 10**15)
    r = []
    for _ in range(6):
        n, d = divmod(n, 100000)
        r.append(int(d))
    return r[::-1]


# ----------------------------------------------------------------- verdict
def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"^KNOWN-FINDING: property=(\S+) id=(\S+) (.*)$", l)
            if m:
                res.append(m.groups())
    return res


def finish(run, violations, t0, level="model_checking", rule="", assumptions=(), extra=None, samples=None):
    """violations: list of dict(id=..., why=..., detail=...)"""
    kf = [(fid, txt) for pid, fid, txt in known_findings() if pid == run.pid]
    shown, real = set(), []
    for v in violations:
        hit = None
        for fid, txt in kf:
            if re.fullmatch(fid, v["id"]):
                hit = (fid, txt)
        if hit:
            shown.add(hit)
        else:
            real.append(v)
    for fid, txt in kf:
        if (fid, txt) in shown:
            print("KNOWN-FINDING: property=%s %s" % (run.pid, txt))
    cov = dict(states=run.states, transitions=run.transitions, traces_validated_against_impl=run.traces,
               samples=(samples or run.samples)[:5] or ["none"], models=run.models, rule=rule)
    if getattr(run, "canaries", 0):
        cov["corrupted_traces_rejected"] = run.canaries
    if extra:
        cov.update(extra)
    ev = dict(property=run.pid, tier="thorough" if THOROUGH else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 1), violations=len(real))
    evd = os.path.join(VERIF, "evidence") if not os.environ.get("VT_TAG") else run.dir
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, run.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if real:
        rp = run.path("replay_%s.json" % re.sub(r"[^A-Za-z0-9_.-]", "_", real[0]["id"])[:80])
        with open(rp, "w") as f:
            json.dump(real[:50], f, indent=1, default=str)
        for v in real[:10]:
            print("  %s: %s" % (v["id"], str(v["why"])[:300]))
        print("VIOLATION property=%s replay=%s" % (run.pid, rp))
        return 1
    print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
          (run.pid, run.states, run.transitions, run.traces, time.time() - t0))
    return 0
