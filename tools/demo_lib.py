"""shared by the demonstrations: run the built ppkMHD executables in a scratch
directory and read what they wrote (h5dump, no third-party module)"""
import os, sys, re, math, array, shutil, struct, subprocess, tempfile

REPO = os.getcwd()
SERIAL = REPO + "/_build/openmp/src/ppkMHD"
MPI = REPO + "/_build/mpi/src/ppkMHD"
ENV = dict(os.environ, OMP_NUM_THREADS="2", OMP_PROC_BIND="false", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_MCA_io="romio321",
           OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_oob_tcp_if_include="lo",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_plm_rsh_agent="/bin/false", HDF5_USE_FILE_LOCKING="FALSE", LC_ALL="C")
ROOT = tempfile.mkdtemp(prefix="demo_")
_n = [0]


def done(bad):
    shutil.rmtree(ROOT, ignore_errors=True)
    for b in bad:
        print("BROKEN:", b)
    print("demo: %s" % ("property broken" if bad else "ok"))
    sys.exit(1 if bad else 0)


def ini(**sections):
    s = ""
    for k, v in sections.items():
        s += "[%s]\n" % k
        for a, b in v.items():
            s += "%s=%s\n" % (a, b)
        s += "\n"
    return s


class Run:
    """one run of an executable; files(pattern), h5(file) -> {name: list}, attrs"""

    def __init__(self, sections, np=0, files=(), text=None, timeout=200, threads=2, d=None):
        if d is None:
            _n[0] += 1
            d = ROOT + "/r%d" % _n[0]
            os.makedirs(d)
        self.dir = d
        out = dict(outputDir=".", outputPrefix="o", hdf5_enabled="true", vtk_enabled="false")
        if text is None:
            sec = {k: dict(v) for k, v in sections.items()}
            sec["output"] = dict(out, **sec.get("output", {}))
            text = ini(**sec)
        open(self.dir + "/p.ini", "w").write(text)
        for f in files:
            os.symlink(os.path.abspath(f), self.dir + "/" + os.path.basename(f))
        cmd = ["mpirun", "-np", str(np), MPI, "p.ini"] if np else [SERIAL, "p.ini"]
        r = subprocess.run(cmd, cwd=self.dir, env=dict(ENV, OMP_NUM_THREADS=str(threads)),
                           capture_output=True, text=True, timeout=timeout)
        self.rc, self.out, self.err = r.returncode, r.stdout, r.stderr

    def files(self, pat=r"o_\d{7}\.h5"):
        return sorted(f for f in os.listdir(self.dir) if re.fullmatch(pat, f))

    def names(self, f):
        t = subprocess.run(["h5ls", self.dir + "/" + f], env=ENV, capture_output=True, text=True).stdout
        return [l.split()[0] for l in t.splitlines() if "Dataset" in l]

    def field(self, f, name):
        o = self.dir + "/raw.bin"
        subprocess.run(["h5dump", "-d", "/" + name, "-b", "LE", "-o", o, self.dir + "/" + f],
                       env=ENV, capture_output=True)
        a = array.array("d")
        a.frombytes(open(o, "rb").read())
        os.remove(o)
        return a

    def fields(self, f):
        return {n: self.field(f, n) for n in self.names(f)}

    def attr(self, f, name):
        t = subprocess.run(["h5dump", "-a", "/" + name, self.dir + "/" + f],
                           env=ENV, capture_output=True, text=True).stdout
        m = re.search(r"\(0\): (\S+)", t)
        return float(m.group(1)) if m else None

    def last(self):
        f = self.files()
        return self.fields(f[-1])


def diff(a, b):
    """largest difference of two {name: array}"""
    if sorted(a) != sorted(b):
        return float("inf")
    w = 0.0
    for n in a:
        if len(a[n]) != len(b[n]):
            return float("inf")
        for x, y in zip(a[n], b[n]):
            d = abs(x - y)
            if not d <= w:
                w = d if d == d else float("inf")
    return w


def finite(a):
    return all(math.isfinite(x) for n in a for x in a[n])


def poke(path, name, values):
    """overwrite dataset /name of an HDF5 file with a flat list of doubles"""
    import ctypes
    h = ctypes.CDLL("libhdf5_serial.so.103")
    for f in ("H5Fopen", "H5Dopen2", "H5Dwrite", "H5Dclose", "H5Fclose"):
        getattr(h, f).restype = ctypes.c_int64
    i64 = ctypes.c_int64
    h.H5open()
    os.environ["HDF5_USE_FILE_LOCKING"] = "FALSE"
    f = h.H5Fopen(path.encode(), ctypes.c_uint(1), i64(0))
    d = h.H5Dopen2(i64(f), ("/" + name).encode(), i64(0))
    a = (ctypes.c_double * len(values))(*values)
    t = ctypes.c_int64.in_dll(h, "H5T_NATIVE_DOUBLE_g")
    r = h.H5Dwrite(i64(d), t, i64(0), i64(0), i64(0), a)
    h.H5Dclose(i64(d))
    h.H5Fclose(i64(f))
    assert f >= 0 and d >= 0 and r >= 0


def seeded_run(sections, state, np=0, **kw):
    """start an executable from an arbitrary state: state(names, dims) -> {name: values},
    given to it as a restart file"""
    sec = {k: dict(v) for k, v in sections.items()}
    first = {k: dict(v) for k, v in sec.items()}
    first["run"]["nStepmax"] = 0
    r0 = Run(first)
    f = r0.files()[0]
    vals = state(r0.fields(f))
    for n, v in vals.items():
        poke(r0.dir + "/" + f, n, v)
    os.rename(r0.dir + "/" + f, r0.dir + "/start.h5")
    sec["run"].update(restart_enabled="true", restart_filename="start.h5")
    return Run(sec, np=np, files=[r0.dir + "/start.h5"], **kw)


def vtk_ascii(path):
    """{name: list} of the DataArrays of an ascii .vti / .vtu file"""
    t = open(path).read()
    return {m.group(1): [float(x) for x in m.group(2).split()]
            for m in re.finditer(r'<DataArray[^>]*Name="([^"]*)"[^>]*format="ascii"[^>]*>([^<]*)<', t)}
