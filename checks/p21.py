"""P21: every Riemann solver is consistent, symmetric, upwinding: fluxes of the real solvers against Riemann.tla"""
import math
import random
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import vt

GAMMAS = [(3, 2), (5, 4), (2, 1), (7, 4), (13, 8), (9, 8)]
HYDRO = ["approx", "llf", "hll", "hllc"]
MHD = ["llf", "hll", "hlld"]


def digits(x):
    """a double as digits in base 10^4, six of ten behind the point (Fixed.tla)"""
    if abs(x) > 1e14:
        x = math.copysign(1e14, x)
    n = math.floor(Fraction(x) * 10**24)
    r = []
    for _ in range(9):
        n, d = divmod(n, 10000)
        r.append(int(d))
    return [int(n)] + r[::-1]


def snap(x):
    return round(x * 2**20) / 2**20


class States:
    """left/right pairs that put every wave of the solvers on either side of the interface"""

    def __init__(self, rng):
        self.r = rng

    def log(self, a=0.15, b=6.0):
        return snap(math.exp(self.r.uniform(math.log(a), math.log(b))))

    def one(self, mhd, mach=1.5):
        r = self.r
        d, p = self.log(), self.log()
        c = math.sqrt(p / d)
        v = [snap(r.gauss(0, mach * c)) for _ in range(3)]
        b = [snap(r.gauss(0, math.sqrt(p))) for _ in range(3)] if mhd else [0.0] * 3
        return [d, p] + v + b

    def fast(self, q, g):
        d, p, a = q[0], q[1], q[5]
        b2 = (q[5]**2 + q[6]**2 + q[7]**2) / d
        c2 = g * p / d
        h = (b2 + c2) / 2
        return math.sqrt(h + math.sqrt(max(0, h * h - c2 * a * a / d)))

    def pair(self, kind, mhd, g):
        r = self.r
        l, q = self.one(mhd), self.one(mhd)
        q[5] = l[5]
        c = max(self.fast(l, g), self.fast(q, g))
        if kind == "equal":
            q = list(l)
        elif kind == "same_still":                 # nothing moves across the interface
            l[2] = 0.0
            q = list(l)
        elif kind in ("right", "left"):            # all waves to one side
            s = 1 if kind == "right" else -1
            du = q[2] - l[2]
            base = snap(s * (2.2 * c + 3 * abs(du)))
            l[2], q[2] = base, snap(base + s * abs(du) * (1 if s > 0 else -1))
        elif kind in ("sub_right", "sub_left"):    # slow enough for the inner waves only
            s = 1 if kind == "sub_right" else -1
            base = snap(s * c * r.uniform(0.05, 0.9))
            l[2], q[2] = base, snap(base + 0.1 * c * r.uniform(-1, 1))
        elif kind == "contact":
            l[2] = q[2] = snap(r.choice([0.0, 0.3, -0.3, 0.05, -0.05]) * c)
            q[1] = l[1]
            for k in (3, 4, 6, 7):
                q[k] = l[k]
            if not mhd:
                q[3], q[4] = snap(r.gauss(0, 1)), snap(r.gauss(0, 1))
        elif kind == "tangential":
            l[2] = q[2] = snap(r.choice([0.2, -0.2]) * c)
            l[5] = q[5] = 0.0
            l[6], l[7], q[6], q[7] = [snap(x) for x in (0.5, r.uniform(0, 1), -0.25, r.uniform(0, 1))]
            l[1] = snap(q[1] + (q[6]**2 + q[7]**2) / 2 + 2)
            q[1] = snap(l[1] + (l[6]**2 + l[7]**2 - q[6]**2 - q[7]**2) / 2)
        elif kind == "rotation":                   # two Alfven waves around a contact
            a = r.choice([-1.0, 1.0]) * r.choice([0.5, 1.0, 1.5])
            rl, rr = r.choice([0.25, 1.0, 2.25, 4.0]), r.choice([0.25, 1.0, 2.25, 4.0])
            s = math.copysign(1, a)
            rot = [(0.75, 1.0), (1.25, 0.0), (-0.75, 1.0), (-1.0, 0.75), (1.0, -0.75), (0.0, -1.25)]
            m, x, y = r.choice(rot), r.choice(rot), r.choice(rot)
            v, w = 0.25, -0.5
            u = snap(r.choice([-2.5, -1.0, -0.2, 0.2, 1.0, 2.5]))
            p = self.log(0.5, 2)
            l = [rl, p, u, v + s * (x[0] - m[0]) / math.sqrt(rl), w + s * (x[1] - m[1]) / math.sqrt(rl), a, x[0], x[1]]
            q = [rr, p, u, v - s * (y[0] - m[0]) / math.sqrt(rr), w - s * (y[1] - m[1]) / math.sqrt(rr), a, y[0], y[1]]
        elif kind == "aligned":                    # field along the normal, as strong as the pressure
            t = self.r.choice([1.0, 1.0, 1.0, 0.5, 2.0])
            for z in (l, q):
                z[6] = z[7] = 0.0
                z[5] = math.sqrt(g * l[1]) * t      # not rounded: sound and Alfven speed coincide
            q[1] = l[1]
            if r.random() < 0.5:
                q = list(l)
                q[3] += 0.5
            elif r.random() < 0.5:
                l[2] = q[2] = snap(r.gauss(0, 0.5))
        elif kind == "nofield":
            for z in (l, q):
                z[5] = z[6] = z[7] = 0.0
        elif kind == "inplane":                    # no field across the interface
            l[5] = q[5] = 0.0
        elif kind == "jump":                       # strong jumps
            q[0], q[1] = snap(l[0] * r.choice([0.01, 100, 10])), snap(l[1] * r.choice([0.01, 100, 30]))
            l[2], q[2] = [snap(x * 0.3) for x in (l[2], q[2])]
        elif kind == "bjump":                      # the two sides disagree about the normal field
            q[5] = snap(l[5] + r.gauss(0, 0.3))
        elif kind == "collide":
            l[2], q[2] = abs(l[2]), -abs(q[2])
        elif kind == "part":
            l[2], q[2] = snap(-0.4 * abs(l[2])), snap(0.4 * abs(q[2]))
        return l, q


KINDS = ["random", "equal", "same_still", "right", "left", "sub_right", "sub_left", "contact", "jump", "collide", "part"]
MKINDS = ["tangential", "rotation", "rotation", "aligned", "aligned", "aligned", "aligned", "nofield", "inplane", "bjump"]


def cost(e):
    if e["t"] == "emf":
        return 8
    return dict(llf=1, hll=1, hllc=1.3, hlld=3, approx=7)[e["s"]] * (1.6 if any(e["l"][5]) else 1)


def check(run, t0):
    rng = random.Random(vt.SEED)
    exe = vt.build("t_riemann")["t_riemann"]
    S = States(rng)
    pool = ThreadPoolExecutor(8)
    mc = pool.submit(vt.model, run, "MCRiemann", "MCRiemannT" if vt.THOROUGH else "MCRiemann")
    rep = 12 if vt.THOROUGH else 4
    calls = []          # (id, group key, command, numbers, event)
    n = 0

    def scale(q, ea, eb):
        """change of units by powers of two: density 4^ea, velocity 2^eb"""
        fa, fb = 4.0**ea, 2.0**eb
        return [q[0] * fa, q[1] * fa * fb * fb] + [x * fb for x in q[2:5]] + [x * 2.0**ea * fb for x in q[5:8]]

    def unscale(f, ea, eb):
        fa, fb = 4.0**ea, 2.0**eb
        s = [fa * fb, fa * fb**3] + [fa * fb * fb] * 3 + [2.0**ea * fb * fb] * 3
        return [x / y for x, y in zip(f, s)]

    def flux(s, mode, kind, gi):
        nonlocal n
        g = GAMMAS[gi % len(GAMMAS)]
        gam = g[0] / g[1]
        mhd = mode == "m"
        l, r = S.pair(kind, mhd, gam)
        if mode == "h2":
            l[4] = r[4] = 0.0
        ea, eb = (rng.randrange(-6, 7), rng.randrange(-6, 7)) if rng.random() < 0.3 else (0, 0)
        n += 1
        nv = dict(h2=4, h3=5, m=8)[mode]
        L, R = scale(l, ea, eb), scale(r, ea, eb)
        tol = 5 if s == "approx" else 6 if kind == "aligned" else (9 if s == "hlld" else 11)
        ev = dict(id="%s_%s_%s_%d" % (mode, s, kind, n), t="flux", s=s, g=dict(n=g[0], d=g[1]), l=[digits(x) for x in l],
                  r=[digits(x) for x in r], tol=tol, nan=False)
        calls.append((ev, (s, g, mhd), mode, L[:nv] + R[:nv], lambda f: unscale(f, ea, eb)))

    for k in range(rep):
        for i, s in enumerate(HYDRO):
            for j, kind in enumerate(KINDS):
                modes = ["h2", "h3"] if (s != "approx" or vt.THOROUGH) else [["h2", "h3"][(j + k + vt.SEED) % 2]]
                for m in modes:
                    for q in range(2 if kind in ("random", "contact") else 1):
                        flux(s, m, kind, rng.randrange(6))
        for s in MHD:
            for kind in KINDS + MKINDS + (["rotation"] * 4 + ["random", "sub_right", "sub_left"] * 2 if s == "hlld" else []):
                flux(s, "m", kind, rng.randrange(6))

    # electric field at an edge
    def emf(dr, kind):
        nonlocal n
        g = rng.choice(GAMMAS)
        gam = g[0] / g[1]
        n += 1
        q = [S.one(True, 0.4) for _ in range(4)]
        if kind == "equal":
            q = [list(q[0]) for _ in range(4)]
        else:
            # similar states; a common drift in the plane of the edge
            for z in q[1:]:
                for m in range(8):
                    z[m] = snap(0.6 * q[0][m] + 0.4 * z[m])
            if kind == "still":
                for z in q:
                    for m in (2, 3, 4):
                        z[m] = snap(0.2 * z[m])
            c = max(max(S.fast(z, gam), S.fast(z[:5] + [z[6], z[5], z[7]], gam), S.fast(z[:5] + [z[7], z[6], z[5]], gam)) for z in q)
            drift = {"pp": (1, 1), "pm": (1, -1), "mp": (-1, 1), "mm": (-1, -1), "p0": (1, 0), "m0": (-1, 0), "0p": (0, 1),
                     "0m": (0, -1)}.get(kind, (0, 0))
            ax = dict(ez=(2, 3), ey=(4, 2), ex=(3, 4))[dr]
            for z in q:
                for m, s in zip(ax, drift):
                    z[m] = snap((z[m] if s == 0 else 0.2 * z[m]) + s * 3.0 * c)
        ev = dict(id="emf_%s_%s_%d" % (dr, kind, n), t="emf", s="emf", g=dict(n=g[0], d=g[1]), dir=dr[1],
                  q=[[digits(x) for x in z] for z in q], tol=9, nan=False)
        calls.append((ev, ("hlld", g, True), dr, sum(q, []), lambda f: f))

    for k in range(rep):
        for dr in ("ez", "ey", "ex"):
            for kind in ("equal", "still", "still", "still", "pp", "pm", "mp", "mm", "p0", "m0", "0p", "0m"):
                emf(dr, kind)
    # run
    groups = {}
    for c in calls:
        groups.setdefault(c[1], []).append(c)
    sc, order = [], []
    for (s, g, mhd), cs in groups.items():
        p = run.path("in", "%s_%d_%d_%d.ini" % (s, g[0], g[1], mhd))
        open(p, "w").write(vt.ini_text(dict(run=dict(solver_name="MHD_Muscl_2D" if mhd else "Hydro_Muscl_2D"), mesh=dict(nx=8, ny=8),
                                            hydro=dict(gamma0=g[0] / g[1], riemann=s))))
        sc.append("ini " + p)
        for c in cs:
            sc.append(c[2] + " " + " ".join(float(x).hex() for x in c[3]))
            order.append(c)
    open(run.path("script"), "w").write("\n".join(sc) + "\n")
    rc, so, se = vt.sh([exe, run.path("script"), run.path("out")], 120)
    bad = []
    lines = open(run.path("out")).read().split("\n") if rc == 0 else []
    if len(lines) != len(order) + 1:
        bad.append(dict(id="solvers", why="the solvers did not return for all states (exit status %s, %d of %d)" % (rc, len(lines) - 1, len(order))))
    evs = []
    for c, l in zip(order, lines):
        f = c[4]([float.fromhex(x) for x in l.split()])
        e = c[0]
        if all(math.isfinite(x) for x in f) and f:
            e["f"] = [digits(x) for x in f]
        else:
            e["f"], e["nan"] = [], True
        evs.append(e)
        run.samples.append("%s" % e["id"])
    K = 7
    parts = [[] for _ in range(K)]
    load = [0] * K
    for e in sorted(evs, key=cost, reverse=True):
        k = load.index(min(load))
        load[k] += cost(e)
        parts[k].append(e)

    def corrupt(e):
        if e["nan"]:
            return False
        e["f"][0][-5] += 20 if e.get("tol") == 9 or e.get("tol") == 11 else 0
        e["f"][0][3] += 3

    for f in [pool.submit(vt.validate, run, "TraceRiemann", "TraceRiemann", p, "t%d" % i, 800, canary=corrupt) for i, p in enumerate(parts) if p]:
        for i, w in f.result():
            bad.append(dict(id=i, why=w))
    mc.result()
    run.samples = rng.sample(run.samples, min(8, len(run.samples)))
    return vt.finish(run, bad, t0, rule="fluxes of riemann_hydro (2D, 3D), riemann_mhd and compute_emf, solver chosen by name from a parameter file, for %d planted "
                     "pairs and quadruples of states (equal, supersonic, contacts, tangential and rotational discontinuities, shocks, rarefactions, aligned and missing "
                     "fields, changes of units), compared with the fluxes of Riemann.tla in 24-digit arithmetic" % len(evs),
                     extra=dict(solvers=HYDRO + ["mhd " + s for s in MHD] + ["emf x y z"], gammas=["%d/%d" % g for g in GAMMAS]))
