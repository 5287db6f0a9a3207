"""polynomial flows for the spectral-difference solvers and the events TraceOperator.tla judges"""
import itertools
import numpy as np
import vt, states, problems
from checks.p21 import digits

SOLVERS = [("Hydro_SDM_2D_degree%d" % n, 2, n) for n in (1, 2, 3, 4, 5, 6)] + [("Hydro_SDM_3D_degree%d" % n, 3, n) for n in (2, 3, 4)]
METHODS = dict(euler=dict(), ssp2=dict(forward_euler="false", ssprk2="true"), ssp3=dict(forward_euler="false", ssprk3="true"),
               ssp54=dict(forward_euler="false", ssprk54="true"))


def poly(rng, dim, deg, amp, base, tot=None, terms=6):
    """random polynomial {exponents: coefficient} with dyadic coefficients, degree per direction at most deg"""
    es = [e for e in itertools.product(range(deg + 1), repeat=dim) if sum(e) and (tot is None or sum(e) <= tot)]
    p = {(0,) * 3: base}
    top = [e for e in es if max(e) == deg]
    for e in rng.sample(es, min(len(es), terms)) + (rng.sample(top, min(len(top), dim)) if deg else []):
        p[tuple(e) + (0,) * (3 - dim)] = rng.randrange(-64, 65) / 64 * amp
    return p


def value(p, X):
    return sum(c * X[0]**e[0] * X[1]**e[1] * X[2]**e[2] for e, c in p.items())


def points(N, n, dim, lo, h):
    x = np.array([0.5 * (1 - np.cos(np.pi * (2 * i + 1) / (2 * n))) for i in range(n)])
    f = np.arange(n**dim)
    pos = [x[f % n], x[f // n % n], x[f // n // n % n] if dim == 3 else np.zeros(n**dim)]
    K, J, I = np.meshgrid(np.arange(N[2]), np.arange(N[1]), np.arange(N[0]), indexing="ij")
    return [lo[a] + h[a] * (c[..., None] + p) if a < dim else np.zeros(c.shape + p.shape) for a, (c, p) in enumerate(zip((I, J, K), pos))]


def state(flow, X, dim, gamma):
    r, p = value(flow["r"], X) + 0 * X[0], value(flow["p"], X) + 0 * X[0]
    u = [value(q, X) + 0 * X[0] for q in flow["u"]]
    U = np.stack([r, p / (gamma - 1) + 0.5 * r * sum(q * q for q in u)] + [r * q for q in u], axis=3)
    return U.reshape(U.shape[:3] + (-1,))


def listed(p):
    return [[list(e), digits(c)] for e, c in sorted(p.items())]


def event(ev, cid, dim, n, flow, lo, h, gamma, q, cells, scale, **kw):
    """q: [k,j,i,v*nf+f] array of results"""
    nf = n**dim
    out = []
    fin = True
    for c in cells:
        row = q[c[2], c[1], c[0]]
        fin = fin and bool(np.isfinite(row).all())
        out.append(dict(at=list(c), q=[[digits(x) if np.isfinite(x) else digits(0.0) for x in row[v * nf:(v + 1) * nf].tolist()] for v in range(dim + 2)]))
    return dict(dict(ev=ev, id=cid, dim=dim, n=n, lo=[digits(x) for x in lo], h=[digits(x) for x in h], g1=digits(1 / (gamma - 1)), nan=not fin,
                     r=listed(flow["r"]), p=listed(flow["p"]), u=[listed(x) for x in flow["u"]], cells=out, scale=[digits(float(s)) for s in scale]), **kw)


def corrupt(e):
    if e["nan"]:
        return False
    # beyond the tolerance, in the variable that is always exact
    e["cells"][0]["q"][0][0][4] += 700
    return True


def judge(run, evs, name, pool, K=7):
    parts, load = [[] for _ in range(K)], [0] * K
    w = lambda e: len(e["cells"]) * e["n"]**e["dim"] * (3 + len(e["r"]) + sum(len(x) for x in e["u"]))
    for e in sorted(evs, key=w, reverse=True):
        k = load.index(min(load))
        load[k] += w(e)
        parts[k].append(e)
    res = []
    for f in [pool.submit(vt.validate, run, "TraceOperator", "TraceOperator", q, "%s%d" % (name, i), 800, canary=corrupt) for i, q in enumerate(parts) if q]:
        res += f.result()
    return res


def binary(dim, n):
    return "drv_sdm_hi" if (dim, n) in ((2, 1), (2, 5), (2, 6), (3, 4)) else "drv_sdm"
