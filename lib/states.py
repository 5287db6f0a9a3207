"""global initial states (array [k,j,i,v]) for the finite-volume solvers"""
import numpy as np

# variable groups: 1 density 2 energy 3 momentum 4 magnetic field (low faces)
def variables(solver):
    r = [dict(g=1, ax=0, st=0), dict(g=2, ax=0, st=0)]
    if solver.startswith("MHD"):
        return r + [dict(g=3, ax=a, st=0) for a in (1, 2, 3)] + [dict(g=4, ax=a, st=1) for a in (1, 2, 3)]
    dim = 2 if "2D" in solver else 3
    return r + [dict(g=3, ax=a, st=0) for a in range(1, dim + 1)]


def dim_of(solver):
    return 2 if "2D" in solver else 3


def ghost(solver):
    return 3 if solver.startswith("MHD") else (1 if "SDM" in solver else 2)


class R:
    """reproducible pseudo random numbers in [0,1) (numpy generator seeded)"""

    def __init__(self, seed):
        self.g = np.random.default_rng(seed)


def smooth(shape, g, modes=4, kmax=2):
    """smooth periodic random field in [-1,1], shape (nz,ny,nx)"""
    nz, ny, nx = shape
    k, j, i = np.meshgrid(np.arange(nz), np.arange(ny), np.arange(nx), indexing="ij")
    f = np.zeros(shape)
    for _ in range(modes):
        m = [g.integers(-kmax, kmax + 1), g.integers(-kmax, kmax + 1), g.integers(-kmax, kmax + 1) if nz > 1 else 0]
        f += g.uniform(-1, 1) * np.cos(2 * np.pi * (m[0] * i / nx + m[1] * j / ny + m[2] * k / nz) + g.uniform(0, 7))
    s = np.abs(f).max()
    return f / s if s > 0 else f


def rough(shape, g):
    """smooth plus jumps plus noise, in [-1,1]"""
    f = 0.5 * smooth(shape, g)
    f += 0.3 * np.sign(smooth(shape, g))
    f += 0.2 * g.uniform(-1, 1, shape)
    return f


def field(kind, shape, g):
    return rough(shape, g) if kind == "rough" else smooth(shape, g)


def curl(A, d, dim):
    """face-centred B (low faces) from edge vector potential A[3] (periodic), divergence free"""
    ax = {0: 2, 1: 1, 2: 0}

    def D(f, a):
        if dim == 2 and a == 2:
            return np.zeros_like(f)
        return (np.roll(f, -1, ax[a]) - f) / d[a]
    Bx = D(A[2], 1) - D(A[1], 2)
    By = D(A[0], 2) - D(A[2], 0)
    Bz = D(A[1], 0) - D(A[0], 1)
    return Bx, By, Bz


def state(solver, N, d, seed, gamma=1.4, kind="rough", mach=0.5, b=0.5, vsup=None, rho=(0.5, 2.0), p=(0.5, 2.0), nd=1, w=True):
    """random admissible global state; N = (nx,ny,nz), d = cell sizes"""
    g = np.random.default_rng(seed)
    dim = dim_of(solver)
    shape = (N[2] if dim == 3 else 1, N[1], N[0])
    r = rho[0] + (rho[1] - rho[0]) * 0.5 * (1 + field(kind, shape, g))
    pr = p[0] + (p[1] - p[0]) * 0.5 * (1 + field(kind, shape, g))
    nvel = 3 if (dim == 3 or solver.startswith("MHD")) else 2
    v = [mach * field(kind, shape, g) for _ in range(nvel)]
    if vsup:
        v = [v[a] + vsup[a] for a in range(nvel)]
    E = pr / (gamma - 1) + 0.5 * r * sum(x * x for x in v)
    out = [r, E] + [r * x for x in v]
    if solver.startswith("MHD"):
        h = min(d[:dim])
        A = [b * 0.3 * field("smooth", shape, g) for _ in range(3)]
        B = [x + b * g.uniform(-0.5, 0.5) for x in curl(A, d, dim)]
        if dim == 2:
            B[2] = B[2] + 0.3 * b * field(kind, shape, g)
        m = max(np.abs(x).max() for x in B)
        B = [x * (b / m) if m > 0 else x for x in B]
        Bc = [0.5 * (B[0] + np.roll(B[0], -1, 2)), 0.5 * (B[1] + np.roll(B[1], -1, 1)),
              0.5 * (B[2] + np.roll(B[2], -1, 0)) if dim == 3 else B[2]]
        out[1] = E + 0.5 * sum(x * x for x in Bc)
        out += B
    return np.stack(out, axis=-1)


def write(path, a):
    np.ascontiguousarray(a, dtype="<f8").tofile(path)
    return path


def sdm_state(solver, N, nd, d, seed, **kw):
    """state of a spectral-difference solver: [k,j,i, v*nf + ix + nd*iy + nd*nd*iz]"""
    dim = dim_of(solver)
    fv = "Hydro_Muscl_%dD" % dim
    M = [N[a] * nd if a < dim else 1 for a in range(3)]
    return to_sdm(state(fv, M, [x / nd for x in d], seed, **kw), dim, nd)


def to_sdm(A, dim, nd):
    nz, ny, nx, nv = A.shape
    dz = nd if dim == 3 else 1
    B = A.reshape(nz // dz, dz, ny // nd, nd, nx // nd, nd, nv)
    return np.ascontiguousarray(B.transpose(0, 2, 4, 6, 1, 3, 5)).reshape(nz // dz, ny // nd, nx // nd, nv * nd * nd * dz)
