"""signal speeds of recorded states (the quantities Cfl.tla combines)"""
import numpy as np
import states


def primitives(s, a, gamma, nd=1):
    """rho, p, v[3], B[3] or None at every point of a[k,j,i,v]; MHD: periodic upper faces"""
    dim = states.dim_of(s)
    nf = nd ** dim
    nv = a.shape[-1] // nf
    u = a.reshape(a.shape[:3] + (nv, nf))
    rho = u[..., 0, :]
    v = [u[..., 2 + i, :] / rho if 2 + i < min(nv, 5) else 0 * rho for i in range(3)]
    e = u[..., 1, :] - 0.5 * rho * sum(x * x for x in v)
    if not s.startswith("MHD"):
        return rho, (gamma - 1) * e, v, None
    c = lambda q, ax: 0.5 * (a[..., q] + np.roll(a[..., q], -1, ax))[..., None]
    B = [c(5, 2), c(6, 1), c(7, 0) if dim == 3 else a[..., 7][..., None]]
    return rho, (gamma - 1) * (e - 0.5 * sum(x * x for x in B)), v, B


def speeds(s, a, gamma, nd=1):
    """signal speed per direction at every point"""
    dim = states.dim_of(s)
    rho, p, v, B = primitives(s, a, gamma, nd)
    c2 = gamma * p / rho
    out = []
    for d in range(dim):
        if B is None:
            c = np.sqrt(c2)
        else:
            b2 = sum(x * x for x in B) / rho
            h = 0.5 * (b2 + c2)
            c = np.sqrt(h + np.sqrt(np.maximum(h * h - c2 * B[d] ** 2 / rho, 0)))
        out.append(c + np.abs(v[d]))
    return out


def dt_cells(s, a, d, gamma, cfl, nd=1, G=None):
    """stable step of every cell"""
    dim = states.dim_of(s)
    sp = speeds(s, a, gamma, nd)
    if G is None:
        w = sum(sp[q] / d[q] for q in range(dim)) * nd
        return cfl / w.max(-1)
    h = min(d[:dim])
    u = sum(sp)[..., 0]
    g = np.abs(G[..., :dim]).sum(-1)
    k = np.maximum(g * cfl * h / u ** 2, 1e-4)
    return cfl * h / (u * k / (np.sqrt(1 + 2 * k) - 1))


def contact(s, N, nd, u, p, gamma, rho_l, rho_r, x0, B=(0.0, 0.0, 0.0), vt=(0.0, 0.0)):
    """uniform velocity, pressure and field; density rho_l left of cell x0, rho_r right of it"""
    dim = states.dim_of(s)
    nf = nd ** dim
    mhd = s.startswith("MHD")
    nv = 8 if mhd else 2 + dim
    rho = np.full((N[2], N[1], N[0]), float(rho_r))
    rho[:, :, :x0] = rho_l
    v = [u, vt[0], vt[1] if dim == 3 or mhd else 0.0]
    U = [rho, p / (gamma - 1) + 0.5 * rho * sum(x * x for x in v) + (0.5 * sum(b * b for b in B) if mhd else 0)] + [rho * x for x in v]
    U = U[:min(nv, 5)] + ([np.full_like(rho, b) for b in B] if mhd else [])
    return np.repeat(np.stack(U, -1), nf, axis=-1)
