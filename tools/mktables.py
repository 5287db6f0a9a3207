"""spec/Nodes.tla: points, weights and interpolation factors of the spectral difference cells as literals
(MCLimiter.tla checks them against their definitions); run with python3-vt"""
import mpmath as mp
mp.mp.dps = 60


def fix(x):
    n = int(mp.floor(x * mp.mpf(10)**24 + mp.mpf(1) / 2))
    r = []
    for _ in range(9):
        n, d = divmod(n, 10000)
        r.append(d)
    return "<<%s>>" % ",".join(map(str, [n] + r[::-1]))


def seq(xs):
    return "<<" + ", ".join(xs) + ">>"


node, flux, weight, rise, tof = [], [], [], [], []
for n in range(1, 7):
    x = [(1 - mp.cos(mp.pi * (2 * k + 1) / (2 * n))) / 2 for k in range(n)]
    inner = sorted(mp.polyroots(mp.taylor(lambda t: mp.legendre(n - 1, t), 0, n - 1)[::-1], maxsteps=200, extraprec=200)) if n > 1 else []
    fl = [mp.mpf(0)] + [(1 + mp.re(r)) / 2 for r in inner] + [mp.mpf(1)]

    def val(k, t):
        return mp.fprod((t - x[m]) / (x[k] - x[m]) for m in range(n) if m != k)
    w = [mp.quad(lambda t: val(k, t), [0, 1]) for k in range(n)]
    node.append(seq(map(fix, x)))
    flux.append(seq(map(fix, fl)))
    weight.append(seq(map(fix, w)))
    rise.append(seq(fix(val(k, mp.mpf(1)) - val(k, mp.mpf(0))) for k in range(n)))
    tof.append(seq(seq(fix(val(k, t)) for k in range(n)) for t in fl))
print("""------------------------------- MODULE Nodes -------------------------------
EXTENDS Integers
(* generated by tools/mktables.py: for n = 1 .. 6 values per direction, the    *)
(* solution points, the flux points, the weights of the average, the change of  *)
(* each basis polynomial across the cell, its value at every flux point         *)
(* (numbers as in Fixed.tla; MCLimiter.tla checks them against the definitions)  *)""")
for name, t in (("Node", node), ("FluxNode", flux), ("Weight", weight), ("Rise", rise), ("ToFlux", tof)):
    print("%s == <<\n  %s>>" % (name, ",\n  ".join(t)))
print("=" * 77)
