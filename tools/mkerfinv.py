"""writes harness/erfinv_table.hpp: polynomials close to the inverse error function, computed from mpmath's erfinv
   (bisection on erf), independent of the code under test.  run with python3-vt"""
import mpmath as mp, os
mp.mp.dps = 50
DEG = 8


def inv(x):  # erf(y) = x
    return mp.findroot(lambda y: mp.erf(y) - x, mp.erfinv(mp.mpf(x)))


def tail(s):  # erfc(y) = 2 exp(-s^2)
    t = 2 * mp.e ** (-s * s)
    y = s
    for _ in range(200):
        d = (mp.erfc(y) - t) / (-2 / mp.sqrt(mp.pi) * mp.e ** (-y * y))
        y -= d
        if abs(d) < mp.mpf(10) ** -45:
            break
    return y


def fit(f, a, b):
    """Chebyshev interpolation in u = x - (a+b)/2, returned with its largest error on a fine grid"""
    c, h = (a + b) / 2, (b - a) / 2
    n = DEG + 1
    xs = [h * mp.cos(mp.pi * (2 * k + 1) / (2 * n)) for k in range(n)]
    A = mp.matrix(n, n)
    for i, x in enumerate(xs):
        for j in range(n):
            A[i, j] = x ** j
    co = mp.lu_solve(A, mp.matrix([f(c + x) for x in xs]))
    co = [float(co[j]) for j in range(n)]
    err = max(abs(sum(mp.mpf(co[j]) * u ** j for j in range(n)) - f(c + u)) for u in [h * (2 * mp.mpf(k) / 60 - 1) for k in range(61)])
    return float(c), co, float(err)


def table(name, f, edges):
    out, worst = "static const Segment %s[] = {\n" % name, 0
    for a, b in zip(edges, edges[1:]):
        c, co, err = fit(f, mp.mpf(a), mp.mpf(b))
        worst = max(worst, err)
        out += "    { %r, %r, %r, { %s } },\n" % (a, b, c, ", ".join("%r" % x for x in co))
    print(name, len(edges) - 1, "segments, largest error", worst)
    return out + "};\n"


o = "// written by tools/mkerfinv.py\n#pragma once\nstruct Segment\n{\n    double from, to, centre, c[%d];\n};\n" % (DEG + 1)
o += "// erfinv(x)\n" + table("middle", inv, [0.0, 0.25, 0.4375, 0.5625, 0.65625, 0.71875, 0.78125, 0.8125, 0.85])
o += "// erfinv(1 - 2 exp(-s^2))\n" + table("tail", tail, [1.609375, 1.875, 2.25, 2.75, 3.5, 4.25, 5.0, 5.5, 6.125])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "erfinv_table.hpp"), "w").write(o)
