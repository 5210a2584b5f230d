"""Uniform scaling."""
BOUNDS = "1-3 samples, 1-3 parameters, all bounds with |b| <= 100, all unit samples"


def harnesses(tier):
    return [("scale", {}), ("unscale", {}), ("roundtrip", {}), ("illegal", {})]


def setup(c, lo=-100, hi=100):
    n = c.int("n", 1, 2)
    d = c.int("d", 1, 3)
    u = c.reals("u", (n, d), 0, 1)
    bounds = []
    for j in range(d):
        a = c.real("lo%d" % j, lo, hi)
        b = c.real("hi%d" % j, lo, hi)
        bounds.append([a, b])
    return n, d, u, bounds


def scale(c):
    n, d, u, bounds = setup(c)
    for a, b in bounds:
        c.assume(a < b)
    u0 = u.copy()
    p = {"num_vars": d, "names": ["x%d" % i for i in range(d)], "bounds": bounds}
    r = c.w.util.scale_samples(u, p)
    c.prove(r.shape == (n, d), "shape")
    for i in range(n):
        for j in range(d):
            a, b = bounds[j]
            c.prove(c.eq(r[i, j], a + (b - a) * u0[i, j]), "affine")
            c.prove(c.all([r[i, j] >= a - 1e-12 * (1 + abs(a)), r[i, j] <= b + 1e-12 * (1 + abs(b))]) if c.concrete
                    else c.all([r[i, j] >= a, r[i, j] <= b]), "inside bounds")


def unscale(c):
    n, d, u, bounds = setup(c)
    for a, b in bounds:
        c.assume(b - a > 1e-3)
    x = c.np.array([[bounds[j][0] + (bounds[j][1] - bounds[j][0]) * u[i, j] for j in range(d)]
                    for i in range(n)])
    c.w.util._unscale_samples(x, bounds)
    c.prove_all_eq(x, u, "inverse")


def roundtrip(c):
    n, d, u, bounds = setup(c)
    for a, b in bounds:
        c.assume(b - a > 1e-3)
    u0 = u.copy()
    p = {"num_vars": d, "names": ["x%d" % i for i in range(d)], "bounds": bounds}
    r = c.w.util.scale_samples(u, p)
    c.w.util._unscale_samples(r, bounds)
    c.prove_all_eq(r, u0, "roundtrip")


def illegal(c):
    n, d, u, bounds = setup(c)
    p = {"num_vars": d, "names": ["x%d" % i for i in range(d)], "bounds": bounds}
    bad = c.any([a >= b for a, b in bounds])
    try:
        c.w.util.scale_samples(u, p)
        raised = False
    except ValueError:
        raised = True
    c.prove(bad if raised else c.not_(bad), "rejected iff some lower bound >= upper bound")
    try:
        c.w.util._unscale_samples(c.reals("v", (n, d), 0, 1), bounds)
        raised = False
    except ValueError:
        raised = True
    c.prove(bad if raised else c.not_(bad), "unscaling rejected iff some lower bound >= upper bound")
