"""Shared pieces of the harnesses (work in symbolic and in concrete mode)."""


def partitions(n):
    """All set partitions of range(n) as restricted growth strings."""
    out = []

    def rec(pre, mx):
        if len(pre) == n:
            out.append(pre)
            return
        for k in range(mx + 2):
            rec(pre + [k], max(mx, k))
    rec([], -1)
    return out


LABELS = ["gB", "gA", "gC", "gD", "gE"]


def names(d, prefix="x"):
    # deliberately not in alphabetical order
    base = ["q", "b", "z", "a", "m", "c"]
    return [base[i] if i < len(base) else "v%d" % i for i in range(d)]


def group_choice(c, d, single=False, must=False):
    """None or a list of group labels: every partition of the parameters."""
    opts = []
    for p in partitions(d):
        k = len(set(p))
        if k == d and not must:
            continue
        if k == 1 and not single and d > 1:
            continue
        opts.append([LABELS[i] for i in p])
    if not must:
        opts = [None] + opts
    return c.choose("groups", opts)


def sym_bounds(c, d, lo=-10, hi=10, gap=0.01):
    b = []
    for j in range(d):
        a = c.real("lb%d" % j, lo, hi)
        b.append([a, a + c.real("width%d" % j, gap, hi - lo)])
    return b


def problem(c, d, bounds=None, groups=None, **extra):
    p = {"num_vars": d, "names": names(d),
         "bounds": bounds if bounds is not None else [[0.0, 1.0]] * d}
    if groups is not None:
        p["groups"] = list(groups)
    p.update(extra)
    return p


def gnames(p):
    """Group names (or parameter names) in order of first appearance."""
    g = p.get("groups") or p["names"]
    out = []
    for x in g:
        if x not in out:
            out.append(x)
    return out


def members(p):
    g = p.get("groups") or p["names"]
    return [[j for j, x in enumerate(g) if x == nm] for nm in gnames(p)]


def mean(v):
    s = v[0]
    for x in v[1:]:
        s = s + x
    return s / len(v)


def var(v, ddof=0):
    m = mean(v)
    s = (v[0] - m) * (v[0] - m)
    for x in v[1:]:
        s = s + (x - m) * (x - m)
    return s / (len(v) - ddof)


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False


def increasing(c, name, order, lo=-5, hi=5, gap=0.05, maxgap=3):
    """Values whose increasing order is `order` (sample numbers): a symbolic base plus symbolic
    positive gaps, so that comparisons are decided by the declared ranges alone."""
    v = [None] * len(order)
    x = c.real(name + " base", lo, hi)
    for k, i in enumerate(order):
        if k:
            x = x + c.real("%s gap%d" % (name, k), gap, maxgap)
        v[i] = x
    return v


def columns(c, cols):
    """Matrix from columns of values."""
    return c.array(c.w_obj([[col[i] for col in cols] for i in range(len(cols[0]))]))
