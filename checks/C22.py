"""Parallel and distributed evaluation and analysis keep the sample order."""
from vf.lib import *

BOUNDS = ("1..5 samples (8 thorough), 1..3 inputs and outputs, 1..4 processors found, 1..5 requested or unspecified, 1..2 processes on 1..3 servers, every "
          "completion order of the chunks; all real samples and arguments |v|<=5; 1..3 outputs analysed")
ASSUMPTIONS = ["worker pools run the tasks in an arbitrary order in one process: arguments and results are copied as by pickling, ordered maps keep the "
               "submission order, unordered maps the completion order", "p_tqdm's p_imap is an ordered iterator (it is not installed here)"]


def harnesses(tier):
    o = {"pool_order": True, "cpus": 4}
    return [("parallel", o), ("progress", o), ("distributed", o), ("analysis", o), ("analysis_progress", o), ("serial", {}), ("arguments", o)]


def matrix(c, name, n, d):
    return c.array(c.w_obj([[c.real("%s%d_%d" % (name, i, j), -5, 5) for j in range(d)] for i in range(n)]))


def spec(c, d, mod=None, **extra):
    return (mod or c.w.util.problem).ProblemSpec(problem(c, d, **extra))


def make_model(c, K, seen=None, minrows=0):
    def model(X, a=1.0, b=0.0):
        if seen is not None:
            seen.extend([[X[i, j] for j in range(X.shape[1])] for i in range(X.shape[0])])
        n = len(X)
        rows = [[a * sum([X[i, j] * (j + 1 + k) for j in range(1, X.shape[1])], X[i, 0] * (k + 1)) + b for k in range(max(K, 1))] for i in range(n)]
        if K == 0:
            return c.array(c.w_obj([r[0] for r in rows])) if n else c.array(c.w_obj([]))
        if not n:
            return c.w.np.empty((0, K))
        return c.array(c.w_obj(rows))
    return model


def once(c, seen, X):
    """Every sample row is evaluated exactly once (rows are pairwise different symbols)."""
    c.prove(len(seen) == len(X), "as many evaluated rows as samples")
    n = len(X)
    if len(seen) != n:
        return
    left = list(range(n))
    for i in range(n):
        hit = next((k for k in left if all(is_same(seen[k][j], X[i, j]) for j in range(X.shape[1]))), None)
        c.prove(hit is not None, "every row is evaluated once")
        if hit is not None:
            left.remove(hit)


def is_same(a, b):
    from vf.sym import Sym
    if isinstance(a, Sym) or isinstance(b, Sym):
        return isinstance(a, Sym) and isinstance(b, Sym) and a.n == b.n and a.d == b.d
    return float(a) == float(b)


def sizes(c, rows=5):
    return c.int("N", 1, 8 if c.tier == "thorough" else rows), c.choose("D", [1, 3]), c.choose("K", [0, 1, 2])


def parallel(c, mod=None):
    N, D, K = sizes(c)
    n = c.choose("nprocs", [None, 1, 2, 3, 5])
    X = matrix(c, "x", N, D)
    a, b = c.real("a", -5, 5), c.real("b", -5, 5)
    seen = []
    sp = spec(c, D, mod).set_samples(X)
    r = sp.evaluate_parallel(make_model(c, K, seen), a, nprocs=n, b=b) if c.choose("route", [0, 1]) or n is None else sp.evaluate(make_model(c, K, seen), a, nprocs=n, b=b)
    E = make_model(c, K)(X, a, b)
    c.prove(r is sp, "calls can be chained")
    c.prove(tuple(sp.results.shape) == tuple(E.shape), "one result per sample")
    c.prove_all_eq(sp.results, E, "results in sample order, with the extra arguments")
    once(c, seen, X)


def with_progress(c):
    import types
    P = c.w.shims["multiprocess"].Pool
    m = types.ModuleType("p_tqdm")
    m.p_imap = lambda f, *its, num_cpus=None, **k: iter(P(num_cpus).map(lambda t: f(*t), list(zip(*its))))
    return c.w.variant("SALib.util.problem", {"p_tqdm": m})


def progress(c):
    parallel(c, with_progress(c))


def distributed(c):
    N, D, K = sizes(c, 4)
    n = c.choose("nprocs", [1, 2])
    servers = c.choose("servers", [["s1"], ["s1", "s2"], ["s1", "s2", "s3"]])
    X = matrix(c, "x", N, D)
    a, b = c.real("a", -5, 5), c.real("b", -5, 5)
    seen = []
    sp = spec(c, D).set_samples(X)
    r = sp.evaluate_distributed(make_model(c, K, seen), a, nprocs=n, servers=servers, verbose=c.choose("verbose", [False, True]), b=b)
    E = make_model(c, K)(X, a, b)
    c.prove(r is sp, "calls can be chained")
    c.prove(tuple(sp.results.shape) == tuple(E.shape), "one result per sample")
    c.prove_all_eq(sp.results, E, "results in sample order, with the extra arguments")
    once(c, seen, X)


def serial(c):
    N, D, K = sizes(c)
    X = matrix(c, "x", N, D)
    a, b = c.real("a", -5, 5), c.real("b", -5, 5)
    seen = []
    sp = spec(c, D).set_samples(X)
    sp.evaluate(make_model(c, K, seen), a, b=b)
    c.prove_all_eq(sp.results, make_model(c, K)(X, a, b), "results in sample order, with the extra arguments")
    once(c, seen, X)


def analysis(c, mod=None):
    """Every output gets the indices of its own column."""
    N, D = 2, 2
    K = c.int("K", 1, 3)
    named = c.choose("named", [False, True])
    R = c.w.util.results.ResultDict
    nm = ["o%d" % (K - i) for i in range(K)] if named else (["Y"] if K == 1 else ["Y%d" % (i + 1) for i in range(K)])
    X, Y = matrix(c, "x", N, D), matrix(c, "y", N, K)
    k = c.real("k", -5, 5)
    needX = c.choose("needs X", [True, False])
    if needX:
        def f(problem, X, Y, k=1.0):
            return R(names=problem["names"], S1=[k * Y[0] + Y[1] * X[0, 0], X[1, 1] + Y[1]])
    else:
        def f(problem, Y, k=1.0):
            return R(names=problem["names"], S1=[k * Y[0], Y[1] - k])
    sp = spec(c, D, mod, **({"outputs": list(nm)} if named else {})).set_samples(X).set_results(Y)
    n = c.choose("nprocs", ["serial", "none", 1, 2, 4])
    v = c.choose("argument", ["keyword", "positional"])
    ar, kw = ((), {"k": k}) if v == "keyword" else ((k,), {})
    if n == "serial":
        r = sp.analyze(f, *ar, **kw)
    elif n == "none":
        r = sp.analyze_parallel(f, *ar, **kw)
    elif c.choose("route", [0, 1]):
        r = sp.analyze_parallel(f, *ar, nprocs=n, **kw)
    else:
        r = sp.analyze(f, *ar, nprocs=n, **kw)
    c.prove(r is sp, "calls can be chained")
    A = [sp.analysis] if K == 1 else [sp.analysis[o] for o in nm]
    if K > 1:
        c.prove(list(sp.analysis) == nm, "one analysis per output in order")
    for j, S in enumerate(A):
        y = [Y[0, j], Y[1, j]]
        E = (f(sp, X, y, k) if needX else f(sp, y, k))["S1"]
        c.prove_all_eq(S["S1"], E, "indices of the output's own column")
    c.prove_all_eq(sp.results, Y, "the results stay")
    c.prove_all_eq(sp.samples, X, "the samples stay")


def analysis_progress(c):
    analysis(c, with_progress(c))


def arguments(c):
    """Convenience methods and routes pass every positional and keyword argument on."""
    X = matrix(c, "x", 3, 2)
    a, b, e = c.real("a", -5, 5), c.real("b", -5, 5), c.real("e", -5, 5)
    got = []

    def model(X, *args, **kw):
        got.append((args, kw))
        return c.array(c.w_obj([X[i, 0] for i in range(len(X))]))
    sp = spec(c, 2).set_samples(X)
    k = c.choose("route", ["evaluate", "nprocs", "parallel", "distributed"])
    {"evaluate": lambda: sp.evaluate(model, a, b, e=e), "nprocs": lambda: sp.evaluate(model, a, b, nprocs=2, e=e),
     "parallel": lambda: sp.evaluate_parallel(model, a, b, nprocs=2, e=e),
     "distributed": lambda: sp.evaluate_distributed(model, a, b, nprocs=1, servers=["s", "t"], e=e)}[k]()
    for args, kw in got:
        c.prove(len(args) == 2 and list(kw) == ["e"], "arguments and keywords reach the model")
        c.prove_all_eq(list(args) + [kw.get("e", 0.0)], [a, b, e], "with their values")
    smp = []

    def sampler(problem, *args, **kw):
        smp.append((args, kw))
        return X
    sp.sample(sampler, a, b, e=e)
    (args, kw), = smp
    c.prove(len(args) == 2 and list(kw) == ["e"], "arguments and keywords reach the sampler")
    c.prove_all_eq(list(args) + [kw.get("e", 0.0)], [a, b, e], "with their values")
    c.prove_all_eq(sp.samples, X, "the sample is stored")
