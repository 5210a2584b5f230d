"""ProblemSpec: stored results belong to stored samples, stored analysis to stored results."""
from vf.lib import *

BOUNDS = ("histories of 3 operations (4 thorough) out of sample/set_samples/samples=/evaluate/evaluate_parallel/set_results/results=/"
          "analyze/analyze_parallel, after every prefix; 2 parameters, 2 samples, 1 or 2 outputs (vector or columns); all real samples, "
          "results and coefficients |v|<=5; every sampler and analyser chained against its procedural form with small sizes")
ASSUMPTIONS = ["worker pools run the tasks in an arbitrary order in one process (pickling copies the arguments and results)"]


def harnesses(tier):
    return [("history", {}), ("missing", {}), ("refused", {}), ("samplers", {"rng_const": True}), ("analysers", {"rng_const": True})]


def spec(c, **extra):
    return c.w.util.problem.ProblemSpec(dict(problem(c, 2, [[0.0, 1.0], [-2.0, 3.0]]), **extra))


OPS = ["sample", "set_samples", "samples=", "evaluate", "parallel", "set_results", "results=", "analyze", "analyze_parallel"]


def matrix(c, name, n=2, d=2):
    return c.array(c.w_obj([[c.real("%s%d%d" % (name, i, j), -5, 5) for j in range(d)] for i in range(n)]))


def history(c):
    L = 3 if c.tier == "quick" else 4
    K = c.choose("outputs", ["vector", "column", "two"])
    R = c.w.util.results.ResultDict
    sp = spec(c)
    S = Y = A = None

    def outs(rows):
        if K == "vector":
            return c.array(c.w_obj([r[0] for r in rows]))
        return c.array(c.w_obj([r[:2 if K == "two" else 1] for r in rows]))

    def model(X, a=1.0, b=0.0):
        return outs([[a * X[i, 0] + b * X[i, 1], X[i, 0] - b] for i in range(len(X))])

    def analyser(problem, X, Y, k=1.0):
        return R(names=problem["names"], S1=[k * Y[0] + Y[1] * X[0, 0], X[1, 1] + Y[1]])

    def cols(Y):
        if K == "vector":
            return [[Y[0], Y[1]]]
        return [[Y[0, j], Y[1, j]] for j in range(2 if K == "two" else 1)]

    def same(a, b, what):
        if b is None:
            c.prove(a is None, what + " discarded")
        else:
            c.prove_all_eq(a, b, what)

    # the leading operation of interest is always possible
    for t in range(L):
        k = c.choose("op%d" % t, OPS)
        if k in ("sample", "set_samples", "samples="):
            X = matrix(c, "x%d" % t)
            r = sp.sample(lambda p, n: X, 2) if k == "sample" else sp.set_samples(X) if k == "set_samples" else setattr(sp, "samples", X) or sp
            c.prove(r is sp, "calls can be chained")
            S, Y, A = X, None, None
        elif k in ("evaluate", "parallel"):
            a, b = c.real("a%d" % t, -5, 5), c.real("b%d" % t, -5, 5)
            f = sp.evaluate if k == "evaluate" else sp.evaluate_parallel
            if S is None:
                c.prove(raises(Exception, f, model, a, b=b), "evaluation needs samples")
            else:
                r = f(model, a, b=b)
                c.prove(r is sp, "calls can be chained")
                Y, A = model(S, a, b), None
        elif k in ("set_results", "results="):
            V = outs([[c.real("y%d%d%d" % (t, i, j), -5, 5) for j in range(2)] for i in range(2)])
            r = sp.set_results(V) if k == "set_results" else setattr(sp, "results", V) or sp
            c.prove(r is sp, "calls can be chained")
            Y, A = V, None
        else:
            g = c.real("k%d" % t, -5, 5)
            f = sp.analyze if k == "analyze" else sp.analyze_parallel
            if Y is None or S is None:
                c.prove(raises(Exception, f, analyser, k=g), "analysis needs samples and results")
                if S is None and Y is not None:
                    # results without samples: nothing may remain of a failed analysis with several outputs
                    A = "any"
            else:
                r = f(analyser, k=g)
                c.prove(r is sp, "calls can be chained")
                A = [analyser(sp, S, y, g)["S1"] for y in cols(Y)]
        same(sp.samples, S, "samples")
        same(sp.results, Y, "results")
        if isinstance(A, str):
            c.prove(not sp.analysis, "no analysis without samples")
            A = None
        elif A is None:
            c.prove(not sp.analysis, "analysis discarded")
        elif len(A) == 1:
            c.prove_all_eq(sp.analysis["S1"], A[0], "analysis of the stored samples and results")
        else:
            c.prove(list(sp.analysis) == list(sp["outputs"]), "one analysis per output")
            for nm, v in zip(sp["outputs"], A):
                c.prove_all_eq(sp.analysis[nm]["S1"], v, "analysis of the stored samples and results")


def missing(c):
    """Every stage of every route fails without its predecessor and leaves the problem empty."""
    sp = spec(c)
    k = c.choose("stage", ["evaluate", "nprocs", "parallel", "distributed", "analyze", "analyze nprocs", "analyze_parallel", "to_df", "plot"])
    f = {"evaluate": lambda: sp.evaluate(lambda X: X), "nprocs": lambda: sp.evaluate(lambda X: X, nprocs=2), "parallel": lambda: sp.evaluate_parallel(lambda X: X),
         "distributed": lambda: sp.evaluate_distributed(lambda X: X, nprocs=2, servers=["a", "b"]),
         "analyze": lambda: sp.analyze_sobol(), "analyze nprocs": lambda: sp.analyze_sobol(nprocs=2), "analyze_parallel": lambda: sp.analyze_parallel(lambda p, Y: Y),
         "to_df": sp.to_df, "plot": sp.plot}[k]
    c.prove(raises(Exception, f), "a missing predecessor is an error")
    c.prove(sp.samples is None and sp.results is None and sp.analysis is None, "nothing is stored")


def refused(c):
    sp = spec(c)
    X = matrix(c, "x")
    sp.set_samples(X)
    k = c.choose("case", ["columns", "rows", "outputs", "single", "group"])
    if k == "columns":
        d = c.choose("cols", [1, 3])
        Z = matrix(c, "z", 2, d)
        for f in (sp.set_samples, lambda v: setattr(sp, "samples", v)):
            c.prove(raises(ValueError, f, Z), "samples need one column per parameter")
            c.prove_all_eq(sp.samples, X, "refused samples are not stored")
    elif k == "rows":
        n = c.choose("rows", [1, 3])
        v = c.array(c.w_obj([c.real("v%d" % i, -5, 5) for i in range(n)]))
        c.prove(raises(Exception, sp.set_results, v), "results need one row per sample")
        c.prove(sp.results is None, "refused results are not stored")
    elif k == "outputs":
        m, n = c.choose("sizes", [(1, 2), (2, 1), (2, 3)])
        sp = spec(c, outputs=["o%d" % i for i in range(m)]).set_samples(X)
        c.prove(raises(ValueError, sp.set_results, matrix(c, "v", 2, n)), "results need one column per output")
        c.prove(sp.results is None, "refused results are not stored")
    else:
        p = problem(c, 1) if k == "single" else problem(c, 2, groups=["g", "g"])
        sp = c.w.util.problem.ProblemSpec(p).set_results(c.array(c.w_obj([c.real("v%d" % i, -5, 5) for i in range(8)])))
        c.prove(raises(ValueError, sp.analyze, lambda p, Y: {"S1": Y}), "a single parameter or group is refused")
        c.prove(sp.analysis is None, "nothing is stored")


SAMPLERS = {"saltelli": (2,), "sobol": (2,), "latin": (3,), "finite_diff": (2,), "morris": (3,), "fast_sampler": (65,), "ff": ()}


def samplers(c):
    m = c.choose("sampler", sorted(SAMPLERS))
    kw = {"fast_sampler": {"M": 4}, "morris": {"num_levels": 4}, "sobol": {"calc_second_order": False}, "saltelli": {"calc_second_order": False}}.get(m, {})
    if m != "saltelli":
        kw = dict(kw, seed=c.choose("seed", [0, 7]))
    sp = spec(c)
    f = getattr(sp, "sample_" + m.replace("_sampler", ""))
    r = f(*SAMPLERS[m], **kw)
    X = (c.w.sample.morris.sample if m == "morris" else getattr(c.w.sample, m).sample)(spec(c), *SAMPLERS[m], **kw)
    c.prove(r is sp, "calls can be chained")
    c.prove(tuple(sp.samples.shape) == tuple(X.shape), "same design size")
    c.prove_all_eq(sp.samples, X, "same design as the function called directly")
    c.prove(sp.results is None and sp.analysis is None, "nothing else is stored")


def analysers(c):
    """Every analyser through the problem equals the function, with the same data and options."""
    m = c.choose("analyser", ["sobol", "morris", "ff", "dgsm", "discrepancy", "fast", "rbd_fast", "rsa", "pawn", "delta"])
    kw, U, N = {}, [[0.1, 0.6], [0.3, 0.1], [0.7, 0.9], [0.9, 0.4]], 4
    if m == "sobol":
        kw, N = dict(num_resamples=2, seed=3, calc_second_order=False), 8
    elif m == "morris":
        kw, U, N = dict(num_resamples=2, seed=3, num_levels=4), [[0, 0], [2 / 3, 0], [2 / 3, 2 / 3], [1 / 3, 1], [1, 1], [1, 1 / 3]], 6
    elif m == "ff":
        kw, U, N = dict(second_order=True, seed=0), None, 4
    elif m == "dgsm":
        kw, U, N = dict(num_resamples=2, seed=3), [[0.1, 0.6], [0.2, 0.6], [0.1, 0.7], [0.5, 0.2], [0.6, 0.2], [0.5, 0.3]], 6
    elif m == "fast":
        kw, N = dict(M=1, num_resamples=2, seed=3), 10
    elif m == "rbd_fast":
        kw, N, U = dict(M=1, num_resamples=2, seed=3), 8, [[(5 * i % 8 + 0.5) / 8, (3 * i % 8 + 0.5) / 8] for i in range(8)]
    elif m == "rsa":
        kw = dict(bins=2)
    elif m == "pawn":
        kw = dict(S=2, seed=3)
    elif m == "delta":
        kw, N, U = dict(num_resamples=2, seed=3), 6, [[(5 * i % 6 + 0.5) / 6, (i + 0.5) / 6] for i in range(6)]
    order = [(3 * i + 1) % N for i in range(N)] if N % 3 else [(5 * i + 1) % N for i in range(N)]
    y = increasing(c, "y", order, gap=0.5) if m in ("rsa", "pawn", "delta", "discrepancy") else [c.real("y%d" % i, -5, 5) for i in range(N)]
    if m == "sobol":
        c.assume(y[0] - y[4] >= 0.5)
    Y = c.array(c.w_obj(y))
    b = [[0.0, 1.0], [-2.0, 3.0]]
    if U is None:
        X = c.w.sample.ff.sample(problem(c, 2, b))
    else:
        X = c.array(c.w_obj([[bb[0] + u * (bb[1] - bb[0]) for u, bb in zip(r, b)] for r in U]))
    if len(X) != N:
        X = None
    g = getattr(c.w.analyze, m).analyze
    needs = "X" in g.__code__.co_varnames[:g.__code__.co_argcount]
    sp = c.w.util.problem.ProblemSpec(problem(c, 2, b))
    if X is not None:
        sp.set_samples(X.copy())
    sp.set_results(Y.copy())
    r = getattr(sp, "analyze_" + m)(**kw)
    D = g(c.w.util.problem.ProblemSpec(problem(c, 2, b)), *([X.copy()] if needs else []), Y.copy(), **kw)
    c.prove(r is sp, "calls can be chained")
    A = sp.analysis
    c.prove(sorted(A) == sorted(D), "same entries as the function called directly")
    for k in D:
        u, v = A[k], D[k]
        if k == "names":
            c.prove([str(t) for t in u] == [str(t) for t in v], "same names")
        elif v is not None and hasattr(v, "shape"):
            c.prove(tuple(u.shape) == tuple(v.shape), "same shape")
            c.prove_all_eq(u, v, "same indices as the function called directly")
    c.prove_all_eq(sp.results, Y, "the results stay")

