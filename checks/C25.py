"""Samplers and analysers never modify the caller's arrays or problem."""
import numpy as np

from vf.lib import *

BOUNDS = ("every sampler and analyser at its smallest sizes; 2..4 parameters; plain problems, every grouping (where groups are accepted), "
          "uniform/normal/triangular distributions; all real outputs, symbolic bounds for the samplers; two successive calls; the two HDMR analyses "
          "with 300 fixed samples, all orders")
ASSUMPTIONS = ["the documented `sample_scaled` entry, by which scale_samples marks a problem, is exempt; scale_samples itself is "
               "documented to work in place and is not a sampler"]


def harnesses(tier):
    return [("samplers", {"rng_const": True}), ("grouped_samplers", {"rng_const": True}), ("analysers", {"rng_const": True}),
            ("by_input", {"rng_const": True}), ("delta", {"rng_hash": True}), ("grouped", {"rng_const": True}),
            ("hdmr", {"rng_real_const": True, "rng_hash": True}), ("test_functions", {})]


def snap(v):
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items() if k != "sample_scaled"}
    if isinstance(v, list):
        return [snap(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snap(x) for x in v)
    if hasattr(v, "shape"):
        return ("array", tuple(v.shape), list(v.ravel()))
    return v


def scalar(v):
    return not isinstance(v, (dict, list, tuple, str, type(None)))


def unchanged(c, now, was, what):
    """Same structure, and every number still the same."""
    nums = [[], []]

    def rec(a, b, path):
        if isinstance(b, dict):
            if not (isinstance(a, dict) and sorted(a) == sorted(b)):
                return path + " has other keys"
            bad = [rec(a[k], b[k], "%s[%r]" % (path, k)) for k in b]
        elif isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return path + " has another length or type"
            bad = [rec(x, y, path) for x, y in zip(a, b)]
        elif scalar(b):
            if not scalar(a):
                return path + " is no number any more"
            nums[0].append(a)
            nums[1].append(b)
            return None
        else:
            return None if a == b else path + " changed"
        return next((x for x in bad if x), None)
    why = rec(snap(now), was, what)
    c.prove(why is None, "%s unchanged%s" % (what, "" if why is None else ": " + why))
    if why is None and nums[0]:
        c.prove_all_eq(nums[0], nums[1], what + " unchanged")


def guard(c, f, p, **arrays):
    before = {k: snap(v) for k, v in arrays.items()}
    pb = snap(p)
    for _ in range(2):
        f()
        unchanged(c, p, pb, "problem")
        for k, v in arrays.items():
            unchanged(c, v, before[k], k)


def sampling(c, m, p):
    s = c.w.sample
    return {"latin": lambda: s.latin.sample(p, 2, seed=1),
            "morris": lambda: s.morris.sample(p, 2, num_levels=4, seed=1),
            "local": lambda: s.morris.sample(p, 3, num_levels=4, optimal_trajectories=2, seed=1),
            "brute": lambda: s.morris.sample(p, 3, num_levels=4, optimal_trajectories=2, local_optimization=False, seed=1),
            "fast_sampler": lambda: s.fast_sampler.sample(p, 5, M=1, seed=1),
            "finite_diff": lambda: s.finite_diff.sample(p, 2, seed=1),
            "ff": lambda: s.ff.sample(p, seed=1),
            "sobol": lambda: s.sobol.sample(p, 2, scramble=False, seed=1),
            "sobol1": lambda: s.sobol.sample(p, 2, calc_second_order=False, seed=1),
            "saltelli": lambda: s.saltelli.sample(p, 2)}[m]


def samplers(c):
    m = c.choose("sampler", ["latin", "morris", "local", "fast_sampler", "finite_diff", "ff", "sobol", "saltelli"])
    D = c.choose("D", [3, 2])
    k = c.choose("kind", ["uniform", "dists", "dists none", "tuple"])
    b = sym_bounds(c, D, -5, 5, 0.1)
    if k == "tuple":
        b = tuple(tuple(x) for x in b)
    p = problem(c, D, b)
    if k == "dists":
        b[0] = [c.real("mu", -3, 3), 2.0]
        b[1] = [0.0, 1.0, 0.5]
        p["dists"] = ["norm", "triang", "unif"][:D]
    elif k == "dists none":
        p["dists"] = None
        p["groups"] = None
    guard(c, sampling(c, m, p), p)


def grouped_samplers(c):
    m = c.choose("sampler", ["latin", "morris", "local", "brute", "sobol", "sobol1", "saltelli", "ff", "fast_sampler", "finite_diff"])
    D = c.choose("D", [3, 4] if c.tier == "thorough" else [3])
    g = group_choice(c, D, must=True)
    p = problem(c, D, sym_bounds(c, D, -5, 5, 0.1), g)
    if c.tier == "thorough" and c.choose("dists", [False, True]):
        p["dists"] = ["unif"] * D
    guard(c, sampling(c, m, p), p)


def outs(c, n):
    """Outputs in one order, otherwise arbitrary."""
    return c.array(c.w_obj(increasing(c, "y", [(3 * i + 1) % n for i in range(n)] if n % 3 else [(5 * i + 1) % n for i in range(n)], gap=0.5)))


def run(c, f, p, **arrays):
    def g():
        R = f()
        R.to_df()
    if c.choose("print", [False, True]):
        h = f
        f = lambda: h(print_to_console=True)
    guard(c, g, p, **arrays)


def analysers(c):
    m = c.choose("analyser", ["sobol", "sobol parallel", "fast", "morris", "morris scaled", "dgsm", "ff"])
    a = c.w.analyze
    p = problem(c, 2, [[0.0, 1.0], [0.0, 1.0]])
    if m.startswith("sobol"):
        so = c.choose("second", [False, True])
        Y = outs(c, 12 if so else 8)
        kw = {"parallel": True, "n_processors": 2} if m != "sobol" else {}
        run(c, lambda **k: a.sobol.analyze(p, Y, calc_second_order=so, num_resamples=2, seed=1, keep_resamples=True, **kw, **k), p, Y=Y)
    elif m == "fast":
        Y = outs(c, 10)
        run(c, lambda **k: a.fast.analyze(p, Y, M=1, num_resamples=2, seed=1, **k), p, Y=Y)
    elif m.startswith("morris"):
        X = c.w.np.array([[0, 0], [2 / 3, 0], [2 / 3, 2 / 3], [1 / 3, 1], [1, 1], [1, 1 / 3]])
        Y = outs(c, 6)
        run(c, lambda **k: a.morris.analyze(p, X, Y, num_resamples=2, scaled=m != "morris", seed=1, **k), p, X=X, Y=Y)
    elif m == "dgsm":
        X = c.w.np.array([[0.1, 0.6], [0.2, 0.6], [0.1, 0.7], [0.5, 0.2], [0.6, 0.2], [0.5, 0.3]])
        Y = outs(c, 6)
        run(c, lambda **k: a.dgsm.analyze(p, X, Y, num_resamples=2, seed=1, **k), p, X=X, Y=Y)
    else:
        D = c.choose("D", [2, 3, 4])
        p = problem(c, D, groups=c.choose("groups", [None, ["gB", "gA", "gB", "gC"][:D]]))
        n = {2: 4, 3: 8, 4: 8}[D]
        X = c.w.np.array(np.array([[(i >> j) & 1 for j in range(n // 2)] for i in range(n)], dtype=float))
        Y = outs(c, n)
        so = c.choose("second", [False, True])
        guard(c, lambda: a.ff.analyze(p, X, Y, second_order=so, print_to_console=so).to_df(), p, X=X, Y=Y)


def by_input(c):
    m = c.choose("analyser", ["rbd_fast", "pawn", "rsa Y", "rsa X", "delta sobol", "discrepancy"])
    p = problem(c, 2, [[-2.0, 2.0], [-2.0, 2.0]])
    n = 6
    perm = [(5 * i + 2) % n for i in range(n)]
    Y = outs(c, n)
    ties = c.choose("ties", [False, True])
    X = c.w.np.array(np.array([[(perm[i] - n / 2) / n, (0 if ties and i < 2 else i) / n] for i in range(n)]))
    if m in ("pawn", "discrepancy") and c.choose("column", [False, True]):
        Y = Y.reshape(-1, 1)
    k = {}
    if m == "rbd_fast":
        k.update(M=1, num_resamples=2)
    elif m.startswith("rsa"):
        k.update(bins=2, target=m[-1])
    elif m == "pawn":
        k["S"] = 2
    elif m == "delta sobol":
        k.update(num_resamples=2, method="sobol")
    f = getattr(c.w.analyze, m.split()[0]).analyze
    run(c, lambda **q: f(p, X, Y, seed=1, **k, **q), p, X=X, Y=Y)


def delta(c):
    i = np.arange(24)
    Y = c.w.np.array(np.sin(1.7 * i) + 0.1 * i)
    X = c.w.np.array(np.stack([(5 * i % 24 - 11.5) / 24, (7 * i % 24 - 11.5) / 24], axis=1))
    p = problem(c, 2, [[-2.0, 2.0], [-2.0, 2.0]])
    k = c.choose("options", [{}, {"bins_specs": {"q": 2, "b": 2}}, {"y_resamples": 20}, {"bins_specs": {"q": 2, "b": 2}, "y_resamples": 20}])
    m = c.choose("method", ["all", "delta"])
    f = lambda **q: c.w.analyze.delta.analyze(p, X, Y, num_resamples=2, seed=1, method=m, **k, **q)
    run(c, f, p, X=X, Y=Y, options=k)


def grouped(c):
    m = c.choose("analyser", ["sobol", "morris", "pawn", "rsa", "discrepancy"])
    a = c.w.analyze
    D = 3
    g = group_choice(c, D, must=True)
    p = problem(c, D, groups=g)
    G = len(set(g))
    if m == "sobol":
        Y = outs(c, 2 * (G + 2))
        f = lambda: a.sobol.analyze(p, Y, calc_second_order=False, num_resamples=2, seed=1).to_df()
        guard(c, f, p, Y=Y)
        return
    if m == "morris":
        X = c.w.sample.morris.sample(dict(p), 2, num_levels=4, seed=3)
        Y = outs(c, 2 * (G + 1))
        f = lambda: a.morris.analyze(p, X, Y, num_resamples=2, seed=1).to_df()
    else:
        n = 6
        X = c.w.np.array(np.array([[(5 * i + 2) % n / n, i / n, ((i * 5 + 4) % n) / n] for i in range(n)]))
        Y = outs(c, n)
        k = {"bins": 2} if m == "rsa" else {"S": 2} if m == "pawn" else {}
        f = lambda: getattr(a, m).analyze(p, X, Y, seed=1, **k).to_df()
    guard(c, f, p, X=X, Y=Y)


def hdmr(c):
    full = c.tier == "thorough"
    m, D, mo, k, ext = c.choose("case", [
        (m, D, mo, k, ext) for m in ("hdmr", "enhanced_hdmr") for D in (2, 3) for mo in range(1, D + 1)
        for k in ("full", "groups", "names only") for ext in (True, False)
        if not (m == "hdmr" and (k == "names only" or ext)) and (full or (k != "groups" or mo == 2) and (ext or mo == 2))])
    i = np.arange(300)
    X = c.w.np.array(np.stack([(7 * i % 300 + 0.5) / 300, (i + 0.5) / 300, (11 * i % 300 + 0.25) / 300], axis=1)[:, :D])
    y = X[:, 0] + 2 * X[:, 1] * X[:, D - 1]
    p = problem(c, D, groups=["g", "h", "g"][:D] if k == "groups" else None)
    if k == "names only":
        p = {"names": p["names"]}
    if m == "hdmr":
        f = lambda: c.w.analyze.hdmr.analyze(p, X, y, K=2, R=300, maxiter=2, maxorder=mo, m=1 if mo == 3 else 2, seed=1, print_to_console=mo == 2).to_df()
    else:
        f = lambda: c.w.analyze.enhanced_hdmr.analyze(p, X, y, max_order=mo, poly_order=1 if mo == 3 else 2, bootstrap=2, subset=300, max_iter=100,
                                                      extended_base=ext, seed=1, print_to_console=mo == 2).to_df()
    guard(c, f, p, X=X, Y=y)


def test_functions(c):
    """The bundled models leave the samples alone, too."""
    t = c.w.load("SALib.test_functions." + c.choose("model", ["Ishigami", "Sobol_G", "linear_model_1", "linear_model_2"]))
    D = 5 if t.__name__.endswith("2") else 3
    X = c.array(c.w_obj([[c.real("x%d%d" % (i, j), 0, 1) for j in range(D)] for i in range(2)]))
    k = {}
    if t.__name__.endswith("Sobol_G"):
        a = c.w.np.array([0.0, 1.0, 9.0])
        d = c.w.np.array([0.1, 0.2, 0.3])
        k = {"a": a, "delta": d, "alpha": c.w.np.array([1.0, 1.0, 1.0])}
    guard(c, lambda: t.evaluate(X, **k), {}, X=X, **k)
