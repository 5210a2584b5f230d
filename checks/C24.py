"""A fixed seed makes sampling and resampling reproducible."""
from vf.lib import *
from vf.world import StubRNG

BOUNDS = ("every sampler and analyser with small sizes; seed 0 or 12345 (and generators in the same state); every random draw an arbitrary value of its range "
          "as a function of (stream, position); the unseeded stream in two arbitrary, different states; all real outputs in one order. HDMR methods: 300 "
          "samples, draws fixed to one arbitrary value per (stream, position)")
ASSUMPTIONS = ["a seeded numpy generator is a function of (seed, position); different streams are unrelated",
               "scipy's scrambled Sobol' engine is a function of its seed",
               "for the two HDMR analyses (at least 300 samples are required) and the delta resampling modes (24 samples) the draws are fixed adversarial values instead of symbols"]


def harnesses(tier):
    return [("samplers", {}), ("sobol", {}), ("analysers", {}), ("delta", {}), ("delta_modes", {"rng_hash": True}), ("hdmr", {"rng_real_const": True, "rng_hash": True}), ("methods", {"rng_const": False})]


def ambient(c, k):
    """Another state of numpy's unseeded global generator."""
    c.global_rng = StubRNG("ambient%d" % k)


def streams(c):
    return set(c.__dict__.get("_memo", {})) | set(c.__dict__.get("draws", {}))


def flat(R):
    out = []
    if isinstance(R, dict):
        for k in sorted(R):
            if k not in ("names", "RT") and R[k] is not None:
                out += flat(R[k])
        return out
    if hasattr(R, "shape"):
        return list(R.ravel()) if getattr(R, "dtype", None) != np.dtype(object) or True else []
    if isinstance(R, (list, tuple)):
        return [v for r in R for v in flat(r)]
    return [R] if not isinstance(R, str) else []


import numpy as np  # noqa: E402


def same(c, f, seeds, used=True):
    s = c.choose("seed", seeds)
    ambient(c, 1)
    A = f(s)
    before = streams(c)
    ambient(c, 2)
    for _ in range(c.choose("earlier draws", [0, 3])):
        c.w.np.random.random()
    mid = streams(c)
    B = f(s)
    c.prove(not (streams(c) - mid), "no draws from any other stream than the seeded one")
    a, b = flat(A), flat(B)
    c.prove(len(a) == len(b), "same size for the same seed")
    if len(a) == len(b):
        c.prove_all_eq(a, b, "same result for the same seed whatever the generator's state")
    if used:
        now = streams(c)
        f(s + 1)
        c.prove(bool(streams(c) - now), "another seed draws from another stream")
    return before


SEEDS = [0, 12345]


def samplers(c):
    m = c.choose("sampler", ["latin", "morris", "fast_sampler", "finite_diff", "ff"])
    p = problem(c, 2, [[0.0, 1.0], [-2.0, 3.0]])
    f = {"latin": lambda s: c.w.sample.latin.sample(dict(p), 2, seed=s),
         "morris": lambda s: c.w.sample.morris.sample(dict(p), 1, num_levels=4, seed=s),
         "fast_sampler": lambda s: c.w.sample.fast_sampler.sample(dict(p), 5, M=1, seed=s),
         "finite_diff": lambda s: c.w.sample.finite_diff.sample(dict(p), 2, seed=s),
         "ff": lambda s: c.w.sample.ff.sample(dict(p), seed=s)}[m]
    same(c, f, SEEDS, used=m not in ("finite_diff", "ff"))


def sobol(c):
    """The scrambled sequence and the optimised Morris trajectories."""
    m = c.choose("sampler", ["sobol", "groups", "local", "brute"])
    g = ["gB", "gA", "gB"] if m == "groups" else None
    p = problem(c, 3 if g else 2, groups=g)
    c.rng_vary = 3
    if m in ("sobol", "groups"):
        so = c.choose("second order", [True, False])
        same(c, lambda s: c.w.sample.sobol.sample(dict(p), 2, scramble=True, seed=s, calc_second_order=so), SEEDS)
    else:
        same(c, lambda s: c.w.sample.morris.sample(dict(p), 3, num_levels=4, optimal_trajectories=2, local_optimization=m == "local", seed=s), SEEDS)


def outputs(c, n):
    """Outputs in one order, otherwise arbitrary."""
    return c.array(c.w_obj(increasing(c, "y", [(3 * i + 1) % n for i in range(n)] if n % 3 else [(5 * i + 1) % n for i in range(n)])))


def analysers(c):
    c.rng_vary = 1 if c.tier == "quick" else 3
    p = problem(c, 2)
    m = c.choose("analyser", ["sobol", "sobol parallel", "morris", "dgsm", "fast", "rbd_fast"])
    if m.startswith("sobol"):
        Y = outputs(c, 8)
        par = m != "sobol"
        f = lambda s: c.w.analyze.sobol.analyze(dict(p), Y.copy(), calc_second_order=False, num_resamples=2, seed=s, keep_resamples=True,
                                                **({"parallel": True, "n_processors": 2} if par else {}))
    elif m == "morris":
        X = c.w.np.array([[0, 0], [2 / 3, 0], [2 / 3, 2 / 3], [1 / 3, 1], [1, 1], [1, 1 / 3]])
        Y = outputs(c, 6)
        f = lambda s: c.w.analyze.morris.analyze(dict(p), X.copy(), Y.copy(), num_resamples=2, num_levels=4, seed=s)
    elif m == "dgsm":
        X = c.w.np.array([[0.1, 0.6], [0.2, 0.6], [0.1, 0.7], [0.5, 0.2], [0.6, 0.2], [0.5, 0.3]])
        Y = outputs(c, 6)
        f = lambda s: c.w.analyze.dgsm.analyze(dict(p), X.copy(), Y.copy(), num_resamples=2, seed=s)
    elif m == "fast":
        Y = outputs(c, 10)
        f = lambda s: c.w.analyze.fast.analyze(dict(p), Y.copy(), M=1, num_resamples=2, seed=s)
    else:
        X = c.w.np.array([[(5 * i % 8 + 0.5) / 8, (3 * i % 8 + 0.5) / 8] for i in range(8)])
        Y = outputs(c, 8)
        f = lambda s: c.w.analyze.rbd_fast.analyze(dict(p), X.copy(), Y.copy(), M=1, num_resamples=2, seed=s)
    same(c, f, SEEDS)


def delta(c):
    c.rng_vary = 2
    N = 6
    r = c.choose("y_resamples", [None, 4])
    X = c.w.np.array([[(5 * i % 6 + 0.5) / 6, (i + 0.5) / 6] for i in range(N)])
    Y = c.array(c.w_obj(increasing(c, "y", [3, 1, 0, 2, 5, 4], gap=0.5)))
    p = problem(c, 2)
    same(c, lambda s: c.w.analyze.delta.analyze(dict(p), X.copy(), Y.copy(), num_resamples=2, seed=s, method="sobol", **({"y_resamples": r} if r else {})), SEEDS)


def delta_modes(c):
    """Balanced, raw and step resampling (24 samples in two bins, fixed adversarial draws)."""
    N = 24
    m = c.choose("method", ["delta", "all"])
    r = c.choose("y_resamples", [None, 20])
    i = np.arange(N)
    X = c.w.np.array(np.stack([(5 * i % N - 11.5) / N, (7 * i % N - 11.5) / N], axis=1))
    y = c.w.np.array(np.sin(i * 1.7) + 0.1 * i)
    def f(s):
        R = c.w.analyze.delta.analyze(problem(c, 2), X.copy(), y.copy(), num_resamples=2, seed=s, method=m, bins_specs={"q": 2, "b": 2}, **({"y_resamples": r} if r else {}))
        if r is None:
            c.prove(not any(np.isnan(float(v)) for k in R if k.startswith("delta") for v in R[k]), "every mode has enough samples")
        return R
    same(c, f, SEEDS)


def hdmr(c):
    m = c.choose("analyser", ["hdmr", "enhanced_hdmr"])
    i = np.arange(300)
    X = c.w.np.array(np.stack([(7 * i % 300 + 0.5) / 300, (i + 0.5) / 300, (11 * i % 300 + 0.25) / 300], axis=1))
    y = X[:, 0] + 2 * X[:, 1] * X[:, 2]
    p = problem(c, 3)
    if m == "hdmr":
        f = lambda s: c.w.analyze.hdmr.analyze(problem(c, 3), X.copy(), y.copy(), K=2, R=300, maxiter=2, maxorder=1, seed=s)
        g = lambda s: c.w.analyze.hdmr.analyze(problem(c, 3), X.copy(), y.copy(), K=2, maxiter=2, maxorder=1, seed=s)
    else:
        g = lambda s: c.w.analyze.enhanced_hdmr.analyze(problem(c, 3), X.copy(), y.copy(), max_order=2, poly_order=2, bootstrap=2, subset=300, max_iter=2, seed=s)
    same(c, g, SEEDS)


def methods(c):
    """Methods without any randomness take the seed, too."""
    m = c.choose("analyser", ["ff", "rsa", "pawn", "discrepancy"])
    if m == "ff":
        X, Y = c.w.sample.ff.sample(problem(c, 2)), outputs(c, 4)
        f = lambda s: c.w.analyze.ff.analyze(problem(c, 2), X.copy(), Y.copy(), seed=s)
    else:
        X = c.w.np.array([[0.1, 0.6], [0.3, 0.1], [0.7, 0.9], [0.9, 0.4]])
        Y = c.array(c.w_obj(increasing(c, "y", [2, 0, 3, 1], gap=0.5)))
        f = lambda s: getattr(c.w.analyze, m).analyze(problem(c, 2), X.copy(), Y.copy(), seed=s, **({"bins": 2} if m == "rsa" else {"S": 2} if m == "pawn" else {}))
    same(c, f, SEEDS, used=False)
