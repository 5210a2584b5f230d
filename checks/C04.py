import numpy as np

from vf.lib import *

BOUNDS = ("D in 1..2 parameters or groups (3 thorough), N in 1..2 base points (1..3 thorough), all real outputs |y|<=10 "
          "that are not all equal; D up to 7 (12) and N up to 4 (8) with outputs u+a*v for fixed u, v and every real |a|<=5; second order on/off; "
          "result vectors of every length up to 40 (90) for D up to 6 (9)")


def harnesses(tier):
    return [("estimators", {"rng_const": True}), ("many", {"rng_const": True}), ("size_rejected", {"rng_const": True}),
            ("conf_level_rejected", {"rng_const": True})]


def estimators(c):
    D = c.int("D", 1, 3 if c.tier == "thorough" else 2)
    N = c.int("N", 1, 3 if c.tier == "thorough" else 2)
    second = c.choose("second", [True, False])
    d = D
    g = None
    if D >= 2 and c.choose("grouped", [False, True]):
        g = [LABELS[i] for i in range(D)] + [LABELS[0]]
        d = D + 1
    p = problem(c, d, None, g)
    judge(c, p, D, N, second, None)


def many(c):
    """More parameters and base points; the outputs move along a line."""
    t = c.tier == "thorough"
    D = c.choose("D", [3, 4, 5, 6, 7] + ([9, 12] if t else []))
    N = c.choose("N", [2, 3, 4] + ([6, 8] if t else []))
    g = c.choose("groups", [None, "pairs", "reversed"])
    if g == "pairs":
        g = ["g%d" % (k // 2) for k in range(2 * D)]
    elif g == "reversed":
        g = ["g%d" % (D - k) for k in range(D)] + ["g%d" % D, "g1"]
    judge(c, problem(c, len(g) if g else D, None, g), D, N, c.choose("second", [True, False]), c.real("a", -5, 5))


def judge(c, p, D, N, second, a):
    step = 2 * D + 2 if second else D + 2
    if a is None:
        Y = c.reals("Y", N * step, -10, 10)
    else:
        Y = c.array(c.w_obj([((i * 7919 + 13) % 101) / 25.0 + a * (((i * 104729 + 7) % 89) / 44.0) for i in range(N * step)]))
    A = [Y[i * step] for i in range(N)]
    B = [Y[i * step + step - 1] for i in range(N)]
    v = var(A + B)
    if a is None:
        c.assume(c.any([x - y >= 0.1 for x in A + B for y in A + B if x is not y]))
    m = mean([Y[i] for i in range(N * step)])
    Si = c.w.analyze.sobol.analyze(p, Y.copy(), calc_second_order=second, num_resamples=2, seed=3)
    AB = [[Y[i * step + 1 + j] for i in range(N)] for j in range(D)]
    S1 = []
    for j in range(D):
        s1 = mean([(B[i] - m) * (AB[j][i] - A[i]) for i in range(N)]) / v
        st = mean([(A[i] - AB[j][i]) * (A[i] - AB[j][i]) for i in range(N)]) / v / 2
        S1.append(s1)
        c.prove(c.eq(Si["S1"][j], s1), "S1 is the Saltelli 2010 estimator on the documented rows")
        c.prove(c.eq(Si["ST"][j], st), "ST is the Jansen estimator on the documented rows")
        c.prove(Si["ST"][j] >= 0, "ST non-negative")
    c.prove(("S2" in Si) == second, "S2 reported iff requested")
    if second:
        BA = [[Y[i * step + 1 + D + j] for i in range(N)] for j in range(D)]
        for j in range(D):
            for k in range(D):
                if j < k:
                    s2 = mean([(BA[j][i] - m) * (AB[k][i] - m) - (A[i] - m) * (B[i] - m)
                               for i in range(N)]) / v - S1[j] - S1[k]
                    c.prove(c.eq(Si["S2"][j, k], s2), "S2 is the Saltelli 2002 estimator")
                else:
                    c.prove(c.eq(Si["S2"][j, k], float("nan")), "S2 is undefined on and below the diagonal")


def size_rejected(c):
    t = c.tier == "thorough"
    D = c.int("D", 1, 9 if t else 6)
    second = c.choose("second", [True, False])
    n = c.int("size", 1, 90 if t else 40)
    step = 2 * D + 2 if second else D + 2
    Y = c.reals("Y", min(n, 2), 0, 1)
    Y = c.array(c.w_obj([Y[i] if i < 2 else np.float64(i % 7 / 7) for i in range(n)]))
    if n % step == 0:
        return
    c.prove(raises(RuntimeError, c.w.analyze.sobol.analyze, problem(c, D), Y,
                   calc_second_order=second, num_resamples=2, seed=1), "sample size mismatch is rejected")


def conf_level_rejected(c):
    cl = c.real("conf", -2, 3)
    ok = c.all([cl > 0, cl < 1])
    Y = c.np.array([0.1, 0.7, 0.2, 0.9, 0.4, 0.6])
    c.assume(c.not_(ok))
    c.prove(raises(RuntimeError, c.w.analyze.sobol.analyze, problem(c, 1), Y, calc_second_order=False,
                   num_resamples=2, conf_level=cl, seed=1), "confidence level outside (0,1) is rejected")
