"""The command line produces what the library produces."""
import contextlib
import inspect
import io
import os
import shutil
import sys
import tempfile

import numpy as np

from vf.lib import *

BOUNDS = ("all 7 samplers and 11 analysers through salib's main(); every option given (long or short) or left out, integer and real option values arbitrary, "
          "problem files with 1..3 parameters with groups or distributions, tables with 1..3 columns, 3 delimiters, precisions 3, 8, 12; arbitrary real "
          "bounds, inputs, outputs and sample values")
ASSUMPTIONS = ["argparse runs as it is; an integer or real option's text stands for an arbitrary value of that type", "numpy's savetxt/loadtxt run as they are; "
               "the text of a number stands for an arbitrary real", "in the harnesses that record the library call, the method's sample()/analyze() is replaced "
               "by a recorder; `printed` runs the real ones on fixed numbers and compares standard output and files"]

LEVEL = ["1", "2"]


def harnesses(tier):
    return [("samplers", {}), ("analysers", {}), ("defaults", {}), ("tables", {}), ("problems", {}),
            ("printed", {"rng_hash": True, "rng_real_const": True, "budget": 100}), ("missing", {})]


# --------------------------------------------------------------- running a command
@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vf-c26-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def salib(c, argv):
    """Standard output of `salib argv`; SystemExit is passed on."""
    main = c.w.load("SALib.scripts.salib").main
    old, so, se = sys.argv, sys.stdout, sys.stderr
    sys.argv, sys.stdout, sys.stderr = ["salib"] + argv, io.StringIO(), io.StringIO()
    try:
        main()
        return sys.stdout.getvalue()
    finally:
        sys.argv, sys.stdout, sys.stderr = old, so, se


def num(c, name, lo=-100, hi=100):
    """(text, value) of an arbitrary real."""
    v = c.real(name, lo, hi)
    if c.concrete:
        return repr(float(v)), v
    tok = 1000.5 + len(c.texts)
    c.texts[tok] = v
    return repr(tok), v


def integer(c, name, lo, hi):
    v = c.symint(name, lo, hi)
    if c.concrete:
        return str(int(v)), v
    tok = 7000 + len(c.int_texts)
    c.int_texts[tok] = v
    return str(tok), v


def write_table(c, path, rows, cols, name, delimiter=" "):
    cells = [[num(c, "%s%d_%d" % (name, i, j)) for j in range(cols)] for i in range(rows)]
    with open(path, "w") as h:
        h.write("".join(delimiter.join(t for t, _ in r) + "\n" for r in cells))
    return [[v for _, v in r] for r in cells]


def write_problem(c, path, D=2, kind="plain"):
    nm = names(D)
    b = []
    with open(path, "w") as h:
        for j in range(D):
            (s, lo), (t, hi) = num(c, "lb%d" % j), num(c, "ub%d" % j)
            b.append([lo, hi])
            row = [nm[j], s, t]
            if kind in ("groups", "both"):
                row.append("gB" if j % 2 == 0 else "gA")
            elif kind == "dists":
                row.append("NA")
            if kind in ("dists", "both"):
                row.append(["norm", "unif", "lognorm"][j])
            h.write(",".join(row) + "\n")
    return {"num_vars": D, "names": nm, "bounds": b,
            "groups": [("gB" if j % 2 == 0 else "gA") for j in range(D)] if kind in ("groups", "both") else None,
            "dists": ["norm", "unif", "lognorm"][:D] if kind in ("dists", "both") else None}


class Recorder:
    def __init__(self, real, result):
        self.real, self.result, self.calls = real, result, []

    def __call__(self, *a, **k):
        b = inspect.signature(self.real).bind(*a, **k)
        b.apply_defaults()
        self.calls.append(dict(b.arguments))
        return self.result


@contextlib.contextmanager
def recording(c, action, method, result=None):
    m = c.w.load("SALib.%s.%s" % (action, method))
    g = m.cli_action.__globals__
    name = "sample" if action == "sample" else "analyze"
    if not callable(g.get(name)):
        raise AttributeError("module has no %s beside cli_action" % name)
    real = g[name]
    r = Recorder(real, result)
    g[name] = r
    try:
        yield r
    finally:
        g[name] = real


def same_problem(c, got, want):
    c.prove(list(got["names"]) == want["names"] and got["num_vars"] == want["num_vars"], "parameters of the problem file")
    c.prove_all_eq([v for b in got["bounds"] for v in b], [v for b in want["bounds"] for v in b], "bounds of the problem file")
    gr = got.get("groups")
    c.prove((gr is None and (want["groups"] is None or want["groups"] == want["names"])) or (gr is not None and list(gr) == (want["groups"] or want["names"])), "groups of the problem file")
    d = got.get("dists")
    c.prove(list(d or ["unif"] * want["num_vars"]) == (want["dists"] or ["unif"] * want["num_vars"]), "distributions of the problem file")


def same_args(c, got, want):
    for k, v in want.items():
        what = "argument " + k
        if k not in got:
            c.prove(False, what + " reaches the library")
        elif isinstance(v, bool):
            c.prove(bool(got[k]) == v, what)
        elif v is None or isinstance(v, (str, dict)):
            c.prove(type(got[k]) is type(v) and got[k] == v, what)
        else:
            ok = got[k] is not None and not isinstance(got[k], (str, dict, bool))
            c.prove(ok, what + " is a number")
            if ok:
                c.prove_all_eq([got[k]], [v], what)


def array(c, v, want, what):
    shape = np.array(want, dtype=object).shape
    c.prove(tuple(v.shape) == shape, what + " has the table's shape")
    if tuple(v.shape) == shape:
        c.prove_all_eq(list(v.ravel()), list(np.array(want, dtype=object).ravel()), what)


# ------------------------------------------------------------------ the options
# option -> (library argument, kind); a kind maps a context to (text, value)
def I(lo, hi):
    return lambda c, n: integer(c, n, lo, hi)


def F(lo, hi):
    return lambda c, n: num(c, n, lo, hi)


def one_of(*pairs):
    return lambda c, n: c.choose(n, list(pairs))


ORDER = one_of(("1", False), ("2", True))
TRUTH = one_of(("true", True), ("True", True), ("false", False), ("False", False))
BITS = one_of(("1", True), ("0", False))
SEED = ("seed", ["-s", "--seed"], I(0, 2 ** 31), False)
SAMPLERS = {
    "latin": [SEED],
    "ff": [SEED],
    "fast_sampler": [("M", ["-M", "--m-coef"], I(1, 10), False), SEED],
    "finite_diff": [("delta", ["-d", "--delta"], F(0.0001, 1), False), SEED],
    "saltelli": [("calc_second_order", ["--max-order"], ORDER, False), ("skip_values", ["--skip-values"], I(0, 2 ** 20), False)],
    "sobol": [("calc_second_order", ["--max-order"], ORDER, False), ("scramble", ["--scramble"], BITS, False),
              ("skip_values", ["--skip-values"], I(0, 2 ** 20), False), SEED],
    "morris": [("num_levels", ["-l", "--levels"], I(2, 20), False), ("optimal_trajectories", ["-k", "--k-optimal"], I(2, 100), False),
               ("local_optimization", ["-lo", "--local"], TRUTH, True), SEED],
}
R = ("num_resamples", ["-r", "--resamples"], I(1, 10 ** 5), False)
ANALYSERS = {
    "delta": [R, ("method", ["-m", "--method"], one_of(("delta", "delta"), ("sobol", "sobol"), ("all", "all")), False),
              ("y_resamples", ["--y_resamples"], I(1, 1000), False), ("bootstrap_savedf", ["--bootstrap_savedf"], one_of(("out.csv", "out.csv")), False),
              ("bins_specs", ["--bins_specs"], one_of(('{"q": 2, "z": 3}', {"q": 2, "z": 3}), (' {"b": [0, 1]}', {"b": [0, 1]}), ("FILE", {"a": 5})), False), SEED],
    "dgsm": [R, SEED],
    "discrepancy": [SEED],
    "fast": [("M", ["-M", "--M"], I(1, 10), False), R, SEED],
    "ff": [("second_order", ["--max-order"], ORDER, False), SEED],
    "morris": [R, ("num_levels", ["-l", "--levels"], I(2, 20), False), ("scaled", ["--scaled"], TRUTH, False), SEED],
    "pawn": [("S", ["-S", "--slices"], I(1, 100), False), SEED],
    "rbd_fast": [("M", ["-M", "--M"], I(1, 20), False), R, SEED],
    "rsa": [("bins", ["-b", "--bins"], I(2, 100), False), ("target", ["-t", "--target"], one_of(("X", "X"), ("Y", "Y")), False), SEED],
    "sobol": [("calc_second_order", ["--max-order"], ORDER, False), R, ("parallel", ["--parallel"], None, False),
              ("n_processors", ["--processors"], I(1, 64), False), SEED],
    "hdmr": [("maxorder", ["-mor", "--maxorder"], I(1, 3), False), ("maxiter", ["-mit", "--maxiter"], I(1, 1000), False), ("m", ["-m", "--m-int"], I(1, 10), False),
             ("K", ["-K", "--K-bootstrap"], I(1, 100), False), ("R", ["-R", "--R-subsample"], I(300, 10 ** 5), False),
             ("alpha", ["-a", "--alpha"], F(0.5, 1), False), ("lambdax", ["-lambda", "--lambdax"], F(0, 10), False), SEED],
    "enhanced_hdmr": [("max_order", ["-mor", "--max-order"], I(1, 3), True), ("poly_order", ["-por", "--poly-order"], I(1, 10), True),
                      ("bootstrap", ["-K", "--bootstrap"], I(1, 100), False), ("subset", ["-R", "--subset"], I(300, 10 ** 5), False),
                      ("max_iter", ["-mit", "--max-iter"], I(1, 1000), False), ("l2_penalty", ["-l2", "--l2-penalty"], F(0, 10), False),
                      ("alpha", ["-a", "--alpha"], F(0.5, 1), False), ("extended_base", ["-ext", "--extended-base"], TRUTH, True),
                      ("print_to_console", ["-print", "--print-to-console"], TRUTH, False), ("return_emulator", ["-emul", "--return-emulator"], TRUTH, False), SEED],
}
NO_X = ("sobol", "fast")
# what the command falls back to where it documents another default than the library's
OWN_DEFAULT = {("analyze", "delta", "num_resamples"): 10, ("analyze", "dgsm", "num_resamples"): 1000, ("analyze", "morris", "num_resamples"): 1000,
               ("analyze", "ff", "second_order"): True}


def options(c, spec, which, d):
    """Command line words and the expected library arguments for the options chosen by `which`."""
    argv, want = [], {}
    form = c.choose("flag form", [0, 1])
    for k, (arg, flags, kind, required) in enumerate(spec):
        if not (required or which(k)):
            continue
        flag = flags[form % len(flags)]
        if kind is None:
            argv.append(flag)
            want[arg] = True
            continue
        t, v = kind(c, arg)
        if t == "FILE":
            t = os.path.join(d, "bins.json")
            with open(t, "w") as h:
                h.write('{"a": 5}')
        argv += [flag, t]
        want[arg] = v
    return argv, want, form


def given(c, spec):
    """Which options: all of them, exactly one, or all but one."""
    n = len(spec)
    modes = [("all", 0)] + [("only", k) for k in range(n)] + [("without", k) for k in range(n) if n > 2]
    m, j = c.choose("options", modes)
    return lambda k: m == "all" or (k == j) == (m == "only")


def library_default(c, action, method, arg):
    own = OWN_DEFAULT.get((action, method, arg))
    if own is not None:
        return own
    m = c.w.load("SALib.%s.%s" % (action, method))
    f = m.cli_action.__globals__["sample" if action == "sample" else "analyze"]
    f = getattr(f, "real", f)
    return inspect.signature(f).parameters[arg].default


def expected_all(c, action, method, spec, want):
    w = {a: library_default(c, action, method, a) for a, *_ in spec}
    w.update(want)
    return w


# --------------------------------------------------------------------- harnesses
def run_sampler(c, method, which, precision=None, delimiter=None, D=2, kind="plain", rows=2):
    with scratch() as d:
        pf, out = os.path.join(d, "p.txt"), os.path.join(d, "o.txt")
        want_p = write_problem(c, pf, D, kind)
        X = [[c.real("s%d_%d" % (i, j), -10, 10) for j in range(D)] for i in range(rows)]
        argv, want, flip = options(c, SAMPLERS[method], which, d)
        nt, n = integer(c, "N", 1, 10 ** 6)
        base = ["-n", nt, "-p", pf, "-o", out]
        if precision is not None:
            base += ["--precision", str(precision)]
        if delimiter is not None:
            base += ["--delimiter", delimiter]
        argv = base + argv if flip else argv + base
        with recording(c, "sample", method, c.array(c.w_obj(X))) as r:
            want = expected_all(c, "sample", method, SAMPLERS[method], want)
            salib(c, ["sample", method] + argv)
        c.prove(len(r.calls) == 1, "the library is called once")
        got = r.calls[0]
        same_problem(c, got["problem"], want_p)
        if method != "ff":
            want["N"] = n
        same_args(c, got, want)
        with open(out) as h:
            lines = h.read().splitlines()
    prec = 8 if precision is None else precision
    cells = [ln.split(" " if delimiter is None else delimiter) for ln in lines]
    c.prove(len(cells) == rows and all(len(x) == D for x in cells), "one line per row, one field per parameter")
    c.prove(all(len(t.split("e")) == 2 and len(t.split("e")[0].partition(".")[2]) == prec for x in cells for t in x), "fields in the requested precision")
    if c.concrete:
        c.prove(all(t == ("%%.%de" % prec) % float(v) for x, y in zip(cells, X) for t, v in zip(x, y)), "the written sample is the library's")
    else:
        c.prove_all_eq([c.texts.get(float(t), float(t)) for x in cells for t in x], [v for y in X for v in y], "the written sample is the library's")


def samplers(c):
    method = c.choose("method", sorted(SAMPLERS))
    run_sampler(c, method, given(c, SAMPLERS[method]))


def run_analyser(c, method, which, column=None, delimiter=None, D=2, kind="plain", rows=3, cols=3):
    with scratch() as d:
        pf, xf, yf = (os.path.join(d, f) for f in ("p.txt", "x.txt", "y.txt"))
        want_p = write_problem(c, pf, D, kind)
        dl = " " if delimiter is None else delimiter
        Y = write_table(c, yf, rows, cols, "y", dl)
        base = ["-p", pf, "-Y", yf]
        if method not in NO_X:
            X = write_table(c, xf, rows, D, "x", dl)
            base += ["-X", xf]
        argv, want, flip = options(c, ANALYSERS[method], which, d)
        if column is not None:
            base += ["-c" if flip else "--column", str(column)]
        if delimiter is not None:
            base += ["--delimiter", delimiter]
        argv = base + argv if flip else argv + base
        with recording(c, "analyze", method) as r:
            want = expected_all(c, "analyze", method, ANALYSERS[method], want)
            salib(c, ["analyze", method] + argv)
        c.prove(len(r.calls) == 1, "the library is called once")
        got = r.calls[0]
        same_problem(c, got["problem"], want_p)
        same_args(c, got, want)
        array(c, got["Y"], [y[column or 0] for y in Y], "the output column")
        if method not in NO_X:
            array(c, got["X"], X, "the input table")


def analysers(c):
    method = c.choose("method", sorted(ANALYSERS))
    run_analyser(c, method, given(c, ANALYSERS[method]), rows=2, cols=1)


def defaults(c):
    """No optional option given."""
    action, method = c.choose("command", [("sample", m) for m in sorted(SAMPLERS)] + [("analyze", m) for m in sorted(ANALYSERS)])
    (run_sampler if action == "sample" else run_analyser)(c, method, lambda k: False)


def tables(c):
    """Columns, delimiters, precision, single-column inputs and one-row tables."""
    action = c.choose("action", ["sample", "analyze"])
    dl = c.choose("delimiter", [None, ",", ";"])
    if action == "sample":
        D, rows = c.choose("shape", [(1, 2), (2, 1), (3, 2)])
        method = c.choose("method", sorted(SAMPLERS))
        run_sampler(c, method, lambda k: False, precision=c.choose("precision", [None, 3, 12]), delimiter=dl, D=D, rows=rows)
    else:
        D, column = c.choose("columns", [(1, None), (1, 1), (2, 0), (3, 2)])
        method = c.choose("method", sorted(ANALYSERS))
        run_analyser(c, method, lambda k: False, column=column, delimiter=dl, D=D)


def problems(c):
    """Groups and distributions of the problem file reach the library."""
    kind = c.choose("kind", ["groups", "dists", "both"])
    action, method = c.choose("command", [("sample", m) for m in sorted(SAMPLERS)] + [("analyze", m) for m in sorted(ANALYSERS)])
    (run_sampler if action == "sample" else run_analyser)(c, method, lambda k: False, D=3, kind=kind)


def missing(c):
    """Required options left out and unknown methods are refused, before anything is written."""
    with scratch() as d:
        pf, xf, yf, out = (os.path.join(d, f) for f in ("p.txt", "x.txt", "y.txt", "o.txt"))
        p = write_problem(c, pf)
        write_table(c, yf, 2, 1, "y")
        write_table(c, xf, 2, 2, "x")
        action, method = c.choose("command", [("sample", m) for m in sorted(SAMPLERS)] + [("analyze", m) for m in sorted(ANALYSERS)])
        base = [["-n", "4"], ["-p", pf], ["-o", out]] if action == "sample" else [["-p", pf], ["-Y", yf]] + ([["-X", xf]] if method not in NO_X else [])
        spec = (SAMPLERS if action == "sample" else ANALYSERS)[method]
        base += [[f[0], kind(c, a)[0]] for a, f, kind, req in spec if req]
        k = c.choose("left out", list(range(6)))
        if k >= len(base):
            return
        argv = [w for i, b in enumerate(base) if i != k for w in b]
        with recording(c, action, method) as r:
            c.prove(raises(SystemExit, salib, c, [action, method] + argv), "a missing required option is refused")
        c.prove(not r.calls and not os.path.exists(out), "nothing is computed or written")


FIXED = {"seed": "7"}


def fixed_case(method):
    """(problem lines, X, Y, extra words, library keywords) on fixed numbers."""
    n = {"sobol": 16, "fast": 130, "delta": 300, "rbd_fast": 60, "hdmr": 300, "enhanced_hdmr": 300, "ff": 4, "morris": 9, "dgsm": 9}.get(method, 40)
    i = np.arange(n)
    X = np.stack([(7 * i % n + 0.5) / n, (11 * i % n + 0.25) / n], axis=1)
    if method == "ff":
        X = np.array([[1., 1], [1, 0], [0, 0], [0, 1]])
    elif method == "morris":
        X = np.array([[0, 0], [2, 0], [2, 2], [1, 3], [3, 3], [3, 1], [0, 1], [0, 3], [2, 3]]) / 3
    elif method == "dgsm":
        X = np.array([[.1, .2], [.11, .2], [.1, .21], [.5, .7], [.51, .7], [.5, .71], [.8, .3], [.81, .3], [.8, .31]])
    Y = np.sin(3 * X[:, 0]) + 2 * X[:, 1] * X[:, 0] + 0.01 * np.sin(50.0 * i)
    words = {"sobol": ["-r", "3", "--max-order", "1"], "fast": ["-r", "3"], "delta": ["-r", "2"], "dgsm": ["-r", "3"], "rbd_fast": ["-r", "3", "-M", "4"],
             "morris": ["-r", "3"], "hdmr": ["-K", "2", "-mor", "2", "-mit", "5", "-R", "300"], "ff": ["--max-order", "2"], "pawn": ["-S", "4"],
             "rsa": ["-b", "4"], "enhanced_hdmr": ["-mor", "2", "-por", "2", "-ext", "true", "-K", "2", "-R", "300", "-print", "true"]}.get(method, [])
    kw = {"sobol": dict(num_resamples=3, calc_second_order=False), "fast": dict(num_resamples=3), "delta": dict(num_resamples=2), "dgsm": dict(num_resamples=3),
          "rbd_fast": dict(num_resamples=3, M=4), "morris": dict(num_resamples=3), "hdmr": dict(K=2, maxorder=2, maxiter=5, R=300), "ff": dict(second_order=True),
          "pawn": dict(S=4), "rsa": dict(bins=4), "enhanced_hdmr": dict(max_order=2, poly_order=2, extended_base=True, bootstrap=2, subset=300)}.get(method, {})
    return X, Y, words, kw


def printed(c):
    """The real command against the real library call: same standard output, same file."""
    action, method = c.choose("command", [("sample", m) for m in sorted(SAMPLERS)] + [("analyze", m) for m in sorted(ANALYSERS)])
    with scratch() as d:
        pf, xf, yf, out = (os.path.join(d, f) for f in ("p.txt", "x.txt", "y.txt", "o.txt"))
        with open(pf, "w") as h:
            h.write("q 0.0 1.0\nb 0.0 1.0\n")
        m = c.w.load("SALib.%s.%s" % (action, method))
        if action == "sample":
            extra = {"morris": ["-lo", "true"], "fast_sampler": ["-M", "2"], "sobol": ["--scramble", "0"]}.get(method, [])
            kw = {"fast_sampler": {"M": 2}, "sobol": {"scramble": False}}.get(method, {})
            n = 20 if method == "fast_sampler" else 4
            seed = [] if method == "saltelli" else ["-s", "7"]
            salib(c, ["sample", method, "-n", str(n), "-p", pf, "-o", out] + seed + extra)
            p = c.w.load("SALib.util").read_param_file(pf)
            if method != "ff":
                kw["N"] = n
            if seed:
                kw["seed"] = 7
            want = np.array([[float(v) for v in r] for r in m.sample(p, **kw)])
            got = np.loadtxt(out)
            c.prove(got.shape == want.shape and np.allclose(got, want, rtol=1e-7, atol=1e-9), "the written sample is the library's")
            return
        X, Y, words, kw = fixed_case(method)
        np.savetxt(yf, np.stack([Y * 0 + np.arange(len(Y)) % 5, Y], axis=1), fmt="%.17g")
        np.savetxt(xf, X, fmt="%.17g")
        argv = ["-p", pf, "-Y", yf, "-c", "1", "-s", "7"] + (["-X", xf] if method not in NO_X else []) + words
        got = salib(c, ["analyze", method] + argv)
        p = c.w.load("SALib.util").read_param_file(pf)
        X, Y = c.w.np.array(X), c.w.np.array(Y)
        so = sys.stdout
        sys.stdout = io.StringIO()
        try:
            m.analyze(p, *([Y] if method in NO_X else [X, Y]), print_to_console=True, seed=7, **kw)
            want = sys.stdout.getvalue()
        finally:
            sys.stdout = so
        cut = lambda s: [ln for ln in s.splitlines() if not ln.lower().startswith(("running time", "time"))]
        c.prove(len(cut(want)) > 1, "the library reports a table")
        c.prove(cut(got) == cut(want), "the command prints the library's results")
