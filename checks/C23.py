"""Parameter files are read into the problem they describe."""
import os
import shutil
import tempfile

from vf.lib import *

BOUNDS = ("1..3 parameters (60 with more than 1024 characters), four delimiters, detected or given, names with spaces or quotes, every use of the group and "
          "distribution columns, comments and blank lines at every position, line endings; the bounds are arbitrary reals (two texts per bound)")
ASSUMPTIONS = ["the text of a number stands for an arbitrary real: float() of it is that real; Python's csv module runs as it is on the concrete layout",
               "all rows of a file have the same number of columns"]
DISTS = ["norm", "unif", "lognorm"]


def harnesses(tier):
    return [("layout", {}), ("comments", {}), ("columns", {}), ("long", {})]


def read(c, lines, eol="\n", last=True, delimiter=None):
    d = tempfile.mkdtemp(prefix="vf-c23-")
    try:
        f = os.path.join(d, "p.txt")
        with open(f, "w", newline="") as h:
            h.write(eol.join(lines) + (eol if last else ""))
        return c.w.util.util_funcs.read_param_file(f, delimiter) if delimiter else c.w.util.util_funcs.read_param_file(f)
    finally:
        shutil.rmtree(d)


def text(c, k, style):
    """(text, value) of an arbitrary number."""
    v = c.real("v%d" % k, -1000, 1000)
    if c.concrete:
        return repr(float(v)), v
    t = {"plain": "%d.5", "exp": "-%d.25e1", "int": "%d"}[style] % (k + 2)
    c.texts[float(t)] = v
    return t, v


def rows(c, names, extra, style, labels="G"):
    out = []
    for i, nm in enumerate(names):
        (s, v), (t, w) = text(c, 2 * i, style), text(c, 2 * i + 1, "plain" if style == "exp" else style)
        r, g, d = [nm, s, t], nm, "unif"
        if extra in ("group", "group+dist"):
            g = labels[i % 2] if len(labels) == 2 else "G%d" % (i % 2)
            r.append(g)
        elif extra in ("NA", "NA+dist"):
            r.append("NA")
        elif extra == "blank+dist":
            r.append("")
        elif extra == "own":
            r.append(nm)
        if "dist" in extra:
            d = DISTS[i % 3]
            r.append(d)
        elif extra == "blanks":
            r += ["", ""]
        out.append((r, nm.strip("'\""), v, w, g.strip("'\""), d))
    return out


def expect(c, R, lines, **k):
    n = len(R)
    G, D = [r[4] for r in R], [r[5] for r in R]
    N = [r[1] for r in R]
    if G != N and len(set(G)) == 1:
        c.prove(raises(ValueError, read, c, lines, **k), "a single group is refused")
        return
    p = read(c, lines, **k)
    c.prove(p["num_vars"] == n and len(p["bounds"]) == n, "one parameter per line")
    c.prove(p["names"] == N, "names in order")
    c.prove((p["groups"] or p["names"]) == G, "groups, or the parameter's own name")
    c.prove((p["dists"] or ["unif"] * n) == D, "distributions, or uniform")
    c.prove(all(len(b) == 2 for b in p["bounds"]), "two bounds")
    c.prove_all_eq([v for b in p["bounds"] for v in b], [v for r in R for v in r[2:4]], "bounds in order")


NAMES = [["x1", "x2", "x3"], ["alpha", "b", "long_name"], ["Test 1", "My own param", "c d"], ["'Test 1'", "'b b'", "'c c'"]]
GROUPS = [["DNA", "NAB"], ["na", "NaN"], ["None", "0"], ["x2", "x1"], ["NA2", "A"], ["unif", "#g"]]
EXTRA = ["none", "group", "NA", "own", "group+dist", "NA+dist", "blank+dist", "blanks"]


def layout(c):
    d = c.choose("delimiter", [" ", "\t", ",", ";"])
    n = c.int("parameters", 1, 3)
    nm = c.choose("names", [k for k in NAMES if d == "," or not k[0].startswith("'")][:2 if d == " " else 4])
    x = c.choose("columns", ["none", "group", "group+dist", "NA"])
    style = c.choose("numbers", ["plain", "exp", "int"])
    eol, last = c.choose("ending", [("\n", True), ("\n", False), ("\r\n", True)])
    R = rows(c, nm[:n], x, style)
    expect(c, R, [d.join(r[0]) for r in R], eol=eol, last=last, delimiter=c.choose("given", [None, d]))


def comments(c):
    q = c.tier == "quick"
    d = c.choose("delimiter", [" ", ","] if q else [" ", "\t", ",", ";"])
    n = c.int("parameters", 1, 2 if q else 3)
    x = c.choose("columns", ["none", "group+dist"])
    R = rows(c, NAMES[0][:n], x, "plain")
    L = [d.join(r[0]) for r in R]
    for k in range(c.int("comments", 1, 2)):
        t = c.choose("comment%d" % k, ["# name lower_bound upper_bound", "#x9,0.0,1.0,G,norm", "   # indented; comment, 1 2 3", "", "#"])
        L.insert(c.int("position%d" % k, 0, len(L)), t)
    expect(c, R, L, delimiter=c.choose("given", [None, d]))


def columns(c):
    d = c.choose("delimiter", ["\t", ",", ";"])
    x = c.choose("columns", EXTRA)
    n = c.int("parameters", 1, 3)
    g = c.choose("labels", GROUPS) if "group" in x else "G"
    R = rows(c, NAMES[c.choose("names", [0, 1])][:n], x, "plain", g)
    expect(c, R, [d.join(r[0]) for r in R], delimiter=c.choose("given", [None, d]))


def long(c):
    d = c.choose("delimiter", [" ", "\t", ","])
    x = c.choose("columns", ["none", "group", "group+dist"])
    R = rows(c, ["w%d" % i for i in range(60)], x, "plain")
    L = [d.join(r[0]) for r in R]
    L.insert(c.choose("comment", [0, 30, 60]), "# a comment, in a file of more than 1024 characters")
    expect(c, R, L, delimiter=c.choose("given", [None, d]))
