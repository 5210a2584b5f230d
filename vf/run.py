"""Runs the harnesses of one property, writes evidence, prints the verdict."""
import contextlib
import importlib.util
import io
import json
import multiprocessing as mp
import os
import random
import re
import resource
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import core, poly, sym, world
from .core import ConcCtx, PathEnd, Stats, SymCtx, TimeUp, Unsupported
from .poly import TooBig
from .sym import Box

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
DEBUG = bool(os.environ.get("VF_DEBUG"))

warnings.simplefilter("ignore")
np.seterr(all="ignore")
sys.setrecursionlimit(20000)


def load_check(pid):
    path = os.path.join(VERIF, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    if not DEBUG:
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout, sys.stderr = o, e


def make_ctx(kind, arg, stats, opts):
    c = SymCtx(arg, stats, opts) if kind == "sym" else ConcCtx(arg, stats, opts)
    Box.ctx = c
    c.w = world.World(kind)
    c.tier = opts.get("tier", "quick")
    return c


STALE = re.compile(r"AttributeError: (module|type object) .* has no attribute|ImportError: cannot import name"
                   r"|ModuleNotFoundError|TypeError: \w+(\.\w+)*\(\) (got an unexpected keyword|missing \d+ required"
                   r"|takes \d+ positional)")


class Prof:
    def __init__(self, stats):
        self.s = stats
        self.n = len(world.SRC) + 1

    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(world.SRC) and co.co_name[0] != "<":
                self.s.functions.add(fn[self.n:] + ":" + co.co_qualname)


def run_concrete(fn, inputs, stats, opts, profile=False):
    """Failures of the harness on these concrete inputs, against the real numpy."""
    with quiet():
        c = make_ctx("conc", inputs, stats, opts)
        stats.witness_runs += 1
        if profile:
            sys.setprofile(Prof(stats))
        try:
            fn(c)
        except PathEnd:
            return None, c
        except Exception as e:
            sys.setprofile(None)
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(world.SRC)]
            if not where and STALE.search("%s: %s" % (type(e).__name__, e)):
                # an internal helper this harness drives was renamed or takes other arguments
                stats.degraded.append("%s: internal interface changed: %s" % (fn.__name__, str(e)[:120]))
                return None, c
            loc = "%s:%s" % (os.path.relpath(where[-1].filename, world.SRC), where[-1].name) if where else "harness"
            c.failures.append(("exception %s at %s: %s" % (type(e).__name__, loc, str(e)[:120]), None))
            if DEBUG:
                traceback.print_exc()
        finally:
            sys.setprofile(None)
    return c.failures, c


def jsonable(inputs):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, Fraction):
            out[k] = [v.numerator, v.denominator]
        else:
            out[k] = v
    return out


def unjson(d):
    return {k: Fraction(v[0], v[1]) if isinstance(v, list) else v for k, v in d.items()}


def show(inputs, n=14):
    out = {}
    for i, (k, v) in enumerate(inputs.items()):
        if i >= n:
            out["..."] = "%d more" % (len(inputs) - n)
            break
        out[k] = float(v) if isinstance(v, Fraction) else v
    return out


def floats(inputs):
    return {k: float(v) if isinstance(v, Fraction) else v for k, v in inputs.items()}


def run_harness(fn, opts):
    """Explore all paths of one harness. Returns (stats, violations)."""
    stats = Stats()
    violations = []
    t0 = time.time()
    try:
        _explore(fn, opts, stats, violations, t0)
    except TimeUp:
        stats.inconclusive.append("%s: hard time limit after %d paths" % (fn.__name__, stats.paths))
    if not stats.obligations and not violations:
        stats.inconclusive.append("%s: no obligation reached" % fn.__name__)
    stats.notes.append("%s: %d paths, %.1fs" % (fn.__name__, stats.paths, time.time() - t0))
    return stats, violations


class RandomInputs(dict):
    """Arbitrary inputs for the concrete mode."""
    def __init__(self, seed):
        self.r = random.Random(seed)

    def pick_int(self, lo, hi):
        return self.r.randint(lo, hi)

    def pick_real(self, lo, hi):
        lo = -3 if lo is None else float(lo)
        hi = lo + 6 if hi is None else float(hi)
        return lo + (hi - lo) * self.r.random()


def check_cover(fn, opts, stats, violations):
    """Labels of opts['cover'] must be reached with that many distinct values."""
    for label, n in opts.get("cover", {}).items():
        got = stats.cover.get(label, set())
        stats.obligations += 1
        if len(got) >= n:
            stats.discharged += 1
            continue
        if stats.cut or stats.degraded:
            stats.inconclusive.append("%s/%s: coverage not decided" % (fn.__name__, label))
            continue
        seen = conc_cover(fn, opts, label, n)
        if len(seen) < n:
            violations.append({"label": "unreachable: " + label, "inputs": {},
                               "cover": [label, n, len(seen)]})
        else:
            stats.inconclusive.append("%s/%s: coverage differs between symbolic and concrete runs"
                                      % (fn.__name__, label))


def conc_cover(fn, opts, label, n, runs=1500):
    st = Stats()
    for k in range(runs):
        run_concrete(fn, RandomInputs(k), st, opts)
        if len(st.cover.get(label, ())) >= n:
            break
    return st.cover.get(label, set())


def _explore(fn, opts, stats, violations, t0):
    budget = opts.get("budget", 240)
    deadline = t0 + budget
    opts = dict(opts, deadline=deadline)
    work = [[]]
    seen_labels = set()
    nwit = 0
    maxwit = opts.get("witnesses", 12)
    while work:
        if time.time() > deadline or stats.paths >= opts.get("max_paths", 20000):
            stats.cut += len(work)
            stats.inconclusive.append("%s: %d unexplored branches after %d paths"
                                      % (fn.__name__, len(work), stats.paths))
            break
        if len(violations) >= 3:
            break
        prefix = work.pop()
        err = None
        with quiet():
            c = make_ctx("sym", prefix, stats, opts)
            try:
                fn(c)
            except PathEnd:
                work.extend(c.pending)
                continue
            except (Unsupported, TooBig, RecursionError, MemoryError) as e:
                err = ("limit", "%s: %s" % (type(e).__name__, e), tbtail(e))
            except TimeUp:
                err = ("limit", "time", "")
            except Exception as e:
                err = ("exc", "%s: %s" % (type(e).__name__, str(e)[:200]), tbtail(e))
            work.extend(c.pending)
            stats.paths += 1
        if DEBUG and err:
            print("ERR", fn.__name__, err, flush=True)
        # -- refuted claims
        for label, models, unknown in c.failures:
            if label in seen_labels:
                continue
            Box.ctx = c
            ok = confirm(fn, models, c, stats, opts, label)
            if ok:
                seen_labels.add(label)
                violations.append(ok)
            elif not unknown:
                stats.inconclusive.append("%s/%s: counterexample did not reproduce" % (fn.__name__, label))
        # -- paths the engine could not finish: solver models run on the real code
        if err:
            with quiet():
                Box.ctx = c
                ms = c.path_models(opts.get("degraded_models", 6), seed=len(prefix) + opts.get("seed", 1))
            bad = None
            ran = 0
            for m in ms:
                f, cc = run_concrete(fn, floats(m), stats, opts, profile=True)
                if f is None:
                    continue
                ran += 1
                if f:
                    bad = (f[0][0], m)
                    break
            if bad:
                if bad[0] not in seen_labels:
                    seen_labels.add(bad[0])
                    violations.append({"label": bad[0], "inputs": jsonable(bad[1])})
            elif err[1] != "time":
                stats.degraded.append("%s: %s [%s]; %d solver models run concretely"
                                      % (fn.__name__, err[1][:160], err[2], ran))
            continue
        # -- validation of the encoding: a model of this path on the real code
        if nwit < maxwit and not c.failures:
            nwit += 1
            with quiet():
                Box.ctx = c
                ms = c.path_models(1, seed=nwit + opts.get("seed", 1))
            for m in ms:
                f, cc = run_concrete(fn, floats(m), stats, opts, profile=True)
                if len(stats.samples) < 2:
                    stats.samples.append({"harness": fn.__name__, "path": len(c.trace),
                                          "inputs": show(m)})
                if f:
                    lab = f[0][0]
                    bad = [m]
                    with quiet():
                        Box.ctx = c
                        more = c.path_models(4, seed=nwit + 77)
                    k = 0
                    for m2 in more:
                        f2, _ = run_concrete(fn, floats(m2), stats, opts)
                        if f2:
                            k += 1
                    if k >= max(1, len(more) // 2) and lab not in seen_labels:
                        seen_labels.add(lab)
                        violations.append({"label": lab, "inputs": jsonable(m)})
                    else:
                        stats.inconclusive.append("%s/%s: one concrete run disagrees" % (fn.__name__, lab))
    check_cover(fn, opts, stats, violations)


def tbtail(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:][::-1]) + \
        ("".join("\n" + l for l in traceback.format_tb(e.__traceback__)) if DEBUG else "")


def confirm(fn, models, c, stats, opts, label):
    cands = list(models)
    with quiet():
        extra = []
        try:
            extra = c.path_models(8, seed=3)
        except Exception:
            pass
    for m in cands + extra:
        f, cc = run_concrete(fn, floats(m), stats, opts)
        if f:
            return {"label": f[0][0], "inputs": jsonable(m)}
    return None


def _alarm(*a):
    raise core.TimeUp()


def _job(args):
    pid, name, opts = args
    try:
        if not DEBUG:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, opts["budget"] + 45, 10)
        m = load_check(pid)
        fn = getattr(m, name)
        s, v = run_harness(fn, opts)
        return name, s, v, None
    except Exception:
        return name, Stats(), [], traceback.format_exc()
    except core.TimeUp:
        s = Stats()
        s.inconclusive.append("%s: hard time limit" % name)
        return name, s, [], None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return []


def main(pid, tier=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    m = load_check(pid)
    hs = m.harnesses(tier)
    only = os.environ.get("VF_ONLY")
    jobs = []
    for name, o in hs:
        if only and only not in name:
            continue
        o = dict(o, tier=tier, seed=seed)
        o.setdefault("budget", 300 if tier == "quick" else 1500)
        jobs.append((pid, name, o))
    total = Stats()
    violations = []
    errors = []
    per = {}
    nproc = 1 if DEBUG else min(len(jobs), int(os.environ.get("VF_JOBS", "8")))
    if nproc > 1:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            results = list(pool.imap_unordered(_job, jobs))
    else:
        results = [_job(j) for j in jobs]
    for name, s, v, err in sorted(results, key=lambda r: r[0]):
        total.add(s)
        per[name] = {"paths": s.paths, "obligations": s.obligations, "discharged": s.discharged,
                     "queries": s.z3_queries, "solver_s": round(s.z3_time, 2),
                     "witness_runs": s.witness_runs, "degraded": len(s.degraded)}
        if err:
            errors.append("%s: %s" % (name, err))
        for x in v:
            violations.append(dict(x, harness=name, property=pid, tier=tier))
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    new = []
    for v in violations:
        k = next((k for k in known if match(k, v)), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            k["seen"] = True
        else:
            new.append(v)
    os.makedirs(REPLAYS, exist_ok=True)
    for i, v in enumerate(new):
        path = os.path.join(REPLAYS, "%s-%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("  %s [%s] inputs=%s" % (v["label"], v["harness"], json.dumps(show(unjson(v["inputs"]), 8))[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for e in errors:
        print("ERROR", e)
    for d in total.degraded[:10]:
        print("DEGRADED", d)
    for d in total.inconclusive[:10]:
        print("INCONCLUSIVE", d)
    wall = time.time() - t0
    if os.environ.get("VF_VERBOSE") or DEBUG:
        for n in total.notes:
            print("NOTE", n)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total.paths,
            "transitions": total.decisions + total.obligations,
            "traces_validated_against_impl": total.witness_runs,
            "samples": total.samples[:8] or [{"note": "no feasible path"}],
            "explanation": "states = symbolic paths explored to the end; transitions = branch "
                           "decisions and proof obligations put to the solver; traces = solver "
                           "models replayed on the real code",
            "technique": "symbolic execution of the SALib source with z3 deciding branches and obligations",
            "obligations": total.obligations, "discharged": total.discharged,
            "refuted": total.refuted, "unknown": total.unknown,
            "solver_queries": total.z3_queries, "solver_seconds": round(total.z3_time, 2),
            "reachability_witness": total.reached,
            "functions_encoded": sorted(total.functions),
            "bounds": getattr(m, "BOUNDS", ""),
            "per_harness": per,
            "degraded_paths": total.degraded[:40],
            "inconclusive": total.inconclusive[:40],
            "unexplored_branches": total.cut,
        },
        "assumptions": getattr(m, "ASSUMPTIONS", []) + COMMON,
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d harnesses, %d paths, %d/%d obligations discharged, %d queries (%.1fs solver), "
          "%d concrete replays, %d degraded, %d inconclusive, %.1fs"
          % (pid, tier, len(jobs), total.paths, total.discharged, total.obligations,
             total.z3_queries, total.z3_time, total.witness_runs, len(total.degraded),
             len(total.inconclusive), wall))
    if new:
        return 1
    if errors:
        return 3
    return 0


COMMON = [
    "numbers are idealised as exact reals; float constants within 5e-16 of a small fraction are read "
    "as that fraction, and polynomial coefficients below 1e-11 relative are rounding noise",
    "numpy/scipy/pandas primitives are replaced by exact models of their documented behaviour; every "
    "explored path is cross-checked by running the same harness on the real libraries at a solver model",
]


def match(k, v):
    return k.get("harness") == v["harness"] and (k.get("label") in v["label"])


def replay(path):
    with open(path) as f:
        v = json.load(f)
    m = load_check(v["property"])
    fn = getattr(m, v["harness"])
    tier = v.get("tier", "quick")
    opts = dict(dict(m.harnesses(tier)).get(v["harness"], {}), tier=tier)
    if "cover" in v:
        label, n, _ = v["cover"]
        got = conc_cover(fn, opts, label, n)
        print("reached", len(got), "of", n, "distinct values of:", label)
        return 1 if len(got) < n else 0
    f, c = run_concrete(fn, floats(unjson(v["inputs"])), Stats(), opts)
    print("inputs:", show(unjson(v["inputs"]), 100))
    print("failures:", [x[0] for x in f or []])
    return 1 if f else 0
