"""Runs the analysis suites a property needs, in parallel, and reports."""
import collections
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import build
from .ir import AnalysisError

HERE = build.HERE
SUITES = {}


def suite(name):
    def deco(cls):
        SUITES[name] = cls
        return cls
    return deco


class Result:
    def __init__(self):
        self.findings = []
        self.obl = collections.Counter()
        self.cases = 0
        self.stats = collections.Counter()
        self.functions = {}
        self.error = None
        self.notes = []


WORK = []


def _init():
    import resource
    lim = int(os.environ.get("XMEM_MEM_LIMIT", 3 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (lim, resource.RLIM_INFINITY))


def _work(i):
    from . import handles
    s, item = WORK[i]
    r = Result()
    try:
        handles.TICKETS.clear()
        s.run(item, r)
        if handles.TICKETS and getattr(s, "prop", "C26") in handles.LOCK and any(handles.LOCK & set(f.props) for f in r.findings):
            r.findings = [f for f in r.findings if not handles.LOCK & set(f.props)]
            raise AnalysisError("the lock is of a kind which the analysis does not know (it draws tickets)")
    except AnalysisError as e:
        r.error = "%s: %s" % (s.label(item), e)
        r.findings = getattr(e, "findings", []) or r.findings
    except MemoryError:
        r.error = "%s: out of memory" % s.label(item)
    except Exception:
        r.error = "%s: %s" % (s.label(item), traceback.format_exc())
    return i, r


def funcs(fs):
    return {k: (f.dm, f.file) for k, f in fs.items()}


def where_text(w):
    out = []
    for fn, f, l in w:
        f = f or "?"
        if f.startswith(build.REPO + "/"):
            f = f[len(build.REPO) + 1:]
        elif f.startswith(HERE):
            f = "<witness>"
        out.append("%s (%s:%s)" % (fn, f, l))
    return out


def site(w):
    """The innermost location in the library."""
    for fn, f, l in w:
        if f and f.startswith(build.INC + "/"):
            return fn, f[len(build.REPO) + 1:], l
    return (w[0] if w else ("?", "?", 0))


def run_property(prop, tier, plan, known):
    """plan: list of (suite name, suite arguments). Returns the exit code."""
    t0 = time.time()
    errors = []
    suites = []
    global WORK
    WORK = []
    notes = []
    pre = Result()
    for name, kw in plan:
        try:
            s = SUITES[name](prop, tier, pre=pre, **kw)
        except AnalysisError as e:
            errors.append("%s %s: %s" % (name, kw, e))
            pre.findings += getattr(e, "findings", [])
            continue
        except Exception:
            errors.append("%s %s: %s" % (name, kw, traceback.format_exc()))
            continue
        suites.append(s)
        for it in s.items():
            WORK.append((s, it))
    order = sorted(range(len(WORK)), key=lambda i: -WORK[i][0].cost(WORK[i][1]))
    total = Result()
    total.findings += pre.findings
    total.obl += pre.obl
    total.functions.update(pre.functions)
    total.stats += pre.stats
    done = 0
    if WORK:
        n = min(os.cpu_count() or 1, 8)
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(n, initializer=_init) as pool:
            for i, r in pool.imap_unordered(_work, order, chunksize=max(1, len(order) // (n * 16))):
                done += 1
                total.findings += r.findings
                total.obl += r.obl
                total.cases += r.cases
                total.stats += r.stats
                total.functions.update(r.functions)
                total.notes += r.notes
                if r.error:
                    errors.append(r.error)
    from .plan import PARTS
    parts = set(PARTS.get(prop, ())) | {prop}
    for x in parts - {prop}:
        total.obl[prop] += total.obl.get(x, 0)
    mine = [f for f in total.findings if parts & set(f.props)]
    seen = {}
    for f in mine:
        k = (site(f.where)[0], f.msg, f.key)
        seen.setdefault(k, []).append(f)
    kf, vio = [], []
    for k, fs in sorted(seen.items(), key=lambda x: (str(x[0]))):
        e = next((e for e in known if e["property"] == prop and fs[0].key is not None and e["key"] == fs[0].key), None)
        (kf if e else vio).append((k, fs, e))
    code = 0
    shown = set()
    for k, fs, e in kf:
        if e["key"] not in shown:
            shown.add(e["key"])
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    rep = os.path.join(HERE, "evidence", "%s.violation.json" % prop)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if os.path.exists(rep):
        os.remove(rep)
    if vio:
        code = 1
        data = []
        for k, fs, _ in vio:
            f = fs[0]
            s = site(f.where)
            data.append({"what": f.msg, "construct": "%s at %s:%s" % s, "operation": f.op, "case": f.shape, "cases": len(fs),
                         "call_path": where_text(f.where),
                         "effects": [effect_text(e) for e in f.trace][-60:]})
        with open(rep, "w") as o:
            json.dump(data, o, indent=1, default=str)
        for d in data[:12]:
            print("%s: %s\n    in %s\n    case %s (%d such cases)" % (prop, d["what"], d["construct"], d["case"], d["cases"]))
        if len(data) > 12:
            print("... and %d more" % (len(data) - 12))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
    elif errors:
        code = 2
    elif not total.obl.get(prop):
        errors.append("no obligation of %s was examined" % prop)
        code = 2
    for e in errors[:10]:
        print("ANALYSIS-ERROR: %s" % e, file=sys.stderr)
    if len(errors) > 10:
        print("... and %d more" % (len(errors) - 10), file=sys.stderr)
    lib = sorted(set("%s (%s)" % (dm, os.path.relpath(fl, build.REPO)) for dm, fl in total.functions.values()
                     if fl and fl.startswith(build.INC + "/")))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": " ".join(([EXPLAIN] if any(n != "types" for n, _ in plan) else []) + ([EXPLAIN_TYPES] if any(n == "types" for n, _ in plan) else [])),
            "suites": ["%s%s" % (n, kw or "") for n, kw in plan],
            "operations_analysed": len(WORK), "abstract_cases": total.cases,
            "obligations_examined": total.obl.get(prop, 0),
            "abstract_paths": total.stats.get("paths", 0), "instructions_interpreted": total.stats.get("instructions", 0),
            "states_forked": total.stats.get("forks", 0), "states_merged_at_loops": total.stats.get("merged", 0),
            "library_functions_analysed": len(lib), "library_functions": lib[:400],
            "known_findings_seen": sorted(shown), "analysis_errors": errors[:10], "notes": sorted(set(total.notes))[:40],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(vio),
    }
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as o:
        json.dump(ev, o, indent=1)
    print("%s %s: %d operations, %d cases, %d obligations examined, %d library functions, %d violation(s), %d known finding(s), %.1f s" %
          (prop, "quick" if tier == "quick" else tier, len(WORK), total.cases, total.obl.get(prop, 0), len(lib), len(vio), len(shown), time.time() - t0))
    return code


def effect_text(e):
    w = e[-1]
    s = site(w) if isinstance(w, tuple) and w and isinstance(w[0], tuple) else None
    return "%s%s" % (" ".join(str(x) for x in e[:-1]), "   @ %s:%s" % s[1:] if s else "")


EXPLAIN = ("The current headers are compiled (not run) to LLVM IR together with small witness programs, one per public operation. "
           "A path-sensitive abstract interpreter propagates typestates (ownership, lock, construction) through each operation and "
           "everything it calls, from every ownership and aliasing shape of its operands, with counts as symbols; loops are "
           "iterated to a fixed point at their heads. At every exit and at every effect the rules of the property are examined.")
EXPLAIN_TYPES = ("Type-level obligations are decided by the compiler front end on the current headers: constant expressions which must hold, "
                 "legal programs which must compile, and illegal programs which must not, each next to its closest legal relative, which must.")
ASSUME = ["clang 18 translates the headers faithfully at -O0; the abstract transfer functions model LLVM IR correctly",
          "the template instantiations in the witness programs are representative of all instantiations",
          "deleters, destructors and user allocators which may not throw do not throw"]
