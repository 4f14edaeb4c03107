"""Runs the rules of one property (or all) and reports.

  run.py P01            check one property, exit 0 / 1 (violation) / 2 (the tree cannot be analysed)
  run.py --all          development: every property in one process
"""
import argparse, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "rules"))
sys.setrecursionlimit(20000)
import facts as FX
from mir import AnchorError
from rule import Ctx

EVID = os.environ.get("OR_EVIDENCE", os.path.join(VERIF, "evidence"))
STRICT = bool(os.environ.get("OR_STRICT"))
KNOWN = os.path.join(VERIF, "known_findings.json")

REG = {}
BOTH = ("P31", "P30")  # P31 looks at both configurations itself; P30 at the stores


def load():
    import props

    for pid, fns in props.REG.items():
        REG[pid] = fns
    return REG


def known():
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k.get("status") == "known"]
    except FileNotFoundError:
        return []


def check(pid, progs, tier, seed, quiet=False):
    t0 = time.time()
    ctx = Ctx(pid, progs)
    ctx.tier = tier
    und = []
    jobs = [("core", fn) for fn in REG[pid]]
    if tier == "thorough" and pid not in BOTH:
        jobs += [("stl", fn) for fn in REG[pid]]
    for core, fn in jobs:
        ctx.core = core
        ctx.rule = fn.__name__
        ctx.rules.setdefault(fn.__name__, {"text": (fn.__doc__ or fn.__name__).strip().split("\n")[0], "obligations": 0, "violations": 0})
        try:
            fn(ctx)
        except FX.BuildError:
            raise
        except Exception as e:
            # the code no longer has a shape this rule can read: the rule is undecided, the others still count
            if STRICT:
                raise
            und.append("%s: %s: %s" % (ctx.rule, type(e).__name__, str(e)[:200]))
            print("%s: rule %s is undecided (%s: %s)" % (pid, ctx.rule, type(e).__name__, str(e)[:200]))
    if not ctx.ob:
        print("%s: no rule could be decided" % pid)
        return 2
    kn = {k["key"]: k for k in known() if k["property"] == pid}
    new = [b for b in ctx.bad if b[0] not in kn]
    old = [b for b in ctx.bad if b[0] in kn]
    rep = os.path.join(EVID, "%s.report.txt" % pid)
    os.makedirs(EVID, exist_ok=True)
    with open(rep, "w") as f:
        for k, m in new:
            f.write("VIOLATION %s\n  key: %s\n  %s\n\n" % (pid, k, m))
        for k, m in old:
            f.write("KNOWN %s\n  key: %s\n  %s\n\n" % (pid, k, m))
    blocks = nodes = 0
    fns = set()
    capped = 0
    for g in ctx.used:
        blocks += len(g.reached_blocks)
        nodes += len(g.x.nodes)
        capped += len(g.x.capped)
        for b in g.reached_blocks:
            fns.add(g.ig.blocks[b].fn.uid)
    cov = {
        "explanation": "Each rule is decided on every path of the inlined control-flow graphs extracted from the working tree's "
        "MIR (unoptimised, type-resolved) for the listed roots; an obligation is one (rule, construct) instance.",
        "rules": [{"rule": r, "text": d["text"], "obligations": d["obligations"], "violations": d["violations"]} for r, d in ctx.rules.items()],
        "obligations_total": ctx.ob,
        "obligations_held": ctx.ob - sum(d["violations"] for d in ctx.rules.values()),
        "roots_analysed": sorted(ctx.roots),
        "functions_analysed": len(fns),
        "basic_blocks": blocks,
        "path_sensitive_nodes": nodes,
        "widened_blocks": capped,
        "undecided_rules": und,
        "notes": ctx.notes,
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": [
            "the analysed configuration is the default feature set of each crate unless a rule names another"
            + ("; openraft also with single-term-leader" if tier == "thorough" and pid not in BOTH else ""),
            "user-supplied trait implementations (storage, network, state machine, runtime) honour their documented contracts",
            "unsafe aliasing and panics inside dependencies are out of scope",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    for k, m in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k].get("what", m)))
    for k, m in new:
        print("%s [%s] %s" % (pid, k, m))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    elif not quiet:
        print("%s: %d obligations over %d rules, %d functions, held (%.1fs)" % (pid, ctx.ob, len(ctx.rules), len(fns), time.time() - t0))
    return 1 if new else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pids", nargs="*")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    load()
    pids = sorted(REG) if a.all else a.pids
    rc = 0
    progs = {}
    try:
        for p in pids:
            if p not in REG:
                print("no rules for", p)
                rc = max(rc, 2)
                continue
            try:
                rc = max(rc, check(p, progs, a.tier, seed))
            except (AnchorError, FX.BuildError):
                raise
            except Exception:
                if not a.all:
                    raise
                traceback.print_exc()
                rc = 2
    except FX.BuildError as e:
        print("the working tree cannot be analysed: %s" % e)
        sys.exit(2)
    sys.exit(rc)


main()
