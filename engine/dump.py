"""Developer aid: print what the analysis sees in one root."""
import sys
from rule import *
from mir import fmt
def main():
    import facts as F
    st = "core"
    a = sys.argv[1:]
    if a[0].startswith("--set="):
        st = a[0][6:]; a = a[1:]
    opaque = a[1].split(",") if len(a) > 1 and a[1] else ()
    P = Program(F.facts(st))
    f = root(P, a[0])
    g = G(P, f, opaque=opaque)
    print("blocks", len(g._live()), "nodes", len(g.x.nodes), "capped", len(g.x.capped), "trunc", g.ig.truncated[:5])
    for b in g._live():
        B = g.ig.blocks[b]
        for i, (pl, rv, sp) in enumerate(B.stmts):
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[0] not in ("core", "alloc", "std", "tracing","tracing_core"):
                print("  CONS %s::%s(%s) @%s" % (rv[1][1].rsplit("::", 1)[-1], rv[1][2], ", ".join(fmt(g.expr(o))[:80] for o in rv[2]), g.ig.where(b)))
            if pl[1] and any(e != "*" and e[0] == "f" and e[1].startswith("openraft") for e in pl[1]):
                print("  WRITE %s = ... @%s" % (fmt(g.lpath(pl)), g.ig.where(b)))
        t = B.term
        if t[0] == "switch":
            for lab in [v for v, _ in t[2]] + ["else"]:
                for f in g.facts(b, lab):
                    if f[0] == "cmp":
                        print("  FACT b%d[%s] %s%s %s ### %s  (%s) @%s" % (b, lab, "" if f[5] else "NOT ", f[1], fmt(g.expr(f[2]))[:150], fmt(g.expr(f[3]))[:150], f[4], g.ig.where(b)))
                    elif f[0] == "is":
                        print("  FACT b%d[%s] is %s: %s" % (b, lab, "/".join(sorted(f[3])), fmt(g.expr(f[1]))[:150]), "@" + g.ig.where(b))
                    elif f[0] == "bcall":
                        print("  FACT b%d[%s] %s = %s (%s)" % (b, lab, f[1].n, f[3], ", ".join(fmt(g.expr(x))[:60] for x in f[2])), "@" + g.ig.where(b))
                    elif f[0] == "int":
                        print("  FACT b%d[%s] int %s" % (b, lab, fmt(g.expr(f[1]))[:100]))
        elif t[0] in ("call", "await"):
            f = t[1] if t[0] == "call" else None
            if t[0] == "await":
                print("  AWAIT", t[1][1].n if t[1] and t[1][1] else t[1], "@" + g.ig.where(b))
            elif f is not None:
                print("  CALL %s(%s) @%s" % (f.n, ", ".join(fmt(g.expr(x))[:70] for x in t[2]), g.ig.where(b)))
main()
