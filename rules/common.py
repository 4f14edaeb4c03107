"""Shared vocabulary of the property rules: analysis roots, inventories, recurring predicates."""
from rule import *
from lib import TERM, Site, adtm, nm, fnmatch
from mir import fmt, AnchorError

REG = {}


def prop(*pids):
    def d(fn):
        for p in pids:
            REG.setdefault(p, []).append(fn)
        return fn

    return d


# ---- analysis roots: everything RaftCore can do, one root per kind of event ------------------------


def API(c):
    return c.g("RaftCore::handle_api_msg")


def NTF(c):
    return c.g("RaftCore::handle_notification")


def EXEC(c):
    return c.g("<openraft::core::raft_core::RaftCore as openraft::runtime::RaftRuntime>::run_command")


LOOP_OPAQUE = ("RaftCore::handle_api_msg", "RaftCore::handle_notification", "RaftCore::run_engine_commands")


def LOOP(c):
    return c.g("RaftCore::runtime_loop", opaque=LOOP_OPAQUE)


def START(c):
    return c.g("RaftCore::do_main", opaque=("RaftCore::runtime_loop", "RaftCore::run_engine_commands"))


def RUNCMDS(c):
    return c.g("RaftCore::run_engine_commands", opaque=("run_command",))


def EVENTS(c):
    """Every root from which the engine state can change."""
    return [API(c), NTF(c), LOOP(c), START(c), EXEC(c)]


CMD = "engine::command::Command"
COND = "engine::command::Condition"
RESP = "engine::command::Respond"
ST = "raft_state::RaftState"


def raw_writers(c, adt, field, setname="core", mut=True):
    """Functions that assign, or borrow mutably, the field itself."""
    out = set()
    for f in c.P(setname).fns():
        for b in f.blocks:
            dst = [s[0] for s in b[0]]
            if mut:
                dst += [s[1][2] for s in b[0] if s[1][0] == "ref" and s[1][1] == "mut"]
            t = b[1]
            if t[0] == "call":
                dst.append(t[3])
            for pl in dst:
                fs = [e for e in pl[1] if e != "*" and e[0] == "f"]
                if fs and adtm(fs[-1][1], adt) and fs[-1][2] == field:
                    out.add(f)
    return out


TESTISH = ("openraft::testing", "::tests::", "::test::")


def covered(c, adt, field, gs, exempt=(), mut=False, setname="core"):
    """Every function that writes the field is analysed in one of the roots."""
    seen = set()
    for g in gs:
        for b in g.reached_blocks:
            seen.add(g.ig.blocks[b].fn.uid)
    n = 0
    for f in raw_writers(c, adt, field, setname, mut):
        if any(t in f.name for t in TESTISH) or nm(f.name, exempt) or f.derived:
            continue
        n += 1
        c.ok(f.uid in seen, "unanalysed-writer:%s.%s:%s" % (adt, field, f.name), "%s writes %s.%s outside the analysed event handlers (%s:%s)" % (f.name, adt, field, f.file, f.line))
    c.floor(n, "writers of %s.%s" % (adt, field), 1)


def prefix(e, p):
    """e is the place p, or a part of it (payload projections ignored)."""
    while True:
        if p(e):
            return True
        if e[0] in ("field", "var", "idx"):
            e = e[1]
        else:
            return False


# the vote this node stands for
VOTE = efield("RaftState", "vote")


def is_vote_data(e):
    return prefix(e, lambda q: q[0] == "field" and q[3] == "vote" and adtm(q[2], ST))


def vote_state(g, o):
    return all(is_vote_data(a) for a in alts(g.expr(o)))


def same(g, ref):
    """Operand predicate: the operand denotes the value `ref` (an expression)."""
    want = {fmt(a) for a in alts(ref)}

    def p(g2, o):
        return {fmt(a) for a in alts(g2.expr(o))} <= want

    return p


def cut_at(sites):
    return sites


# ---- spawned tasks -----------------------------------------------------------------


def spawned(c, g, setname="core"):
    """Coroutines/closures built in a root but not run inside it: [(fn, {capture: expression in the root}, site)]."""
    P = c.P(setname)
    inl = {g.ig.blocks[b].fn.uid for b in g.reached_blocks}
    out = []
    for b in g._live():
        for i, (pl, rv, sp) in enumerate(g.ig.blocks[b].stmts):
            if rv[0] == "agg" and rv[1][0] in ("closure", "coroutine") and rv[1][1] not in inl:
                f = P.by_uid.get(rv[1][1])
                if f is None:
                    continue
                caps = {n[0]: g.expr(o) for n, o in zip(f.caps or [], rv[2])}
                out.append((f, caps, Site(g.x, b, i, rv)))
    return out


def subst(e, caps):
    """Replace captured variables by the expressions of the enclosing root."""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == "field" and e[2] == "^" and e[3] in caps:
        return caps[e[3]]
    return tuple(subst(x, caps) if isinstance(x, tuple) else x for x in e)


def nodes_guard(c, g, site, nodes, m, key, msg, also=()):
    """Like guard, for some of the path classes reaching a site."""
    stop = g._stopset(also)
    mm = m(g)
    seen = g.x.reach([0], stop=stop, cut=g.cutter(mm))
    bad = [n for n in nodes if n in seen and n not in stop]
    path = g.x.path_to(bad[0]) if bad else None
    return c.okpath(g, path, key, "%s at %s" % (msg, site.desc()))


def evar(variant, base=None):
    """The expression is inside the payload of the given enum variant."""

    def p(e):
        while True:
            if e[0] == "var" and e[2] == variant and (base is None or base(e[1])):
                return True
            if e[0] in ("field", "var", "idx"):
                e = e[1]
            else:
                return False

    return p


def payload(variant, field, adt=None):
    """Field `field` of the payload of enum variant `variant` of a root argument."""

    def p(e):
        e = peel(e)
        return e[0] == "field" and e[3] == field and e[1][0] == "var" and e[1][2] == variant

    return p


def last_log(e):
    """The id of the last log this node has."""
    e = peel(e)
    return e[0] == "call" and nm(e[1], ("slice::last", "last")) and esub(efield("LogIdList", "key_log_ids"), e)


def is_state_field(f):
    return lambda e: prefix(e, lambda q: q[0] == "field" and q[3] == f and adtm(q[2], ST))


def st(f):
    """Operand predicate: (part of) a field of the engine state."""
    p = is_state_field(f)
    return lambda g, o: all(p(a) for a in alts(g.expr(o)))


def strip(e):
    return peel(e)


def others(g, adt, but):
    """Constructions of any variant of an enum except `but`."""
    return [s for s in g.cons(adt) if s.data[1][2] not in but]


def ret_ok(g, variant="Ok"):
    """Exit nodes of the root whose return value can be the given variant."""
    return {n for n, v in g.ret_variants().items() if v in (variant, None)}


def loads_of(g, op, adt, field):
    """Sites where the value of an operand was copied out of the given field."""
    out = []
    for l in g.load_sites(op):
        if isinstance(l.data, tuple) and (efield(adt, field)(g.lpath(l.data)) or esub(efield(adt, field), g.lpath(l.data))):
            out.append(l)
    return out


PRISTINE = cmpm("eq", vote_state, X(ecall("default")), total=True)


def pristine(g, s):
    """The site is reached only on a node that has never voted (first initialization)."""
    return g.guarded(s, PRISTINE(g)) is None
