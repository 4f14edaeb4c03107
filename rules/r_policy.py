"""Automatic snapshots and purges follow the configuration (P33)."""
from common import *
from r_log import SNAP, index_of_lookup
from r_life import XD, dsub
from r_metrics import DS
from r_repl import succs
from r_snap import SMC, var_defs
from r_start import walk

INDEX = ("next_index", "LogIndexOptionExt::next_index", "LogIdOptionExt::next_index")
OPAQUE = ("LogIdList::get", "get_log_id", "is_log_range_inflight")


def atom(e):
    """The position or number an expression stands for."""
    got = set()
    for q in walk(e):
        if q[0] == "field":
            if q[3] == "snapshot_meta":
                got.add("snapshot")
            elif q[3] == "purge_upto":
                got.add("scheduled")
            elif q[3] in ("key_log_ids", "purged_next"):
                got.add("purged")
            elif q[3] == "committed":
                got.add("committed")
            elif q[3] == "max_in_snapshot_log_to_keep":
                got.add("keep")
            elif q[3] == "purge_batch_size":
                got.add("batch")
        elif q[0] == "call":
            n = q[1].rsplit("::", 1)[-1]
            if n in ("snapshot_last_log_id",):
                got.add("snapshot")
            elif n in ("last_purged_log_id",):
                got.add("purged")
            elif n in ("committed", "purge_upto"):
                got.add({"purge_upto": "scheduled"}.get(n, n))
        elif q[0] == "var" and q[2] == "LogsSinceLast":
            got.add("threshold")
        elif q[0] == "var" and q[2] == "PurgeLog":
            got.add("asked")
        elif q[0] == "arg" and q[1] > 1:
            got.add("arg%d" % q[1])
    got -= {a for a in got if a.startswith("arg")} if len(got) > 1 else set()
    return got.pop() if len(got) == 1 else None


CONF = ("keep", "batch", "threshold")


class Lin:
    """A sum of positions and numbers: {atom: factor}, constant."""

    def __init__(self, d, k, flags=frozenset()):
        self.d, self.k, self.flags = {a: n for a, n in d.items() if n}, k, flags

    def plus(self, o, sign=1, flags=()):
        d = dict(self.d)
        for a, n in o.d.items():
            d[a] = d.get(a, 0) + sign * n
        return Lin(d, self.k + sign * o.k, self.flags | o.flags | frozenset(flags))

    def __repr__(self):
        return " ".join(["%+d %s" % (n, a) for a, n in sorted(self.d.items())] + ["%+d" % self.k])


def num(e):
    if e[0] == "k":
        try:
            return int(e[1].split("_")[0])
        except ValueError:
            return None


def lin(e, depth=0):
    """The expression as a sum, or None."""
    if depth > 12:
        return None
    e = peel(e)
    k = num(e)
    if k is not None:
        return Lin({}, k)
    if e[0] in ("field", "var") and e[0] == "field" and e[3] == "0" and e[1][0] == "bin":
        return lin(e[1], depth + 1)
    if e[0] == "bin" and e[1].startswith(("Add", "Sub")):
        a, b = lin(e[2], depth + 1), lin(e[3], depth + 1)
        if a is None or b is None:
            return None
        w = [x for x in CONF if x in b.d or e[1].startswith("Add") and x in a.d]
        return a.plus(b, 1 if e[1].startswith("Add") else -1, ["wrap"] if w else [])
    if e[0] == "call":
        n = e[1].rsplit("::", 1)[-1]
        a = e[2]
        if n in INDEX:
            x = atom(a[0])
            return Lin({x: 1}, 1) if x else None
        if n in ("saturating_add", "saturating_sub", "wrapping_add", "wrapping_sub", "checked_add", "checked_sub", "add", "sub") and len(a) > 1:
            l, r = lin(a[0], depth + 1), lin(a[1], depth + 1)
            if l is None or r is None:
                return None
            w = [x for x in CONF if x in l.d or x in r.d] if n[:4] in ("wrap", "add", "sub") else []
            return l.plus(r, 1 if n.endswith("add") else -1, ["wrap"] if w else [])
        if n == "max" and len(a) > 1:
            for i in (0, 1):
                j, o = num(peel(a[i])), lin(a[1 - i], depth + 1)
                if j is not None and o is not None:
                    if set(o.d) == {"batch"} and o.k == 0 and o.d["batch"] == 1:
                        return Lin(o.d, 0, o.flags | {"least%d" % j})
                    if j == 0:
                        return o
            return None
        if n == "unwrap_or" and len(a) > 1 and num(peel(a[1])) == 0:
            return lin(a[0], depth + 1)
        if n == "unwrap_or_default":
            return lin(a[0], depth + 1)
        if n in ("clone", "unwrap", "expect", "from", "into", "deref", "copied", "cloned", "borrow", "as_ref"):
            return lin(a[0], depth + 1) if a else None
        if n == "map_or" and num(peel(a[1])) == 0 and atom(a[0]):
            return None
        if n == "index" and len(a) == 1:
            x = atom(a[0])
            return Lin({x: 1}, 0) if x else None
        return None
    if e[0] == "phi":
        xs = [lin(a, depth + 1) for a in e[1]]
        if any(x is None for x in xs):
            return None
        big = [x for x in xs if x.d]
        zero = [x for x in xs if not x.d and x.k == 0]
        if len(big) == 1 and len(zero) == len(xs) - 1:
            return Lin(big[0].d, big[0].k, big[0].flags - {"wrap"}) if zero else big[0]
        if big and all(repr(x) == repr(big[0]) for x in xs):
            return big[0]
        return None
    if e[0] == "field":
        if e[3] == "index":
            x = atom(e[1])
            return Lin({x: 1}, 0) if x else None
        if e[3] == "purged_next":
            return Lin({"purged": 1}, 1)
        if e[3] in ("max_in_snapshot_log_to_keep", "purge_batch_size"):
            x = atom(e)
            return Lin({x: 1}, 0) if x else None
        x = atom(e)
        return Lin({x: 1}, 0) if x in ("threshold", "asked") else None
    if e[0] == "var":
        x = atom(e)
        return Lin({x: 1}, 0) if x in ("threshold", "asked") else None
    if e[0] == "arg":
        x = atom(e)
        return Lin({x: 1}, 0) if x else None
    return None


CMPS = ("Lt", "Le", "Gt", "Ge", "Eq", "Ne")
NEG = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}


def ineqs(g, f):
    """A comparison as sums that are at most zero."""
    if f[0] != "cmp":
        return []
    op = f[1] if f[5] else NEG.get(f[1])
    one = Lin({}, 1)
    out = []
    for l in lins(g.expr(f[2], 12)):
        for r in lins(g.expr(f[3], 12)):
            d, e = l.plus(r, -1), r.plus(l, -1)
            out += {"lt": [d.plus(one)], "le": [d], "gt": [e.plus(one)], "ge": [e], "eq": [d, e]}.get(op, [])
    return out


def lins(e):
    """The sums a variable with several assignments may hold."""
    l = lin(e)
    if l is not None:
        return [l]
    e = peel(e)
    return [x for a in e[1] for x in lins(a)] if e[0] == "phi" else []


def atmost(want, ck=None):
    """Matches facts that say: want <= 0 (the constant may be anything accepted by ck)."""
    ck = ck or (lambda k: k == want.k)
    return lambda g: lambda f: any(q.d == want.d and ck(q.k) for q in ineqs(g, f))


ROOM = Lin({"purged": 1, "batch": 1, "snapshot": -1, "keep": 1}, 0)  # purged+1 + batch <= snapshot+1 - keep
SHORT = Lin({"purged": -1, "batch": -1, "snapshot": 1, "keep": -1}, 1)
DUE = Lin({"snapshot": 1, "threshold": 1, "committed": -1}, 0)
EARLY = Lin({"snapshot": -1, "threshold": -1, "committed": 1}, 1)


def about(*names):
    """Facts that mention all of these, in a form that is not understood."""
    def m(g):
        def t(f):
            if f[0] not in ("cmp", "bcall", "val") or ineqs(g, f):
                return False
            es = [g.expr(x, 12) for x in (f[2:4] if f[0] == "cmp" else f[2] if f[0] == "bcall" else f[1:2])]
            if f[0] == "val" and any(q[0] == "bin" and q[1] in CMPS or q[0] == "call" and q[1].rsplit("::", 1)[-1] in NEG for q in walk(es[0])):
                return False  # the comparison itself is another fact
            return all(any(names_in(n, e) for e in es) for n in names)
        return t
    return m


def names_in(n, e):
    want = {"batch": "purge_batch_size", "keep": "max_in_snapshot_log_to_keep"}.get(n)
    if want:
        return dsub(lambda q: q[0] == "field" and q[3] == want, e)
    return dsub(lambda q: q[0] == "var" and q[2] == "LogsSinceLast", e)


def upto(g):
    return g.writes("RaftState", "purge_upto")


def looked_up(v):
    out = []
    for q in walk(v):
        if q[0] == "call" and nm(q[1], ("LogIdList::get", "get_log_id", "RaftState::get_log_id", "LogStateReader::get_log_id")) and len(q[2]) > 1:
            out.append(q[2][1])
    return out


SCHED = DS(lambda q: q[0] == "field" and q[3] == "purge_upto" or q[0] == "call" and nm(q[1], ("purge_upto",)))


@prop("P33")
def policy_purge(c):
    """automatic purges"""
    g = c.g("Engine::finish_building_snapshot", opaque=OPAQUE)
    ws = upto(g)
    c.begin("keep", "an automatic purge goes exactly up to the snapshot less the number of entries to keep")
    c.floor(len(ws), "places scheduling an automatic purge", 1)
    for s in ws:
        v = g.value(s, 12)
        ix = looked_up(v)
        if not ix:
            c.notes.append("purge position not understood: %s" % fmt(v)[:120])
            continue
        for i in ix:
            l = lin(i)
            if l is None:
                c.notes.append("purge index not understood: %s" % fmt(i)[:120])
                continue
            c.ok(l.d == {"snapshot": 1, "keep": -1} and l.k == 0, "index:%s" % s.key(), "an automatic purge goes up to index %r" % l)
            c.ok("wrap" not in l.flags, "wrap:%s" % s.key(), "the position to purge up to may be computed below zero")
    c.begin("batch", "an automatic purge is made when, and only when, the configured batch can go")
    facts = []
    for b in g.reached_blocks:
        if g.ig.blocks[b].term[0] == "switch":
            for lab in [x[0] for x in g.ig.blocks[b].term[2]] + ["else"]:
                facts += [(b, q) for f in g.facts(b, lab) for q in ineqs(g, f)]
    for s in ws:
        c.guard(g, s, orm(atmost(ROOM), about("batch")), "room:%s" % s.key(), "an automatic purge is made before a whole batch can go")
    for b, q in facts:
        if "batch" in q.d:
            c.ok("wrap" not in q.flags, "wrap:%s" % g.ig.where(b), "the test for a batch overflows for a large batch size")
            if q.d["batch"] > 0:
                raw = any(s for s in ws for i in looked_up(g.value(s, 12)) if subs_one(i))
                c.ok("least1" in q.flags or not raw or zero_excluded(g, ws), "zero:%s" % g.ig.where(b), "with a batch size of zero the position to purge up to is computed below zero")
    took = [s for s in g.writes("RaftState", "snapshot_meta")]
    c.floor(len(took), "snapshots taken over", 1)
    for s in took:
        enough = orm(atmost(SHORT), about("batch"), le_scheduled, ism("Option", ("None",), XD(lambda e: bool(looked_up(e)), 8)))
        p = g.exit_from(succs(g, s), also=ws, match=enough(g))
        c.okpath(g, p, "lazy:%s" % s.key(), "after a snapshot is built, entries that a whole batch could purge stay")
    c.begin("forward", "a scheduled purge is not cut short")
    for s in ws:
        v = g.value(s, 12)
        if any(q[0] == "call" and q[1].rsplit("::", 1)[-1] == "max" and dsub(is_sched, q) and looked_up(q) for q in walk(v)):
            continue
        c.guard(g, s, further, "further:%s" % s.key(), "an automatic purge replaces one that goes further and is only postponed")
    c.begin("now", "after a snapshot is built, what is scheduled is purged at once unless it is in use or already purged")
    for s in took:
        c.okpath(g, unpurged(g, succs(g, s)), "run:%s" % s.key(), "a purge is scheduled but not made")


def is_sched(q):
    return q[0] == "field" and q[3] == "purge_upto" or q[0] == "call" and nm(q[1], ("purge_upto",))


def subs_one(i):
    return any(q[0] == "bin" and q[1].startswith("Sub") and num(peel(q[3])) == 1 for q in walk(i))


def zero_excluded(g, ws):
    pos = Lin({"snapshot": -1, "keep": 1}, 0)
    m = atmost(pos, lambda k: k >= 0)
    return all(g.guarded(s, m(g)) is None for s in ws)


def _cmp_sched(ops):
    """New position against the scheduled one."""
    def m(g):
        def t(f):
            if f[0] == "cmp":
                op = f[1] if f[5] else NEG.get(f[1])
                l, r = g.expr(f[2], 12), g.expr(f[3], 12)
                if dsub(is_sched, r) and not dsub(is_sched, l):
                    return op in ops
                if dsub(is_sched, l) and not dsub(is_sched, r):
                    return {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op) in ops
            return False
        return t
    return m


def further(g):
    a = _cmp_sched(("gt", "ge"))(g)
    b = ism("Option", ("None",), XD(lambda e: is_sched(peel(e))))(g)
    d = bcallm(("is_none",), True, SCHED)(g)
    e = bcallm(("map_or", "is_some_and", "is_none_or"), True, SCHED)(g)
    return lambda f: a(f) or b(f) or d(f) or e(f)


def le_scheduled(g):
    return _cmp_sched(("le", "lt"))(g)


def unpurged(g, starts):
    """A path to the end on which the scheduled purge is neither made, nor in use, nor already made."""
    cmds = g.cons(CMD, "PurgeLog")
    done = cmpm("le", SCHED, DS(lambda q: q[0] == "field" and q[3] in ("key_log_ids", "purged_next") or q[0] == "call" and nm(q[1], ("last_purged_log_id",))))
    used = orm(
        valm(True, DS(lambda q: q[0] == "call" and nm(q[1], ("is_log_range_inflight",)))),
        bcallm(("is_log_range_inflight", "any"), True),
        ism("Inflight", ("Logs",)),
    )
    nothing = ism("Option", ("None",), XD(lambda e: is_sched(peel(e))))
    return g.exit_from(starts, also=cmds, match=orm(done, used, nothing)(g))


@prop("P33")
def user_purge(c):
    """purges asked for by the user"""
    c.begin("asked", "a purge asked for goes up to the given index, or the snapshot if that is less")
    g = c.g("Engine::trigger_purge_log", opaque=OPAQUE)
    ws = upto(g)
    c.floor(len(ws), "places scheduling a requested purge", 1)
    ARG, SN = Lin({"arg2": 1}, 0), Lin({"snapshot": 1}, 0)
    for s in ws:
        v = g.value(s, 12)
        ix = looked_up(v)
        got = set()
        for i in ix:
            i = peel(i)
            mins = [q for q in walk(i) if q[0] == "call" and q[1].rsplit("::", 1)[-1] == "min"]
            for a in (list(mins[0][2]) if mins else alts(i)):
                l = lin(a)
                if l is None:
                    c.notes.append("requested purge index not understood: %s" % fmt(a)[:120])
                    got.add("?")
                else:
                    got.add("arg" if l.d == ARG.d else "snapshot" if l.d == SN.d else "other")
                    c.ok(l.d in (ARG.d, SN.d) and l.k == 0, "index:%s" % s.key(), "a requested purge goes up to %r" % l)
        if not ix and any(SNAP(a) for a in alts(v)):
            got.add("snapshot")
        c.ok(not ix and not got or "arg" in got or "?" in got, "arg:%s" % s.key(), "a requested purge does not depend on the index asked for")
    for s in g.calls("get_log_id", "LogIdList::get"):
        if not any(lin(a) is not None and lin(a).d == ARG.d for a in alts(g.expr(s.args()[-1], 12))):
            continue
        for d in var_defs(g, s.args()[-1])[1]:
            l = lin(g.value(d, 8)) if isinstance(d.data, tuple) else None
            if l is not None and l.d == SN.d:
                c.guard(g, d, atmost(Lin({"arg2": -1, "snapshot": 1}, 0), lambda k: k >= 0), "less:%s" % s.key(), "a requested purge goes up to the snapshot though less was asked for")
    # the request is dropped only when there is nothing to do
    none = orm(
        ism("Option", ("None",), DS(lambda q: q[0] == "field" and q[3] == "snapshot_meta" or q[0] == "call" and nm(q[1], ("snapshot_last_log_id",)))),
        atmost(Lin({"arg2": 1, "scheduled": -1}, 0), lambda k: k >= 0),
        atmost(Lin({"arg2": 1, "purged": -1}, 0), lambda k: k >= 0),
        atmost(Lin({"snapshot": 1, "scheduled": -1}, 0), lambda k: k >= 0),
    )
    p = g.exit_from([0], also=ws, match=none(g))
    c.okpath(g, p, "dropped", "a purge asked for is dropped though entries could go")
    c.begin("forward", "a requested purge does not cut a scheduled one short")
    past = orm(atmost(Lin({"arg2": -1, "scheduled": 1}, 0), lambda k: k >= 0), further)
    for s in ws:
        c.guard(g, s, past, "further:%s" % s.key(), "a requested purge replaces one that goes further and is only postponed")
    c.begin("made", "a requested purge is made at once unless the entries are in use")
    for s in ws:
        c.okpath(g, unpurged(g, succs(g, s)), "run:%s" % s.key(), "a purge is scheduled but not made")
    a = API(c)
    st = a.edges(ism("ExternalCommand", ("PurgeLog",))(a))
    c.ok(bool(st), "arm", "requests to purge are not handled")
    aw = a.writes("RaftState", "purge_upto")
    for s in aw:
        if in_ext(a, s):
            v = a.value(s, 12)
            ixs = [x for i in (looked_up(v) or index_of_lookup(v) or []) for x in alts(i)]
            asked = [x for x in ixs if dsub(lambda q: q[0] == "var" and q[2] == "PurgeLog", x)]
            ls = [lin(x) for x in asked]
            c.ok(not ixs or bool(asked) and all(l is None or l.d != {"asked": 1} or l.k == 0 for l in ls), "given:%s" % s.key(), "a requested purge does not use the index asked for")


def in_ext(g, s):
    return g.guarded(s, ism("ExternalCommand", ("PurgeLog",))(g)) is None


@prop("P33")
def postponed(c):
    """postponed purges"""
    c.begin("retry", "a postponed purge is tried again whenever a follower's progress is reported")
    g = c.g("ReplicationHandler::update_progress", opaque=OPAQUE)
    c.floor(len(g.cons(CMD, "PurgeLog")), "purge commands after progress", 1)
    c.okpath(g, unpurged(g, [0]), "tried", "progress is reported but a postponed purge is not tried again")
    n = NTF(c)
    cs = [s for s in n.cons(CMD, "PurgeLog")]
    c.ok(any(n.guarded(s, ism("Notification", ("ReplicationProgress",))(n)) is None for s in cs), "arm", "reports of progress do not lead to purging")


@prop("P33")
def build_policy(c):
    """automatic builds"""
    never = ism("SnapshotPolicy", ("Never",))
    busy = valm(True, X(efield("IOState", "building_snapshot")))
    ext = ism("ExternalCommand", ("Snapshot",))
    unclear = about("threshold")
    k = m = 0
    for root in (API, NTF):
        g = root(c)
        bs = g.cons(SMC, "BuildSnapshot")
        c.begin("due", "a snapshot is built automatically only when enough entries were committed since the last one")
        for s in bs:
            k += 1
            c.guard(g, s, orm(ext, atmost(DUE), unclear), "due:%s" % s.key(), "a snapshot is built before the configured number of entries is committed since the last one")
        for b in g.reached_blocks:
            if g.ig.blocks[b].term[0] == "switch":
                for lab in [x[0] for x in g.ig.blocks[b].term[2]] + ["else"]:
                    for f in g.facts(b, lab):
                        for q in ineqs(g, f):
                            if "threshold" in q.d:
                                c.ok("wrap" not in q.flags, "wrap:%s" % g.ig.where(b).split(":")[0], "the test for a snapshot overflows for a large threshold")
        c.begin("built", "when enough entries are committed a snapshot is built")
        for s in g.writes("RaftState", "committed"):
            v = g.value(s, 10)
            if all(SNAP(a) for a in alts(v)):
                continue
            m += 1
            p = g.exit_from(succs(g, s), also=bs, match=orm(never, busy, atmost(EARLY), unclear)(g))
            c.okpath(g, p, "built:%s" % s.key(), "entries are committed but no snapshot is built though the policy asks for one")
    c.floor(k, "builds requested", 2)
    c.floor(m, "commits", 2)
    c.begin("asked", "a snapshot asked for is built, whatever the policy")
    g = API(c)
    st = g.edges(ext(g))
    c.ok(bool(st), "arm", "requests to build a snapshot are not handled")
    p = g.exit_from(st, also=g.cons(SMC, "BuildSnapshot"), match=busy(g))
    c.okpath(g, p, "asked", "a snapshot asked for is not built")


@prop("P33")
def configured(c):
    """the configured numbers are the ones used"""
    c.begin("config", "the policy, the number to keep and the batch size are the configured ones")
    g = c.g("EngineConfig::new")
    sites = g.cons("EngineConfig", None)
    c.floor(len(sites), "configurations", 1)
    for s in sites:
        for f in ("snapshot_policy", "max_in_snapshot_log_to_keep", "purge_batch_size"):
            e = g.expr(s.field(f), 10)
            c.ok(dsub(lambda q: q[0] == "field" and q[3] == f, e) and not any(q[0] == "bin" for q in walk(e)), "%s" % f, "%s is set to %s" % (f, fmt(e)[:120]))
