"""What a node publishes about itself, and waiting for it (P28)."""
from itertools import product
from common import *
from absint import Case, outcome
from r_life import XD, dsub
from r_order import closures, RELS, shown, want_of
from r_repl import succs
from r_snap import var_defs
from r_start import walk
from r_stop import writes_through

DS = lambda p: XD(lambda e: dsub(p, e))
STRUCTS = ("RaftMetrics", "RaftDataMetrics", "RaftServerMetrics")
# published field -> the part of the node's state it shows (names on the way from the node to the value)
SOURCE = {
    "id": (("id",),),
    "current_term": (("state", "vote"),),
    "vote": (("io_state", "io_progress", "flushed"),),
    "last_log_index": (("state", "log_ids"),),
    "last_log": (("state", "log_ids"),),
    "last_applied": (("io_state", "applied"),),
    "snapshot": (("io_state", "snapshot"),),
    "purged": (("io_state", "purged"),),
    "state": (("state", "server_state"),),
    "current_leader": (("state", "vote"),),
    "membership_config": (("membership_state", "effective"),),
    "millis_since_quorum_ack": (("engine", "leader"),),
    "last_quorum_acked": (("engine", "leader"),),
    "heartbeat": (("leader", "clock_progress"),),
    "replication": (("leader", "progress"),),
}


def chain(e):
    """The names on the way from the node to a field."""
    out = []
    while True:
        if e[0] == "field":
            out.append(e[3])
            e = e[1]
        elif e[0] in ("var", "idx"):
            e = e[1]
        else:
            break
    return tuple(reversed([x for x in out if not x.isdigit() and x != "^"])), e


def chains(e):
    """Maximal chains of fields in a value."""
    out = set()

    def go(e):
        if e[0] in ("field", "var", "idx"):
            ch, b = chain(e)
            if ch and b[0] in ("arg", "local"):
                out.add(ch)
                return
            go(e[1])
            return
        for q in e[1:]:
            if isinstance(q, tuple):
                if q and isinstance(q[0], str):
                    go(q)
                else:
                    for r in q:
                        if isinstance(r, tuple) and r and isinstance(r[0], str):
                            go(r)

    go(e)
    return out


def within(ch, want):
    w = list(want)
    for x in ch:
        if w and x == w[0]:
            w.pop(0)
    return not w


@prop("P28")
def published(c):
    """what the metrics show"""
    g = c.g("RaftCore::flush_metrics")
    c.begin("sources", "each published value is the part of the node's state it stands for")
    n = 0
    for t in STRUCTS:
        for s in g.cons(t):
            for f in s.data[1][3]:
                want = SOURCE.get(f)
                if want is None or s.field(f) is None:
                    continue
                e = g.expr(s.field(f), 14)
                got = chains(e)
                key = "%s.%s" % (t, f)
                if not got:
                    if all(a[0] == "k" or isagg(a, (), ("None",)) for a in alts(e)):
                        c.ok(False, key, "%s of %s is always %s" % (f, t, fmt(e)))
                    else:
                        c.notes.append("undecided %s: %s" % (key, fmt(e)[:120]))
                    continue
                n += 1
                bad = [x for x in got if not any(within(x, w) for w in want) and set(x) & {"state", "io_state", "engine", "leader", "id"}]
                c.ok(not bad, key, "%s of %s shows %s" % (f, t, ", ".join(".".join(x) for x in sorted(bad))))
    c.floor(n, "published values", 10)
    c.begin("leader", "the leader shown is the one of a granted vote, and a voter; it is shown whenever that holds")
    lead = lambda e: any(within(x, ("state", "vote")) for x in chains(e))
    comm = DS(lambda q: q[0] == "field" and q[3] == "committed" and lead(q))
    for t in STRUCTS:
        for s in g.cons(t):
            op = s.field("current_leader")
            if op is None:
                continue
            some, none = [], []
            for d in var_defs(g, op)[1]:
                v = g.value(d, 10)
                if v[0] == "agg" and isagg(v, (), ("None",)) or v[0] == "call" and nm(v[1], ("from_residual",)):
                    none.append(d)
                else:
                    some.append(d)
            isv = lambda truth: orm(bcallm(("BTreeSet::contains", "contains", "is_voter", "any"), truth), valm(truth, DS(lambda q: q[0] == "call" and nm(q[1], ("contains", "is_voter", "any")))))
            for d in some:
                c.guard(g, d, valm(True, comm), "granted:%s" % t, "a leader is shown although its vote is not granted")
                c.guard(g, d, isv(True), "voter:%s" % t, "a leader is shown although it is not a voter")
            for d in none:
                nomore = ism("Option", ("None",), DS(lambda q: q[0] == "call" and nm(q[1], ("next", "Iterator::next"))))
                vf = DS(lambda q: q[0] == "call" and nm(q[1], ("voted_for",)))
                nobody = orm(ism("Option", ("None",), vf), ism("ControlFlow", ("Break",), vf))
                c.guard(g, d, orm(valm(False, comm), isv(False), nomore, nobody), "shown:%s" % t, "a granted leader that is a voter is not shown")
    c.begin("sent", "the metrics are sent, the data and server metrics before them")
    where = lambda f: [s for s in g.calls("WatchSender::send", "WatchSender::send_if_modified", "send", "send_if_modified", "send_replace", "send_modify") if s.args() and dsub(lambda q: q[0] == "field" and q[3] == f, g.expr(s.args()[0], 8))]
    m, d, sv = where("tx_metrics"), where("tx_data_metrics"), where("tx_server_metrics")
    for nme, ss in (("metrics", m), ("data metrics", d), ("server metrics", sv)):
        c.floor(len(ss), "places sending %s" % nme, 1)
        c.okpath(g, g.exit_from([0], also=ss), "always:%s" % nme, "the %s are not sent" % nme)
    for s in m:
        c.precede(g, d, s, "data-first", "the metrics are sent before the data metrics")
        c.precede(g, sv, s, "server-first", "the metrics are sent before the server metrics")
        e = g.expr(s.args()[-1], 6)
        c.ok(dsub(lambda q: isagg(q, ("RaftMetrics",)), e), "whole", "what is sent is %s" % fmt(e)[:120])
    for nme, ss, t in (("data", d, "RaftDataMetrics"), ("server", sv, "RaftServerMetrics")):
        for s in ss:
            r = g.ig.resolve(s.args()[-1])
            if not r or r[0] == "fn" or r[0][0] != "agg" or r[0][1][0] != "closure":
                continue
            e = g.expr(s.args()[-1], 6)
            c.ok(dsub(lambda q: isagg(q, (t,)), e), "%s-whole" % nme, "what is sent as %s metrics is %s" % (nme, fmt(e)[:120]))
            k = c.g(c.P("core").by_uid[r[0][1][1]])
            ws = writes_through(k)
            fs = [f for f in s_fields(g, t) if f not in ("id",)]
            whole = XD(lambda e: not dsub(lambda q: q[0] == "field" and q[3] in fs and q[1] and not dsub(lambda r: r[0] == "agg", q[1]), e))
            both = lambda p: orm(cmpm("eq", p, p), bcallm(("PartialEq::ne", "ne"), False, p, p), bcallm(("PartialEq::eq", "eq"), True, p, p))
            for f in fs:
                one = XD(lambda e, f=f: dsub(lambda q: q[0] == "field" and q[3] == f, e))
                c.okpath(k, k.exit_from([0], also=ws, match=orm(both(whole), both(one))(k)), "%s-stored:%s" % (nme, f), "%s metrics with another %s are not stored" % (nme, f))


def s_fields(g, t):
    return g.cons(t)[0].data[1][3]


@prop("P28")
def before_waiting(c):
    """metrics are up to date while the node is idle"""
    g = LOOP(c)
    c.begin("idle", "before the node waits for more work it publishes its metrics")
    m = [s for s in g.calls("WatchSender::send", "send") if s.args() and dsub(lambda q: q[0] == "field" and q[3] == "tx_metrics", g.expr(s.args()[0], 8))]
    waits = [s for s in g.awaits("poll_fn", "recv", "MpscUnboundedReceiver::recv") if "runtime_loop" in s.fn.name]
    c.floor(len(m), "places publishing metrics", 1)
    c.floor(len(waits), "places waiting for work", 1)
    for w in waits:
        c.precede(g, m, w, "first:%s" % w.key(), "the node waits for its first event without publishing its metrics")
        stop = g._stopset(m)
        seen = g.x.reach(succs(g, w), stop=stop)
        bad = [n for n in g.nodes(w) if n in seen]
        c.okpath(g, g.x.path_to(bad[0]) if bad else None, "again:%s" % w.key(), "the node handles events and waits again without publishing its metrics")


MF = {"Term": ("current_term",), "Vote": ("vote",), "LastLogIndex": ("last_log_index",), "Applied": ("last_applied",), "AppliedIndex": ("#applied_index",), "Snapshot": ("snapshot",), "Purged": ("purged",)}


@prop("P28")
def conditions(c):
    """comparing metrics with a condition"""
    c.begin("compare", "a condition on a metric compares that metric with the wanted value")

    def canon(v):
        def f(side, p):
            if side == "other" and p[:2] == (v, "0"):
                return MF[v] + p[2:]
            if side == "self" and p[:3] == ("last_applied", "?", "index") and v == "AppliedIndex":
                return ("#applied_index", "?") + p[3:]
            return p

        return f

    n = 0
    for f in c.P("core").fns():
        if not (f.name.startswith("<openraft::metrics::raft_metrics::RaftMetrics as core::cmp::Partial") and f.argc == 2 and "Metric<" in str(f.locals[2][0]) and "RaftMetrics" not in str(f.locals[2][0])):
            continue
        m = f.name.split("::")[-1]
        g = c.g(f, maybe=False)
        n += 1
        for v in MF:
            opt = MF[v] + ("?",)
            cases = []
            if v in ("Term", "Vote"):
                cases = [(r, Case(rel={MF[v]: r}, variants={("other", ()): v}, canon=canon(v)), r) for r in RELS]
            else:
                for a, b in product((False, True), repeat=2):
                    for r in RELS if a and b else ("eq",):
                        w = r if a and b else "gt" if a else "lt" if b else "eq"
                        sk = ("last_applied",) if v == "AppliedIndex" else MF[v]
                        cases.append(("%s/%s %s" % (a, b, r), Case(rel={opt: r, opt + ("index",): r}, opts={("self", sk): a, ("other", MF[v]): b}, variants={("other", ()): v}, canon=canon(v)), w))
            for lb, case, w in cases:
                case.default = "gt" if w != "gt" else "lt"
                case.order.setdefault((), w)
                o = outcome(g, case, {1: ("o", "self", ()), 2: ("o", "other", ())}, closures(c, "core"))
                got = shown(o[1]) if o[0] == "value" else "a panic" if o[0] == "panic" else None
                if got is None:
                    c.notes.append("undecided %s %s %s: %s" % (m, v, lb, o[1]))
                    continue
                c.ok(got == want_of(m, w), "%s:%s:%s" % (m, v, lb), "%s of the metrics and a wanted %s (%s) gives %s" % (m, v, lb, got))
    c.floor(n, "comparisons with a condition", 2)


HELPERS = {
    "vote": [("EQ", "Vote", "want")],
    "log_index": [("EQ", "LastLogIndex", "index")],
    "log_index_at_least": [("GE", "LastLogIndex", "index")],
    "applied_index": [("EQ", "AppliedIndex", "index")],
    "applied_index_at_least": [("GE", "AppliedIndex", "index")],
    "snapshot": [("EQ", "Snapshot", "snapshot_last_log_id")],
    "purged": [("EQ", "Purged", "want")],
    "log": [("EQ", "LastLogIndex", "want_log_index"), ("EQ", "AppliedIndex", "want_log_index")],
    "log_at_least": [("GE", "LastLogIndex", "want_log"), ("GE", "AppliedIndex", "want_log")],
}
BW = ("borrow_watched", "WatchReceiver::borrow_watched")


@prop("P28")
def waiting(c):
    """waiting for a condition"""
    g = c.g("Wait::metrics")
    c.begin("wait", "a wait succeeds only with published metrics that satisfy the condition, and fails only if the time is over or the node stopped")
    fn = lambda e: e[0] == "call" and nm(e[1], ("Fn::call", "FnMut::call_mut", "call")) and dsub(lambda q: q[0] == "field" and q[3] == "func", e)
    oks = [s for s in g.cons("Result", "Ok") if dsub(lambda q: q[0] == "call" and nm(q[1], BW), g.expr(s.ops()[0], 8))]
    c.floor(len(oks), "successes", 1)
    for s in oks:
        c.guard(g, s, orm(valm(True, DS(fn)), bcallm(("Fn::call", "FnMut::call_mut"), True)), "holds:%s" % s.key(), "a wait succeeds although the condition does not hold")
    conds = [s for s in g.calls("Fn::call", "FnMut::call_mut")]
    c.floor(len(conds), "evaluations of the condition", 1)
    reads = g.calls(*BW)
    waits = g.awaits("poll_fn", "changed", "WatchReceiver::changed")
    c.floor(len(waits), "places waiting for a change", 1)
    for s in conds:
        c.precede(g, reads, s, "read", "the condition is checked on metrics that were not read")
        for w in waits:
            p = between(g, succs(g, w), reads, s)
            c.okpath(g, p, "reread", "after a change the condition is checked on old metrics")
    ready = lambda vs: XD(lambda e: any(q[0] == "await" for q in walk(e)))
    for s in g.cons("WaitError"):
        v = s.data[1][2]
        late = orm(cmpm("ge", DS(lambda q: q[0] == "call" and nm(q[1], ("now", "TypeConfigExt::now"))), ANY), cmpm("gt", DS(lambda q: q[0] == "call" and nm(q[1], ("now", "TypeConfigExt::now"))), ANY), branch_of("_0"))
        if v == "Timeout":
            c.guard(g, s, late, "timeout:%s" % s.i, "a wait times out although neither its deadline passed nor its timer fired")
        elif v == "ShuttingDown":
            c.guard(g, s, ism("Result", ("Err",), ready(())), "stopped", "a wait reports that the node stops although the metrics did not end")
    g = c.g("Wait::until")
    c.begin("until", "waiting for at least a value compares with >=, waiting for a value with ==")
    n = 0
    for s in g.calls("PartialOrd::ge", "PartialEq::eq", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::lt", "PartialEq::ne"):
        es = [g.expr(a, 8) for a in s.args()]
        if not (dsub(lambda q: q[0] == "call" and nm(q[1], BW), es[0]) and dsub(lambda q: q[0] == "var" and q[2] in ("GE", "EQ"), es[1])):
            continue
        n += 1
        v = [q[2] for q in walk(es[1]) if q[0] == "var" and q[2] in ("GE", "EQ")][0]
        op = s.data.n.split("::")[-1]
        c.ok((v, op) in (("GE", "ge"), ("EQ", "eq")), "op:%s" % v, "waiting for %s compares with %s" % (v, op))
    c.floor(n, "comparisons", 2)
    c.begin("helpers", "each way to wait waits for what its name says")
    n = 0
    for name, want in HELPERS.items():
        fs = [f for f in c.P("core").find("metrics::wait::Wait::%s" % name)]
        if not fs:
            c.notes.append("no Wait::%s" % name)
            continue
        g = c.g("metrics::wait::Wait::%s" % name)
        got = []
        for s in g.cons("Condition"):
            for a in alts(g.expr(s.ops()[0], 8)):
                if isagg(a, ("Metric",)):
                    got.append((s.data[1][2], a[1][2], sorted({str(q[2]) for q in walk(a) if q[0] == "arg"} | {q[3] for q in walk(a) if q[0] == "field"})))
        if not got:
            c.notes.append("undecided Wait::%s" % name)
            continue
        n += 1
        c.ok(sorted({x[:2] for x in got}) == sorted({x[:2] for x in want}), name, "%s waits for %s" % (name, ", ".join("%s %s" % x[:2] for x in got)))
        for x in got:
            c.ok(any(w[2] in x[2] for w in want), "%s-arg" % name, "%s does not wait for its argument but %s" % (name, x[2]))
    for name, f, p in (("state", "state", "want_state"), ("current_leader", "current_leader", "leader_id"), ("voter_ids", None, "voter_ids"), ("members", None, "want_members")):
        if not c.P("core").find("metrics::wait::Wait::%s" % name):
            continue
        g = c.g("metrics::wait::Wait::%s" % name)
        oks = [s for s in g.cons("Result", "Ok") if dsub(lambda q: q[0] == "call" and nm(q[1], BW), g.expr(s.ops()[0], 8))]
        arg = DS(lambda q: q[0] == "field" and q[3] == p or q[0] == "arg" and q[2] == p)
        if f:
            src = DS(lambda q: q[0] == "field" and q[3] == f and dsub(lambda r: r[0] == "call" and nm(r[1], BW), q))
        else:
            src = ANY
        for s in oks:
            n += 1
            c.guard(g, s, orm(cmpm("eq", src, arg), cmpm("eq", arg, src)), name, "%s succeeds although what is published differs from what is wanted" % name)
            if not f:
                vs = g.calls("voter_ids", "Membership::voter_ids") + [x for x in g.cons("Option") if False]
                mc = any(dsub(lambda q: q[0] == "field" and q[3] == "membership_config", g.expr(a, 10)) for x in g.calls("next", "iter", "into_iter", "voter_ids") for a in x.args()[:1])
                c.ok(mc, "%s-source" % name, "%s does not look at the published membership" % name)
    c.floor(n, "ways to wait", 10)


def between(g, starts, stops, site):
    """A path from starts to the site that avoids the stops."""
    seen = g.x.reach(starts, stop=g._stopset(stops))
    bad = [n for n in g.nodes(site) if n in seen]
    return g.x.path_to(bad[0]) if bad else None


def branch_of(v):
    """The branch of a select taken for one of its futures."""

    def mk(g):
        def f(fact):
            return fact[0] == "is" and v in fact[3] and any(q[0] == "await" for q in walk(g.expr(fact[1], 8)))

        return f

    return mk
