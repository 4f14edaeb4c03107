"""Start-up: what a node recovers from its stores (P23, P26)."""
from common import *
from r_vote import find_call
from r_commit import parts, find_agg, plus_one
from r_repl import succs
from r_snap import var_defs
from r_life import XD, dsub


def aw(*names):
    return lambda q: q[0] == "await" and nm(q[1], names)


VOTE0 = aw("read_vote", "RaftLogReader::read_vote")
COMM0 = aw("read_committed", "RaftLogStorage::read_committed")
LOGST = aw("get_log_state", "RaftLogStorage::get_log_state")
SMST = aw("applied_state", "RaftStateMachine::applied_state")
READ = ("try_get_log_entries", "RaftLogReader::try_get_log_entries")
SNAP0 = aw("get_current_snapshot", "RaftStateMachine::get_current_snapshot")
BUILD0 = aw("build_snapshot", "RaftSnapshotBuilder::build_snapshot")


def root(c):
    return c.g("StorageHelper::get_initial_state")


def has(p, e):
    return dsub(p, e)


def lst(which):
    """A log id reported by the log store."""
    return lambda e: dsub(lambda q: q[0] == "field" and q[3] == which and dsub(LOGST, q[1]), e)


def resolve(g, op, d=0):
    """Definition sites of the variable behind an operand, looking through the parts of a fresh struct."""
    l, ds = var_defs(g, op)
    return ds


def vals(g, s):
    return g.value(s, 18)


def ok_of(g, site):
    """Nodes where an awaited call is known to have succeeded: the value of its result is used as Ok."""
    return succs(g, site)


def src(e, *ps):
    """Every alternative of e comes from one of the sources."""
    return all(a[0] == "rec" or any(dsub(p, a) for p in ps) for a in alts(e))


def apply_loop(c, g):
    return g.calls("RaftStateMachine::apply", "apply")


def range_of(g, s):
    """The range a read call is given: (site, low, high)."""
    ctx = g.ig.blocks[s.b].ctx
    cand = [x for x in g.cons("Range") if g.ig.blocks[x.b].ctx is ctx] or [x for x in g.cons("Range") if g.can_reach(x, [s])]
    near = [x for x in cand if g.guarded_from([y for n in g.nodes(x) for y, _ in g.x.succ[n]], s, None, also=[z for z in cand if z.b != x.b] + g.calls(*READ)) is not None or x.b == s.b] or cand
    if len(near) == 1:
        lo, hi = near[0].ops()[:2]
        return near[0], lo, hi
    return None, None, None


@prop("P23")
def values(c):
    """where the recovered values come from"""
    g = root(c)
    c.begin("sources", "a node starts with the vote, the logs, the applied position and the snapshot its stores hold")
    sts = g.cons(ST)
    c.floor(len(sts), "recovered states", 1)
    for s in sts:
        v = g.expr(s.field("vote"), 18)
        c.ok(has(VOTE0, v), "vote:%s" % s.key(), "the recovered vote is %s" % fmt(v))
        c.ok(not callee(v, ("filter", "Option::filter", "and_then", "Option::and_then", "and", "Option::and", "xor", "Option::xor", "take_if", "Option::take_if")), "vote-kept:%s" % s.key(), "the recovered vote can be dropped: %s" % fmt(v))
        d = find_call(v, ("unwrap_or_default", "Option::unwrap_or_default"))
        if d is None:
            for a in alts(v):
                c.ok(has(VOTE0, a) or esub(ecall("default"), a), "votes:%s" % s.key(), "the recovered vote can be %s" % fmt(a))
        v = g.expr(s.field("committed"), 18)
        c.ok(src(v, SMST, COMM0), "committed:%s" % s.key(), "the recovered committed position is %s" % fmt(v))
        for f in ("purged_next", "purge_upto"):
            v = g.expr(s.field(f), 18)
            c.ok(has(lst("last_purged_log_id"), v), "%s:%s" % (f, s.key()), "the recovered purged position is %s" % fmt(v))
            c.ok(not has(lst("last_log_id"), v), "%s:last:%s" % (f, s.key()), "the recovered purged position is %s" % fmt(v))
            if f == "purged_next":
                c.ok(plus_one(v), "next:%s" % s.key(), "the first log index is %s" % fmt(v))
        v = g.expr(s.field("snapshot_meta"), 18)
        c.ok(has(SNAP0, v), "snapshot:%s" % s.key(), "the recovered snapshot is %s" % fmt(v))
    for s in g.cons("IOState"):
        v = g.expr(s.field("applied"), 18)
        c.ok(src(v, SMST, COMM0), "io-applied:%s" % s.key(), "the recovered applied position is %s" % fmt(v))
        v = g.expr(s.field("snapshot"), 18)
        c.ok(has(SNAP0, v), "io-snapshot:%s" % s.key(), "the recovered snapshot position is %s" % fmt(v))
        v = g.expr(s.field("purged"), 18)
        c.ok(has(lst("last_purged_log_id"), v), "io-purged:%s" % s.key(), "the recovered purged position is %s" % fmt(v))
    n = 0
    for s in g.cons("IOId"):
        n += 1
        for o in s.ops():
            v = g.expr(o, 14)
            c.ok(has(VOTE0, v), "io:%s" % s.key(), "the io known to be flushed at start-up is %s" % fmt(v))
    c.begin("snapshot", "a missing snapshot is rebuilt if logs have been purged")
    bs = g.awaits("build_snapshot", "RaftSnapshotBuilder::build_snapshot")
    c.floor(len(bs), "snapshot rebuilds", 1)
    for s in sts:
        nolog = orm(
            ism("Option", ("None",), XD(lst("last_purged_log_id"))),
            valm(False, XD(lambda e: e[0] == "call" and nm(e[1], ("is_some", "Option::is_some")) and lst("last_purged_log_id")(e))),
            valm(True, XD(lambda e: e[0] == "call" and nm(e[1], ("is_none", "Option::is_none")) and lst("last_purged_log_id")(e))),
            ism("Option", ("Some",), XD(lambda e: has(SNAP0, e) and not has(LOGST, e) and "as Some" not in fmt(e)[-12:])),
        )
        c.guard(g, s, nolog, "rebuilt:%s" % s.key(), "a node that has purged logs starts without a snapshot", also=bs)
        nolog2 = orm(
            ism("Option", ("None",), XD(lambda e: lst("last_purged_log_id")(e) and has(SMST, e))),
            valm(False, XD(lambda e: e[0] == "call" and nm(e[1], ("is_some", "Option::is_some")) and has(SMST, e) and not has(SNAP0, e))),
            valm(True, XD(lambda e: e[0] == "call" and nm(e[1], ("is_none", "Option::is_none")) and has(SMST, e) and not has(SNAP0, e))),
            ism("Option", ("Some",), XD(lambda e: has(SNAP0, e) and not has(LOGST, e) and "as Some" not in fmt(e)[-12:])),
        )
        for p in g.calls("RaftLogStorage::purge", "purge"):
            c.okpath(g, g.guarded_from(succs(g, p), s, nolog2(g), also=bs), "rebuilt-purge:%s" % s.key(), "a node that purges logs when it starts has no snapshot")


@prop("P23")
def reapply(c):
    """applying the committed entries again"""
    g = root(c)
    c.begin("reapply", "the node counts entries as applied only if the state machine says so or they have been applied again, all of them in order")
    ap = apply_loop(c, g)
    c.floor(len(ap), "apply calls", 1)
    comm_next = lambda e: has(COMM0, e) and plus_one(e) and not has(LOGST, e)
    sts = g.cons(ST)
    starts = []
    for s in ap:
        e = g.expr(s.args()[1], 18)
        rd = find_call(e, READ)
        ok = any(q[0] == "await" and nm(q[1], READ) for a in alts(e) for q in walk(a))
        c.ok(ok, "entries:%s" % s.key(), "the entries applied again are %s" % fmt(e)[:200])
    for s in g.calls(*READ):
        if not any(same_task(s, a) for a in ap):
            continue
        x, lo, hi = range_of(g, s)
        if lo is None:
            c.notes.append("range of %s not recognised" % s.desc())
            continue
        l, ds = var_defs(g, lo)
        c.ok(len(ds) >= 1, "start:%s" % s.key(), "no start of the range")
        hiv = g.expr(hi, 16)
        # the upper end never exceeds the committed position
        hds = var_defs(g, hi)[1]
        if len(hds) > 1:
            for d in hds:
                v = vals(g, d)
                if not (comm_next(v) and not more_than_next(v)) and not (has_min(v) and has(COMM0, v)):
                    c.guard(g, d, cmpm("le", XD(lambda e: more_than_next(e) or plus_one(e)), XD(lambda e: comm_next(e))), "end:%s" % d.key(), "the entries applied again end at %s" % fmt(v)[:200])
        else:
            bounded = all(find_call(a, ("min", "cmp::min", "Ord::min")) is not None and has(COMM0, a) or comm_next(a) and not more_than_next(a) for a in alts(hiv))
            c.ok(bounded, "end:%s" % s.key(), "the entries applied again end at %s" % fmt(hiv)[:200])
        mn = find_call(hiv, ("min", "cmp::min", "Ord::min"))
        if mn is not None:
            c.ok(any(comm_next(a) and not has_min(a) and not sub_one(a) for a in mn[2]), "end-committed:%s" % s.key(), "the entries applied again end at %s" % fmt(hiv)[:200])
        first = [d for d in ds if not loops(g, d)]
        nexts = [d for d in ds if loops(g, d)]
        starts += [(l, d) for d in ds]
        for d in first:
            v = vals(g, d)
            c.ok(has(SMST, v) and plus_one(v) and not has(LOGST, v), "from:%s" % d.key(), "applying again starts at %s" % fmt(v)[:200])
            dflt = [q for q in walk(v) if q[0] == "bin" and q[1].startswith("Add") and callee(q[2], ("unwrap_or_default", "Option::unwrap_or_default", "unwrap_or", "Option::unwrap_or"))]
            c.ok(not dflt, "from0:%s" % d.key(), "without applied entries, applying again starts at %s" % fmt(v)[:200])
            for a in alts(v):
                ad = [q for q in walk(a) if q[0] == "bin"]
                c.ok(all(q[1].startswith("Add") and q[3][1].startswith("1") for q in ad if q[3][0] == "k"), "from1:%s" % d.key(), "applying again starts at %s" % fmt(a)[:200])
        for d in nexts:
            v = vals(g, d)
            c.ok(fmt(v)[:400] == fmt(g.expr(hi, 18))[:400] or fmt(g.value(d, 10)) == fmt(g.expr(hi, 10)), "advance:%s" % d.key(), "the next part to apply again starts at %s, this one ends at %s" % (fmt(v)[:120], fmt(hiv)[:120]))
            c.precede(g, ap, d, "advance-applied:%s" % d.key(), "the position advances without applying the entries")
        # whatever is applied is the whole range
        read = lambda e: any(q[0] == "await" and nm(q[1], READ) for q in walk(e))
        first_is = cmpm("eq", XD(lambda e: read(e) and callee(e, ("first", "slice::first"))), XD(lambda e: has(SMST, e) and not callee(e, ("first", "last", "slice::first", "slice::last"))))
        last_is = cmpm("eq", XD(lambda e: read(e) and callee(e, ("last", "slice::last"))), XD(lambda e: has(COMM0, e) and sub_one(e) and (has_min(e) or either(e))))
        length = cmpm("eq", XD(lambda e: read(e) and callee(e, ("len", "Vec::len"))), XD(lambda e: has(COMM0, e) and (has_min(e) or either(e))))
        for a in ap:
            c.guard(g, a, orm(first_is, length), "first:%s" % a.key(), "entries are applied again without checking that they start where they should")
            c.guard(g, a, orm(last_is, length), "last:%s" % a.key(), "entries are applied again without checking that they reach as far as they should")
    # the applied position is raised to the committed one only after everything was applied
    done = cmpm("ge", XD(lambda e: has(SMST, e) and plus_one(e)), XD(lambda e: comm_next(e)))
    le = cmpm("ge", XD(lambda e: src(e, SMST, COMM0) and has(SMST, e) and not plus_one(e)), XD(lambda e: has(COMM0, e) and not plus_one(e)))
    n = 0
    for s in sts:
        ds = resolve(g, s.field("committed"))
        if len(ds) < 2:
            c.notes.append("committed position of %s not recognised" % s.desc())
            continue
        for d in ds:
            v = vals(g, d)
            if has(COMM0, v):
                n += 1
                c.guard(g, d, done, "raised:%s" % d.key(), "entries count as applied before they were applied again")
        raised = [d for d in ds if has(COMM0, vals(g, d))]
        c.guard(g, s, le, "needed:%s" % s.key(), "committed entries are not applied again", also=raised)
    c.floor(n, "raised applied positions", 1)
    # IOState agrees with the committed position
    for s in sts:
        for i in g.cons("IOState"):
            a, b = fmt(g.expr(s.field("committed"), 12)), fmt(g.expr(i.field("applied"), 12))
            c.ok(a == b, "agree:%s" % s.key(), "the applied position is %s, the committed one %s" % (b[:150], a[:150]))


@prop("P23")
def hole(c):
    """a hole between the logs and the state machine"""
    g = root(c)
    c.begin("hole", "logs that end before the applied position are purged up to it, and the node then starts from there")
    pu = g.calls("RaftLogStorage::purge", "purge")
    c.floor(len(pu), "purges", 1)
    sts = g.cons(ST)
    lastl = lambda e: lst("last_log_id")(e) and not plus_one(e)
    appl = lambda e: has(SMST, e) and not lst("last_log_id")(e) and not lst("last_purged_log_id")(e)
    for s in pu:
        v = g.expr(s.args()[1], 18)
        c.ok(src(v, SMST, COMM0) and not has(LOGST, v), "upto:%s" % s.key(), "logs are purged up to %s" % fmt(v)[:200])
        c.guard(g, s, cmpm("lt", XD(lastl), XD(appl)), "when:%s" % s.key(), "logs reaching beyond the applied position are purged")
    nohole = cmpm("ge", XD(lastl), XD(appl))
    for s in sts:
        c.guard(g, s, nohole, "purged:%s" % s.key(), "a node starts with logs that end before its applied position", also=pu)
        for f in ("purge_upto",):
            ds = resolve(g, s.field(f))
            if len(ds) < 2:
                c.notes.append("purged position of %s not recognised" % s.desc())
                continue
            aft = [d for d in ds if not has(LOGST, vals(g, d))]
            c.ok(bool(aft), "aft:%s" % s.key(), "the purged position does not follow the purge")
            for p in pu:
                path = g.guarded_from(succs(g, p), s, None, also=aft)
                c.okpath(g, path, "moved:%s" % s.key(), "logs are purged but the purged position stays")
            for d in aft:
                v = vals(g, d)
                c.ok(src(v, SMST, COMM0), "to:%s" % d.key(), "after purging, the purged position is %s" % fmt(v)[:200])
    c.begin("log-ids", "the ids of the logs are loaded from the purged position to the last one")
    ld = stack0(g)
    c.floor(len(ld), "loads", 1)
    for s, a, b in ld:
        c.ok(lst("last_log_id")(b) and not lst("last_purged_log_id")(b), "last:%s" % s.key(), "the last log id loaded is %s" % fmt(b)[:200])
        c.ok(lst("last_purged_log_id")(a) and has(SMST, a), "first:%s" % s.key(), "the first log id loaded is %s" % fmt(a)[:200])
        c.ok(has(SMST, b), "last-hole:%s" % s.key(), "the last log id loaded does not follow a purge: %s" % fmt(b)[:200])
        for q in walk(a):
            if q[0] == "await" and nm(q[1], ("get_log_id", "RaftLogReaderExt::get_log_id")):
                c.ok(q[2][1][0] == "k" and q[2][1][1].startswith("0"), "zero:%s" % s.key(), "without purged logs, the first log id is the one at %s" % fmt(q[2][1]))


def walk(e):
    seen, work = set(), [e]
    while work:
        q = work.pop()
        if not isinstance(q, tuple) or id(q) in seen:
            continue
        seen.add(id(q))
        if q and isinstance(q[0], str):
            yield q
        work.extend(x for x in q if isinstance(x, tuple))


def callee(e, names):
    return any(q[0] == "call" and nm(q[1], names) for q in walk(e))


def has_min(e):
    return callee(e, ("min", "cmp::min", "Ord::min"))


def sub_one(e):
    return any(q[0] == "bin" and q[1].startswith("Sub") and q[3][0] == "k" and q[3][1].startswith("1") for q in walk(e))


def more_than_next(e):
    n = sum(1 for q in walk(e) if q[0] == "bin" and q[1].startswith("Add") and not (q[3][0] == "k" and q[3][1].startswith("1")))
    return n > 0


def either(e):
    """A position chosen between several."""
    return any(q[0] == "phi" and len(q[1]) > 1 and any(has(COMM0, a) and plus_one(a) and not more_than_next(a) for a in q[1]) for q in walk(e))


def loops(g, d):
    """The site can be reached again from itself."""
    return g.can_reach(d, [d]) is not None


def same_task(a, b):
    return a.fn is b.fn


def stack0(g):
    """[(site, first, last)]: the initial range of the log id search."""
    out = []
    for b in g._live():
        for i, (pl, rv, sp) in enumerate(g.ig.blocks[b].stmts):
            if rv[0] == "agg" and rv[1][0] == "tuple" and len(rv[2]) == 2 and "load_log_ids" in g.ig.blocks[b].fn.name:
                s = Site(g.x, b, i, rv)
                e0, e1 = (g.expr(o, 18) for o in rv[2])
                if lst("last_log_id")(e1) and not any(q[0] == "call" and nm(q[1], ("pop", "Vec::pop")) for q in walk(e0)) and not any(q[0] == "call" and nm(q[1], ("pop", "Vec::pop")) for q in walk(e1)):
                    out.append((s, e0, e1))
    return out


# ---- the ids of the logs --------------------------------------------------------------


def popped(e):
    """'first' / 'last' of the range taken from the stack, 'mid' for an id read from the store."""
    e = peel(e)
    if e[0] == "field" and e[3] in ("0", "1"):
        q = peel(e[1])
        if q[0] == "call" and nm(q[1], ("pop", "Vec::pop")):
            return "first" if e[3] == "0" else "last"
    if e[0] == "await" and nm(e[1], GETID) and e[2][1][0] != "k":
        return "mid"
    return None


GETID = ("get_log_id", "RaftLogReaderExt::get_log_id")


def leader(e):
    e = peel(e)
    return e[0] == "field" and e[3] == "leader_id"


def part_of(what, f):
    def p(e):
        e = peel(e)
        return e[0] == "field" and e[3] == f and popped(e[1]) == what

    return p


@prop("P23")
def log_ids(c):
    """searching the stored logs for the first id of every leader"""
    g = c.g("LogIdList::load_log_ids")
    c.begin("key-ids", "the id of the first log of every leader, and of the last log, is found")
    pops = g.calls("pop", "Vec::pop")
    mids = []
    for s in g.calls(*GETID):
        e = g.expr(s.args()[1], 8)
        if e[0] != "k":
            mids.append(s)
            ok = any(q[0] == "bin" and q[1].startswith(("Div", "Shr")) for q in walk(e)) or callee(e, ("midpoint",))
            c.ok(ok and {popped(q[1]) for q in walk(e) if q[0] == "field" and q[3] == "index"} == {"first", "last"}, "middle:%s" % s.key(), "the log id looked up next is at %s" % fmt(e)[:200])
    if not pops or not mids:
        c.notes.append("search not recognised")
        return
    ranges, ids = {}, {}
    for s in g.calls("push", "Vec::push"):
        e = peel(g.expr(s.args()[1], 10))
        if e[0] == "agg" and e[1][0] == "tuple":
            ranges.setdefault(tuple(popped(x) for x in e[2]), []).append(s)
        else:
            ids.setdefault(popped(e), []).append(s)
    for k, ss in ranges.items():
        for s in ss:
            c.ok(k in (("first", "mid"), ("mid", "last")), "range:%s" % s.key(), "the search goes on in the range %s to %s" % k)
    # ids offered as the outcome: other than these only the last log
    lead = lambda a, b: cmpm("eq", X(part_of(a, "leader_id")), X(part_of(b, "leader_id")))
    seen_first = cmpm("ge", X(lambda e: not part_of("first", "leader_id")(strip_opt(e)) and dsub(leader_call, e)), X(lambda e: part_of("first", "leader_id")(strip_opt(e))))
    start = [n for s in mids for n in after_ok(g, s)]
    stop_pops = pops
    for p in pops:
        c.okpath(g, g.guarded_from(start, p, lead("mid", "last")(g), also=ranges.get(("mid", "last"), [])), "right:%s" % p.key(), "the logs after the middle are not searched")
        c.okpath(g, g.guarded_from(start, p, lead("first", "mid")(g), also=ranges.get(("first", "mid"), [])), "left:%s" % p.key(), "the logs before the middle are not searched")
        adj = cmpm("eq", X(lambda e: plus_one(e) and has_part(e, "first")), X(part_of("last", "index")))
        adj2 = cmpm("eq", X(part_of("first", "index")), X(lambda e: sub_one(e) and has_part(e, "last")))
        adj3 = cmpm("ge", X(lambda e: plus_one(e) and has_part(e, "first")), X(part_of("last", "index")))
        popsome = [y for y in g.edges(ism("Option", ("Some",), X(lambda e: e[0] == "call" and nm(e[1], ("pop", "Vec::pop"))))(g))]
        both = orm(lead("first", "last"), adj, adj2, adj3)
        c.okpath(g, g.guarded_from(popsome, p, both(g), also=mids), "search:%s" % p.key(), "a range with different leaders at its ends is not searched")
        for key, m in (("same", lead("first", "last")), ("aac", lead("first", "mid"))):
            es = g.edges(m(g))
            if es:
                c.okpath(g, g.guarded_from(es, p, seen_first(g), also=ids.get("first", [])), "%s:%s" % (key, p.key()), "the first log of a leader is not recorded")
        es = g.edges(orm(adj, adj2, adj3)(g))
        if es:
            c.okpath(g, g.guarded_from(es, p, seen_first(g), also=ids.get("first", [])), "adj-first:%s" % p.key(), "the first log of a leader is not recorded")
            c.okpath(g, g.guarded_from(es, p, None, also=ids.get("last", [])), "adj-last:%s" % p.key(), "the first log of a leader is not recorded")
    for a in ranges.get(("first", "mid"), []):
        for b in ranges.get(("mid", "last"), []):
            path = g.guarded_from([y for n in g.nodes(a) for y, _ in g.x.succ[n]], b, None, also=pops)
            c.okpath(g, path, "order:%s" % a.key(), "the later logs are searched before the earlier ones")
    for s in ids.get("first", []):
        # the same id is not recorded twice: either it is known to be new, or it is the first of all
        c.guard(g, s, cmpm("lt", X(lambda e: dsub(leader_call, e)), X(lambda e: part_of("first", "leader_id")(strip_opt(e)))), "new:%s" % s.key(), "a leader is recorded twice")
    # the last log is always there at the end
    none = g.edges(ism("Option", ("None",), X(lambda e: e[0] == "call" and nm(e[1], ("pop", "Vec::pop"))))(g))
    lastid = lambda e: (e[0] == "call" and nm(e[1], ("last", "slice::last")))
    isl = cmpm("eq", X(lambda e: lastid(peel(e))), X(lambda e: not callee(e, ("last", "slice::last")) and not any(q[0] == "field" and q[3] == "leader_id" for q in [strip_opt(e)])))
    if none:
        fin = [s for k in ids for s in ids[k] if k is None]
        c.okpath(g, g.exit_from(none, also=fin, match=isl(g)), "end", "the id of the last log is missing")
    empty = ism("Option", ("None",), X(lambda e: e[0] == "arg" and e[2] == "last_log_id" or e[0] == "field" and e[3] == "last_log_id"))
    path = g.exit_from([0], also=pops, match=empty(g), exits=ret_ok(g))
    c.okpath(g, path, "nonempty", "stored logs are ignored")


def leader_call(q):
    return q[0] == "call" and nm(q[1], ("last", "slice::last"))


def strip_opt(e):
    e = peel(e)
    if e[0] == "agg" and e[1][0] == "adt" and e[1][2] == "Some":
        return peel(e[2][0])
    return e


def has_part(e, what):
    return any(q[0] == "field" and q[3] == "index" and popped(q[1]) == what for q in walk(e))


def after_ok(g, s):
    return [y for n in g.nodes(s) for y, _ in g.x.succ[n]]


@prop("P23")
def role(c):
    """the role a node starts with"""
    g = c.g("Engine::startup")
    c.begin("role", "a node resumes as leader exactly if its stored vote is its own and committed, otherwise as follower or learner")
    me = X(lambda e: efield("EngineConfig", "id")(strip_opt(e)))
    notmine = orm(
        cmpm("ne", X(lambda e: has_vote(e)), me),
        valm(False, X(lambda e: has_vote(e) and e[0] == "field" and e[3] == "committed")),
        bcallm(("contains_key", "BTreeMap::contains_key", "contains", "BTreeSet::contains"), False, ANY, me),
    )
    lead = g.cons("proposer::leader::Leader")
    kept = g.writes("proposer::leader::Leader", "committed_vote")
    c.floor(len(lead), "leaders resumed", 1)
    path = g.exit_from([0], also=lead + kept, match=notmine(g))
    c.okpath(g, path, "resumes", "a node whose own committed vote is stored does not resume as leader")
    mine = [
        ("own", cmpm("eq", X(lambda e: has_vote(e)), me), "a node resumes as leader under the vote of another node"),
        ("committed", valm(True, X(lambda e: has_vote(e) and e[0] == "field" and e[3] == "committed")), "a node resumes as leader with a vote not granted by a quorum"),
    ]
    # in each case, the branches of the other cases are impossible
    isc = lambda truth: valm(truth, X(lambda e: has_vote(e) and e[0] == "field" and e[3] == "committed"))
    own = lambda op: cmpm(op, X(lambda e: has_vote(e)), me)
    member = lambda truth: bcallm(("contains_key", "BTreeMap::contains_key", "contains", "BTreeSet::contains"), truth, ANY, me)
    for a, ac in (("granted", False), ("not granted", True)):
        for b, op in (("own", "ne"), ("other", "eq")):
            for d, bc in (("member", False), ("outsider", True)):
                path = g.exit_from([0], also=lead + kept + g.writes("RaftState", "server_state"), match=orm(isc(ac), own(op), member(bc))(g))
                c.okpath(g, path, "set:%s:%s:%s" % (a, b, d), "the node starts without a role")
    for s in lead:
        for k, m, msg in mine:
            c.guard(g, s, m, "%s:%s" % (k, s.key()), msg)
    voter = bcallm(("contains", "BTreeSet::contains", "is_voter", "any", "Iterator::any"), True, ANY)
    for s in g.writes("RaftState", "server_state"):
        for d in var_defs(g, rhs(g, s))[1] or [s]:
            v = vals(g, d)
            for a in alts(v):
                if a[0] != "agg":
                    continue
                k = a[1][2]
                if k in ("Leader", "Candidate"):
                    c.guard(g, d, valm(True, X(lambda e: has_vote(e) and e[0] == "field" and e[3] == "committed")) if k == "Leader" else cmpm("eq", X(lambda e: has_vote(e)), me), "%s:%s" % (k, d.key()), "the node starts as %s" % k)
    s0 = START(c)
    c.begin("first", "the recovered state is in place before the node handles any event")
    st_ = s0.calls("Engine::startup") or g0(s0)
    lp = s0.calls("RaftCore::runtime_loop", "runtime_loop")
    c.floor(len(lp), "event loops", 1)
    for s in lp:
        c.precede(s0, s0.calls("run_engine_commands", "RaftCore::run_engine_commands"), s, "commands:%s" % s.key(), "events are handled before the effects of starting up")
        c.guard(s0, s, notmine, "startup:%s" % s.key(), "events are handled before the node resumed its role", also=s0.cons("proposer::leader::Leader") + s0.writes("proposer::leader::Leader", "committed_vote"))
    r = c.g("Raft::new", opaque=("StorageHelper::get_initial_state",))
    c.begin("used", "the node runs with the recovered state and its own id")
    n = 0
    for s in r.cons("Engine"):
        n += 1
        e = r.expr(s.field("state"), 16)
        c.ok(any(q[0] == "await" and nm(q[1], ("get_initial_state", "StorageHelper::get_initial_state")) for q in walk(e)), "state:%s" % s.key(), "the node starts with the state %s" % fmt(e)[:200])
        e = r.expr(s.field("config"), 16)
        c.ok(any(q[0] == "arg" and q[2] == "id" or q[0] == "field" and q[2] == "^" and q[3] == "id" for q in walk(e)), "id:%s" % s.key(), "the node runs with the configuration %s" % fmt(e)[:200])
    c.floor(n, "engines", 1)


def has_vote(e):
    return any(q[0] == "field" and q[3] == "vote" and adtm(q[2], ST) for q in walk(e))


def rhs(g, s):
    rv = s.data if isinstance(s.data, tuple) else None
    B = g.ig.blocks[s.b]
    if s.i < len(B.stmts):
        rv = B.stmts[s.i][1]
        if rv[0] == "use":
            return rv[1]
    return ("k",)


# ---- membership -------------------------------------------------------------------------


@prop("P26")
def members(c):
    """the membership a node starts with"""
    g = c.g("StorageHelper::get_membership")
    c.begin("membership", "a node starts with the last membership in its log, or that of its state machine, and with the one before as committed")
    idx = lambda e: [q[2][1][1].split("_")[0] for q in walk(e) if q[0] == "call" and nm(q[1], ("Index::index", "index")) and q[2][1][0] == "k"]
    sm = lambda e: dsub(SMST, e)
    n = 0
    lenis = lambda op, k: cmpm(op, X(lambda e: callee(e, ("len", "Vec::len", "slice::len"))), X(lambda e: e[0] == "k" and e[1].split("_")[0] == k))
    two = orm(lenis("eq", "2"), lenis("ge", "2"), lenis("gt", "1"))
    empty = orm(bcallm(("is_empty", "Vec::is_empty", "slice::is_empty"), True), lenis("eq", "0"), ism("Option", ("None",), X(lambda e: callee(e, ("first", "last", "pop", "get", "next", "slice::first", "slice::last", "Vec::pop")) and not any(q[0] in ("await", "call") and nm(q[1], READ) or q[0] == "field" and q[3] in ("configs", "membership") for q in walk(e)))))
    nottwo = orm(lenis("ne", "2"), lenis("lt", "2"), lenis("le", "1"))
    for s in g.cons("MembershipState"):
        n += 1
        for f in ("committed", "effective"):
            for d, v in sources(g, s.field(f)):
                ix = idx(v)
                if not ix and not sm(v):
                    c.notes.append("%s of %s not recognised: %s" % (f, s.desc(), fmt(v)[:80]))
                    continue
                if f == "committed":
                    if ix:
                        c.ok(ix == ["0"] * len(ix), "older:%s" % d.key(), "the committed membership is number %s of those in the log" % ix)
                        c.guard(g, d, two, "older-two:%s" % d.key(), "the only membership in the log counts as committed")
                    else:
                        c.guard(g, s, nottwo, "sm:%s" % s.key(), "the committed membership is that of the state machine although the log has two newer ones")
                else:
                    if ix and set(ix) == {"1"}:
                        c.guard(g, d, two, "newer:%s" % d.key(), "the second membership in the log is used although there may be none")
                    elif ix:
                        c.ok(set(ix) == {"0"}, "which:%s" % d.key(), "the effective membership is number %s of those in the log" % ix)
                        c.guard(g, d, nottwo, "only:%s" % d.key(), "the older of two memberships in the log is used")
                    else:
                        c.guard(g, d, empty, "none:%s" % d.key(), "the membership of the state machine is used although the log has a newer one")
    c.floor(n, "recovered memberships", 2)
    c.begin("scan", "the log is searched backwards, without gaps, from the last entry down to the applied position, until two memberships are found")
    scan(c, g)
    r = root(c)
    c.begin("order", "the membership is recovered after the committed entries have been applied again")
    ap = [a for a in apply_loop(c, r)]
    sm_ = r.calls("RaftStateMachine::applied_state", "applied_state")
    for a in ap:
        for s in r.cons("MembershipState"):
            path = r.guarded_from(succs(r, a), s, None, also=sm_)
            c.okpath(r, path, "after:%s" % a.key(), "the membership is read before the entries are applied again")
    for s in r.cons(ST):
        for a in ap:
            path = r.guarded_from(succs(r, a), s, None, also=r.cons("MembershipState"))
            c.okpath(r, path, "fresh:%s" % a.key(), "the membership was read before the entries are applied again")
        e = r.expr(s.field("membership_state"), 12)
        c.ok(find_agg(e, ("MembershipState",)) is not None and not esub(ecall("default"), e), "used:%s" % s.key(), "the node starts with the membership %s" % fmt(e)[:200])


def sources(g, op, d=0):
    """[(site, value)]: the alternatives of a value built by wrapping a variable."""
    e = g.expr(op, 18)
    l, ds = var_defs(g, op)
    if len(ds) == 1 and ds[0].i == TERM and d < 6:
        args = ds[0].args()
        if len(args) == 1:
            return sources(g, args[0], d + 1)
    if len(ds) > 1:
        out = []
        for x in ds:
            out.append((x, g.value(x, 18) if x.i != TERM else g.expr(x.args()[0], 18)))
        return out
    if ds:
        return [(ds[0], e)]
    return []


def scan(c, g):
    reads = g.calls(*READ)
    c.floor(len(reads), "log reads", 1)
    n = 0
    for s in reads:
        x, lo, hi = range_of(g, s)
        if lo is None:
            c.notes.append("range of %s not recognised" % s.desc())
            continue
        l, ds = var_defs(g, hi)
        first = [d for d in ds if not loops(g, d)]
        nexts = [d for d in ds if loops(g, d)]
        hiv = g.expr(hi, 10)
        for d in first:
            n += 1
            v = vals(g, d)
            c.ok(lst("last_log_id")(v) and plus_one(v) or v[0] == "k", "to:%s" % d.key(), "the search starts at %s" % fmt(v)[:200])
        for d in nexts:
            v = sub_of(g, d)
            w = [sub_of2(g, a) for a in max_args(g, lo)]
            w = [a for a in w if a is not None]
            if v is None or not w:
                c.notes.append("step of %s not recognised" % s.desc())
                continue
            c.ok(v in w, "step:%s" % d.key(), "the search reads %s entries at a time and goes back by %s" % (w, v))
        e = g.expr(lo, 18)
        c.ok(dsub(SMST, e) or any(q[0] in ("arg", "field") and q[-1] == "since_index" for q in walk(e)), "from:%s" % s.key(), "the search ends at %s" % fmt(e)[:200])
        big = [q for q in walk(e) if q[0] == "bin" and q[1].startswith("Add") and q[3][0] == "k" and not q[3][1].startswith("1")]
        big += [q for q in walk(e) if q[0] == "bin" and q[1].startswith("Add") and q[3][0] == "k" and any(z[0] == "bin" and z[1].startswith("Add") and z[3][0] == "k" for z in walk(q[2]))]
        c.ok(not big, "from-exact:%s" % s.key(), "the search ends at %s" % fmt(e)[:200])
        # every entry read is looked at, the last first
    found = [s for s in g.calls("insert", "Vec::insert", "push", "Vec::push", "push_front", "VecDeque::push_front") if find_agg(g.expr(s.args()[-1], 14), ("StoredMembership",)) is not None]
    c.floor(len(found), "memberships found", 1)
    for s in found:
        e = g.expr(s.args()[-1], 18)
        a = find_agg(e, ("StoredMembership",))
        backwards = callee(a, ("rev", "Iterator::rev", "next_back", "DoubleEndedIterator::next_back", "pop", "Vec::pop"))
        c.ok(backwards, "backwards:%s" % s.key(), "the entries read are searched forwards")
        if nm_last(s, "insert"):
            p = g.expr(s.args()[1], 4)
            c.ok(p[0] == "k" and p[1].startswith("0"), "place:%s" % s.key(), "a membership found further back is kept at %s" % fmt(p))
        lid = dict(zip(a[1][3], a[2])).get("log_id") if len(a[1]) > 3 else None
        if lid is not None:
            c.ok(callee(lid, ("get_log_id", "RaftLogId::get_log_id")), "id:%s" % s.key(), "a membership is found with the log id %s" % fmt(lid)[:120])
        # once found it is kept, and the search ends only with two, or at the end
    for s in g.cons("StoredMembership"):
        e = g.expr(s.field("membership"), 14)
        if callee(e, ("get_membership", "RaftPayload::get_membership")):
            c.follow(g, s, found, "kept:%s" % s.key(), "a membership found in the log is dropped")
    f = c.g("StorageHelper::last_membership_in_log")
    done = orm(
        cmpm("ge", ANY, X(lambda e: lst("last_log_id")(e))),
        cmpm("eq", X(lambda e: callee(e, ("len", "Vec::len", "slice::len"))), X(lambda e: e[0] == "k" and e[1].startswith("2"))),
        cmpm("ge", X(lambda e: callee(e, ("len", "Vec::len", "slice::len"))), X(lambda e: e[0] == "k" and e[1].startswith("2"))),
    )
    path = f.exit_from([0], match=done(f), exits=ret_ok(f))
    c.okpath(f, path, "complete", "the search ends before the whole log was searched")


def nm_last(s, n):
    return n in str(s.x.ig.blocks[s.b].term[1])


def max_args(g, op):
    """The arguments of max(...) behind an operand."""
    e = g.expr(op, 18)
    out = []
    for q in walk(e):
        if q[0] == "call" and nm(q[1], ("max", "cmp::max", "Ord::max")):
            out += list(q[2])
    return out or [e]


def step_of(e):
    e = peel(e)
    if e[0] == "call" and nm(e[1], ("saturating_sub", "num::saturating_sub")) and len(e[2]) == 2:
        return fmt(e[2][1])
    if e[0] == "bin" and e[1].startswith("Sub"):
        return fmt(e[3])
    return None


def sub_of(g, d):
    v = g.value(d, 10) if d.i != TERM else None
    if v is None:
        t = d.args()
        return fmt(g.expr(t[1], 6)) if len(t) == 2 else None
    return step_of(v)


def sub_of2(g, a):
    return step_of(a)
