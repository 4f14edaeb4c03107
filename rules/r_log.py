"""The log: matching with the leader, truncation, purging."""
from common import *
from lib import BIN, CMP
from r_vote import find_call
from r_commit import peel_un, plus_one, parts, nearest, find_agg, find_range

AE = "AppendEntriesRequest"
KEYS = efield("LogIdList", "key_log_ids")
PREV = efield(AE, "prev_log_id")
ENTS = efield(AE, "entries")
req = lambda e: esub(PREV, e) or esub(ENTS, e)


def committed_next(e):
    return esub(efield("RaftState", "committed"), e) or esub(lambda q: q[0] == "call" and nm(q[1], ("committed", "RaftState::committed", "LogStateReader::committed")), e)


def local_id(e):
    """A log id looked up in the local log."""
    return esub(KEYS, e) or esub(lambda q: q[0] == "call" and nm(q[1], ("get_log_id", "RaftState::get_log_id", "LogIdList::get", "LogStateReader::get_log_id")), e)


def present(what):
    """`what` (a predicate on expressions) is in the local log: equal to the local id at its index, or committed."""
    return orm(
        cmpm("eq", X(what), X(local_id), total=True),
        cmpm("lt", X(what), X(committed_next), total=True),
    )


def absent_or_committed_boundary(what):
    return cmpm("ge", X(what), X(committed_next), total=True)


def appends(g):
    """Follower-side appends of a leader's entries."""
    return [s for s in g.cons(CMD, "AppendInputEntries") if ENTS_OP(g, s.field("entries"))]


def ENTS_OP(g, op):
    e = g.expr(op, 12)
    return esub(ENTS, e) or g.has(op, F(AE, "entries"))


def first_diff(e):
    """Index expressions used to take a suffix of the request's entries."""
    r = find_call(e, ("split_off", "Vec::split_off", "skip", "Iterator::skip", "drain", "Vec::drain", "Index::index", "index", "split_at", "slice::split_at"))
    if r is None:
        return None
    a = r[2][1]
    rg = find_agg(a, ("RangeFrom", "RangeTo"))
    return rg[2][0] if rg is not None else a


def fixed_entry(e):
    """An entry of a request at a fixed place, of the whole request."""
    ix = find_call(e, ("Index::index", "index"))
    if ix is not None and len(ix[2]) > 1 and ENTS(ix[2][0]):
        return peel(ix[2][1])[0] == "k" and first_diff(ix[2][0]) is None
    fc = find_call(e, ("first", "slice::first", "last", "slice::last"))
    return fc is not None and esub(ENTS, fc[2][0]) and first_diff(fc[2][0]) is None


DROPS = ("skip", "Iterator::skip", "step_by", "Iterator::step_by", "filter", "Iterator::filter", "take", "Iterator::take", "skip_while", "Iterator::skip_while", "take_while", "Iterator::take_while", "last", "nth", "Iterator::nth", "chunks", "rev", "Iterator::rev")


@prop("P07")
def prev_checked(c):
    """entries are accepted only after the preceding entry matched"""
    g = API(c)
    c.begin("prev", "a node takes over a leader's entries only if it has the entry before them, or they start the log")
    m = orm(present(lambda e: esub(PREV, e)), ism("Option", ("None",), X(lambda e: PREV(peel(e)))))
    sites = appends(g)
    for s in sites:
        c.guard(g, s, m, "append:%s" % s.key(), "entries are appended although the preceding entry was not found")
    c.floor(len(sites), "appends of a leader's entries", 1)
    acc = [q for q in g.calls("RaftState::accept_io") if esub(ENTS, g.expr(q.args()[1], 12))]
    for s in acc:
        c.guard(g, s, m, "accept:%s" % s.key(), "a position is accepted although the preceding entry was not found")
    c.floor(len(acc), "accepted positions", 1)
    ups = [s for s in g.cons(CMD, "UpdateIOProgress") if esub(ENTS, g.expr(s.field("io_id"), 12))]
    for s in ups:
        c.guard(g, s, m, "progress:%s" % s.key(), "a position is reported although the preceding entry was not found")
    # the position acknowledged is the end of the request, no more
    c.begin("acknowledged", "the position a node acknowledges is the last entry of that request")
    for s in acc + ups:
        e = g.expr(s.args()[1] if s in acc else s.field("io_id"), 12)
        c.ok(not esub(KEYS, e), "end:%s" % s.key(), "the accepted position is %s" % fmt(e))
    # rejected requests
    c.begin("reject", "a missing predecessor is answered with a conflict, and only a missing predecessor is")
    n = 0
    for s in g.cons("AppendEntriesResponse", "Conflict"):
        n += 1
        absent = orm(cmpm("ne", X(lambda e: esub(PREV, e)), X(local_id), total=True), ism("Option", ("None",), X(local_id)))
        why = ism("RejectAppendEntries", ("ByConflictingLogId",))
        c.guard(g, s, orm(absent, why), "conflict:%s" % s.key(), "a conflict is answered although the preceding entry is there")
    for s in g.cons("RejectAppendEntries", "ByConflictingLogId"):
        c.guard(g, s, absent, "reject:%s" % s.key(), "a request is refused although the preceding entry is there")
    c.floor(n, "conflict answers", 1)


@prop("P07")
def suffix_appended(c):
    """exactly the entries the node does not have are appended, after the differing ones are removed"""
    g = API(c)
    c.begin("suffix", "the entries appended start at the first one the node does not have; entries it has are left alone")
    sites = appends(g)
    trunc = [s for s in g.cons(CMD, "TruncateLog") if esub(ENTS, g.expr(s.field("since"), 12)) or g.has(s.field("since"), F(AE, "entries"))]
    c.floor(len(sites), "appends of a leader's entries", 1)
    ENT = lambda e: esub(ENTS, e)
    # entries skipped are present
    nexts = [q for q in g.calls("Iterator::next") if ENT(g.expr(q.args()[0], 12))]
    used = 0
    for s in sites:
        e = g.expr(s.field("entries"), 14)
        since = first_diff(e)
        if since is None:
            # the whole request: nothing of it may be present
            c.ok(False, "whole:%s" % s.key(), "the entries appended are %s, including those the node has" % fmt(e))
            continue
        vals = alts(since)
        loops = []
        for v in vals:
            known = False
            if esub(lambda q: q[0] == "call" and nm(q[1], ("position", "Iterator::position", "partition_point", "slice::partition_point", "find", "Iterator::find", "count", "Iterator::count", "unwrap_or")), v):
                known = True
            nx = find_call(v, ("Iterator::next", "next"))
            if nx is not None:
                known = ENT(v) and not esub(lambda q: q[0] == "bin", v)
                used += 1
            if v[0] == "call" and nm(v[1], ("len", "[T]::len", "Vec::len", "slice::len")):
                known = ENT(v)
            if v[0] == "bin" or v[0] == "k":
                # a counter advanced by a loop over the entries
                known = v[0] == "bin" and v[1].startswith("Add") or v[0] == "k" and v[1].startswith("0")
            c.ok(known, "since:%s" % s.key(), "the entries appended start at %s" % fmt(v))
            if nx is not None:
                dr = find_call(nx, DROPS)
                c.ok(dr is None, "searched:%s" % s.key(), "not every entry is looked up: %s" % fmt(nx)[:200])
        if any(find_call(v, ("Iterator::next", "next")) is not None for v in vals):
            # going on to the next entry requires that this one is present
            m = present(ENT)
            for q in nexts:
                if g.can_reach(q, [s]) is None or g.can_reach(q, [q]) is None:
                    continue
                # only the search loop: the one whose item index is used
                if not any(fmt(peel(g.expr(q.args()[0], 12))) in fmt(z) for v in vals for z in parts(v)):
                    continue
                some = g.edges(ism("Option", ("Some",), X(lambda e: e[0] == "call" and nm(e[1], ("Iterator::next", "next")) and ENT(e)))(g))
                p = g.guarded_from(some, q, m(g))
                c.okpath(g, p, "skip:%s" % s.key(), "an entry the node does not have is skipped")
    c.begin("truncate-first", "the node's own entries are removed from the first differing index on, before the leader's are appended")
    nt = [q for q in trunc]
    c.floor(len(nt), "truncations for differing entries", 1)
    miss = ism("Option", ("None",), X(local_id))
    for s in sites:
        also = nt
        m = miss(g)
        p = g.guarded(s, m, also=also) if _accepts_also(g) else g.guarded(s, m)
        c.okpath(g, p, "before:%s" % s.key(), "entries are appended over differing ones")
        since = first_diff(g.expr(s.field("entries"), 14))
        for t in nt:
            c.ok(not fixed_entry(g.expr(t.field("since"), 14)), "at:%s" % s.key(), "the log is truncated from an entry that is not the first differing one")
            c.ok(g.can_reach(s, [t]) is None, "order:%s" % s.key(), "the log is truncated after the entries are appended")
    # the in-memory log id list and the store change together
    c.begin("mirror", "the node's view of its log changes exactly as the commands given to the store")
    for s in g.cons(CMD, "AppendInputEntries"):
        ext = g.calls("LogIdList::extend", "LogIdList::extend_from_same_leader", "LogIdList::append")
        c.precede(g, ext, s, "extend:%s" % s.key(), "entries are appended without recording their ids")
    for t in g.cons(CMD, "TruncateLog"):
        cut = [q for q in g.calls("LogIdList::truncate")]
        near = nearest(t, cut)
        ok = g.must_precede(near, t) is None or g.must_follow(t, near) is None if near else False
        c.ok(ok, "truncate:%s" % t.key(), "the log is truncated in the store but not in the node's view, at %s" % t.desc())
        for q in near:
            a = g.expr(q.args()[1], 12)
            since = g.expr(t.field("since"), 12)
            c.ok(fmt(peel(a)) in fmt(since) or any(fmt(z) == fmt(peel(a)) for z in parts(since)) or g.has(t.field("since"), C("LogIdList::get")) or local_id(since), "same-index:%s" % t.key(), "the view is truncated at %s and the store at %s" % (fmt(a), fmt(since)))


def _accepts_also(g):
    return True


@prop("P07")
def leader_log(c):
    """a leader's own entries"""
    c.begin("leader-ids", "a leader gives new entries consecutive ids of its own term, following its last log id")
    n = 0
    for g in (API(c), NTF(c)):
        for s in g.calls("RaftLogId::set_log_id", "set_log_id"):
            n += 1
            alt = alts(g.expr(s.args()[1], 12))
            for e in alt:
                if esub(lambda q: isagg(q, ("LogId",)), e):
                    c.ok(esub(efield("Leader", "committed_vote"), e) or esub(lambda q: q[0] == "call" and nm(q[1], ("committed_leader_id",)), e), "term:%s" % s.key(), "a new entry gets the id %s" % fmt(e))
                    c.ok(esub(efield("Leader", "last_log_id"), e), "next:%s" % s.key(), "a new entry gets the id %s" % fmt(e))
            # the id advances between two entries
            incs = [w for w in g.writes("LogId", "index") if plus_one(g.value(w, 6)) and nearest(s, [w])]
            incs = [w for w in incs if g.can_reach(s, [w]) is not None]
            starts = [y for k in g.nodes(s) for y, _ in g.x.succ[k]]

            def again(stops):
                stop = g._stopset(stops)
                seen = g.x.reach(starts, stop=stop)
                return [x for x in g.nodes(s) if x in seen and x not in stop]

            hit = again(incs)
            if hit:
                # or the id is computed anew from the last one given, which was recorded in between
                made = [k for k in g.cons("LogId") if nearest(s, [k])]
                if not again(g.writes("Leader", "last_log_id")) and not again(made):
                    hit = []
            c.okpath(g, g.x.path_to(hit[0]) if hit else None, "advance:%s" % s.key(), "two entries get the same id")
        for w in g.writes("Leader", "last_log_id"):
            v = g.value(w, 10)
            if esub(lambda q: isagg(q, ("Leader",)), v):
                continue
            c.ok(esub(efield("Leader", "committed_vote"), v) and esub(efield("Leader", "last_log_id"), v) or "LogId" in fmt(v), "last:%s" % w.key(), "the leader's last log id is set to %s" % fmt(v))
    c.floor(n, "log id assignments", 2)
    c.begin("leader-append-only", "a node that proposes entries as a leader never truncates: truncation happens only while taking over another leader's log or snapshot")
    for g in EVENTS(c):
        for t in g.cons(CMD, "TruncateLog"):
            m = orm(ism("RaftMsg", ("AppendEntries", "InstallFullSnapshot")),)
            c.guard(g, t, m, "only:%s" % t.key(), "the log is truncated outside replication")
            # the vote was replaced or confirmed first, so this node's leadership has ended unless the vote is its own
            c.guard(g, t, cmpm("ge", X(lambda e: esub(efield(AE, "vote"), e) or esub(payload("InstallFullSnapshot", "vote"), e)), vote_state, total=False), "vote:%s" % t.key(), "the log is truncated on behalf of a smaller vote")


@prop("P07")
def leader_requests(c):
    """what a leader asks to replicate"""
    c.begin("range", "the range a leader sends starts right after the id it names as predecessor and ends within its log")
    n = 0
    for g in (API(c), NTF(c)):
        for s in g.cons("Inflight", "Logs"):
            e = g.expr(s.ops()[0], 10)
            r = find_agg(e, ("LogIdRange",))
            if r is None:
                continue
            prev, last = r[2][0], r[2][1]
            if esub(efield("LogIdRange", "last"), last) or esub(lambda q: q[0] == "var" and q[2] == "LocalIO", prev) or esub(evar("ReplicationProgress"), prev) or esub(evar("LocalIO"), last) or esub(evar("ReplicationProgress"), last):
                continue
            if prev[0] == "agg" and prev[1][2] == "None":
                continue
            n += 1
            c.ok(local_id(prev) or esub(lambda q: q[0] == "call" and nm(q[1], ("prev_log_id", "LogStateReader::prev_log_id")), prev), "prev:%s" % s.key(), "the predecessor named is %s" % fmt(prev))
            c.ok(local_id(last) or esub(lambda q: q[0] == "call" and nm(q[1], ("prev_log_id", "LogStateReader::prev_log_id")), last), "last:%s" % s.key(), "the last entry to send is %s" % fmt(last))
    c.floor(n, "ranges to send", 2)


@prop("P08")
def truncation_after_commit(c):
    """committed entries are never truncated"""
    c.begin("above-commit", "a truncation starts strictly after the committed position")
    n = 0
    for g in EVENTS(c):
        for t in g.cons(CMD, "TruncateLog"):
            n += 1
            near = nearest(t, g.calls("LogIdList::truncate"))
            idx = [g.expr(q.args()[1], 12) for q in near]
            c.ok(bool(idx), "index:%s" % t.key(), "the index truncated at is unknown at %s" % t.desc())
            at_commit = idx and all(committed_next(i) and not req(i) for i in idx)
            if at_commit:
                c.ok(all(plus_one(i) for i in idx), "next:%s" % t.key(), "truncated from %s" % ", ".join(fmt(i) for i in idx))
                continue
            exhausted = ism("Option", ("None",), X(lambda e: e[0] == "call" and nm(e[1], ("Iterator::next", "next")) and esub(ENTS, e)))
            m = orm(cmpm("ge", X(req), X(lambda e: committed_next(e) and plus_one(e)), total=True), cmpm("gt", X(req), X(lambda e: committed_next(e) and not plus_one(e)), total=False), exhausted)
            c.guard(g, t, m, "guard:%s" % t.key(), "truncated without comparing with the committed position")
            # the index truncated at is the one compared
            for i in idx:
                c.ok(req(i), "from:%s" % t.key(), "truncated from %s" % fmt(i))
                c.ok(not any(q[0] == "bin" and q[1].startswith("Sub") for q in parts(i)), "below:%s" % t.key(), "truncated from %s" % fmt(i))
                c.ok(not fixed_entry(i), "first:%s" % t.key(), "truncated from an entry of the request that is not the first differing one: %s" % fmt(i)[:200])
    c.floor(n, "truncations", 3)
    ex = EXEC(c)
    c.begin("store", "the store is truncated only by a TruncateLog command, at its index")
    k = 0
    for s in ex.calls("RaftLogStorage::truncate"):
        k += 1
        e = ex.expr(s.args()[1])
        c.ok(payload("TruncateLog", "since")(e), "since:%s" % s.key(), "the store is truncated at %s" % fmt(e))
    c.floor(k, "store truncations", 1)
    seen = 0
    for f in c.P("core").fns():
        for b in f.blocks:
            t = b[1]
            if t[0] == "call" and t[1][0] == "fn" and t[1][1].n.endswith("RaftLogStorage::truncate") and "::testing" not in f.name:
                seen += 1
                c.ok(any(f.uid == ex.ig.blocks[b2].fn.uid for b2 in ex.reached_blocks), "elsewhere:%s" % f.name, "%s truncates the store" % f.name)
    c.floor(seen, "callers of truncate", 1)


@prop("P08")
def committed_covered(c):
    """committed stays within the log or the snapshot"""
    c.begin("commit-in-log", "the log removed for a snapshot is covered by the snapshot that becomes the committed position")
    g = API(c)
    n = 0
    for s in g.writes("RaftState", "committed"):
        e = g.value(s, 9)
        if not esub(efield("SnapshotMeta", "last_log_id"), e):
            continue
        n += 1
        # a log that conflicts at the snapshot's index is removed before the snapshot becomes the committed position
        tr = g.cons(CMD, "TruncateLog")
        m = orm(cmpm("eq", X(local_id), X(lambda q: esub(efield("SnapshotMeta", "last_log_id"), q)), total=True), ism("Option", ("None",), X(local_id)))
        p = g.guarded(s, m(g), also=tr)
        c.okpath(g, p, "conflict:%s" % s.key(), "a snapshot is taken over a log that conflicts with it")
    c.floor(n, "snapshot commits", 1)


SNAP = lambda e: esub(efield("SnapshotMeta", "last_log_id"), e)


@prop("P09")
def purge_within_snapshot(c):
    """what may be purged"""
    c.begin("within", "logs are purged only up to a position this node's snapshot covers")
    n = 0
    for g in EVENTS(c):
        for s in g.writes("RaftState", "purge_upto"):
            v = g.value(s, 12)
            if START(c) is g and not any(q[0] == "call" for q in parts(v)):
                pass
            n += 1
            v2 = peel_un(v)
            if all(efield("SnapshotMeta", "last_log_id")(peel_un(a)) or SNAP(a) and peel_un(a)[0] in ("field",) for a in alts(v2)):
                continue
            # an index bounded by the snapshot's
            idxs = index_of_lookup(v2)
            ok = idxs is not None
            if ok:
                for i in idxs:
                    for a in alts(i):
                        if SNAP(a) and not esub(lambda q: q[0] == "bin" and q[1].startswith("Add") and not (q[3][0] == "k" and q[3][1].startswith("1")), a):
                            continue
                        m = cmpm("le", X(lambda e, a=a: fmt(peel(e)) == fmt(peel(a))), X(SNAP), total=True)
                        ok = ok and g.guarded(s, m(g)) is None
            else:
                ok = SNAP(v2)
            c.ok(ok, "upto:%s" % s.key(), "purging is scheduled up to %s at %s" % (fmt(v2), s.desc()))
    c.floor(n, "purge schedules", 3)
    covered(c, "RaftState", "purge_upto", EVENTS(c), exempt=("StorageHelper::get_initial_state", "RaftState::new", "RaftState"))
    c.begin("command", "the purge commanded is the scheduled one, and newer than what is purged")
    k = 0
    for g in EVENTS(c):
        for s in g.cons(CMD, "PurgeLog"):
            k += 1
            e = peel_un(g.expr(s.field("upto"), 10))
            c.ok(all(st_purge(a) or SNAP(a) for a in alts(e)), "upto:%s" % s.key(), "purging up to %s" % fmt(e))
            c.guard(g, s, cmpm("gt", X(lambda q: st_purge(q)), X(lambda q: KEYS(q) or esub(KEYS, q) or esub(efield("RaftState", "purged_next"), q))), "newer:%s" % s.key(), "logs already purged are purged again")
            pl = nearest(s, g.calls("LogIdList::purge"))
            c.ok(bool(pl) and (g.must_precede(pl, s) is None or g.must_follow(s, pl) is None), "mirror:%s" % s.key(), "the store is purged but not the node's view")
    c.floor(k, "purge commands", 3)


def st_purge(e):
    return esub(efield("RaftState", "purge_upto"), e)


def index_of_lookup(e):
    """Indexes looked up in the log id list to obtain e."""
    out = []
    for a in alts(e):
        r = find_call(a, ("get_log_id", "RaftState::get_log_id", "LogStateReader::get_log_id", "LogIdList::get"))
        if r is not None:
            out.append(r[2][1])
            continue
        ag = find_agg(a, ("LogId",))
        if ag is not None:
            out.append(ag[2][1])
            continue
        # an element of the list itself: its index was searched for
        q = find_call(a, ("binary_search_by",))
        if q is not None:
            cl = next((z for z in parts(q) if z[0] == "agg" and z[1][0] == "closure"), None)
            if cl is None:
                return None
            out.append(("phi", tuple(cl[2])) if len(cl[2]) != 1 else cl[2][0])
            continue
        return None
    return out


@prop("P09")
def purge_waits(c):
    """when logs are purged"""
    c.begin("wait", "a purge runs only after the snapshot covering it is stored")
    g = EXEC(c)
    n = 0
    for s in g.calls("RaftLogStorage::purge"):
        n += 1
        e = g.expr(s.args()[1])
        c.ok(payload("PurgeLog", "upto")(e), "upto:%s" % s.key(), "the store is purged up to %s" % fmt(e))
        m = cmpm("ge", X(efield("IOState", "snapshot")), X(lambda q: esub(payload("PurgeLog", "upto"), q) or esub(evar("PurgeLog"), q) or esub(evar("Snapshot"), q)))
        c.guard(g, s, m, "snapshot:%s" % s.key(), "logs are purged before the snapshot is stored")
        up = [w for w in g.writes("IOState", "purged")]
        c.okpath(g, g.exit_from([y for k in g.nodes(s) for y, _ in g.x.succ[k]], also=up, exits=ret_ok(g)), "recorded:%s" % s.key(), "a purge is not recorded")
        for w in up:
            c.precede(g, [s], w, "after:%s" % w.key(), "a purge is recorded before it happened")
    c.floor(n, "store purges", 1)
    for f in c.P("core").fns():
        for b in f.blocks:
            t = b[1]
            if t[0] == "call" and t[1][0] == "fn" and t[1][1].n.endswith("RaftLogStorage::purge") and "::testing" not in f.name and "StorageHelper" not in f.name:
                c.ok(any(f.uid == g.ig.blocks[b2].fn.uid for b2 in g.reached_blocks), "elsewhere:%s" % f.name, "%s purges the store" % f.name)
    c.begin("stored-snapshot", "the stored-snapshot position advances only when a snapshot was built or installed")
    k = 0
    for gg in EVENTS(c):
        for w in gg.writes("IOState", "snapshot"):
            k += 1
            v = gg.value(w, 9)
            c.ok(esub(evar("BuildSnapshot"), v) or esub(evar("InstallSnapshot"), v), "src:%s" % w.key(), "the stored snapshot position is set to %s" % fmt(v))
            more = lambda q: q[0] == "field" and q[3] not in ("snapshot", "snapshot_meta", "last_log_id", "io_state") and any(adtm(q[2], t) for t in ("RaftState", "IOState", "IOProgress", "LogIdList"))
            c.ok(not any(esub(more, a) for a in alts(v)), "more:%s" % w.key(), "the stored snapshot position is set to %s" % fmt(v))
    c.floor(k, "snapshot position updates", 2)


def asked(g):
    """Comparisons made in the closures given to any(), find() and the like."""
    ids = set()
    for s in g.calls("any", "all", "find", "filter", "position", "filter_map"):
        for a in s.args():
            e = peel(g.expr(a))
            if e[0] == "agg" and e[1][0] == "closure":
                ids.add(e[1][1])
    for b in g._live():
        B = g.ig.blocks[b]
        i = B.ctx
        while i is not None and i.fn.uid not in ids:
            i = i.parent
        if i is None:
            continue
        for pl, rv, sp in B.stmts:
            if rv[0] == "bin" and rv[1] in BIN:
                yield g._cmpf(BIN[rv[1]], rv[2], rv[3], None, True)[0]
        t = B.term
        if t[0] == "call" and hasattr(t[1], "n") and t[1].n in CMP:
            yield g._cmpf(CMP[t[1].n], t[2][0], t[2][1], t[1].h, True)[0]


@prop("P09")
def leader_purge(c):
    """a leader does not purge what it is sending"""
    c.begin("in-use", "while leading, logs being sent to a follower are not purged")
    n = 0
    for g in (API(c), NTF(c)):
        for s in g.cons(CMD, "PurgeLog"):
            leading = g.guarded(s, ism("Option", ("Some",), X(efield("Engine", "leader")))(g)) is None
            m = orm(
                ism("Option", ("None",), X(efield("Engine", "leader"))),
                ism("RaftMsg", ("InstallFullSnapshot",)),
                ism("Option", ("None",), X(lambda e: e[0] == "call" and nm(e[1], ("Iterator::next", "next")) and esub(efield("Leader", "progress"), e))),
                valm(False, X(lambda e: esub(lambda q: q[0] == "call" and nm(q[1], ("any", "Iterator::any")), e))),
                valm(True, X(lambda e: esub(lambda q: q[0] == "call" and nm(q[1], ("all", "Iterator::all")), e))),
            )
            c.guard(g, s, m, "checked:%s" % s.key(), "logs are purged without checking what is being sent")
            if not leading:
                continue
            n += 1
            # every follower is looked at
            nx = [q for q in g.calls("Iterator::next", "next") if any(esub(efield("Leader", "progress"), g.expr(a)) for a in q.args()[:1]) and g.can_reach(q, [s]) is not None]
            nx = [q for q in nx if not esub(ecall("enumerate", "iter_mut"), g.expr(q.args()[0]))]
            every = [y for q in g.calls("Iterator::next", "next") for y in g.nodes(q)]
            for q in nx:
                near = set(g.x.reach([y for a in g.nodes(q) for y, _ in g.x.succ[a]], stop=set(every)))
                some = [y for y in g.edges(ism("Option", ("Some",), X(lambda e: e[0] == "call" and nm(e[1], ("Iterator::next", "next")) and esub(efield("Leader", "progress"), e)))(g)) if y in near]
                looked = orm(
                    ism("Inflight", ("None", "Snapshot"), X(lambda e: esub(efield("Leader", "progress"), e))),
                    ism("Inflight", ("Logs",), X(lambda e: esub(efield("Leader", "progress"), e))),
                    cmpm("ge", X(lambda e: esub(efield("LogIdRange", "prev"), e)), X(st_purge), total=False),
                    cmpm("le", X(lambda e: esub(efield("LogIdRange", "prev"), e)), X(st_purge), total=False),
                )
                p = g.guarded_from(some, s, match=looked(g))
                c.okpath(g, p, "each:%s" % s.key(), "a follower's in-flight range is not looked at before purging")
            # an in-flight range that overlaps forbids it
            busy = [e for e in g.edges(cmpm("gt", X(st_purge), X(lambda e: esub(efield("LogIdRange", "prev"), e)), total=False)(g))]
            over = cmpm("gt", X(st_purge), X(lambda e: esub(efield("LogIdRange", "prev"), e)), total=False)(g)
            c.ok(bool(busy) or any(over(f) for f in asked(g)), "test:%s" % s.key(), "no in-flight range is compared with the purge position")
            seen = g.x.reach(busy)
            p = None
            # correlated: from an overlapping range the purge is unreachable without leaving the event
            hit = [x for x in g.nodes(s) if x in seen]
            c.okpath(g, g.x.path_to(hit[0]) if hit else None, "busy:%s" % s.key(), "logs being sent are purged")
    c.floor(n, "purges while leading", 1)
