"""Commit and apply: what a leader commits, what a follower commits, what is applied."""
from common import *
from r_vote import find_call, field_of

GRANTED = lambda e: esub(efield("VecProgress", "granted"), e) and esub(efield("Leader", "progress"), e)
SNAPLOG = lambda e: esub(efield("SnapshotMeta", "last_log_id"), e)


def commit_writes(g):
    return g.writes("RaftState", "committed")


def kind(e):
    """Where a committed position comes from."""
    a = alts(e)
    ks = set()
    for q in a:
        if GRANTED(q):
            ks.add("quorum")
        elif esub(efield("AppendEntriesRequest", "leader_commit"), q):
            ks.add("leader")
        elif SNAPLOG(q):
            ks.add("snapshot")
        else:
            ks.add("?")
    return ks


@prop("P05")
def leader_commit(c):
    """a leader commits what a quorum stored, in its own term"""
    n = 0
    for g in EVENTS(c):
        for s in commit_writes(g):
            v = g.value(s, 9)
            k = kind(v)
            c.begin("source", "the committed position comes from the leader's quorum, from the leader's message, or from an installed snapshot")
            c.ok("?" not in k and len(k) == 1, "src:%s" % s.key(), "committed is set to %s at %s" % (fmt(v), s.desc()))
            c.begin("monotone", "the committed position only advances")
            new = {"quorum": GRANTED, "leader": lambda e: esub(efield("AppendEntriesRequest", "leader_commit"), e), "snapshot": SNAPLOG}.get(next(iter(k)), lambda e: True)
            c.guard(g, s, cmpm("gt", X(new), st("committed")), "mono:%s" % s.key(), "committed is replaced without being smaller")
            if k != {"quorum"}:
                continue
            n += 1
            c.begin("own-term", "a leader commits only a log id that its own vote proposed")
            m = orm(
                cmpm("eq", X(lambda e: esub(GRANTED, e)), X(lambda e: esub(VOTE, e) or esub(efield("Leader", "committed_vote"), e))),
                ism("Option", ("None",), X(GRANTED)),
            )
            c.guard(g, s, m, "term:%s" % s.key(), "committed without being of the leader's term")
    c.floor(n, "leader commits", 2)
    covered(c, "RaftState", "committed", EVENTS(c), exempt=("StorageHelper::get_initial_state",))


@prop("P05")
def quorum_of_progress(c):
    """the granted position is stored by a quorum of voters"""
    g = NTF(c)
    c.begin("quorum", "the quorum-stored position moves only to a value that the voters having at least it form a quorum for")
    n = 0
    vec = lambda e: esub(efield("VecProgress", "vector"), e)
    for s in g.writes("VecProgress", "granted"):
        v = g.value(s)
        if not esub(efield("Leader", "progress"), v):
            continue
        n += 1
        c.ok(vec(v), "src:%s" % s.key(), "the quorum position is set to %s" % fmt(v))
        c.guard(g, s, bcallm(("QuorumSet::is_quorum", "is_quorum"), True, X(lambda e: esub(efield("VecProgress", "quorum_set"), e)), X(vec)), "quorum:%s" % s.key(), "the position moves without a quorum")
        idx = X(lambda e: esub(lambda q: q[0] == "call" and nm(q[1], ("enumerate", "Iterator::enumerate")), e) or True)
        c.guard(g, s, cmpm("lt", ANY, X(efield("VecProgress", "voter_count"))), "voter:%s" % s.key(), "a learner's position is counted")
        c.guard(g, s, cmpm("gt", X(vec), X(efield("VecProgress", "granted")), total=False), "mono:%s" % s.key(), "the quorum position is recomputed although nothing passed it")
        # the candidate value is among the counted prefix
        calls = [q for q in g.calls("QuorumSet::is_quorum") if g.can_reach(q, [s]) is not None]
        for q in calls:
            it = g.expr(q.args()[1], 10)
            if not vec(it):
                continue
            if find_call(it, ("filter", "Iterator::filter")) is not None:
                c.notes.append("the counted voters are selected by a filter: %s" % fmt(it)[:200])
                continue
            sl = find_call(it, ("Index::index", "index"))
            sl = sl[2][1] if sl is not None and len(sl[2]) > 1 else it
            sl = peel(sl)
            up = sl if sl[0] == "call" and nm(sl[1], ("RangeInclusive::new",)) else find_agg(sl, ("RangeInclusive", "Range", "RangeToInclusive", "RangeTo"))
            i = idx_of(v)
            if up is None or i is None:
                # another way of walking the vector: the counted prefix is not decided
                c.notes.append("the counted prefix is not of the form vector[..=i]: %s" % fmt(it)[:200])
                continue
            c.ok(fmt(up[2][min(1, len(up[2]) - 1)]) == fmt(i), "prefix:%s" % s.key(), "the quorum counts %s while the position is %s" % (fmt(up), fmt(v)))
            c.ok("Inclusive" in (up[1] if up[0] == "call" else up[1][1]), "inclusive:%s" % s.key(), "the quorum counts %s" % fmt(up))
            lo = (up[2][0]) if len(up[2]) > 1 else None
            c.ok(lo is None or lo[0] == "k" and lo[1].startswith("0"), "from0:%s" % s.key(), "the quorum counts %s" % fmt(up or it))
            rng = find_agg(i, ("Range", "RangeInclusive"))
            if rng is not None and len(rng[2]) > 1:
                c.ok(esub(efield("VecProgress", "voter_count"), rng[2][1]), "voters-only:%s" % s.key(), "positions up to %s are candidates, learners included" % fmt(rng[2][1]))
            else:
                c.guard(g, s, cmpm("lt", X(lambda e: fmt(e) == fmt(i)), X(efield("VecProgress", "voter_count"))), "voters-only:%s" % s.key(), "a learner's position becomes the quorum position")
    c.floor(n, "quorum position updates", 1)
    c.begin("voters", "only voters are counted: voters come first, learners are added after the voter count was taken")
    k = 0
    for gg in (API(c), NTF(c), START(c)):
        for s in gg.cons("VecProgress"):
            k += 1
            vc = gg.expr(s.field("voter_count"))
            ln = find_call(vc, ("len", "Vec::len"))
            c.ok(ln is not None, "count:%s" % s.key(), "the voter count is %s" % fmt(vc))
            c.ok(gg.has(s.field("voter_count"), C("QuorumSet::ids", "ids")), "ids:%s" % s.key(), "the voter count is %s" % fmt(vc))
            ext = [q for q in gg.calls("extend", "Extend::extend") if q.fn == s.fn and gg.can_reach(q, [s]) is not None]
            for q in ext:
                lens = [l for l in gg.calls("Vec::len", "len") if l.fn == q.fn]
                c.precede(gg, lens, q, "order:%s" % s.key(), "learners are added before the voters are counted")
    c.floor(k, "progress constructions", 4)


@prop("P05")
def quorum_order(c):
    """counting a prefix of the positions is counting the voters that have at least that position only if they are in order"""
    c.begin("ordered", "where voters are counted by their place, every voter above the quorum position is in order after each change of a value")
    P = c.P()
    vec = lambda e: esub(efield("VecProgress", "vector"), e)
    gr = efield("VecProgress", "granted")
    roots = [(f.name, c.g(f), "call") for f in P.fns() if f.name.endswith("::update_with") and "VecProgress" in f.name]
    c.floor(len(roots), "updates of a value", 1)
    roots.append(("event", NTF(c), "matching"))
    k = 0
    for name, g, how in roots:
        tag = name.split("::")[-1]
        if how == "call":
            ms = [s for s in g.calls("call_once", "FnOnce::call_once", "call_mut", "FnMut::call_mut") if any(vec(g.expr(a, 10)) for a in s.args())]
            ms += [s for s in g.writes("VecProgress", "vector") if not g.lpath(s.data)[0] == "none"] if not ms else []
        else:
            ms = [s for s in g.writes("ProgressEntry", "matching") if vec(g.lpath(s.data))] or g.writes("ProgressEntry", "matching")
        prefix = False
        for q in g.calls("QuorumSet::is_quorum"):
            it = g.expr(q.args()[1], 12)
            if vec(it) and find_call(it, ("Index::index", "index", "get", "slice::get", "split_at")) is not None and find_call(it, ("filter", "Iterator::filter", "filter_map", "Iterator::filter_map")) is None:
                prefix = True
        k += len(ms)
        if not prefix:
            c.notes.append("%s: voters are not counted by their place" % tag)
            continue
        sw = [s for s in g.calls("swap", "slice::swap", "mem::swap") if vec(g.expr(s.args()[0], 8))]
        other = [s for s in g.calls("rotate_right", "rotate_left", "sort", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable", "sort_unstable_by_key", "insert", "slice::sort_by", "Vec::insert", "binary_search_by", "partition_point", "copy_within") if vec(g.expr(s.args()[0], 8))]
        c.ok(bool(sw or other), "moved:%s" % tag, "a voter whose value grew is never moved to its place")
        done = []
        pairs = []
        for s in sw:
            a, b = [g.expr(x, 10) for x in s.args()[1:3]]
            one = lambda x, y, op: peel(x)[0] == "bin" and peel(x)[1] == op and fmt(peel(x)[2]) == fmt(y) and peel(x)[3][0] == "k" and peel(x)[3][1].startswith("1")
            if one(a, b, "Add") or one(b, a, "Sub"):
                a, b = b, a
            elif not (one(b, a, "Add") or one(a, b, "Sub")):
                c.notes.append("%s: the places exchanged are not neighbours: %s and %s" % (tag, fmt(a)[:100], fmt(b)[:100]))
                other.append(s)
                continue
            at = lambda i: X(lambda e: vec(e) and esub(lambda q: fmt(q) == fmt(i), e))
            # only neighbours out of order are exchanged
            up = orm(cmpm("lt", at(a), at(b), total=False), cmpm("gt", at(b), at(a), total=False))
            c.guard(g, s, up, "exchange:%s:%s" % (tag, s.key()), "two voters are exchanged without the first one having the smaller value")
            pairs.append(cmpm("ge", at(a), at(b), total=True))
            isz = lambda e: e[0] == "k" and e[1].startswith("0")
            pos = lambda e, a=a, b=b: fmt(e) in (fmt(a), fmt(b))
            pairs += [cmpm("le", X(pos), X(isz)), cmpm("eq", X(pos), X(isz))]
            for n in g.calls("next", "Iterator::next"):
                v = fmt(g.expr(("c", n.data.dest), 10)) if hasattr(n.data, "dest") else None
                if g.can_reach(n, [s]) is not None and g.can_reach(s, [n]) is not None:
                    done.append(n)
            st = g.edges(up(g))
            heads = [y for n in done for y in g.nodes(n)]
            if st and heads:
                c.okpath(g, g.exit_from(st, also=sw, exits=heads), "moves:%s:%s" % (tag, s.key()), "a voter with a greater value than the one before it is passed over")
        ends = []
        for n in done:
            rng = find_agg(g.expr(n.args()[0], 10), ("Range", "RangeInclusive"))
            if rng is not None and len(rng[2]) > 1:
                c.ok(rng[2][0][0] == "k" and rng[2][0][1].startswith("0") or not rng[2][0][0] == "k" and not esub(lambda q: q[0] == "k", rng[2][0]), "all:%s:%s" % (tag, n.key()), "only the places %s are put in order" % fmt(rng)[:100])
            arg = fmt(g.expr(n.args()[0], 10))
            ends.append(ism("Option", ("None",), X(lambda e, arg=arg: e[0] == "call" and nm(e[1], ("next", "Iterator::next")) and fmt(e[2][0]) == arg)))
        m = orm(
            cmpm("le", X(vec), X(gr), total=True), cmpm("ge", ANY, X(efield("VecProgress", "voter_count"))), cmpm("eq", X(vec), X(vec)),
            *(pairs + ends)
        )
        for s in ms:
            starts = [y for x in g.nodes(s) for y, _ in g.x.succ[x]]
            p = g.exit_from(starts, also=other, match=m(g))
            c.okpath(g, p, "kept:%s:%s" % (tag, s.key()), "a value above the quorum position changes and its voter keeps its place: the voters counted as having a position may include one with a smaller one")
    c.floor(k, "changes of a value", 2)


def find_agg(e, names, d=0):
    if d > 16 or not isinstance(e, tuple) or not e:
        return None
    if isinstance(names, str):
        names = (names,)
    if e[0] == "agg" and e[1][0] == "adt" and any(adtm(e[1][1], n) for n in names):
        return e
    kids = []
    if e[0] in ("field", "var", "idx"):
        kids = [e[1]]
    elif e[0] == "phi":
        kids = e[1]
    elif e[0] in ("call", "await", "agg"):
        kids = e[2]
    elif e[0] == "bin":
        kids = e[2:4]
    for k in kids:
        r = find_agg(k, names, d + 1)
        if r is not None:
            return r
    return None


def idx_of(e):
    """The index expression of vector[i]."""
    r = find_call(e, ("Index::index", "index", "IndexMut::index_mut", "index_mut"))
    return r[2][1] if r is not None and len(r[2]) > 1 else None


@prop("P05", "P17")
def progress_sources(c):
    """what counts as stored by a node"""
    g = NTF(c)
    c.begin("stored", "a node's stored position is taken only from its acknowledgement in the current session, or from the leader's own finished write")
    n = 0
    for s in g.calls("Progress::update_with", "Progress::update", "Progress::get_mut", "Progress::increase_to"):
        a = s.args()
        e = g.expr(a[0])
        if not esub(efield("Leader", "progress"), e) or esub(lambda q: q[0] == "agg" and adtm(q[1][1] if len(q[1]) > 1 else "", "VecProgress"), e):
            continue
        n += 1
        own = efield("EngineConfig", "id")(g.expr(a[1]))
        if own:
            m = cmpm("eq", X(lambda q: esub(evar("LocalIO"), q)), X(lambda q: esub(efield("Engine", "leader"), q) or esub(efield("Engine", "candidate"), q)))
            c.guard(g, s, m, "local:%s" % s.key(), "the leader's own position moves for another leader's write")
        else:
            c.ok(esub(evar("ReplicationProgress"), g.expr(a[1])), "target:%s" % s.key(), "the position of %s is updated at %s" % (fmt(g.expr(a[1])), s.desc()))
            m1 = cmpm("eq", X(lambda q: esub(evar("ReplicationProgress"), q)), X(lambda q: esub(efield("Engine", "leader"), q) or esub(efield("Engine", "candidate"), q)))
            c.guard(g, s, m1, "vote:%s" % s.key(), "a report of another leader's session is used")
            m2 = cmpm("eq", X(lambda q: esub(efield("ReplicationSessionId", "membership_log_id"), q)), X(lambda q: esub(efield("MembershipState", "effective"), q)))
            c.guard(g, s, m2, "membership:%s" % s.key(), "a report of a session before a membership change is used")
    c.floor(n, "position updates", 3)
    k = 0
    for s in g.writes("ProgressEntry", "matching"):
        v = g.value(s, 10)
        k += 1
        ok = esub(evar("ReplicationProgress"), v) or esub(evar("LocalIO"), v) or esub(efield("ProgressEntry", "matching"), v)
        more = esub(lambda q: q[0] == "field" and q[3] in ("log_ids", "key_log_ids", "accepted", "submitted", "last_log_id") and any(adtm(q[2], t) for t in ("RaftState", "LogIdList", "IOProgress", "Leader", "Candidate")), v)
        c.ok(ok and not more, "val:%s" % s.key(), "a stored position is set to %s at %s" % (fmt(v), s.desc()))
    c.floor(k, "stored position writes", 2)


@prop("P05")
def replication_reports(c):
    """the replication task reports only what the follower acknowledged"""
    g = c.g("ReplicationCore::main")
    c.begin("acknowledged", "the replication task reports a position as stored only after the follower accepted it")
    resp = lambda e: esub(lambda q: q[0] == "await" and nm(q[1], ("append_entries", "timeout", "RaftNetworkV2::append_entries")), e)
    n = 0
    for s in g.cons("ReplicationResult"):
        ok_nodes, kinds = [], []
        e = g.expr(s.ops()[0], 10)
        for a in ([e] if e[0] != "phi" else e[1]):
            if a[0] == "agg" and a[1][2] == "Err":
                c.ok(esub(efield("LogIdRange", "prev"), a) or esub(lambda q: q[0] == "field" and q[3] == "prev", a) or "prev" in fmt(a), "conflict:%s" % s.key(), "a conflict is reported at %s" % fmt(a))
                c.guard(g, s, ism("AppendEntriesResponse", ("Conflict",)), "conflict-guard:%s" % s.key(), "a conflict is reported without one")
                continue
            n += 1
            v = a[2][0] if a[0] == "agg" else a
            if esub(efield("SnapshotMeta", "last_log_id"), v):
                okr = ism("Result", ("Ok",), X(lambda q: esub(lambda z: z[0] == "field" and z[3] in ("result",), q)))
                c.guard(g, s, okr, "snap-ok:%s" % s.key(), "a failed snapshot transfer is reported as stored")
                # vote in the reply not greater
                m = cmpm("le", X(lambda q: esub(efield("SnapshotResponse", "vote"), q)), X(lambda q: esub(efield("ReplicationCore", "session_id"), q)))
                c.guard(g, s, m, "snap-vote:%s" % s.key(), "a snapshot refused for a higher vote is reported as stored")
            elif esub(evar("PartialSuccess"), v):
                c.guard(g, s, ism("AppendEntriesResponse", ("PartialSuccess",)), "partial:%s" % s.key(), "a partial success is reported without one")
            else:
                c.guard(g, s, ism("AppendEntriesResponse", ("Success",)), "success:%s" % s.key(), "entries are reported stored without a success reply")
                # the last of what was actually sent
                at = g.atoms(s.ops()[0])
                reads = find_call(v, ("last", "slice::last"))
                c.ok(g.has(s.ops()[0], C("limited_get_log_entries", "RaftLogReader::limited_get_log_entries")), "sent:%s" % s.key(), "the reported position is %s, not the last entry sent" % fmt(v))
    c.floor(n, "stored reports", 3)
    c.begin("request", "the request carries the entries read from the log, their predecessor and this leader's vote")
    k = 0
    for s in g.cons("AppendEntriesRequest"):
        k += 1
        c.ok(esub(efield("ReplicationCore", "session_id"), g.expr(s.field("vote"), 10)), "vote:%s" % s.key(), "requests carry vote %s" % fmt(g.expr(s.field("vote"))))
        prev = g.expr(s.field("prev_log_id"), 12)
        c.ok(not esub(lambda q: q[0] == "field" and q[3] == "last", prev), "prev:%s" % s.key(), "requests carry predecessor %s" % fmt(prev))
        c.ok(g.has(s.field("entries"), C("limited_get_log_entries", "RaftLogReader::limited_get_log_entries")), "entries:%s" % s.key(), "requests carry entries %s" % fmt(g.expr(s.field("entries"), 10)))
        c.ok(efield("ReplicationCore", "committed")(g.expr(s.field("leader_commit"))), "commit:%s" % s.key(), "requests carry commit position %s" % fmt(g.expr(s.field("leader_commit"))))
        rd = g.calls("RaftLogReader::limited_get_log_entries", "limited_get_log_entries")
        for r in nearest(s, rd):
            a = r.args()
            lo, hi = g.expr(a[1], 10), g.expr(a[2], 10)
            c.ok({fmt(q) for q in alts(prev)} <= {fmt(q) for q in parts(lo)} and plus_one(lo), "start:%s" % s.key(), "entries are read from %s while the predecessor is %s" % (fmt(lo), fmt(prev)))
    c.floor(k, "append requests", 1)


@prop("P06")
def follower_commit(c):
    """a follower commits no more than it accepted from the current leader"""
    g = API(c)
    c.begin("bounded", "a follower commits the smaller of the leader's committed position and the last log id it accepted from this leader")
    n = 0
    for s in commit_writes(g):
        v = g.value(s, 10)
        if kind(v) != {"leader"}:
            continue
        n += 1
        for a in alts(v):
            ok = a[0] == "call" and nm(a[1], ("min", "cmp::min", "Ord::min")) and len(a[2]) == 2
            if ok:
                x, y = a[2]
                lc = lambda e: efield("AppendEntriesRequest", "leader_commit")(e)
                ac = lambda e: esub(efield("IOProgress", "accepted"), e)
                ok = (lc(x) and ac(y)) or (lc(y) and ac(x))
            if not ok:
                # an explicit comparison: each bound is guarded
                ok = guarded_min(c, g, s, a)
            c.ok(ok, "min:%s" % s.key(), "a follower commits %s at %s" % (fmt(a), s.desc()))
        c.begin("after-accept", "a follower commits only after it accepted that request's entries")
        m = orm(
            valm(True, X(ecall("is_ok"))),
            ism("Result", ("Ok",), X(lambda e: True)),
        )
        isv = lambda q, n: q[0] == "agg" and len(q[1]) > 2 and q[1][2] in n
        okr = ism("Result", ("Ok",), X(lambda e: esub(lambda q: isv(q, ("Err",)) and esub(lambda z: isv(z, ("ByVote", "ByConflictingLogId")), q), e)))
        c.guard(g, s, okr, "ok:%s" % s.key(), "a rejected append moves the committed position")
        c.guard(g, s, cmpm("ge", X(efield("AppendEntriesRequest", "vote")), vote_state, total=False), "vote:%s" % s.key(), "an append of a smaller vote moves the committed position")
        acc = [q for q in g.calls("RaftState::accept_io") if esub(efield("AppendEntriesRequest", "entries"), g.expr(q.args()[1]))]
        c.precede(g, acc, s, "accepted:%s" % s.key(), "committed before the request's entries are accepted")
        c.begin("bounded", "")
    c.floor(n, "follower commits", 1)
    # the accepted position is compared by vote first: a new leader's vote resets it
    c.begin("accepted-log", "the accepted log position is the one accepted under the current vote")
    gl = c.g("raft_state::io_state::io_id::IOId::last_log_id")
    e = gl.ig.pexpr(gl.ig.retplace, 8)
    c.ok(not esub(lambda q: q[0] == "call" and nm(q[1], ("unwrap", "expect")), e), "lastlog", "last_log_id is %s" % fmt(e))
    nn = 0
    for gg in (API(c), NTF(c)):
        for w in vote_ws(gg):
            nn += 1
            if pristine(gg, w):
                continue
            acc = gg.calls("RaftState::accept_io")
            # after a vote change some io of the new vote is accepted before anything is committed
            seen_stop = gg._stopset(acc)
            starts = [y for k in gg.nodes(w) for y, _ in gg.x.succ[k]]
            seen = gg.x.reach(starts, stop=seen_stop)
            for s in commit_writes(gg):
                hit = [x for x in gg.nodes(s) if x in seen and x not in seen_stop]
                c.okpath(gg, gg.x.path_to(hit[0]) if hit else None, "reset:%s" % s.key(), "a commit uses the position accepted under an older vote")
    c.floor(nn, "vote changes", 3)


def vote_ws(g):
    from r_vote import all_vote_writes
    return all_vote_writes(g)


def guarded_min(c, g, s, a):
    lc = X(lambda e: efield("AppendEntriesRequest", "leader_commit")(e))
    ac = X(lambda e: esub(efield("IOProgress", "accepted"), e))
    if efield("AppendEntriesRequest", "leader_commit")(a):
        return True if g.guarded(s, orm(cmpm("le", lc, ac), cmpm("le", ac, lc))(g)) is None else False
    if esub(efield("IOProgress", "accepted"), a):
        return True if g.guarded(s, orm(cmpm("le", lc, ac), cmpm("le", ac, lc))(g)) is None else False
    return False


@prop("P10")
def apply_follows_commit(c):
    """apply covers exactly the newly committed range"""
    c.begin("range", "each commit schedules applying from the previously committed position to the new one")
    n = 0
    for g in EVENTS(c):
        cmds = g.cons(CMD, "Apply")
        for s in commit_writes(g):
            k = kind(g.value(s, 9))
            if k == {"snapshot"}:
                c.follow(g, s, g.cons("core::sm::command::Command", "InstallFullSnapshot"), "snapshot:%s" % s.key(), "a committed snapshot is not installed")
                continue
            n += 1
            c.follow(g, s, cmds, "noapply:%s" % s.key(), "committed entries are not scheduled to be applied")
        for a in cmds:
            ws = [s for s in commit_writes(g) if g.can_reach(s, [a]) is not None]
            c.precede(g, commit_writes(g), a, "uncommitted:%s" % a.key(), "applying is scheduled without a commit")
            up = g.expr(a.field("upto"), 10)
            lo = g.expr(a.field("already_committed"), 10)
            vals = {fmt(peel_un(g.value(w, 9))) for w in ws}
            okup = all(efield("RaftState", "committed")(q) or fmt(q) in vals for q in alts(peel_un(up)))
            c.ok(okup, "upto:%s" % a.key(), "applying is scheduled up to %s" % fmt(up))
            c.ok(all(efield("RaftState", "committed")(q) for q in alts(peel_un(lo))), "from:%s" % a.key(), "applying is scheduled from %s" % fmt(lo))
            # the lower bound was read before the commit replaced it, the upper one after
            lds = loads_of2(g, a.field("already_committed"), "RaftState", "committed")
            c.floor(len(lds), "reads of the previous commit position", 1)
            for l in lds:
                if g.can_reach(l, [a]) is None:
                    continue
                for w in ws:
                    c.ok(g.can_reach(l, [w]) is not None or l.b == w.b and l.i < w.i, "stale-from:%s" % a.key(), "the start of the applied range is read at %s, after the commit" % l.desc())
    c.floor(n, "commits", 3)


def peel_un(e):
    e = peel(e)
    while e[0] == "call" and nm(e[1], ("unwrap", "expect", "copied", "cloned", "Option::unwrap", "Option::expect")) and e[2]:
        e = peel(e[2][0])
    return e


def loads_of2(g, op, adt, field):
    out = []
    for l in g.load_sites(op):
        if isinstance(l.data, tuple):
            if esub(efield(adt, field), g.lpath(l.data)):
                out.append(l)
        elif l.args() and esub(efield(adt, field), g.expr(l.args()[0])):
            out.append(l)
    return out


@prop("P10")
def apply_executed(c):
    """the executor turns an Apply command into one request for that range"""
    g = EXEC(c)
    c.begin("execute", "executing Apply asks the state machine for the entries after the previously committed one, up to the new one")
    n = 0
    for s in g.cons("core::sm::command::Command", "Apply"):
        n += 1
        lo, hi = g.expr(s.field("first"), 12), g.expr(s.field("last"), 12)
        c.ok(payload("Apply", "upto")(hi), "upto:%s" % s.key(), "the state machine is asked to apply up to %s" % fmt(hi))
        c.ok(g.has(s.field("first"), F("Command", "already_committed")) or esub(payload("Apply", "already_committed"), lo), "from:%s" % s.key(), "the state machine is asked to apply from %s" % fmt(lo))
        c.ok(not esub(payload("Apply", "upto"), lo), "from-upto:%s" % s.key(), "the state machine is asked to apply from %s" % fmt(lo))
        c.ok(plus_one(lo), "next:%s" % s.key(), "the first entry applied is %s" % fmt(lo))
    c.floor(n, "apply requests", 1)
    starts = g.edges(ism(CMD, ("Apply",))(g))
    c.ok(bool(starts), "arm", "no branch executes Apply")
    sends = [s for s in g.calls("MpscUnboundedSender::send") if esub(lambda q: q[0] == "agg" and len(q[1]) > 2 and q[1][2] == "Apply", g.expr(s.args()[1]))]
    p = g.exit_from(starts, also=sends, exits=ret_ok(g))
    c.okpath(g, p, "dropped", "Apply completes without a request to the state machine")
    # the request is consumed once: no second send
    for s in sends:
        c.ok(g.can_reach(s, [x for x in sends]) is None, "twice", "one Apply is requested twice at %s" % s.desc())


def plus_one(e):
    """index + 1, or next_index()."""
    return esub(lambda q: q[0] == "bin" and q[1].startswith("Add") and q[3][0] == "k" and q[3][1].startswith("1"), e) or esub(lambda q: q[0] == "call" and nm(q[1], ("next_index", "LogIndexOptionExt::next_index")), e)


@prop("P10", "P34")
def sm_worker(c):
    """the state machine worker applies requests one by one, in order"""
    c.begin("worker", "the state machine task handles one request at a time, in order, and applies exactly the requested entries")
    g = c.g("core::sm::worker::Worker::worker_loop")
    recv = g.awaits("recv", "MpscUnboundedReceiver::recv")
    c.ok(len({s.b for s in recv}) >= 1, "recv", "the worker does not receive requests")
    ap = g.awaits("RaftStateMachine::apply", "apply")
    c.floor(len(ap), "apply calls", 1)
    for s in ap:
        a = g.ig.blocks[s.b].term[1][2]
        ents = g.expr(a[1], 10)
        c.ok(g.has(a[1], C("try_get_log_entries", "get_log_entries", "limited_get_log_entries", "RaftLogReaderExt::get_log_entries", "RaftLogReader::try_get_log_entries")), "entries:%s" % s.key(), "the entries applied are %s" % fmt(ents))
        c.ok(not g.has(a[1], C("rev", "Iterator::rev")), "order:%s" % s.key(), "the entries applied are %s" % fmt(ents))
    for s in g.calls("RaftLogReader::try_get_log_entries", "RaftLogReaderExt::get_log_entries", "RaftLogReader::limited_get_log_entries"):
        e = g.expr(s.args()[1], 12)
        f, l = payload("Apply", "first"), payload("Apply", "last")
        lo = find_range(g, s.args())
        c.ok(lo is not None, "range:%s" % s.key(), "the entries are read from %s" % fmt(e))
        if lo is None:
            continue
        a, b, inc = lo
        c.ok(esub(f, a) and not plus_one(a) and not esub(l, a), "first:%s" % s.key(), "the entries are read from %s" % fmt(a))
        c.ok(esub(l, b) and not esub(f, b) and (inc != plus_one(b)), "last:%s" % s.key(), "the entries are read up to %s" % fmt(b))
    n = 0
    for s in g.cons("ApplyResult"):
        n += 1
        for fl in ("last_applied",):
            e = g.expr(s.field(fl), 10)
            if find_call(e, ("last", "slice::last", "next_back", "pop")) is not None and esub(lambda q: q[0] == "await" and nm(q[1], ("try_get_log_entries", "RaftLogReader::try_get_log_entries")), e):
                c.notes.append("the position reported as applied is that of the last entry read")
                continue
            c.ok(payload("Apply", "last")(e), "report:%s" % s.key(), "%s is reported as %s" % (fl, fmt(g.expr(s.field(fl), 10))))
        okr = ism("Result", ("Ok",), X(lambda e: peel(e)[0] == "await" and nm(peel(e)[1], ("apply", "RaftStateMachine::apply"))))
        c.guard(g, s, okr, "report-before:%s" % s.key(), "entries are reported applied before the state machine applied them")
    c.floor(n, "apply results", 1)
    # nothing is spawned per request except snapshot building
    for f, caps, site in spawned(c, g):
        txt = " ".join(sorted(str(t[1]) for b in f.blocks for t in [b[1]] if t[0] == "call" and t[1][0] == "fn"))
        c.ok("RaftStateMachine::apply" not in txt and "install_snapshot" not in txt, "spawn:%s" % f.name, "a state machine change runs in a separate task (%s)" % f.name)


def nearest(s, sites):
    """The sites sharing the innermost inlining frame with s."""

    def ctxs(z):
        x, out = z.x.ig.blocks[z.b].ctx, []
        while x is not None:
            out.append(id(x))
            x = x.parent
        return out

    mine = ctxs(s)
    best = {}
    for z in sites:
        zs = set(ctxs(z))
        d = next((i for i, x in enumerate(mine) if x in zs), len(mine))
        best.setdefault(d, []).append(z)
    return best[min(best)] if best else []


def parts(e, d=0):
    """Every sub-expression."""
    if d > 16 or not isinstance(e, tuple) or not e or not isinstance(e[0], str):
        return
    yield e
    if e[0] in ("field", "var", "idx"):
        kids = [e[1]]
    elif e[0] == "phi":
        kids = e[1]
    elif e[0] in ("call", "await", "agg"):
        kids = e[2]
    elif e[0] == "bin":
        kids = e[2:4]
    elif e[0] == "un":
        kids = e[2:3]
    else:
        kids = []
    for k in kids:
        yield from parts(k, d + 1)


def find_range(g, args):
    """(low, high, inclusive) of a range argument, or of two index arguments."""
    e = g.expr(args[1], 12)
    r = find_agg(e, ("RangeInclusive", "Range"))
    if r is not None and len(r[2]) >= 2:
        return r[2][0], r[2][1], "Inclusive" in r[1][1]
    q = find_call(e, ("RangeInclusive::new",))
    if q is not None:
        return q[2][0], q[2][1], True
    if len(args) > 2:
        return e, g.expr(args[2], 12), False
    return None
