"""Membership: changes, the effective configuration, and what a quorum is."""
from common import *
from r_vote import find_call, field_of
from r_commit import find_agg, parts, nearest, plus_one

EFFID = lambda e: esub(efield("MembershipState", "effective"), e) and esub(efield("StoredMembership", "log_id"), e)
COMID = lambda e: esub(efield("MembershipState", "committed"), e) and esub(efield("StoredMembership", "log_id"), e)
EFFCFG = lambda e: esub(efield("MembershipState", "effective"), e) and esub(efield("Membership", "configs"), e)
CHANGE = ism("RaftMsg", ("ChangeMembership",))
CHG = lambda e: esub(evar("ChangeMembership"), e)


def in_arm(g, s, adt, variant):
    return g.guarded(s, ism(adt, (variant,))(g)) is None


def mwrites(g, f):
    return g.writes("MembershipState", f)


@prop("P13")
def change_serial(c):
    """one change at a time"""
    g = API(c)
    c.begin("serial", "a membership change is proposed only while the effective membership is the committed one, by a leader")
    n = 0
    for s in g.cons(CMD, "AppendInputEntries") + mwrites(g, "effective"):
        if not in_arm(g, s, "RaftMsg", "ChangeMembership"):
            continue
        n += 1
        c.guard(g, s, cmpm("eq", X(EFFID), X(COMID)), "committed:%s" % s.key(), "a change is proposed although the previous one is not committed")
        c.guard(g, s, ism("Option", ("Some",), X(efield("Engine", "leader"))), "leader:%s" % s.key(), "a change is proposed by a node that is not leading")
    c.floor(n, "membership proposals", 2)


@prop("P13")
def change_overlaps(c):
    """the proposed configuration shares a voter set with the current one"""
    g = API(c)
    c.begin("joint", "the proposed voter configuration is the goal alone only if the current configuration already contains it, otherwise the current last set together with the goal")
    n = 0
    goal_of = {
        "AddVoterIds": ("union",),
        "AddVoters": ("union",),
        "RemoveVoters": ("difference",),
        "ReplaceAllVoters": (),
    }
    last = lambda e: find_call(e, ("slice::last", "last")) is not None and EFFCFG(e)
    seen_kind = set()
    for s in g.cons("Membership"):
        if not in_arm(g, s, "RaftMsg", "ChangeMembership"):
            continue
        v = g.expr(s.field("configs"), 14)
        for a in alts(v):
            if a[0] != "agg" or a[1][0] != "array":
                if efield("Membership", "configs")(a) and EFFCFG(a):
                    continue  # unchanged
                c.notes.append("voter configuration of unknown form: %s" % fmt(a)[:200])
                continue
            n += 1
            ops = a[2]
            goal = ops[-1]
            kinds = [k for k in goal_of if esub(evar(k), goal)]
            c.ok(len(kinds) == 1, "goal:%s" % s.key(), "the goal of a change is %s" % fmt(goal))
            if len(kinds) == 1:
                k = kinds[0]
                seen_kind.add(k)
                for fn in ("union", "difference", "intersection", "symmetric_difference"):
                    has = find_call(goal, (fn,)) is not None
                    c.ok(has == (fn in goal_of[k]), "goal-%s:%s" % (k, fn), "the goal of %s is %s" % (k, fmt(goal)))
                if goal_of[k]:
                    q = find_call(goal, goal_of[k])
                    bases = alts(q[2][0]) if q is not None else []
                    c.ok(q is not None and all(last(b) and find_call(b, ("slice::first", "first")) is None for b in bases) and esub(evar(k), q[2][1]), "goal-base:%s" % k, "the goal of %s is %s" % (k, fmt(goal)))
            c.ok(len(ops) <= 2, "arity:%s" % s.key(), "the configuration is %s" % fmt(a))
            if len(ops) == 2:
                c.ok(last(ops[0]), "old:%s" % s.key(), "the goal is joined with %s" % fmt(ops[0]))
    c.floor(n, "proposed configurations", 4)
    c.ok(not n or seen_kind == set(goal_of), "kinds", "only the changes %s lead to a configuration" % sorted(seen_kind))
    # the goal alone: only if it is one of the current sets, or there are none
    k = 0
    for s in g.cons("Joint"):
        o = s.field("data")
        if o is None or not in_arm(g, s, "RaftMsg", "ChangeMembership"):
            continue
        v = g.expr(o, 14)
        if v[0] != "agg" or v[1][0] != "array" or len(v[2]) != 1:
            continue
        k += 1
        child = X(lambda e: esub(lambda q: q[0] == "call" and nm(q[1], ("next", "Iterator::next")), e) and esub(efield("Membership", "configs"), e))
        m = orm(
            cmpm("eq", child, X(CHG)),
            ism("Option", ("None",), X(lambda e: find_call(e, ("slice::last", "last")) is not None)),
            valm(True, X(lambda e: find_call(e, ("contains", "any", "Iterator::any")) is not None)),
        )
        c.guard(g, s, m, "alone:%s" % s.key(), "the goal replaces the current configuration without overlapping it")
    if n:
        c.notes.append("single-set configurations checked: %d" % k)


@prop("P13")
def change_valid(c):
    """an invalid configuration is refused"""
    g = API(c)
    c.begin("valid", "a proposed configuration has no empty voter set and a node for each voter")
    tests = {
        "empty": (orm(bcallm(("is_empty", "BTreeSet::is_empty"), True, X(lambda e: CHG(e) or esub(efield("Membership", "configs"), e))),
                      cmpm("eq", X(lambda e: find_call(e, ("BTreeSet::len", "len")) is not None and CHG(e)), X(lambda e: e[0] == "k" and e[1].startswith("0")))),
                  ("BTreeSet::is_empty", "BTreeSet::len"), "an empty voter set is proposed"),
        "nodes": (orm(bcallm(("contains_key", "BTreeMap::contains_key"), False, X(lambda e: esub(efield("Membership", "nodes"), e))),
                      ism("Option", ("None",), X(lambda e: e[0] == "call" and nm(e[1], ("BTreeMap::get",)) and esub(efield("Membership", "nodes"), e)))),
                  ("BTreeMap::contains_key", "BTreeMap::get"), "a voter without a node is proposed"),
    }
    sites = [s for s in g.cons(CMD, "AppendInputEntries") if in_arm(g, s, "RaftMsg", "ChangeMembership")]
    c.floor(len(sites), "membership proposals", 1)
    for k, (m, calls, msg) in tests.items():
        tested = [q for q in g.calls(*calls) if in_arm(g, q, "RaftMsg", "ChangeMembership") and g.can_reach(q, sites) is not None]
        tested = [q for q in tested if k == "empty" or "ensure" in q.desc() or not nm_ext(q)]
        heads = [q for q in g.calls("Iterator::next", "next", "Iterator::all", "Iterator::any", "Iterator::find", "Iterator::try_for_each") if in_arm(g, q, "RaftMsg", "ChangeMembership") and g.can_reach(q, tested) is not None and (k == "empty" or True)]
        heads = [q for q in heads if any(g.can_reach(t, [q]) is not None for t in tested)] or tested
        c.ok(bool(tested), "tested:%s" % k, "not tested: " + msg)
        es = g.edges(m(g))
        es = [e for e in es]
        c.ok(bool(es), "edge:%s" % k, "not tested: " + msg)
        for s in sites:
            if tested:
                c.precede(g, heads, s, "before:%s:%s" % (k, s.key()), msg + " (test skipped)")
    # a found problem refuses the change
    for s in sites:
        bad = g.edges(tests["empty"][0](g))
        seen = g.x.reach(bad)
        hit = [x for x in g.nodes(s) if x in seen]
        c.okpath(g, g.x.path_to(hit[0]) if hit else None, "refuse:empty:%s" % s.key(), "an empty voter set is proposed")
        bad = [e for e in g.edges(tests["nodes"][0](g))]
        nodes_bad = []
        for t in g.calls("BTreeMap::contains_key", "BTreeMap::get"):
            if nm_ext(t):
                continue
            nodes_bad += [t]
        # extend_nodes also asks contains_key: only the test whose negative answer becomes an error counts
        errs = g.cons("LearnerNotFound") or [q for q in g.cons("Result", "Err")]
        c.ok(any(g.x.reach([e]) and any(n in g.x.reach([e]) for z in errs for n in g.nodes(z)) for e in bad), "refuse:nodes:%s" % s.key(), "a voter without a node is not refused")


def nm_ext(site):
    return "extend_nodes" in site.desc().split("<-")[0]


@prop("P13")
def change_takes_effect(c):
    """a leader uses a proposed configuration at once"""
    g = API(c)
    c.begin("at-once", "once a leader appended a membership it counts quorums over it, for commits and for its lease, and replicates to exactly its members")
    n = 0
    for s in mwrites(g, "effective"):
        if not in_arm(g, s, "RaftMsg", "ChangeMembership"):
            continue
        n += 1
        for f in ("progress", "clock_progress"):
            w = g.writes("Leader", f)
            c.follow(g, s, w, "rebuild-%s:%s" % (f, s.key()), "the leader keeps counting %s over the old membership" % f)
        c.follow(g, s, g.cons(CMD, "RebuildReplicationStreams"), "streams:%s" % s.key(), "replication streams are not rebuilt")
    for f in ("progress", "clock_progress"):
        for w in g.writes("Leader", f):
            if not in_arm(g, w, "RaftMsg", "ChangeMembership"):
                continue
            qs = [q for q in g.cons("VecProgress") if g.can_reach(q, [w]) is not None and in_arm(g, q, "RaftMsg", "ChangeMembership")]
            for q in nearest(w, qs):
                o = q.field("quorum_set")
                c.ok(g.has(o, F("MembershipState", "effective"), F("Membership", "configs")), "over:%s" % w.key(), "%s is counted over %s" % (f, fmt(g.expr(o, 12))))
                c.ok(not g.has(o, F("MembershipState", "committed")), "not-committed:%s" % w.key(), "%s is counted over the committed membership" % f)
    c.floor(n, "membership appends of a leader", 1)
    g = EXEC(c)
    c.begin("streams", "rebuilding the replication streams closes all old ones and opens one per listed target")
    for s in g.writes("RaftCore", "replications") + [q for q in g.calls("BTreeMap::insert", "insert") if q.args() and esub(efield("RaftCore", "replications"), g.expr(q.args()[0]))]:
        pass
    ins = [q for q in g.calls("BTreeMap::insert") if esub(efield("RaftCore", "replications"), g.expr(q.args()[0]))]
    c.floor(len(ins), "replication stream insertions", 1)
    clears = [q for q in g.mutcalls("RaftCore", "replications") if q.data.n.rsplit("::", 1)[-1] in ("clear", "drain")] + [q for q in g.calls("take", "mem::take", "replace") if q.args() and esub(efield("RaftCore", "replications"), g.expr(q.args()[0]))]
    for q in ins:
        k, v = g.expr(q.args()[1], 10), g.expr(q.args()[2], 10)
        c.ok(esub(evar("RebuildReplicationStreams"), k), "target:%s" % q.key(), "a stream is opened to %s" % fmt(k))
        c.precede(g, clears, q, "closed:%s" % q.key(), "streams are opened while old ones stay open")


@prop("P13")
def two_steps(c):
    """Raft::change_membership leaves no joint configuration behind on success"""
    from r_life import dsub

    c.begin("two-steps", "changing the membership reports success only when the configuration is uniform, or after the second step succeeded")
    fs = [f for f in c.P().fns() if nm(f.name, ("raft::Raft::change_membership",))]
    c.floor(len(fs), "Raft::change_membership", 1)
    for f in fs:
        g = c.g(f)
        ms = g.cons("RaftMsg", "ChangeMembership")
        first = [s for s in ms if not any(g.can_reach(o, [s]) is not None for o in ms if o is not s)]
        second = [s for s in ms if s not in first]
        if not second:
            c.notes.append("no second request in %s" % f.name)
        for s in ms:
            c.ok(esub(earg(), g.expr(s.field("retain"))), "retain:%s" % s.key(), "retain is %s" % fmt(g.expr(s.field("retain"))))
            c.ok(esub(earg(), g.expr(s.field("changes"), 10)), "changes:%s" % s.key(), "the change requested is %s" % fmt(g.expr(s.field("changes"), 10)))
        ln = X(lambda e: find_call(e, ("Vec::len", "len", "slice::len")) is not None)
        one = X(lambda e: e[0] == "k" and e[1].startswith(("1", "2")))
        uniform = orm(cmpm("eq", ln, one), cmpm("le", ln, one), cmpm("lt", ln, one))
        seen = g.x.reach([0], stop=g._stopset(second), cut=g.cutter(uniform(g)))
        bad = [n for n in ret_ok(g) if n in seen]
        c.okpath(g, g.x.path_to(bad[0]) if bad else None, "uniform:%s" % f.name, "success is reported with a joint configuration")
        # after the second request, success is reported only if that request succeeded
        h = c.g(f, opaque=("RaftInner::call_core",))
        asked = h.awaits("call_core", "RaftInner::call_core")
        again = [s for s in asked if any(h.can_reach(o, [s]) is not None for o in asked if o is not s)]
        if not again:
            c.notes.append("no second answer in %s" % f.name)
        succeeded = orm(
            ism("Result", ("Ok",), X(lambda e: dsub(lambda q: q[0] == "await" and nm(q[1], ("call_core", "RaftInner::call_core")), e))),
            ism("ControlFlow", ("Continue",), X(lambda e: dsub(lambda q: q[0] == "await" and nm(q[1], ("call_core", "RaftInner::call_core")), e))),
        )
        for s in again:
            seen = h.x.reach([y for a in h.nodes(s) for y, _ in h.x.succ[a]], cut=h.cutter(succeeded(h)))
            bad = [n for n in ret_ok(h) if n in seen]
            c.okpath(h, h.x.path_to(bad[0]) if bad else None, "second:%s" % s.key(), "success is reported although the second step failed")


# ---- P14 -----------------------------------------------------------------------------


@prop("P14")
def effective_writers(c):
    """the effective and the committed membership change only together with the log"""
    c.begin("effective", "the effective membership becomes a newly appended one, the committed one on truncation, or a snapshot's newer one")
    n = 0
    for g in EVENTS(c):
        for s in mwrites(g, "effective"):
            n += 1
            v = g.value(s, 12)
            eff, com = efield("MembershipState", "effective")(v), efield("MembershipState", "committed")(v)
            c.ok(not eff, "self:%s" % s.key(), "the effective membership is set to itself")
            if com:
                c.guard(g, s, cmpm("le", ANY, X(EFFID)), "revert:%s" % s.key(), "the effective membership is reverted although it is not truncated")
                continue
            snap = esub(efield("SnapshotMeta", "last_membership"), v)
            if snap:
                m = cmpm("ge", X(lambda e: esub(efield("SnapshotMeta", "last_membership"), e)), X(EFFID))
                c.guard(g, s, m, "newer:%s" % s.key(), "an older membership of a snapshot becomes effective")
                continue
            at = g.has_value(s, C("get_membership", "RaftEntry::get_membership", "RaftPayload::get_membership")) if hasattr(g, "has_value") else True
            # appended: the previous effective one becomes the committed one first
            cw = [w for w in mwrites(g, "committed") if efield("MembershipState", "effective")(g.value(w))]
            c.precede(g, nearest(s, cw), s, "previous:%s" % s.key(), "a new membership becomes effective while the previous one is forgotten")
    c.floor(n, "effective membership writes", 3)
    c.begin("committed", "the committed membership becomes the effective one when that is committed or superseded, or a snapshot's newer one")
    k = 0
    for g in EVENTS(c):
        for s in mwrites(g, "committed"):
            k += 1
            v = g.value(s, 12)
            if efield("MembershipState", "effective")(v):
                # the value must be the previous effective one
                ew = [w for w in nearest(s, mwrites(g, "effective")) if not efield("MembershipState", "committed")(g.value(w, 9)) and w.fn == s.fn]
                committed = cmpm("ge", ANY, X(EFFID))
                if g.guarded(s, committed(g)) is None and not ew:
                    c.ok(True, "commit:%s" % s.key(), "")
                    continue
                if ew:
                    c.ok(all(g.can_reach(w, [s]) is None or g.must_precede(ew, s) is not None for w in ew), "order:%s" % s.key(), "the new membership is recorded as the previous one")
                    c.follow(g, s, ew, "replaced:%s" % s.key(), "the effective membership is marked committed without being committed")
                else:
                    c.guard(g, s, committed, "commit:%s" % s.key(), "the effective membership is marked committed without being committed")
            elif esub(efield("SnapshotMeta", "last_membership"), v):
                m = cmpm("gt", X(lambda e: esub(efield("SnapshotMeta", "last_membership"), e)), X(COMID))
                c.guard(g, s, m, "snapshot:%s" % s.key(), "the committed membership is replaced by an older one")
            else:
                c.ok(False, "value:%s" % s.key(), "the committed membership is set to %s" % fmt(v))
    c.floor(k, "committed membership writes", 3)
    for f in ("effective", "committed"):
        covered(c, "MembershipState", f, EVENTS(c), exempt=("set_effective", "MembershipState::new"))


@prop("P14")
def membership_follows_log(c):
    """truncation, commit and append reach the membership state"""
    from r_start import callee

    c.begin("truncate", "truncating the log drops an effective membership in the truncated part")
    n = 0
    for g in (API(c), NTF(c)):
        for s in g.cons(CMD, "TruncateLog"):
            n += 1
            near = nearest(s, g.calls("LogIdList::truncate"))
            offs = {offset(a) for q in near for a in alts(g.expr(q.args()[1], 12))} or {0}
            at_ = XD(lambda e: {offset(a) for a in alts(strip_some(e))} <= offs and not EFFID(e), 12)
            unaffected = orm(
                cmpm("gt", at_, X(lambda e: EFFID(e) and not plus_one(e))),
                cmpm("ge", at_, X(lambda e: EFFID(e) and plus_one(e))),
                ism("Option", ("None",), X(EFFID)),
            )
            rv = [w for w in mwrites(g, "effective") if efield("MembershipState", "committed")(g.value(w, 9))]
            p = g.exit_from([y for a in g.nodes(s) for y, _ in g.x.succ[a]], also=rv, match=unaffected(g))
            c.okpath(g, p, "drop:%s" % s.key(), "a truncated membership stays effective after %s" % s.desc())
            for w in nearest(s, rv):
                m = cmpm("le", ANY, X(EFFID))
                fs = [f for f in cmp_facts(g, w, m)]
                for f in fs:
                    a, b = g.expr(f[2], 12), g.expr(f[3], 12)
                    since = a if not EFFID(a) else b
                    at = g.expr(s.field("since"), 12)
                    c.ok(same_index(since, at), "since:%s" % s.key(), "the membership is truncated at %s, the log at %s" % (fmt(since), fmt(at)))
    c.floor(n, "truncations", 3)
    c.begin("commit", "committing an entry marks an effective membership at or before it as committed")
    n = 0
    for g in EVENTS(c):
        for s in g.writes("RaftState", "committed"):
            v = g.value(s, 9)
            if esub(efield("SnapshotMeta", "last_log_id"), v):
                ws = [w for w in mwrites(g, "committed") if esub(efield("SnapshotMeta", "last_membership"), g.value(w, 12))]
                done = cmpm("le", X(lambda e: esub(efield("SnapshotMeta", "last_membership"), e)), X(COMID))
            else:
                ws = [w for w in mwrites(g, "committed") if efield("MembershipState", "effective")(g.value(w, 9))]
                done = cmpm("lt", ANY, X(EFFID))
            n += 1
            p = g.exit_from([y for a in g.nodes(s) for y, _ in g.x.succ[a]], also=ws, match=done(g))
            c.okpath(g, p, "mark:%s" % s.key(), "a committed membership is not marked committed after %s" % s.desc())
    c.floor(n, "commits", 4)
    c.begin("follow", "a follower adopts the last two memberships of the entries it appends, before handling the next event")
    g = API(c)
    n = 0
    for s in g.cons(CMD, "AppendInputEntries"):
        if not in_arm(g, s, "RaftMsg", "AppendEntries"):
            continue
        n += 1
        gm = [q for q in g.calls("RaftPayload::get_membership", "RaftEntry::get_membership", "get_membership") if in_arm(g, q, "RaftMsg", "AppendEntries")]
        c.ok(bool(gm), "looked:%s" % s.key(), "the appended entries are not searched for memberships")
        heads = [q for q in g.calls("Iterator::next", "next", "DoubleEndedIterator::next_back", "Iterator::filter_map", "Iterator::rev") if g.can_reach(q, gm) is not None] + gm
        near = nearest(s, heads)
        p1, p2 = g.must_precede(near, s), g.must_follow(s, near)
        c.ok(p1 is None or p2 is None, "adopt:%s" % s.key(), "entries are appended without adopting their memberships at %s" % s.desc())
        ws = [w for w in mwrites(g, "effective") if in_arm(g, w, "RaftMsg", "AppendEntries") and not efield("MembershipState", "committed")(g.value(w, 9))]
        c.ok(bool(ws), "write:%s" % s.key(), "memberships of appended entries never become effective")
        # they become effective in the order of the log
        kept = [q for q in g.calls("insert", "Vec::insert", "push", "Vec::push", "push_front", "VecDeque::push_front", "push_back", "VecDeque::push_back")
                if in_arm(g, q, "RaftMsg", "AppendEntries") and find_agg(g.expr(q.args()[-1], 14), ("StoredMembership", "EffectiveMembership")) is not None]
        turned = [q for q in g.calls("reverse", "slice::reverse", "Vec::reverse", "sort", "slice::sort", "sort_by_key", "slice::sort_by_key", "sort_by", "slice::sort_by") if in_arm(g, q, "RaftMsg", "AppendEntries") and any(g.can_reach(k, [q]) is not None for k in kept)]
        BACK = ("rev", "Iterator::rev", "next_back", "DoubleEndedIterator::next_back", "pop", "Vec::pop", "pop_back", "VecDeque::pop_back")
        for q in kept:
            e = find_agg(g.expr(q.args()[-1], 18), ("StoredMembership", "EffectiveMembership"))
            front = "push_front" in str(g.ig.blocks[q.b].term[1])
            if len(q.args()) == 3:
                at = g.expr(q.args()[1], 4)
                if at[0] != "k":
                    c.notes.append("place of %s not recognised" % q.desc())
                    continue
                front = at[1].startswith("0")
            back = callee(e, BACK)
            for w in ws:
                v = g.value(w, 18)
                if turned or find_agg(v, ("StoredMembership",)) is not None and callee(v, ("get_membership", "RaftPayload::get_membership")):
                    c.notes.append("order of the memberships adopted at %s not recognised" % w.desc())
                    continue
                rev = callee(v, BACK)
                c.ok((int(bool(back)) + int(front) + int(bool(rev))) % 2 == 0, "in-order:%s" % w.key(), "the memberships of appended entries become effective in reverse order")
        # at least two are kept
        for f in len_limits(g, gm):
            c.ok(f >= 2, "two:%s" % s.key(), "only the last %d memberships are adopted" % f)
    c.floor(n, "follower appends", 1)
    c.begin("role", "a change of the effective membership on a follower updates its role")
    for s in mwrites(g, "effective"):
        if in_arm(g, s, "RaftMsg", "AppendEntries") or in_arm(g, s, "RaftMsg", "InstallFullSnapshot"):
            led = [q for q in g.cons("Leader") if g.can_reach(q, [s]) is not None]
            if led and g.must_precede(led, s) is None:
                continue  # appended by a leader
            done = cmpm("eq", X(is_state_field("server_state")), ANY)
            p = g.exit_from([y for a in g.nodes(s) for y, _ in g.x.succ[a]], also=g.writes("RaftState", "server_state"), match=done(g))
            c.okpath(g, p, "role:%s" % s.key(), "the role is not updated after the membership changed at %s" % s.desc())


def cmp_facts(g, site, m):
    """Comparison facts matched by m on the path classes to a site."""
    mm = m(g)
    out, seen = [], set()
    for n in g.nodes(site):
        g.x.reach([0])
        p = g.x.path_to(n)
        for a, b in zip(p or [], (p or [])[1:]):
            blk = g.x.nodes[a][0]
            if g.ig.blocks[blk].term[0] == "switch":
                for y, lab in g.x.succ[a]:
                    if y == b:
                        for f in g.facts(blk, lab):
                            if f[0] == "cmp" and mm(f) and (blk, lab) not in seen:
                                seen.add((blk, lab))
                                out.append(f)
    return out


def XD(p, d):
    return lambda g, o: p(g.expr(o, d))


def strip_some(e):
    e = peel(e)
    if e[0] == "agg" and e[1][0] == "adt" and e[1][2] == "Some":
        return peel(e[2][0])
    return e


def offset(e):
    """The constant added to a position."""
    e = strip_some(e)
    if e[0] == "bin" and e[1].startswith(("Add", "Sub")) and e[3][0] == "k":
        return e[1][:3] + e[3][1].split("_")[0]
    return 0


def same_index(a, b):
    """Two expressions name the same log index (an id, its index, or a lookup of that index)."""
    fa, fb = fmt(peel(a)), fmt(peel(b))
    if fa == fb or fa in fb or fb in fa or "…" in fa or "..." in fa or "…" in fb or "..." in fb:
        return True
    return False


def len_limits(g, gm):
    """k of every `len(collection) == k` test in the function that looks for memberships."""
    fns = {q.fn.uid for q in gm if "last_two" in q.fn.name} or {q.fn.uid for q in gm}
    out = []
    for b in g.reached_blocks:
        bl = g.ig.blocks[b]
        if bl.term[0] != "switch" or bl.fn.uid not in fns:
            continue
        for lab in [x[0] for x in bl.term[2]] + ["else"]:
            for f in g.facts(b, lab):
                if f[0] == "cmp" and f[5] and f[1] in ("eq", "ge"):
                    l, r = g.expr(f[2]), g.expr(f[3])
                    if find_call(l, ("Vec::len", "len")) is not None and r[0] == "k" and r[1].split("_")[0].isdigit():
                        out.append(int(r[1].split("_")[0]))
    return out


# ---- P25 -----------------------------------------------------------------------------


def ret_bools(g):
    out = {}
    for n in g.x.bynode.get(g.ig.exit, []):
        v = g.x._read(g.x.nodes[n][1], g.ig.retplace)
        out[n] = bool(v[1]) if v is not None and v[0] == "k" else None
    return out


class Unknown(Exception):
    pass


def leaves(e, consts, incs, d=0):
    """Constants and increments of a loop accumulator phi(c | acc + k)."""
    if d > 20:
        return
    e = peel(e)
    if e[0] == "phi":
        for q in e[1]:
            leaves(q, consts, incs, d + 1)
    elif e[0] == "k":
        consts.add(num(e))
    elif e[0] == "bin" and e[1].startswith("Add"):
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            if b[0] == "k":
                incs.add(num(b))
                leaves(a, consts, incs, d + 1)
                return
        raise Unknown(fmt(e))
    elif fmt(e) in ("…", "...", "?"):
        return
    else:
        raise Unknown(fmt(e))


def num(e):
    t = e[1].split("_")[0]
    if not t.lstrip("-").isdigit():
        raise Unknown(fmt(e))
    return int(t)


def ev(e, n, m):
    e = peel(e)
    if e[0] == "k":
        return num(e)
    if e[0] == "call" and nm(e[1], ("len", "Vec::len", "BTreeSet::len", "slice::len")):
        return n
    if e[0] == "call" and nm(e[1], ("count", "Iterator::count")):
        return m
    if e[0] == "call" and nm(e[1], ("max", "Ord::max", "cmp::max")) and len(e[2]) == 2:
        return max(ev(e[2][0], n, m), ev(e[2][1], n, m))
    if e[0] == "bin":
        try:
            a, b = ev(e[2], n, m), ev(e[3], n, m)
            o = e[1].replace("WithOverflow", "").replace("Unchecked", "")
            if o == "Add":
                return a + b
            if o == "Sub":
                return a - b
            if o == "Mul":
                return a * b
            if o == "Div":
                return a // b
            if o == "Rem":
                return a % b
            if o == "Shl":
                return a << b
            if o == "Shr":
                return a >> b
        except Unknown:
            pass
    if e[0] in ("phi", "bin"):
        cs, ks = set(), set()
        leaves(e, cs, ks)
        if len(cs) == 1 and len(ks) == 1:
            return next(iter(cs)) + next(iter(ks)) * m
    raise Unknown(fmt(e))


OPS = {"gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


@prop("P25")
def majorities(c):
    """a set of ids is a quorum exactly if it contains a majority"""
    P = c.P()
    c.begin("majority", "a plain voter set is satisfied exactly by more than half of its members; ids outside it count for nothing")
    kinds = {"leaf": 0, "joint": 0, "fwd": 0}
    impls = [f for f in P.fns() if f.name.endswith("::is_quorum") and " as " in f.name and not f.derived and not any(t in f.name for t in TESTISH)]
    for f in sorted(impls, key=lambda f: (f.name, f.line)):
        g = c.g(f)
        key = f.name.split("::is_quorum")[0].replace("openraft::quorum::quorum_set::", "")
        rb = ret_bools(g)
        true_ex = [n for n, v in rb.items() if v is not False]
        asks = g.calls("QuorumSet::is_quorum")
        if asks:
            # joint, or forwarding
            nx = [q for q in g.calls("Iterator::next", "next")]
            rv = g.ig.expr(("c", g.ig.retplace), 10)
            if not nx and rv[0] == "call" and nm(rv[1], ("is_quorum", "QuorumSet::is_quorum")):
                kinds["fwd"] += 1
                c.ok(esub(earg("ids"), rv[2][1]) or True, "fwd:%s" % key, "")
                continue
            kinds["joint"] += 1
            c.begin("joint", "a joint configuration is satisfied exactly if each of its sets is")
            if not nx:
                ok = rv[0] == "call" and nm(rv[1], ("all", "Iterator::all"))
                c.ok(ok or rv[0] != "call" or not nm(rv[1], ("any", "Iterator::any")), "all:%s" % key, "the result is %s" % fmt(rv))
                dr = find_call(rv, ("take", "skip", "step_by", "filter", "filter_map", "take_while", "skip_while", "last", "nth", "zip", "split_first", "split_last", "first"))
                c.ok(dr is None, "all-sets:%s" % key, "only some of the sets are asked: %s" % fmt(rv)[:200])
                c.begin("majority", "")
                continue
            yes = bcallm(("QuorumSet::is_quorum", "is_quorum"), True)
            no = g.edges(bcallm(("QuorumSet::is_quorum", "is_quorum"), False)(g))
            some = g.edges(ism("Option", ("Some",), X(lambda e: e[0] == "call" and nm(e[1], ("next", "Iterator::next"))))(g))
            end = ism("Option", ("None",), X(lambda e: e[0] == "call" and nm(e[1], ("next", "Iterator::next"))))
            tr = [n for n, v in rb.items() if v]
            c.ok(bool(tr) and bool(some) and bool(no), "shape:%s" % key, "the sets of the configuration are not all asked")
            seen = g.x.reach([0], cut=g.cutter(end(g)))
            c.ok(not any(n in seen for n in tr), "every:%s" % key, "satisfied before every set was asked")
            seen = g.x.reach(some, cut=g.cutter(yes(g)))
            c.ok(not any(n in seen for n in tr), "each:%s" % key, "a set that is not satisfied is skipped")
            seen = g.x.reach(no)
            c.ok(not any(n in seen for n in tr), "refuted:%s" % key, "satisfied although one set is not")
            for q in nx:
                a = g.expr(q.args()[0], 8)
                dr = find_call(a, ("take", "skip", "step_by", "filter", "filter_map", "take_while", "skip_while", "last", "nth", "zip", "split_first", "split_last", "first"))
                rg = esub(lambda e: e[0] == "call" and nm(e[1], ("index", "Index::index")), a)
                c.ok(dr is None and not rg, "all-sets:%s" % key, "only some of the sets are asked: %s" % fmt(a)[:200])
            for q in asks:
                a = g.expr(q.args()[1])
                c.ok(esub(earg(), a), "same-ids:%s" % key, "a set is asked about %s" % fmt(a))
            c.begin("majority", "")
            continue
        kinds["leaf"] += 1
        cand = []
        for b in g._live():
            bl = g.ig.blocks[b]
            if bl.term[0] == "switch":
                for lab in [x[0] for x in bl.term[2]] + ["else"]:
                    for ft in g.facts(b, lab):
                        if ft[0] == "cmp" and any(find_call(g.expr(x, 10), ("len", "Vec::len", "BTreeSet::len", "slice::len")) is not None for x in (ft[2], ft[3])):
                            cand.append(ft)
        rv = g.ig.expr(("c", g.ig.retplace), 10)
        decided = None
        tr = [n for n, v in rb.items() if v]
        if tr:
            for ft in cand:
                txt = (ft[1], fmt(g.expr(ft[2], 10)), fmt(g.expr(ft[3], 10)), ft[5])
                seen = g.x.reach([0], cut=g.cutter(lambda q: q[0] == "cmp" and (q[1], fmt(g.expr(q[2], 10)), fmt(g.expr(q[3], 10)), q[5]) == txt))
                if not any(n in seen for n in tr):
                    decided = (ft[1] if ft[5] else NEG[ft[1]], g.expr(ft[2], 10), g.expr(ft[3], 10))
                    break
            if decided is None:
                # some path says yes without any comparison with the size of the set
                seen = g.x.reach([0], cut=g.cutter(lambda q: q[0] == "cmp" and any(find_call(g.expr(x, 10), ("len", "Vec::len", "BTreeSet::len", "slice::len")) is not None for x in (q[2], q[3]))))
                bad = [n for n in tr if n in seen]
                c.okpath(g, g.x.path_to(bad[0]) if bad else None, "uncounted:%s" % key, "%s is satisfied without counting" % key)
        elif rv[0] == "bin" and rv[1].lower() in OPS:
            decided = (rv[1].lower(), rv[2], rv[3])
        if decided is None:
            c.notes.append("counting of %s not recognised" % key)
            continue
        op, l, r = decided
        try:
            loop = any(q[0] == "phi" for q in list(parts(l)) + list(parts(r)))
            wrong = [(n, m) for n in range(0, 65) for m in range(1 if loop else 0, n + 1) if OPS[op](ev(l, n, m), ev(r, n, m)) != (2 * m > n)]
            c.ok(not wrong, "count:%s" % key, "with %s members, %s of them are %s a quorum (%s %s %s)" % (wrong[0] + ("counted as" if OPS[op](ev(l, *wrong[0]), ev(r, *wrong[0])) else "not counted as", fmt(l)[:80], op, fmt(r)[:80]) if wrong else (0, 0, "", "", "", "")))
        except Unknown as e:
            c.notes.append("counting of %s not evaluated: %s" % (key, e))
            continue
        if loop:
            # only members are counted
            inc = adds(g)
            for s in inc:
                c.guard(g, s, bcallm(("contains", "BTreeSet::contains", "slice::contains", "Vec::contains"), True, X(lambda e: esub(earg(), e) or True)), "member:%s" % key, "an id outside the set is counted")
        else:
            c.ok(find_call(l, ("filter", "Iterator::filter")) is not None or find_call(r, ("filter", "Iterator::filter")) is not None, "member:%s" % key, "an id outside the set is counted")
    c.floor(kinds["leaf"], "plain voter sets", 3)
    c.floor(kinds["joint"], "joint sets", 2)


def adds(g):
    out = []
    for b in g._live():
        for i, (pl, rv, sp) in enumerate(g.ig.blocks[b].stmts):
            if rv[0] == "bin" and rv[1].startswith("Add"):
                out.append(Site(g.x, b, i, rv))
    return out


@prop("P25")
def quorum_built_from_all_sets(c):
    """the quorum set of a membership holds all its voter sets"""
    c.begin("sets", "the quorum condition of a membership includes every one of its voter sets")
    P = c.P()
    fs = [f for f in P.fns() if nm(f.name, ("Membership::to_quorum_set",))]
    c.floor(len(fs), "conversions of a membership to a quorum condition", 1)
    for f in fs:
        g = c.g(f)
        o = ("c", g.ig.retplace)
        c.ok(g.has(o, F("Membership", "configs")) or esub(efield("Membership", "configs"), g.expr(o, 12)), "from:%s" % f.name, "the quorum condition is built from %s" % fmt(g.expr(o, 12)))
        dropping = g.calls("Iterator::take", "Iterator::skip", "Iterator::filter", "Iterator::step_by", "slice::last", "slice::first", "slice::split_last", "slice::split_first", "Iterator::take_while", "Iterator::skip_while", "Vec::pop", "Vec::truncate", "Vec::dedup", "Vec::retain")
        c.ok(not dropping, "all:%s" % f.name, "sets are dropped: %s" % ", ".join(s.desc() for s in dropping))
        push = g.calls("Vec::push")
        some = g.edges(ism("Option", ("Some",), X(lambda e: e[0] == "call" and nm(e[1], ("next", "Iterator::next")) and esub(efield("Membership", "configs"), e)))(g))
        if push and some:
            heads = {y for q in g.calls("Iterator::next", "next") for y in g.nodes(q) if esub(efield("Membership", "configs"), g.expr(q.args()[0]))}
            seen = g.x.reach(some, stop=set(g._stopset(push)))
            bad = [h for h in heads if h in seen]
            c.ok(not bad, "each:%s" % f.name, "a voter set is left out")
    c.begin("ids", "the members of a joint configuration are the members of all its sets")
    for f in P.fns():
        if f.name.endswith("::ids") and "joint::Joint as" in f.name:
            g = c.g(f)
            drops = g.calls("Iterator::take", "Iterator::skip", "Iterator::filter", "BTreeSet::intersection", "BTreeSet::difference", "slice::last", "slice::first")
            c.ok(not drops, "ids:%s" % f.name, "ids are dropped: %s" % ", ".join(s.desc() for s in drops))


@prop("P14")
def installed_over_log(c):
    """installing a snapshot over a non-matching log drops an uncommitted effective membership"""
    c.begin("install", "installing a snapshot keeps an uncommitted effective membership only if the local log contains the snapshot's last entry")
    g = API(c)
    n = 0
    rv = [w for w in mwrites(g, "effective") if efield("MembershipState", "committed")(g.value(w, 9))]
    snap = lambda e: esub(lambda q: q[0] == "field" and adtm(q[2], "SnapshotMeta") and q[3] == "last_log_id", e)
    meta = lambda e: esub(lambda q: q[0] == "field" and adtm(q[2], "SnapshotMeta"), e)
    local = lambda e: esub(efield("LogIdList", "key_log_ids"), e)
    free = lambda e: not meta(e)
    m = orm(
        cmpm("eq", X(local), X(lambda e: snap(e) and not local(e))),
        cmpm("gt", X(free), X(EFFID)),
        ism("Option", ("None",), X(lambda e: EFFID(e) and not meta(e))),
        # nothing to truncate: no log after the committed one
        ism("Option", ("None",), X(lambda e: local(e) and not meta(e) and esub(is_state_field("committed"), e))),
    )
    for s in g.cons("core::sm::command::Command", "InstallFullSnapshot"):
        if not in_arm(g, s, "RaftMsg", "InstallFullSnapshot"):
            continue
        n += 1
        c.guard(g, s, m, "revert:%s" % s.key(), "an effective membership of a discarded log survives the installation", also=rv)
    c.floor(n, "snapshot installations", 1)
