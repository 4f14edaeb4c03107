"""Replies wait for durability: what a node acknowledges has been stored."""
from common import *
from r_vote import find_call, field_of, granted_nodes

ACC = lambda e: esub(efield("IOProgress", "accepted"), e)


def replies(g, variant):
    """Respond commands answering the given kind of request."""
    p = payload(variant, "tx")
    return [s for s in g.cons(CMD, "Respond") if esub(lambda e: p(e), g.expr(s.field("resp")))]


def split_when(g, s):
    """({nodes with a condition}, {nodes without / unknown}, {condition variants}) of a Respond command."""
    some, none, kinds = [], [], set()
    for n, v in g.vals(s, s.field("when")).items():
        if v is not None and v[0] == "a" and v[1] == "Some" and v[2] and v[2][0] is not None:
            some.append(n)
            kinds.add(v[2][0][1])
        elif v is not None and v[0] == "a" and v[1] == "None":
            none.append(n)
        else:
            none.append(n)
            kinds.add("?")
    return some, none, kinds


@prop("P02")
def replies_wait(c):
    """acknowledgements carry the durability condition"""
    g = API(c)
    c.begin("append-ack", "a successful append reply waits until everything accepted before it is flushed")
    rs = replies(g, "AppendEntries")
    c.floor(len(rs), "append replies", 1)
    succ = g.cons("AppendEntriesResponse", "Success") + g.cons("AppendEntriesResponse", "PartialSuccess")
    c.floor(len(succ), "success replies", 1)
    for s in rs:
        some, none, kinds = split_when(g, s)
        c.ok(kinds <= {"IOFlushed"}, "cond:%s" % s.key(), "append reply waits for %s at %s" % (sorted(kinds), s.desc()))
        for q in succ:
            starts = g.nodes(q)
            seen = g.x.reach(starts)
            bad = [n for n in none if n in seen]
            c.okpath(g, g.x.path_to(bad[0]) if bad else None, "unconditional:%s" % s.key(), "success is replied without waiting for the flush at %s" % s.desc())
    c.begin("vote-ack", "a granted vote is replied only after the vote is flushed")
    rs = replies(g, "RequestVote")
    c.floor(len(rs), "vote replies", 1)
    for s in rs:
        some, none, kinds = split_when(g, s)
        c.ok(kinds <= {"IOFlushed"}, "cond:%s" % s.key(), "vote reply waits for %s at %s" % (sorted(kinds), s.desc()))
        for q in g.cons("VoteResponse"):
            ns = granted_nodes(g, q)
            seen = g.x.reach(ns) if ns else ()
            bad = [n for n in none if n in seen]
            c.okpath(g, g.x.path_to(bad[0]) if bad else None, "unconditional:%s" % s.key(), "a grant is replied without waiting for the flush at %s" % s.desc())
    c.begin("snapshot-ack", "a snapshot reply waits for the installation unless nothing has to be installed")
    rs = replies(g, "InstallFullSnapshot")
    c.floor(len(rs), "snapshot replies", 2)
    inst = g.cons("core::sm::command::Command", "InstallFullSnapshot")
    c.floor(len(inst), "snapshot installations", 1)
    for s in rs:
        some, none, kinds = split_when(g, s)
        c.ok(kinds <= {"Snapshot", "IOFlushed"}, "cond:%s" % s.key(), "snapshot reply waits for %s at %s" % (sorted(kinds), s.desc()))
        for q in inst:
            seen = g.x.reach(g.nodes(q))
            bad = [n for n in none if n in seen]
            c.okpath(g, g.x.path_to(bad[0]) if bad else None, "unconditional:%s" % s.key(), "snapshot acknowledged before its installation at %s" % s.desc())
            flush_only = [n for n, v in g.vals(s, s.field("when")).items() if n in seen and n in some and v[2][0][1] != "Snapshot"]
            c.okpath(g, g.x.path_to(flush_only[0]) if flush_only else None, "weak:%s" % s.key(), "snapshot acknowledged on log flush only at %s" % s.desc())
        if none:
            newer = lambda e: esub(payload("InstallFullSnapshot", "snapshot"), e) or esub(efield("SnapshotMeta", "last_log_id"), e)
            m = orm(
                cmpm("le", X(newer), st("committed")),
                cmpm("le", X(newer), X(lambda e: esub(efield("RaftState", "snapshot_meta"), e))),
            )
            nodes_guard(c, g, s, none, m, "skip:%s" % s.key(), "snapshot acknowledged at once although it is newer")
    for s in g.cons(COND, "Snapshot"):
        o = s.field("log_id")
        if o is not None:
            c.ok(esub(evar("InstallFullSnapshot"), g.expr(o)) or esub(lambda e: e[0] == "var" and e[2] == "PurgeLog", g.expr(o)), "id:%s" % s.key(), "snapshot condition on %s" % fmt(g.expr(o)))
    c.begin("init-ack", "an initialization reply waits until the membership log is flushed")
    rs = replies(g, "Initialize")
    c.floor(len(rs), "initialize replies", 1)
    apd = g.cons(CMD, "AppendInputEntries")
    for s in rs:
        some, none, kinds = split_when(g, s)
        c.ok(kinds <= {"LogFlushed", "IOFlushed"}, "cond:%s" % s.key(), "initialize reply waits for %s" % sorted(kinds))
        okr = g.edges(ism("Result", ("Ok",), X(lambda e: True))(g))
        for q in apd:
            if "initialize" not in g.ig.chain(q.b):
                continue
            seen = g.x.reach(g.nodes(q))
            bad = [n for n in none if n in seen]
            c.okpath(g, g.x.path_to(bad[0]) if bad else None, "unconditional:%s" % s.key(), "initialization acknowledged before its log is flushed at %s" % s.desc())


@prop("P02")
def waits_for_the_latest_io(c):
    """the awaited io is the latest accepted one"""
    g = API(c)
    c.begin("latest-io", "a reply waits for the latest accepted io: nothing is accepted or written between reading its id and queueing the reply")
    acc = g.writes("IOProgress", "accepted")
    n = 0
    for s in replies(g, "AppendEntries"):
        o = s.field("when")
        e = g.expr(o)
        loads = loads_of(g, o, "IOProgress", "accepted")
        c.ok(esub(efield("IOProgress", "accepted"), e), "src:%s" % s.key(), "append reply waits for %s at %s" % (fmt(e), s.desc()))
        n += len(loads)
        for l in loads:
            for w in acc + g.cons(CMD, "AppendInputEntries") + g.cons(CMD, "SaveVote") + g.cons(CMD, "UpdateIOProgress"):
                # load .. w .. s
                p = None
                if g.can_reach(l, [w]) is not None and g.can_reach(w, [s]) is not None:
                    # same request only: w must lie between
                    p = w
                c.ok(p is None, "moved:%s:%s" % (s.key(), w.key()), "the awaited io is read at %s before %s" % (l.desc(), w.desc()))
    c.floor(n, "reads of the accepted io", 1)
    c.begin("vote-io", "a vote reply waits for the io of the vote it reports")
    for s in replies(g, "RequestVote") + [r for r in replies(g, "InstallFullSnapshot") if split_when(g, r)[2] == {"IOFlushed"}]:
        e = g.expr(s.field("when"))
        c.ok(esub(is_vote_data, e) or esub(efield("IOProgress", "accepted"), e), "src:%s" % s.key(), "vote reply waits for %s at %s" % (fmt(e), s.desc()))
        ws = g.writes("Leased", "data")
        loads = [l for l in g.load_sites(s.field("when")) if isinstance(l.data, tuple)]
        for l in loads:
            if not prefix(g.lpath(l.data), VOTE):
                continue
            for w in ws:
                p = g.can_reach(l, [w]) is not None and g.can_reach(w, [s]) is not None
                c.ok(not p, "moved:%s:%s" % (s.key(), w.key()), "the awaited vote is read at %s before it changes at %s" % (l.desc(), w.desc()))


@prop("P02", "P12")
def accepted_covers_io(c):
    """the accepted io id covers every queued log write"""
    c.begin("accept", "every queued vote save or log append is recorded as accepted io, up to its last log id")
    n = 0
    for g in EVENTS(c)[:4]:
        acc = g.calls("RaftState::accept_io") + g.writes("IOProgress", "accepted")
        for s in g.cons(CMD, "AppendInputEntries") + g.cons(CMD, "SaveVote") + g.cons(CMD, "UpdateIOProgress"):
            n += 1
            p = g.must_precede(acc, s)
            if p is not None and pristine(g, s):
                c.follow(g, s, g.cons(CMD, "SendVote"), "placeholder:%s" % s.key(), "initialization must go on to vote for itself")
            elif p is not None:
                q = g.must_follow(s, acc)
                c.okpath(g, q, "unaccepted:%s" % s.key(), "io is queued without being accepted at %s" % s.desc())
            else:
                c.ok(True, "", "")
    c.floor(n, "queued log-store writes", 10)
    g = API(c)
    k = 0
    succ = g.cons("AppendEntriesResponse", "Success")
    for s in g.calls("RaftState::accept_io"):
        o = s.args()[1]
        if not esub(payload("AppendEntries", "rpc"), g.expr(o)) or not g.has(o, F("LogIOId", "log_id")) and not g.has(o, AGG("IOId", "Log")):
            continue
        if not esub(efield("AppendEntriesRequest", "prev_log_id"), g.expr(o)):
            continue
        k += 1
        at = g.expr(o)
        c.ok(esub(efield("AppendEntriesRequest", "entries"), at), "last:%s" % s.key(), "the accepted io of an append does not cover its last entry: %s" % fmt(at))
        c.ok(esub(lambda e: e[0] == "call" and nm(e[1], ("last", "slice::last", "max_by_key", "iter().max")), at), "lastfn:%s" % s.key(), "the accepted io of an append is %s" % fmt(at))
    c.floor(k, "accepted appends", 1)
    full = [s for s in g.calls("RaftState::accept_io") if esub(efield("AppendEntriesRequest", "entries"), g.expr(s.args()[1]))]
    for q in succ:
        c.precede(g, full, q, "success-unaccepted", "an append succeeds without recording its io")
    # monotonic
    for gg in EVENTS(c)[:4]:
        for w in gg.writes("IOProgress", "accepted"):
            v = gg.value(w)
            cur = X(lambda e: esub(efield("IOProgress", "accepted"), e))
            m = cmpm("gt", ANY, cur, total=False)
            c.guard(gg, w, m, "mono:%s" % w.key(), "the accepted io is replaced without being compared")


@prop("P02", "P12")
def commands_wait_for_conditions(c):
    """a command runs only when its condition holds"""
    g = EXEC(c)
    c.begin("condition", "a command with a condition takes effect only when the state it waits for has been reached")
    effects = (
        g.calls("Respond::send")
        + g.calls("RaftLogStorage::append", "RaftLogStorage::purge", "RaftLogStorage::truncate", "RaftLogStorage::save_vote", "RaftLogStorage::save_committed")
        + g.writes("IOProgress", "submitted")
        + [s for s in g.calls("MpscUnboundedSender::send")]
    )
    c.floor(len(effects), "command effects", 8)
    cond = lambda e: esub(lambda q: q[0] == "field" and q[3] in ("when",), e)
    io = X(lambda e: esub(efield("IOState", "io_progress"), e) and esub(efield("IOProgress", "flushed"), e))
    whole = X(lambda e: efield("IOProgress", "flushed")(e) and esub(efield("IOState", "io_progress"), e))
    table = {
        "IOFlushed": (whole, X(eall(efield("Condition", "io_id")))),
        "LogFlushed": (io, X(lambda e: esub(efield("Condition", "log_id"), e))),
        "Applied": (X(lambda e: esub(efield("IOState", "applied"), e)), X(lambda e: esub(efield("Condition", "log_id"), e))),
        "Snapshot": (X(lambda e: esub(efield("IOState", "snapshot"), e)), X(lambda e: True)),
    }
    allio = ism(COND, ("SubmittedFlushed",))
    if g.edges(allio(g)):
        table["SubmittedFlushed"] = (whole, X(lambda e: efield("IOProgress", "submitted")(e)))
    for v, (l, r) in table.items():
        starts = g.edges(ism(COND, (v,))(g))
        c.ok(bool(starts), "arm:%s" % v, "condition %s is not examined" % v)
        m = cmpm("ge", l, r)
        for s in effects:
            p = g.guarded_from(starts, s, match=m(g)) if starts else None
            c.okpath(g, p, "early:%s:%s" % (v, short(s.data.n) if hasattr(s.data, "n") else "submit"), "a command waiting for %s takes effect early at %s" % (v, s.desc()))
    # the condition is examined before any effect
    examined = orm(
        ism(COND, ("IOFlushed",)), ism(COND, ("LogFlushed",)), ism(COND, ("Applied",)), ism(COND, ("Snapshot",)), allio,
        ism("Option", ("None",), X(lambda e: esub(lambda q: q[0] == "field" and q[3] == "when", e))),
    )
    for s in effects:
        c.guard(g, s, examined, "unexamined:%s" % (short(s.data.n) if hasattr(s.data, "n") else "submit"), "a command takes effect without looking at its condition")
    c.begin("condition-of", "the condition of a command is the one it was queued with")
    cg = c.g("engine::command::Command::condition")
    exprs = fmt(cg.ig.pexpr(cg.ig.retplace)) if hasattr(cg.ig, "retplace") else ""
    for v in ("Respond", "UpdateIOProgress"):
        c.ok("as %s).when" % v in exprs, "map:%s" % v, "the condition of %s is %s" % (v, exprs))
    c.ok("PurgeLog" in exprs and "Snapshot" in exprs, "map:PurgeLog", "the condition of PurgeLog is %s" % exprs)


@prop("P02", "P12")
def flush_reports(c):
    """flushed is advanced only by completed io"""
    g = EXEC(c)
    c.begin("flush-report", "io is reported as flushed only after it completed")
    k = 0
    for s in g.calls("MpscUnboundedSender::send", "MpscUnboundedWeakSender::send"):
        e = g.expr(s.args()[1])
        for a in alts(e):
            if not (a[0] == "agg" and a[1][0] == "adt" and adtm(a[1][1], "Notification") and a[1][2] == "LocalIO"):
                continue
            k += 1
            io = a[2][0]
            if esub(evar("SaveVote"), io):
                c.guard(g, s, ism("Result", ("Ok",), X(lambda e: peel(e)[0] == "await" and nm(peel(e)[1], ("save_vote",)))), "vote:%s" % s.key(), "a vote is reported flushed before it is stored")
            else:
                c.ok(esub(evar("UpdateIOProgress"), io), "src:%s" % s.key(), "io %s is reported flushed at %s" % (fmt(io), s.desc()))
    c.floor(k, "flush reports", 2)
    nfl = g.calls("IOFlushed::new")
    c.floor(len(nfl), "append callbacks", 1)
    app = g.calls("RaftLogStorage::append")
    c.floor(len(app), "log appends", 1)
    for s in app:
        a = s.args()
        cb = g.expr(a[2], 12)
        ents = payload("AppendInputEntries", "entries")
        c.ok(ents(g.expr(a[1])), "entries:%s" % s.key(), "the entries appended are %s" % fmt(g.expr(a[1])))
        c.ok(esub(lambda e: e[0] == "call" and nm(e[1], ("last", "slice::last")), cb) and esub(ents, cb) and esub(payload("AppendInputEntries", "committed_vote"), cb), "id:%s" % s.key(), "the flush of an append is reported as %s" % fmt(cb))
        sub = [w for w in g.writes("IOProgress", "submitted") if esub(ents, g.value(w, 12))]
        c.precede(g, sub, s, "unsubmitted:%s" % s.key(), "log entries are written before they are marked submitted")
    sv = g.awaits("save_vote")
    for s in sv:
        sub = [w for w in g.writes("IOProgress", "submitted") if esub(payload("SaveVote", "vote"), g.value(w))]
        c.precede(g, sub, s, "unsubmitted-vote:%s" % s.key(), "a vote is written before it is marked submitted")
    c.begin("callback", "the append callback reports success only for success")
    g2 = c.g("IOFlushed::io_completed")
    okr = ism("Result", ("Ok",), X(earg("result")))
    err = ism("Result", ("Err",), X(earg("result")))
    n = 0
    for s in g2.calls("MpscUnboundedSender::send"):
        e = g2.expr(s.args()[1])
        n += 1
        for a in alts(e):
            if efield("IOFlushed", "notification")(a):
                c.guard(g2, s, okr, "ok:%s" % s.key(), "success is reported for a failed write")
            else:
                c.ok(a[0] == "agg" and a[1][2] == "StorageError", "msg:%s" % s.key(), "the callback reports %s" % fmt(a))
                c.guard(g2, s, err, "err:%s" % s.key(), "a failure is reported for a successful write")
    c.floor(n, "callback reports", 2)
    p = g2.all_paths_hit(g2.calls("MpscUnboundedSender::send"), cut=ism("Option", ("None",), X(lambda e: esub(ecall("upgrade"), e)))(g2))
    c.okpath(g2, p, "silent", "a completed write is not reported")
    c.begin("flushed-write", "the flushed position is taken from a completion")
    n = 0
    for gg in EVENTS(c):
        for w in gg.writes("IOProgress", "flushed"):
            n += 1
            v = gg.value(w)
            ok = esub(payload("LocalIO", "io_id"), v) or (esub(evar("StateMachine"), v) and esub(evar("InstallSnapshot"), v))
            c.ok(ok, "src:%s" % w.key(), "flushed is set to %s at %s" % (fmt(v), w.desc()))
    c.floor(n, "flushed updates", 2)
    covered(c, "IOProgress", "flushed", EVENTS(c), exempt=())


@prop("P02")
def no_io_progress(c):
    """an append that writes nothing still waits for earlier writes"""
    g = API(c)
    c.begin("noop-append", "an append that needs no write is acknowledged only after the earlier writes are flushed")
    n = 0
    for s in g.cons(CMD, "UpdateIOProgress"):
        io = g.expr(s.field("io_id"))
        if not esub(payload("AppendEntries", "rpc"), io):
            continue
        n += 1
        w = g.expr(s.field("when"))
        c.ok(esub(efield("IOProgress", "accepted"), w), "when:%s" % s.key(), "it waits for %s at %s" % (fmt(w), s.desc()))
        lost = find_call(w, ("filter", "Option::filter", "and", "then_some", "bool::then", "take_if", "xor", "zip", "filter_map"))
        c.ok(lost is None, "always:%s" % s.key(), "it may not wait for the earlier writes: %s" % fmt(w)[:300])
        at = g.atoms(s.field("when"))
        c.ok(any(AGG("Condition", "IOFlushed")(a) for a in at) or g.has(s.field("when"), AGG("Condition", "IOFlushed")) or "IOFlushed" in _closure_cons(c, w), "kind:%s" % s.key(), "it does not wait for a flush: %s" % fmt(w))
    c.floor(n, "appends without writes", 1)


def _closure_cons(c, e):
    """Variants of Condition built anywhere in FollowingHandler::append_entries' closures."""
    out = set()
    P = c.P()
    for f in P.fns():
        if "following_handler::FollowingHandler::append_entries" in f.name:
            for b in f.blocks:
                for pl, rv, sp in b[0]:
                    if rv[0] == "agg" and rv[1][0] == "adt" and adtm(rv[1][1], COND):
                        out.add(rv[1][2])
    return out


@prop("P02", "P12")
def snapshot_io(c):
    """the write that installing a snapshot stands for is ordered with the writes of the log"""
    SMC = "core::sm::command::Command"
    g = EXEC(c)
    c.begin("snapshot-io", "a snapshot is installed only when everything submitted before is flushed, and stands for the greatest accepted write, so that the flushed position never moves back")
    flushed = X(lambda e: efield("IOProgress", "flushed")(e) and esub(efield("IOState", "io_progress"), e))
    waits = cmpm("ge", flushed, X(efield("IOProgress", "submitted")))
    other = lambda g: lambda f: f[0] == "is" and adtm(f[2], SMC) and f[3] and "InstallFullSnapshot" not in f[3]
    clo = [s for s in g.cons(COND, "SubmittedFlushed") if g.ig.blocks[s.b].fn.name.endswith("}") and "run_command" not in g.ig.blocks[s.b].fn.name]
    if clo:
        # Some(..).map(|_| condition): the condition is this one whenever a snapshot is installed
        other = orm(other, ism(COND, ("IOFlushed", "LogFlushed", "Applied", "Snapshot")))
    sent = lambda e: esub(lambda q: q[0] == "field" and q[3] == "command" and evar("StateMachine")(q), e)
    ss = [s for s in g.calls("send", "MpscUnboundedSender::send") if any(sent(g.expr(a, 8)) for a in s.args()[1:])]
    c.floor(len(ss), "commands given to the state machine task", 1)
    for s in ss:
        c.guard(g, s, orm(waits, other), "waits:%s" % s.key(), "a snapshot is installed while writes submitted before it are not flushed")
    for s in [w for w in g.writes("IOProgress", "submitted") if sent(g.value(w, 8))]:
        c.guard(g, s, orm(waits, other), "submit:%s" % s.key(), "the write a snapshot stands for is submitted while writes submitted before it are not flushed")
    g = API(c)
    n = 0
    def acc(e):
        e = peel(e)
        while e[0] == "call" and nm(e[1], ("unwrap", "expect", "copied", "cloned", "clone")) and e[2]:
            e = peel(e[2][0])
        return e[0] == "field" and e[3] == "accepted"

    for s in g.cons(SMC, "InstallFullSnapshot"):
        n += 1
        io = s.field("io_id")
        e = g.expr(io, 12)
        most = lambda e: e[0] == "call" and nm(e[1], ("max", "Ord::max", "cmp::max")) and any(esub(acc, a) for a in e[2])
        ok = all(acc(a) or most(a) for a in alts(e))
        before = g.calls("RaftState::accept_io") + g.writes("IOProgress", "accepted")
        if not ok:
            # or the smaller one only where it was compared
            ok = all(acc(a) or most(a) for a in alts(e)) or any(acc(a) for a in alts(e)) and bool(g.edges(cmpm("gt", ANY, X(acc), total=False)(g)))
        c.ok(ok, "greatest:%s" % s.key(), "the installation stands for %s, although a later write may be accepted already" % fmt(e)[:200])
        c.precede(g, before, s, "accepted:%s" % s.key(), "a snapshot is installed without recording the write it stands for")
    c.floor(n, "installations", 1)
