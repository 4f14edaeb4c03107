"""Talking to other nodes: stepping down, leases of a leader."""
from common import *
from r_vote import find_call, all_vote_writes
from r_commit import find_agg, parts, nearest, alts
from r_member import in_arm
from r_api import contexts, field_in, ANYID

ROLE_OWNERS = ("Engine", "VoteHandler", "EstablishHandler", "LeaderHandler", "ReplicationHandler")


def role_none(g, f):
    """Assignments that clear the leader / candidate state."""
    out = []
    for adt in ROLE_OWNERS:
        for s in g.writes(adt, f):
            v = g.value(s, 4)
            if all(a[0] == "agg" and a[1][2] == "None" for a in alts(v)):
                out.append(s)
    for q in g.calls("Option::take", "mem::take", "take"):
        a = q.args()
        if a and any(efield(adt, f)(peel(g.expr(a[0], 6))) for adt in ROLE_OWNERS):
            out.append(q)
    return out


def own_vote(g):
    """Facts: the vote in force names this node."""
    voted = lambda e: vote_in(e)
    return orm(cmpm("eq", X(voted), X(lambda e: esub(ANYID, e))))


def vote_in(e):
    return esub(VOTE, e) or is_vote_data(peel(e))


def succs(g, s):
    return [y for x in g.nodes(s) for y, _ in g.x.succ[x]]


@prop("P16")
def step_down(c):
    """a node whose vote changes to another node's stops leading"""
    c.begin("role", "whenever the vote becomes another node's, the leader state and the candidate state are dropped before anything else is handled")
    n = 0
    for g, who in ((API(c), "api"), (NTF(c), "ntf")):
        own = own_vote(g)(g)
        for s in all_vote_writes(g):
            if pristine(g, s):
                continue
            n += 1
            for f, what in (("leader", "leading"), ("candidate", "campaigning")):
                p = g.exit_from(succs(g, s), also=role_none(g, f), match=own, exits=g.x.bynode.get(g.ig.exit, []))
                c.okpath(g, p, "%s:%s:%s" % (f, who, s.key()), "a node keeps %s after its vote changed to another node's" % what)
    c.floor(n, "places where the vote changes", 4)


def ends(g, again=()):
    """Ends of handling: the function returns, or the next round starts."""
    return list(g.x.bynode.get(g.ig.exit, [])) + [x for s in again for x in g.nodes(s)]


@prop("P16")
def adopted(c):
    """a higher vote learned from another node is adopted"""
    c.begin("adopted", "a higher vote reported by another node, or carried by a request of a leader, becomes this node's vote")
    n = 0
    for root, variant, adt in (
        (NTF(c), "HigherVote", "Notification"),
        (NTF(c), "VoteResponse", "Notification"),
        (API(c), "AppendEntries", "RaftMsg"),
        (API(c), "InstallFullSnapshot", "RaftMsg"),
    ):
        g = root
        starts = g.edges(ism(adt, (variant,))(g))
        c.ok(bool(starts), "arm:%s" % variant, "%s is not handled" % variant)
        if not starts:
            continue
        n += 1
        pv = evar(variant)
        hv = lambda e: esub(lambda q: q[0] == "field" and q[3] in ("vote", "higher") and pv(q), e)
        sv = lambda e: esub(lambda q: q[0] == "field" and q[3] == "sender_vote" and pv(q), e)
        ws = [s for s in all_vote_writes(g) if esub(pv, g.value(s, 10))]
        c.ok(bool(ws), "set:%s" % variant, "a higher vote in %s is never taken over" % variant)
        skip = [
            cmpm("le", X(hv), X(vote_in)),
            orm(cmpm("lt", X(hv), X(vote_in)), NOTGT(hv)),
            cmpm("ne", X(sv), ANY),
        ]
        if variant == "VoteResponse":
            cand = lambda e: esub(lambda q: q[0] == "field" and q[3] == "candidate", e)
            skip += [ism("Option", ("None",), X(cand)), cmpm("eq", X(hv), X(lambda e: esub(lambda q: q[0] == "field" and q[3] == "vote" and not pv(q), e)))]
        p = g.exit_from(starts, also=ws, match=orm(*skip)(g), exits=ends(g))
        c.okpath(g, p, "ignored:%s" % variant, "a higher vote in %s is ignored" % variant)
    c.floor(n, "sources of higher votes", 4)


def NOTGT(hv):
    """Fact: the vote is not greater than (hence, given it is comparable, at most) the own one."""

    def mk(g):
        def f(q):
            if q[0] != "cmp":
                return False
            op, a, b, truth = q[1], g.expr(q[2], 10), g.expr(q[3], 10), q[5]
            if truth:
                return False
            return (op in ("gt", "ge") and hv(a) and vote_in(b)) or (op in ("lt", "le") and hv(b) and vote_in(a))

        return f

    return mk


SENT = ("append_entries", "RaftNetworkV2::append_entries", "RaftNetwork::append_entries")


def rpc_tasks(c):
    """Tasks that talk to other nodes: (graph, captures, label)."""
    out = [(c.g("ReplicationCore::main"), {}, "replication"), (c.g("HeartbeatWorker::run"), {}, "heartbeat")]
    for root in (API(c), EXEC(c)):
        for f, caps, site in spawned(c, root):
            h = c.g(f)
            if "ReplicationCore" in f.name or "HeartbeatWorker" in f.name:
                continue
            out.append((h, caps, f.name))
    return out


@prop("P16")
def reported(c):
    """a refusal for a higher vote is reported"""
    c.begin("reported", "a task that gets a reply with a higher vote reports it, with the vote it was sent under, before going on")
    n = 0
    for g, caps, label in rpc_tasks(c):
        starts = g.edges(ism("AppendEntriesResponse", ("HigherVote",))(g))
        asks = [s for s in g.calls(*SENT)]
        if not starts:
            # a task that decides on replies to append requests must look for a refusal
            if asks and (g.cons("Notification", "HeartbeatProgress") or g.cons("Notification", "ReplicationProgress")):
                n += 1
                c.ok(False, "looked:%s" % label, "a reply refusing this leader for a higher vote is taken for an acceptance")
            continue
        n += 1
        rep = g.cons("Notification", "HigherVote")
        p = g.exit_from(starts, also=rep, exits=ends(g, asks))
        c.okpath(g, p, "reported:%s" % label, "a reply with a higher vote is not reported")
        snd = [q for q in g.calls("MpscUnboundedSender::send", "send") if esub(lambda e: e[0] == "agg" and e[1][0] == "adt" and e[1][2] == "HigherVote", g.expr(q.args()[1], 10) if len(q.args()) > 1 else ("?",))]
        for s in rep:
            c.ok(bool(snd) and g.must_follow(s, snd) is None, "sent:%s:%s" % (label, s.key()), "the report of a higher vote is not sent")
            hv = subst(g.expr(s.field("higher"), 12), caps)
            c.ok(esub(evar("HigherVote"), hv) or esub(lambda q: q[0] == "field" and q[3] in ("higher", "vote") and not (esub(VOTE, q) or is_vote_data(peel(q)) or esub(efield("ReplicationCore", "session_id"), q)), hv), "vote:%s:%s" % (label, s.key()), "the higher vote reported is %s" % fmt(hv))
            sv = subst(g.expr(s.field("sender_vote"), 12), caps)
            c.ok(not esub(evar("HigherVote"), sv), "sender:%s:%s" % (label, s.key()), "the sender's vote reported is %s" % fmt(sv))
    c.floor(n, "tasks that see refusals", 2)
    c.begin("vote-replies", "every reply to a vote request reaches the core")
    k = 0
    for g, caps, label in rpc_tasks(c):
        rep = g.cons("Notification", "VoteResponse")
        if not rep:
            continue
        k += 1
        okr = ism("Result", ("Ok",), X(lambda e: find_call(e, ("vote", "RaftNetworkV2::vote", "RaftNetwork::vote")) is not None and e[0] not in ("await", "call")))
        starts = g.edges(okr(g))
        c.ok(bool(starts), "got:%s" % label, "replies to vote requests are not looked at")
        p = g.exit_from(starts, also=rep, exits=ends(g))
        c.okpath(g, p, "kept:%s" % label, "a reply to a vote request is dropped")
        for s in rep:
            for f, names in (("resp", ("vote", "RaftNetworkV2::vote", "RaftNetwork::vote")),):
                v = g.expr(s.field(f), 12)
                c.ok(find_call(v, names) is not None, "resp:%s" % s.key(), "the reply reported is %s" % fmt(v))
            t = subst(g.expr(s.field("target"), 10), caps)
            c.ok(not ANYID(peel(t)) or "target" in fmt(g.expr(s.field("target"), 10)), "target:%s" % s.key(), "the grant is attributed to %s" % fmt(t))
    c.floor(k, "tasks that collect votes", 1)
    g = c.g("ReplicationCore::main")
    c.begin("snapshot", "a snapshot refused for a higher vote is reported as such")
    higher = cmpm("gt", X(lambda q: esub(efield("SnapshotResponse", "vote"), q)), X(lambda q: esub(efield("ReplicationCore", "session_id"), q)))
    starts = g.edges(higher(g))
    c.ok(bool(starts), "compared", "the vote in the reply to a snapshot is not compared with the leader's")
    if starts:
        p = g.exit_from(starts, also=g.cons("Notification", "HigherVote"), exits=ends(g, g.calls(*SENT)))
        c.okpath(g, p, "reported", "a snapshot refused for a higher vote is not reported")


def def_calls(g, op, d=0, seen=None):
    """Calls whose result an operand holds (through copies, moves, references and fields)."""
    seen = set() if seen is None else seen
    if op[0] not in ("c", "m") or d > 40:
        return []
    l, proj = op[1]
    if (l, proj) in seen:
        return []
    seen.add((l, proj))
    out = []
    for b, i in g._defidx().get(l, []):
        B = g.ig.blocks[b]
        if i < len(B.stmts):
            pl, rv, sp = B.stmts[i]
            if rv[0] == "use" and rv[1][0] in ("c", "m"):
                out += def_calls(g, rv[1], d + 1, seen)
            elif rv[0] == "agg":
                f = [e for e in proj if e != "*"]
                ops = rv[2]
                for o in ops:
                    out += def_calls(g, o, d + 1, seen)
            elif rv[0] in ("ref", "addr") and len(rv) > 2:
                out += def_calls(g, ("c", rv[2]), d + 1, seen)
        elif B.term[0] in ("call", "await"):
            f = B.term[1]
            n = f.n if hasattr(f, "n") else str(f)
            if n.rsplit("::", 1)[-1] in ("clone", "deref", "copied", "cloned", "from", "into", "branch", "unwrap", "as_ref", "index", "to_owned", "borrow"):
                for a in B.term[2]:
                    out += def_calls(g, a, d + 1, seen)
            else:
                out.append(Site(g.x, b, TERM, f))
        elif B.term[0] == "ident":
            for a in B.term[2]:
                out += def_calls(g, a, d + 1, seen)
    return out


@prop("P21")
def clock_reports(c):
    """a node counts towards the leader's lease from when the accepted request was sent"""
    c.begin("accepted", "a node is reported as having acknowledged the leader only if it accepted a request of that leader")
    n = 0
    snapok = cmpm("le", X(lambda q: esub(efield("SnapshotResponse", "vote"), q)), X(lambda q: esub(efield("ReplicationCore", "session_id"), q)))
    NOTHIGHER = ism("AppendEntriesResponse", ("Success", "PartialSuccess", "Conflict"), ANY)
    reps = []
    for g, caps, label in rpc_tasks(c):
        for s in g.cons("Notification", "HeartbeatProgress"):
            n += 1
            reps.append((g, s, label))
            c.guard(g, s, orm(NOTHIGHER, snapok), "accepted:%s:%s" % (label, s.key()), "a reply refusing the leader, or no reply, counts as an acknowledgement")
    c.floor(n, "acknowledgement reports", 3)
    c.begin("sent-time", "the time reported is the time before the request was sent")
    k = 0
    for g, s, label in reps:
        asks = g.calls(*SENT)
        e = g.expr(s.field("sending_time"), 12)
        if esub(efield("SnapshotCallback", "start_time"), e):
            continue
        for d in def_calls(g, s.field("sending_time")):
            k += 1
            p = g.guarded_from(succs(g, d), s, lambda f: False, asks)
            c.okpath(g, p, "before:%s:%s" % (label, s.key()), "the time reported is taken after the reply arrived")
        if e[0] != "call" or not nm(e[1], ("now", "Instant::now", "TypeConfigExt::now", "AsyncRuntime::now")):
            c.ok(esub(lambda q: q[0] == "field" and q[3] in ("time", "sending_time", "start_time"), e) or not any(q[0] == "call" and q[1].endswith("::now") for q in parts(e)), "time:%s:%s" % (label, s.key()), "the time reported is %s" % fmt(e))
        for q in parts(e):
            if q[0] == "bin" or q[0] == "call" and q[1].rsplit("::", 1)[-1] in ("add", "checked_add", "sub"):
                c.ok(False, "shift:%s:%s" % (label, s.key()), "the time reported is %s" % fmt(e))
    m = 0
    roots = [(EXEC(c), {}, "exec")] + rpc_tasks(c)
    f = [x for x in c.P().fns() if nm(x.name, ("ReplicationCore::send_snapshot",))]
    for g, caps, label in roots + [(c.g(x), {}, "snapshot") for x in f]:
        for s in g.cons("SnapshotCallback"):
            m += 1
            asks = g.calls("full_snapshot", "RaftNetworkV2::full_snapshot") + g.awaits("full_snapshot")
            for d in def_calls(g, s.field("start_time")):
                p = g.guarded_from(succs(g, d), s, lambda f: False, asks)
                c.okpath(g, p, "snapshot:%s" % s.key(), "the time of a snapshot transfer is taken after the transfer")
    c.notes.append("snapshot transfers timed: %d" % m)
    c.floor(k, "times taken", 2)
    c.begin("whose", "an acknowledgement names the node asked and the session it was sent under")
    for g, s, label in reps:
        t, se = g.expr(s.field("target"), 8), g.expr(s.field("session_id"), 8)
        c.ok(not ANYID(peel(t)) or t[3] == "target", "target:%s:%s" % (label, s.key()), "the acknowledgement is attributed to %s" % fmt(t))
        c.ok(esub(lambda q: q[0] == "field" and q[3] == "session_id", se), "session:%s:%s" % (label, s.key()), "the acknowledgement carries the session %s" % fmt(se))


UPD = ("increase_to", "update", "update_with", "Progress::increase_to", "Progress::update", "Progress::update_with", "VecProgress::increase_to", "VecProgress::update")


@prop("P21")
def clock_updates(c):
    """the leader's clock is updated from reports only"""
    c.begin("recorded", "the leader records for a node exactly the time reported for it, and its own time only for itself")
    n = 0
    CP = efield("Leader", "clock_progress")
    for g, who in ((API(c), "api"), (NTF(c), "ntf"), (LOOP(c), "loop")):
        for s in g.mutcalls("Leader", "clock_progress"):
            a = s.args()
            if len(a) < 3:
                continue
            n += 1
            id_, t = g.expr(a[1], 12), g.expr(a[2], 12)
            rep = evar("HeartbeatProgress")
            if esub(rep, id_):
                c.ok(esub(lambda q: q[0] == "field" and q[3] == "target" and rep(q), id_), "id:%s:%s" % (who, s.key()), "the clock of %s is updated" % fmt(id_))
                c.ok(esub(lambda q: q[0] == "field" and q[3] == "sending_time" and rep(q), t) and not any(q[0] == "call" and q[1].rsplit("::", 1)[-1] in ("now", "add") for q in parts(t)), "time:%s:%s" % (who, s.key()), "the clock is set to %s" % fmt(t))
            else:
                mine = esub(lambda q: q[0] == "field" and q[3] in ("node_id", "id", "committed_vote"), id_)
                c.ok(mine, "own:%s:%s" % (who, s.key()), "the clock of %s is set to %s" % (fmt(id_), fmt(t)))
    c.floor(n, "clock updates", 1)
    c.begin("acked", "the time reported as acknowledged by a quorum is the one granted by the clock progress")
    fs = [f for f in c.P().fns() if nm(f.name, ("Leader::last_quorum_acked_time",))]
    for f in fs:
        g = c.g(f)
        c.ok(bool(g.mutcalls("Leader", "clock_progress")), "own-time:%s" % f.name, "the leader's own time is not considered")
    c.notes.append("Leader::last_quorum_acked_time: %d" % len(fs))


@prop("P21")
def event_time(c):
    """heartbeats are stamped when broadcast"""
    g = EXEC(c)
    c.begin("stamped", "a heartbeat carries the session and the committed position decided by the engine")
    n = 0
    for s in g.cons("HeartbeatEvent"):
        n += 1
        for f in ("session_id", "committed"):
            e = g.expr(s.field(f), 8)
            c.ok(esub(evar("BroadcastHeartbeat"), e), "%s:%s" % (f, s.key()), "the heartbeat carries %s" % fmt(e))
    c.floor(n, "heartbeats", 1)
    w = c.g("HeartbeatWorker::run")
    for s in w.cons("AppendEntriesRequest"):
        v = w.expr(s.field("vote"), 10)
        c.ok(esub(efield("HeartbeatEvent", "session_id"), v), "vote:%s" % s.key(), "the heartbeat is sent with the vote %s" % fmt(v))
        cm = w.expr(s.field("leader_commit"), 10)
        c.ok(esub(efield("HeartbeatEvent", "committed"), cm) or isagg_none(cm), "commit:%s" % s.key(), "the heartbeat is sent with the committed position %s" % fmt(cm))


def isagg_none(e):
    e = peel(e)
    return e[0] == "agg" and e[1][0] == "adt" and e[1][2] == "None"
