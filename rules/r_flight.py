"""Replication to one follower: requests in flight, search range, reports (P35)."""
from common import *
from r_commit import find_agg, plus_one
from r_life import XD, dsub
from r_member import in_arm
from r_metrics import DS, between
from r_repl import succs
from r_snap import var_defs
from r_start import walk

PEF = lambda f: lambda q: q[0] == "field" and q[3] == f and q[2].endswith("ProgressEntry")
REPORTS = ("ReplicationProgress", "HigherVote", "StorageError")
RC_ = "ReplicationCore"


@prop("P35")
def flight(c):
    """requests in flight"""
    c.begin("one", "a new request to a follower is prepared only when none is in flight")
    n = 0
    idle = orm(
        ism("Inflight", ("None",), DS(PEF("inflight"))),
        cmpm("eq", DS(PEF("inflight")), XD(lambda e: isagg(peel(e), ("Inflight",), ("None",)))),
        bcallm(("is_none",), True, DS(PEF("inflight"))),
        valm(True, DS(lambda q: q[0] == "call" and nm(q[1], ("eq",)) and dsub(PEF("inflight"), q))),
    )
    reset = lambda e: isagg(e, ("Inflight",), ("None",))
    for root in (API, NTF, LOOP):
        g = root(c)
        cmds = g.cons(CMD, "Replicate")
        for s in g.writes("ProgressEntry", "inflight"):
            vs = alts(g.value(s, 6))
            if all(reset(a) for a in vs):
                continue
            # the leader's own entry, and what is left of a request after an acknowledgement, are not new requests
            fresh = [a for a in vs if isagg(a, ("Inflight",), ("Snapshot",)) or isagg(a, ("Inflight",), ("Logs",)) and is_new(a)]
            if not fresh:
                continue
            n += 1
            c.guard(g, s, idle, "idle:%s" % s.key(), "a request is prepared while another one is in flight")
            p = g.exit_from(succs(g, s), also=cmds)
            for x in g.calls("next", "Iterator::next"):
                if p is None and dsub(lambda q: q[0] == "field" and q[3] == "progress", g.expr(x.args()[0], 8)):
                    p = between(g, succs(g, s), cmds, x)
            c.okpath(g, p, "unsent:%s" % s.key(), "a request is recorded as in flight but not sent")
        for s in cmds:
            e = g.expr(s.field("req"), 12)
            n += 1
            c.ok(dsub(PEF("inflight"), e) or dsub(lambda q: q[0] == "var" and q[2] in ("Logs", "Snapshot") or isagg(q, ("Inflight",)), e), "sent:%s" % s.key(), "what is sent is not what is recorded as in flight: %s" % fmt(e)[:160])
    c.floor(n, "requests prepared or sent", 4)
    c.begin("reset", "a request in flight is forgotten only when it was answered, failed, or its stream is rebuilt")
    n = 0
    for root in (API, NTF, LOOP):
        g = root(c)
        builds = g.cons(CMD, "RebuildReplicationStreams")
        for s in g.writes("ProgressEntry", "inflight"):
            vs = alts(g.value(s, 6))
            if not any(reset(a) for a in vs):
                continue
            n += 1
            if local(g, s):
                continue  # the entry of the leader itself
            if g.must_follow(s, builds) is None and builds:
                c.ok(True, "reset:%s" % s.key(), "")
                continue
            ok = orm(idle, ism("Result", ("Err",), DS(lambda q: q[0] == "field" and q[3] == "result")), ism("Inflight", ("Logs", "Snapshot"), ANY))
            c.guard(g, s, orm(ok, bcallm(("is_none",), True, DS(lambda q: q[0] == "field" and q[3] == "inflight"))), "reset:%s" % s.key(), "a request in flight is forgotten")
            if all(reset(a) for a in vs) and not in_arm(g, s, "Notification", "ReplicationProgress"):
                c.guard(g, s, idle, "only:%s" % s.key(), "a request in flight is forgotten without a report of it")
    c.floor(n, "resets", 2)
    c.begin("settled", "a reported request is no longer in flight as it was, and a new stream starts with none")
    g = NTF(c)
    ws = [s for s in g.writes("ProgressEntry", "inflight")]
    n = 0
    for nn, (b, env) in enumerate(g.x.nodes):
        if g.ig.blocks[b].term[0] != "switch":
            continue
        for y, lab in g.x.succ[nn]:
            fs = [f for f in g.nfacts(nn, lab) if f[0] == "is" and f[2].endswith("Result") and dsub(lambda q: q[0] == "field" and q[3] == "result", g.expr(f[1], 6)) and peel(g.expr(f[1], 6))[0] == "field" and f[3] and len(f[3]) == 1]
            if not fs or not any(m in g.x.reach([y]) for w in ws for m in g.nodes(w)):
                continue
            n += 1
            target = DS(lambda q: q[0] == "field" and q[3] == "target")
            gone = orm(ism("Option", ("None",), ANY), valm(False, DS(lambda q: q[0] == "call" and nm(q[1], ("eq",)) and dsub(lambda r: r[0] == "field" and r[3] == "target", q))), cmpm("ne", ANY, target))
            c.okpath(g, g.exit_from([y], also=ws, match=gone(g)), "settled:%s" % g.ig.where(b), "a report leaves the request in flight")
    c.floor(n, "reports handled", 2)
    logs = ism("Inflight", ("Logs",), DS(PEF("inflight")))
    fin = cmpm("ge", ANY, XD(lambda e: dsub(lambda q: q[0] == "field" and q[3] == "last" and dsub(PEF("inflight"), q), e), 12))
    k = 0
    for s in g.cons("Inflight", "None"):
        if in_conflict(g, s) or g.guarded(s, logs(g)) is not None:
            continue
        k += 1
        c.guard(g, s, fin, "rest:%s" % s.key(), "a partly answered request is forgotten")
    c.floor(k, "answers to requests for entries", 1)
    n = 0
    for root in (API, NTF):
        g = root(c)
        zero = [s for s in g.writes("ProgressEntry", "inflight") if all(reset(a) for a in alts(g.value(s, 6)))]
        for s in g.cons("ReplicationProgress"):
            if not dsub(lambda q: q[0] == "field" and q[3] == "progress", g.expr(s.ops()[-1], 10)):
                continue
            n += 1
            its = [x for x in g.calls("next", "Iterator::next") if g.can_reach(x, [s])]
            p = None
            for x in its if not any(z.b == s.b and z.i < s.i for z in zero) else ():
                p = p or between(g, succs(g, x), zero + [y for y in its if y.b != x.b], s)
            c.okpath(g, p, "fresh:%s" % s.key(), "a new stream is built while a request of the old one counts as in flight")
    c.floor(n, "rebuilt streams", 2)


def local(g, s):
    """Is the changed entry that of the leader itself, looked up by its own id?"""
    me = lambda q: q[0] == "field" and q[3] == "id" and "EngineConfig" in q[2]
    return g.guarded(s, cmpm("eq", ANY, DS(me))(g)) is None


def is_new(a):
    """Is the Logs value a range to send, rather than the rest of one or the local entry?"""
    r = find_agg(a, ("LogIdRange",))
    if r is None:
        return True
    prev = r[2][0]
    if isagg(prev, (), ("None",)):
        return False
    return not dsub(lambda q: q[0] == "var" and q[2] in ("ReplicationProgress", "LocalIO"), prev)


@prop("P35")
def search(c):
    """the range that may match"""
    c.begin("range", "the position known to match moves only to a reported one, the end of the search only to a conflicting one or past a matching one")
    n = 0
    rep = lambda q: q[0] == "var" and q[2] in ("ReplicationProgress", "LocalIO")
    g = NTF(c)
    for s in g.writes("ProgressEntry", "matching"):
        for a in alts(g.value(s, 12)):
            n += 1
            src = dsub(rep, a) or dsub(lambda q: q[0] == "field" and q[3] in ("io_progress", "flushed", "last_log_id", "log_ids"), a)
            c.ok(not isagg(a, (), ("None",)) and a[0] != "k", "matching:%s" % s.key(), "the matching position of a follower is set to %s" % fmt(a)[:120])
            if not src:
                c.notes.append("undecided matching %s" % fmt(a)[:160])
    for s in g.writes("ProgressEntry", "searching_end"):
        v = g.value(s, 12)
        n += 1
        conf = dsub(lambda q: q[0] == "var" and q[2] == "ReplicationProgress", v) and not dsub(PEF("searching_end"), v)
        mx = [q for q in walk(v) if q[0] == "call" and nm(q[1], ("max", "Ord::max"))]
        up = dsub(PEF("searching_end"), v) and (mx or len(alts(v)) > 1) or dsub(PEF("matching"), v)
        if in_conflict(g, s):
            c.ok(conf and not plus(v), "conflict:%s" % s.key(), "after a conflict the search goes on below %s" % fmt(v)[:160])
        else:
            c.ok(up, "matched:%s" % s.key(), "after a success the search ends at %s" % fmt(v)[:160])
    c.floor(n, "changes of the search range", 3)
    raised = g.writes("ProgressEntry", "searching_end")
    fits = cmpm("le", DS(PEF("matching")), DS(PEF("searching_end")))
    for s in g.writes("ProgressEntry", "matching"):
        if any(isagg(a, (), ("None",)) for a in alts(g.value(s, 12))) or local(g, s):
            continue
        c.okpath(g, g.exit_from(succs(g, s), also=raised, match=orm(fits, cmpm("ge", DS(PEF("searching_end")), ANY), cmpm("le", ANY, DS(PEF("searching_end"))))(g)), "raised:%s" % s.key(), "the search may end below the matching position")
    c.begin("sending", "a request starts within the search range, after what is purged, and ends within the log and the configured size; a snapshot is sent exactly if needed entries are purged")
    n = 0
    purged_ = lambda q: q[0] == "field" and q[3] == "purge_upto" or q[0] == "call" and nm(q[1], ("purge_upto",))
    purged = DS(lambda q: q[0] == "field" and q[3] == "purge_upto" or q[0] == "call" and nm(q[1], ("purge_upto",)))
    for root in (API, NTF, LOOP):
        g = root(c)
        end_ = XD(lambda e: PEF("searching_end")(peel(e)), 10)
        for s in g.cons("Inflight", "Snapshot"):
            n += 1
            c.guard(g, s, cmpm("lt", end_, purged), "snapshot:%s" % s.key(), "a snapshot is sent although the entries needed are in the log")
            e = g.expr(s.ops()[0], 10)
            snap = dsub(lambda q: q[0] == "call" and nm(q[1], ("snapshot_last_log_id",)) or q[0] == "field" and q[3] in ("snapshot_meta",), e)
            c.ok(snap, "which:%s" % s.key(), "the snapshot sent is said to cover %s" % fmt(e)[:120])
        for s in g.cons("Inflight", "Logs"):
            e = g.expr(s.ops()[0], 16)
            r = find_agg(e, ("LogIdRange",))
            if r is None or not is_new(("agg", ("adt", "Inflight", "Logs", ("0",)), (r,))):
                continue
            prev, last = r[2][0], r[2][1]
            if not dsub(lambda q: q[0] == "call" and nm(q[1], ("prev_log_id", "LogStateReader::prev_log_id")), last):
                continue
            n += 1
            c.guard(g, s, cmpm("ge", end_, purged), "purged:%s" % s.key(), "entries that may be purged are sent")
            mins = [q for q in walk(last) if q[0] == "call" and nm(q[1], ("min", "Ord::min"))]
            lim = dsub(lambda q: q[0] == "field" and q[3] == "max_payload_entries", last)
            c.ok(lim, "size:%s" % s.key(), "a request is not bounded by the configured number of entries: %s" % fmt(last)[:160])
            if not mins:
                c.notes.append("no min in %s" % fmt(last)[:160])
            over = [q for q in walk(last) if q[0] == "call" and nm(q[1], ("max", "Ord::max")) and dsub(lambda r: r[0] == "field" and r[3] == "max_payload_entries", q)]
            c.ok(not over, "size:%s" % s.key(), "a request may exceed the configured number of entries: %s" % fmt(last)[:160])
            st = [k for k in g.calls("prev_log_id", "LogStateReader::prev_log_id") if g.can_reach(k, [s])]
            for k in st:
                if dsub(lambda q: q[0] == "field" and q[3] == "max_payload_entries", g.expr(k.args()[1], 14)):
                    continue  # the end
                _, ds = var_defs(g, k.args()[1])
                sets = [d for d in ds if at_purged(g.value(d, 12), purged_)]
                seen = g.x.reach([0], stop=g._stopset(sets), cut=g.cutter(cmpm("ge", XD(lambda e: dsub(PEF("matching"), e), 14), XD(lambda e: dsub(purged_, e) and not dsub(PEF("matching"), e), 14))(g)))
                bad = [m for m in g.nodes(k) if m in seen] if not any(d.b == k.b for d in sets) else []
                c.okpath(g, g.x.path_to(bad[0]) if bad else None, "after:%s" % k.key(), "a request may start at a purged entry")
            c.ok(dsub(PEF("searching_end"), prev) and dsub(PEF("matching"), prev), "start:%s" % s.key(), "a request starts after %s" % fmt(prev)[:160])
    c.floor(n, "ranges and snapshots to send", 4)


def at_purged(v, purged):
    """Is the value the first entry not purged, or at least that?"""
    return dsub(purged, v) and (not dsub(PEF("matching"), v) or any(q[0] == "call" and nm(q[1], ("max", "Ord::max")) and dsub(purged, q) for q in walk(v)))


def plus(v):
    return any(q[0] == "bin" and q[1].startswith("Add") for q in walk(v))


def in_conflict(g, s):
    return g.guarded(s, ism("Result", ("Err",), DS(lambda q: q[0] == "var" and q[2] == "ReplicationProgress"))(g)) is None


@prop("P35")
def retry(c):
    """idle followers"""
    c.begin("every", "after every batch of events a leader tries each follower that has nothing in flight, before it waits again")
    g = LOOP(c)
    cmds = g.cons(CMD, "Replicate")
    c.floor(len(cmds), "places sending requests", 1)
    its = [s for s in g.calls("iter_mut", "slice::iter_mut", "IterMut::iter_mut", "into_iter") if dsub(lambda q: q[0] == "field" and q[3] == "progress", g.expr(s.args()[0], 8))]
    its = [s for s in its if any(between(g, succs(g, s), [x for x in its if x.b != s.b], k) for k in cmds)]
    c.floor(len(its), "places that go through the followers", 1)
    waits = [s for s in g.awaits("poll_fn", "recv", "MpscUnboundedReceiver::recv") if "runtime_loop" in s.fn.name]
    c.floor(len(waits), "places waiting for work", 1)
    noleader = orm(
        ism("Option", ("None",), XD(lambda e: peel(e)[0] == "field" and peel(e)[3] == "leader")),
        ism("Result", ("Err",), DS(lambda q: q[0] == "field" and q[3] == "leader")),
        bcallm(("is_none",), True, DS(lambda q: q[0] == "field" and q[3] == "leader")),
        bcallm(("is_some",), False, DS(lambda q: q[0] == "field" and q[3] == "leader")),
    )
    for w in waits:
        seen = g.x.reach(succs(g, w), stop=g._stopset(its), cut=g.cutter(noleader(g)))
        bad = [m for m in g.nodes(w) if m in seen]
        c.okpath(g, g.x.path_to(bad[0]) if bad else None, "tries:%s" % w.key(), "a leader waits again without trying its idle followers")
    nexts = [s for s in g.calls("next", "Iterator::next") if dsub(lambda q: q[0] == "field" and q[3] == "progress", g.expr(s.args()[0], 10))]
    self_ = cmpm("eq", ANY, DS(lambda q: q[0] == "field" and q[3] == "id"))
    busy = orm(
        ism("Inflight", ("Logs", "Snapshot"), DS(PEF("inflight"))),
        cmpm("ne", DS(PEF("inflight")), ANY),
        bcallm(("is_none",), False, DS(PEF("inflight"))),
        valm(False, DS(lambda q: q[0] == "call" and nm(q[1], ("eq", "is_none")) and dsub(PEF("inflight"), q))),
        valm(True, DS(lambda q: q[0] == "call" and nm(q[1], ("ne",)) and dsub(PEF("inflight"), q))),
    )
    last = DS(lambda q: q[0] == "field" and q[3] in ("log_ids", "key_log_ids") or q[0] == "call" and nm(q[1], ("last_log_id", "LogStateReader::last_log_id")))
    nothing = orm(cmpm("eq", DS(PEF("searching_end")), last), cmpm("ge", DS(lambda q: q[0] == "call" and nm(q[1], ("prev_log_id",))), ANY), cmpm("ge", DS(PEF("searching_end")), last), cmpm("le", last, DS(PEF("searching_end"))))
    k = 0
    for s in nexts:
        # within one round: from an entry to the next one
        if not any(between(g, succs(g, s), [x for x in nexts if x.b != s.b], q) for q in cmds):
            continue
        k += 1
        some = [y for m in g.nodes(s) for y in some_edges(g, m)]
        seen = g.x.reach(some, stop=g._stopset(cmds), cut=g.cutter(orm(self_, busy, nothing)(g)))
        bad = [m for m in g.nodes(s) if m in seen]
        c.okpath(g, g.x.path_to(bad[0]) if bad else None, "each:%s" % s.key(), "an idle follower that misses entries is skipped")
    c.floor(k, "rounds over the followers", 1)


def some_edges(g, m, d=0):
    """Nodes after the branch on the result of a `next` call, where it is Some."""
    out = []
    seen = set()
    todo = [m]
    while todo:
        n = todo.pop()
        if n in seen or len(seen) > 12:
            continue
        seen.add(n)
        for y, lab in g.x.succ[n]:
            fs = [f for f in g.nfacts(n, lab) if f[0] == "is" and f[2].endswith("Option")] if g.ig.blocks[g.x.nodes[n][0]].term[0] == "switch" else []
            if fs:
                if any(set(f[3]) == {"Some"} for f in fs):
                    out.append(y)
                continue
            todo.append(y)
    return out


# ---- the replication task ---------------------------------------------------------------------------


def arms(g, *vs):
    """Nodes where the action taken by the task is known to be one of the variants."""
    out = []
    for n, (b, env) in enumerate(g.x.nodes):
        if g.ig.blocks[b].term[0] != "switch":
            continue
        for y, lab in g.x.succ[n]:
            for f in g.nfacts(n, lab):
                if f[0] == "is" and f[2].endswith("request::Data") and set(f[3]) <= set(vs) and dsub(lambda q: q[0] == "field" and q[3] == "next_action", g.expr(f[1], 8)) and not any(x in g.ig.blocks[b].fn.name for x in ("has_payload", "fmt")):
                    out.append(y)
    return out


def gets(g):
    """Sites where the task waits for, or polls, events of the core."""
    return [s for s in g.calls("recv", "MpscUnboundedReceiver::recv") if dsub(lambda q: q[0] == "field" and q[3] == "rx_event", g.expr(s.args()[0], 8))]


@prop("P35")
def reports(c):
    """what the task answers"""
    g = c.g("ReplicationCore::main")
    rs = [s for v in REPORTS for s in g.cons("Notification", v)]
    prog = g.cons("Notification", "ReplicationProgress")
    acts = [s for s in g.writes(RC_, "next_action") if dsub(lambda q: isagg(q, ("Data",), ("Logs",)), g.value(s, 8))]
    evs = gets(g)
    c.begin("answered", "every request of the leader is answered, continued, retried, or ends the task")
    c.floor(len(prog), "progress reports", 2)
    c.floor(len(evs), "places receiving events", 2)
    for v in ("Logs", "SnapshotCallback"):
        st = arms(g, v)
        c.floor(len(st), "handling of %s" % v, 1)
        for e in evs:
            p = between(g, st, rs + acts, e)
            c.okpath(g, p, "answer:%s:%s" % (v, e.key()), "a request is not answered")
    st = arms(g, "Snapshot")
    spawns = g.calls("AsyncRuntime::spawn", "spawn", "TypeConfigExt::spawn")
    for e in evs:
        p = between(g, st, rs + spawns, e)
        c.okpath(g, p, "answer:Snapshot:%s" % e.key(), "a request for a snapshot is neither answered nor started")
    c.begin("heartbeat", "what the task sends on its own account is never reported as an answer to a request")
    st = arms(g, "Committed")
    c.floor(len(st), "handling of heartbeats", 1)
    for s in prog:
        p = between(g, st, evs, s)
        c.okpath(g, p, "report:%s" % s.key(), "a heartbeat is reported as an answer")
    for s in acts:
        p = between(g, st, evs, s)
        c.okpath(g, p, "retry:%s" % s.key(), "a heartbeat is retried as a request for entries, which is then answered although it was not asked for")
    c.begin("twice", "a request is answered once, unless it goes on")
    for s in prog:
        p = None
        for t in prog:
            p = p or between(g, succs(g, s), evs + [x for x in prog if x.b != t.b and x.b != s.b], t)
        c.okpath(g, p, "once:%s" % s.key(), "a request is answered twice")
    c.begin("continue", "after a partial success the task goes on with exactly the rest")
    n = 0
    for s in g.cons("Data", "Logs"):
        e = g.expr(s.ops()[0], 10)
        r = find_agg(e, ("LogIdRange",))
        if r is None or not dsub(lambda q: q[0] == "field" and q[3] == "last", r[2][1]):
            continue
        n += 1
        c.ok(dsub(lambda q: q[0] == "await", r[2][0]), "first:%s" % s.key(), "the rest starts after %s" % fmt(r[2][0])[:120])
        c.ok(dsub(lambda q: q[0] == "field" and q[3] == "next_action", r[2][1]), "last:%s" % s.key(), "the rest ends at %s" % fmt(r[2][1])[:120])
        c.guard(g, s, cmpm("lt", ANY, DS(lambda q: q[0] == "field" and q[3] == "last")), "more:%s" % s.key(), "a finished request goes on")
    c.floor(n, "continuations", 1)
    more = cmpm("ge", ANY, XD(lambda e: peel(e)[0] == "field" and peel(e)[3] == "last"))
    st = arms(g, "Logs")
    # a report of success is followed by going on or by the fact that nothing is left
    okp = [s for s in prog if g.guarded_from(st, s, None) is not None]
    for s in okp:
        succeeded = ism("AppendEntriesResponse", ("Success", "PartialSuccess"), ANY)
        if g.guarded(s, succeeded(g)) is not None:
            continue
        for e in evs:
            seen = g.x.reach(succs(g, s), stop=g._stopset(acts + g.writes(RC_, "next_action")), cut=g.cutter(more(g)))
            bad = [m for m in g.nodes(e) if m in seen]
            c.okpath(g, g.x.path_to(bad[0]) if bad else None, "rest:%s:%s" % (s.key(), e.key()), "the rest of a partly accepted request is dropped")
    c.begin("taken", "a request received from the leader is the next one handled")
    n = 0
    dataarm = ism("Replicate", ("Data",), ANY)
    for nn, (b, env) in enumerate(g.x.nodes):
        if g.ig.blocks[b].term[0] != "switch":
            continue
        for y, lab in g.x.succ[nn]:
            fs = [f for f in g.nfacts(nn, lab) if f[0] == "is" and f[2].endswith("Replicate") and set(f[3]) == {"Data"}]
            if not fs or "fmt" in g.ig.blocks[b].fn.name:
                continue
            n += 1
            ws = [w for w in g.writes(RC_, "next_action") if dsub(lambda q: q[0] == "var" and q[2] == "Data", g.value(w, 8))]
            for e in evs + g.calls("Option::take", "take"):
                seen = g.x.reach([y], stop=g._stopset(ws))
                bad = [m for m in g.nodes(e) if m in seen]
                c.okpath(g, g.x.path_to(bad[0]) if bad else None, "kept:%s" % e.key(), "a request received from the leader is dropped")
    c.floor(n, "places receiving requests", 1)
    free = lambda q: q[0] == "field" and q[3] == "next_action"
    for w in g.writes(RC_, "next_action"):
        v = g.value(w, 8)
        if not any(dsub(lambda q: isagg(q, ("Data",), ("Committed",)), a) for a in alts(v)):
            continue
        n += 1
        c.guard(g, w, orm(ism("Option", ("None",), XD(lambda e: dsub(free, e))), bcallm(("is_none",), True, DS(free)), bcallm(("is_some",), False, DS(free))), "over:%s" % w.key(), "a heartbeat replaces a request that was not handled")
    c.begin("snapshot-end", "the end of sending a snapshot is always passed on to the task")
    for f, caps, site in snapshot_tasks(c, g):
        k = c.g(f)
        sends = [s for s in k.calls("send", "MpscUnboundedSender::send") if dsub(lambda q: isagg(q, ("SnapshotCallback",)) or isagg(q, ("Data",), ("SnapshotCallback",)), k.expr(s.args()[-1], 8))]
        up = DS(lambda q: q[0] == "call" and nm(q[1], ("upgrade", "MpscUnboundedWeakSender::upgrade")))
        c.okpath(k, k.exit_from([0], also=sends, match=ism("Option", ("None",), up)(k)), "passed", "a finished snapshot transmission is not passed on")


def snapshot_tasks(c, g):
    return [t for t in spawned(c, g) if any(True for _ in c.g(t[0]).awaits("full_snapshot", "RaftNetworkV2::full_snapshot"))]
