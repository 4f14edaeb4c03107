"""Snapshots: installing, building, moving them between nodes in chunks."""
from common import *
from r_vote import find_call
from r_commit import nearest, parts, find_agg, plus_one
from r_member import in_arm
from r_log import SNAP, local_id
from r_repl import succs, ends

SMC = "core::sm::command::Command"
SMETA = lambda f: (lambda e: esub(efield("SnapshotMeta", f), e))


def last_of(g, s, fields=("snapshot", "meta")):
    """The snapshot a state-machine command carries."""
    for f in fields:
        o = s.field(f)
        if o is not None:
            return g.expr(o, 12)
    return ("?",)


@prop("P22")
def install_guards(c):
    """when a received snapshot is installed"""
    g = API(c)
    c.begin("newer", "a received snapshot is installed only if the leader's vote was accepted and it covers more than what is committed and more than the current snapshot")
    n = 0
    req = evar("InstallFullSnapshot")
    for s in g.cons(SMC, "InstallFullSnapshot"):
        n += 1
        c.ok(esub(req, last_of(g, s)), "what:%s" % s.key(), "the snapshot installed is %s" % fmt(last_of(g, s)))
        got = lambda e: SNAP(e) and esub(req, e)
        c.guard(g, s, cmpm("gt", X(got), st("committed")), "committed:%s" % s.key(), "a snapshot that is not newer than the committed position is installed")
        mine = lambda e: esub(is_state_field("snapshot_meta"), e)
        c.guard(g, s, cmpm("gt", X(got), X(lambda e: mine(e) and SNAP(e))), "snapshot:%s" % s.key(), "a snapshot that is not newer than the current one is installed")
        rv = lambda e: payload("InstallFullSnapshot", "vote")(e)
        c.guard(g, s, cmpm("ge", X(rv), X(lambda e: esub(VOTE, e) or is_vote_data(peel(e))), total=False), "vote:%s" % s.key(), "a snapshot of a leader with a smaller vote is installed")
    c.floor(n, "installations", 1)
    c.begin("moves", "installing a snapshot makes its last log id the committed position and records its metadata, and nothing else does")
    for s in g.cons(SMC, "InstallFullSnapshot"):
        for adt, f, what in (("RaftState", "committed", "committed position"), ("RaftState", "snapshot_meta", "snapshot metadata"), ("RaftState", "purge_upto", "purge position")):
            ws = [w for w in g.writes(adt, f) if in_arm(g, w, "RaftMsg", "InstallFullSnapshot") and (SNAP(g.value(w, 9)) or esub(lambda q: q[0] == "field" and q[3] == "meta" and req(q), g.value(w, 9)))]
            c.ok(bool(ws) and (g.must_precede(ws, s) is None or g.must_follow(s, ws) is None), "%s:%s" % (f, s.key()), "a snapshot is installed without recording the %s" % what)
            for w in ws:
                c.ok(g.must_precede([s], w) is None or g.must_follow(w, [s]) is None, "with:%s:%s" % (f, w.key()), "the %s moves to a snapshot's last log id although the snapshot is not installed" % what)
    c.begin("accepted", "the position a snapshot covers is accepted as stored only with its installation")
    for s in g.cons(SMC, "InstallFullSnapshot"):
        io = s.field("io_id")
        top = io is not None and esub(efield("IOProgress", "accepted"), g.expr(io, 12))
        took = [a for a in g.calls("RaftState::accept_io") if SNAP(g.expr(a.args()[1], 12))]
        c.ok(io is not None and (SNAP(g.expr(io, 12)) or top and took and g.must_precede(took, s) is None), "io:%s" % s.key(), "the installation reports %s" % (fmt(g.expr(io, 12)) if io is not None else "nothing"))
    for gg in EVENTS(c):
        for w in gg.writes("RaftState", "snapshot_meta"):
            if gg is START(c):
                continue
            v = gg.value(w, 9)
            c.guard(gg, w, cmpm("gt", X(lambda e: SNAP(e) and not esub(is_state_field("snapshot_meta"), e)), X(lambda e: esub(is_state_field("snapshot_meta"), e))), "newer:%s:%s" % (gg.ig.root.name if hasattr(gg.ig, "root") else "", w.key()), "the snapshot metadata moves backwards")
            c.ok(esub(req, v) or esub(evar("BuildSnapshot"), v), "src:%s" % w.key(), "the snapshot metadata becomes %s" % fmt(v))
    covered(c, "RaftState", "snapshot_meta", EVENTS(c), exempt=("StorageHelper::get_initial_state", "RaftState::new", "RaftState"))


@prop("P22")
def install_executed(c):
    """the state machine installs what was commanded, then reports it"""
    from r_start import walk
    g = c.g("core::sm::worker::Worker::worker_loop")
    c.begin("installed", "the state machine installs the snapshot it was given, and reports it only after that succeeded")
    n = 0
    calls = g.calls("RaftStateMachine::install_snapshot", "install_snapshot")
    aw = g.awaits("RaftStateMachine::install_snapshot", "install_snapshot")
    req = evar("InstallFullSnapshot")
    for s in calls:
        n += 1
        a = s.args()
        m, d = g.expr(a[1], 12), g.expr(a[2], 12)
        c.ok(esub(lambda q: q[0] == "field" and q[3] == "meta" and req(q), m), "meta:%s" % s.key(), "the snapshot is installed with the metadata %s" % fmt(m))
        c.ok(esub(lambda q: q[0] == "field" and q[3] == "snapshot" and req(q), d), "data:%s" % s.key(), "the data installed is %s" % fmt(d))
    c.floor(n, "installations", 1)
    okr = ism("Result", ("Ok",), X(lambda e: find_call(e, ("install_snapshot", "RaftStateMachine::install_snapshot")) is not None))
    k = 0
    for s in g.cons("sm::response::Response", "InstallSnapshot"):
        k += 1
        mine = lambda e: any(q[0] == "agg" and q[1][0] == "adt" and adtm(q[1][1], "sm::response::Response") and q[1][2] == "InstallSnapshot" for q in walk(e))
        sent = [q for q in g.calls("send", "MpscUnboundedSender::send", "MpscSender::send") if q.args() and mine(g.expr(q.args()[-1], 14)) and g.can_reach(s, [q]) is not None]
        for q in sent or [s]:
            c.guard(g, q, okr, "after:%s" % q.key(), "an installation is reported before it succeeded")
        v = g.expr(s.ops()[0], 12)
        c.ok(esub(lambda q: q[0] == "field" and q[3] == "io_id" and req(q), v), "io:%s" % s.key(), "the installation reports %s" % fmt(v))
        c.ok(esub(lambda q: q[0] == "field" and q[3] == "meta" and req(q), v) and not esub(lambda q: q[0] == "call" and q[1].endswith("default"), v), "meta:%s" % s.key(), "the installation reports %s" % fmt(v))
    c.floor(k, "reports", 1)
    g = NTF(c)
    c.begin("recorded", "an installation report updates the applied and the stored-snapshot position to the snapshot's, and the flushed position")
    starts = g.edges(ism("sm::response::Response", ("InstallSnapshot",))(g))
    c.ok(bool(starts), "arm", "installation reports are not handled")
    rep = evar("InstallSnapshot")
    nometa = ism("Option", ("None",), X(lambda e: esub(rep, e)))
    for f, what in (("applied", "applied"), ("snapshot", "stored-snapshot")):
        ws = [w for w in g.writes("IOState", f) if esub(rep, g.value(w, 10))]
        c.ok(bool(ws) and all(SNAP(g.value(w, 10)) for w in ws), "value:%s" % f, "the %s position is not taken from the installed snapshot" % what)
        p = g.exit_from(starts, also=ws, match=nometa(g), exits=ret_ok(g))
        c.okpath(g, p, "update:%s" % f, "the %s position is not updated after an installation" % what)
    fl = [s for s in g.calls("IOProgress::flush", "flush") if esub(rep, g.expr(s.args()[1], 10))] + [w for w in g.writes("IOProgress", "flushed") if esub(rep, g.value(w, 10))]
    p = g.exit_from(starts, also=fl, exits=ret_ok(g))
    c.okpath(g, p, "flush", "an installation does not complete the write it stands for")


@prop("P22")
def snapshot_offered(c):
    """what a leader sends"""
    c.begin("offered", "a leader sends a follower its current snapshot, under its own vote")
    g = c.g("ReplicationCore::main")
    n = 0
    fs = [x for x in c.P().fns() if nm(x.name, ("ReplicationCore::send_snapshot",))]
    roots = [g] + [c.g(f) for f in fs]
    for h in roots:
        for s in h.calls("RaftNetworkV2::full_snapshot", "full_snapshot"):
            n += 1
            v = h.expr(s.args()[1], 10)
            c.ok(not esub(lambda q: q[0] in ("await",), v), "vote:%s" % s.key(), "the snapshot is sent with the vote %s" % fmt(v))
    c.notes.append("full_snapshot calls: %d" % n)
    w = c.g("core::sm::worker::Worker::worker_loop")
    k = 0
    for s in w.calls("ResultSender::send", "OneshotSender::send", "send"):
        a = s.args()
        if not a or not esub(evar("GetSnapshot"), w.expr(a[0], 8)):
            continue
        k += 1
        v = w.expr(a[1], 12)
        c.ok(find_call(v, ("get_current_snapshot", "RaftStateMachine::get_current_snapshot")) is not None, "current:%s" % s.key(), "a request for the current snapshot is answered with %s" % fmt(v))
    c.floor(k, "snapshots handed out", 1)


# ---- P32 -----------------------------------------------------------------------------

BUILDING = efield("IOState", "building_snapshot")


@prop("P32")
def one_build(c):
    """one build at a time"""
    c.begin("one", "a snapshot build is requested only when none is running, and marks one as running")
    n = 0
    T = lambda v: v[0] == "k" and v[1].startswith("true")
    F_ = lambda v: v[0] == "k" and v[1].startswith("false")
    for g in EVENTS(c):
        for s in g.cons(SMC, "BuildSnapshot"):
            n += 1
            c.guard(g, s, valm(False, X(BUILDING)), "idle:%s" % s.key(), "a snapshot build is requested while another is running")
            ws = [w for w in g.writes("IOState", "building_snapshot") if T(g.value(w, 3))]
            c.ok(g.must_precede(ws, s) is None or g.must_follow(s, ws) is None if ws else False, "mark:%s" % s.key(), "a requested build is not marked as running")
        for w in g.writes("IOState", "building_snapshot"):
            v = g.value(w, 3)
            if T(v):
                cs = g.cons(SMC, "BuildSnapshot")
                c.ok(bool(cs) and (g.must_precede(cs, w) is None or g.must_follow(w, cs) is None), "real:%s" % w.key(), "a build is marked as running but not requested")
            else:
                c.guard(g, w, ism("sm::response::Response", ("BuildSnapshot",)), "done:%s" % w.key(), "a build is marked as finished before it is")
    c.floor(n, "build requests", 1)
    g = NTF(c)
    starts = g.edges(ism("sm::response::Response", ("BuildSnapshot",))(g))
    c.ok(bool(starts), "arm", "finished builds are not handled")
    fw = [w for w in g.writes("IOState", "building_snapshot") if F_(g.value(w, 3))]
    p = g.exit_from(starts, also=fw, exits=ret_ok(g))
    c.okpath(g, p, "again", "after a finished build no other one can be requested")


@prop("P32")
def build_recorded(c):
    """what a finished build changes"""
    g = NTF(c)
    rep = evar("BuildSnapshot")
    c.begin("stored-position", "the stored-snapshot position moves only forward")
    n = 0
    for s in g.writes("IOState", "snapshot"):
        v = g.value(s, 10)
        n += 1
        if esub(rep, v):
            m = cmpm("gt", X(lambda e: SNAP(e) and esub(rep, e)), X(lambda e: esub(efield("IOState", "snapshot"), e) or esub(is_state_field("snapshot_meta"), e)))
            # (the node's snapshot is at least the stored one)
            c.guard(g, s, m, "guard", "a build that finished after a newer snapshot was installed moves the stored position backwards")
        else:
            c.ok(esub(evar("InstallSnapshot"), v), "src:%s" % s.key(), "the stored-snapshot position becomes %s" % fmt(v))
    c.floor(n, "stored-snapshot positions", 2)
    c.begin("adopted", "a newer finished build becomes the node's snapshot and its stored position")
    starts = g.edges(ism("sm::response::Response", ("BuildSnapshot",))(g))
    older = cmpm("le", X(lambda e: SNAP(e) and esub(rep, e)), X(lambda e: esub(is_state_field("snapshot_meta"), e)))
    ws = [w for w in g.writes("RaftState", "snapshot_meta") if esub(rep, g.value(w, 10))]
    p = g.exit_from(starts, also=ws, match=older(g), exits=ret_ok(g))
    c.okpath(g, p, "meta", "a newer finished build does not become the node's snapshot")
    older2 = cmpm("le", X(lambda e: SNAP(e) and esub(rep, e)), X(lambda e: esub(efield("IOState", "snapshot"), e)))
    ws = [w for w in g.writes("IOState", "snapshot") if esub(rep, g.value(w, 10))]
    p = g.exit_from(starts, also=ws, match=orm(older, older2)(g), exits=ret_ok(g))
    c.okpath(g, p, "stored", "a newer finished build is not recorded as stored")


@prop("P32")
def build_task(c):
    """the task that builds"""
    w = c.g("core::sm::worker::Worker::worker_loop")
    c.begin("task", "the builder is taken from the state machine in request order; its result, good or bad, is always reported")
    starts = w.edges(ism(SMC, ("BuildSnapshot",))(w))
    c.ok(bool(starts), "arm", "build requests are not handled")
    recv = w.awaits("recv", "MpscUnboundedReceiver::recv")
    gb = w.awaits("RaftStateMachine::get_snapshot_builder", "get_snapshot_builder")
    p = w.exit_from(starts, also=gb, exits=ends(w, recv))
    c.okpath(w, p, "builder", "a build request is dropped, or the next request is handled before the builder was taken")
    n = 0
    for h, caps, label in [(w, {}, "worker")] + [(c.g(f), caps, f.name) for f, caps, s in spawned(c, w)]:
        bs = h.awaits("RaftSnapshotBuilder::build_snapshot", "build_snapshot")
        if not bs:
            continue
        n += 1
        send = h.calls("MpscUnboundedSender::send", "send")
        for s in bs:
            p = h.exit_from(succs(h, s), also=send, exits=ends(h, recv if h is w else ()))
            c.okpath(h, p, "report:%s" % label, "the result of a build is not reported")
        for s in send:
            v = h.expr(s.args()[1], 14)
            if find_call(v, ("build_snapshot", "RaftSnapshotBuilder::build_snapshot")) is None:
                continue
            c.ok(not esub(lambda q: q[0] == "call" and q[1].endswith("default"), v), "what:%s" % label, "the build is reported as %s" % fmt(v))
    c.floor(n, "builds", 1)


# ---- P27: chunks -----------------------------------------------------------------------

CH = "<openraft::network::snapshot_transport::Chunked as openraft::network::snapshot_transport::SnapshotTransport>::"
ISN = ("install_snapshot", "RaftNetwork::install_snapshot")


def var_defs(g, op):
    """The variable an operand was copied from: (local, [definition sites])."""
    seen = set()
    while op[0] in ("c", "m") and not op[1][1]:
        l = op[1][0]
        if l in seen:
            break
        seen.add(l)
        ds = g._defidx().get(l, [])
        inst, k = g.ig.lname[l]
        if len(ds) == 1 and not (inst is g.ig.rootinst and k is not None and 1 <= k <= inst.fn.argc):
            b, i = ds[0]
            B = g.ig.blocks[b]
            if i < len(B.stmts) and B.stmts[i][1][0] == "use" and B.stmts[i][1][1][0] in ("c", "m"):
                op = B.stmts[i][1][1]
                continue
        return l, [Site(g.x, b, i, g.ig.blocks[b].stmts[i] if i < len(g.ig.blocks[b].stmts) else None) for b, i in ds]
    return None, []


def zero(e):
    return e[0] == "k" and e[1].startswith("0")


def Z(g, o):
    return zero(peel(g.expr(o)))


@prop("P27")
def chunks_sent(c):
    """sending a snapshot in chunks"""
    g = c.g(CH + "send_snapshot")
    c.begin("sent", "each chunk carries the bytes read at the offset it names; the offset advances by their number, only after the receiver accepted them under this leader's vote")
    reqs = g.cons("InstallSnapshotRequest")
    c.floor(len(reqs), "chunk requests", 1)
    inner = lambda e: find_call(e, ISN) is not None and not (e[0] == "await" and find_call(e, ("timeout", "AsyncRuntime::timeout", "TypeConfigExt::timeout")) is not None and not is_payload(e))
    okresp = ism("Result", ("Ok",), X(lambda e: find_call(e, ISN) is not None and (is_payload(e) or find_call(e, ("timeout", "AsyncRuntime::timeout")) is None)))
    vresp = lambda e: find_call(e, ISN) is not None
    vmine = lambda e: find_call(e, ISN) is None and "vote" in fmt(e)
    nothigher = cmpm("le", X(vresp), X(vmine))
    higher = cmpm("gt", X(vresp), X(vmine))
    seeks = [s for s in g.calls("AsyncSeekExt::seek", "seek") if find_agg(g.expr(s.args()[1], 8), ("Start",)) or isvar(g.expr(s.args()[1], 8), "Start")]
    reads = g.calls("AsyncReadExt::read_buf", "read_buf", "read", "AsyncReadExt::read", "read_exact", "AsyncReadExt::read_exact", "take")
    c.ok(bool(seeks), "seek", "the snapshot is not read from a given offset")
    for s in reqs:
        c.precede(g, seeks, s, "positioned:%s" % s.key(), "a chunk is read without moving to its offset")
        p = g.guarded_from(succs(g, s), s, lambda f: False, seeks)
        c.okpath(g, p, "again:%s" % s.key(), "the next chunk is read without moving to its offset")
        c.ok(any(g.can_reach(r, [s]) is not None for r in reads), "read:%s" % s.key(), "a chunk is sent without reading it")
        lo, defs = var_defs(g, s.field("offset"))
        for k in seeks:
            se = g.expr(k.args()[1], 12)
            oe = g.expr(s.field("offset"), 12)
            a = {fmt(q)[:60] for q in parts(oe) if q[0] == "phi"}
            b = {fmt(q)[:60] for q in parts(se) if q[0] == "phi"}
            if oe[0] == "phi":
                c.ok(bool(a & b) or not b, "offset:%s" % s.key(), "the chunk is read at %s but sent as %s" % (fmt(se), fmt(oe)))
        n = 0
        for d in defs:
            v = g.value(d, 6)
            if zero(v):
                continue
            n += 1
            starts = succs(g, s)
            p = g.guarded_from(starts, d, okresp(g))
            c.okpath(g, p, "acked:%s" % s.key(), "the offset advances although the chunk was not accepted")
            p = g.guarded_from(starts, d, nothigher(g))
            c.okpath(g, p, "vote:%s" % s.key(), "the offset advances although the receiver has a higher vote")
            p = g.guarded(d, lambda f: False, also=reqs)
            c.okpath(g, p, "first:%s" % s.key(), "the offset advances before the first chunk was sent")
            if v[0] == "bin" and v[1].startswith("Add"):
                rest = [x for x in v[2:4] if not (x[0] == "phi" or fmt(x) == fmt(g.expr(s.field("offset"), 6)))]
                bad = [x for x in rest if not esub(lambda q: q[0] == "call" and nm(q[1], ("len", "Vec::len", "slice::len")), x) and (x[0] == "k" or esub(lambda q: q[0] in ("field",) and q[3] == "snapshot_chunk_size", x))]
                c.ok(not bad and not (rest and rest[0][0] == "bin"), "step:%s" % s.key(), "the offset advances by %s" % (fmt(rest[0]) if rest else "?"))
            else:
                c.notes.append("offset update not recognised: %s" % fmt(v)[:80])
        c.ok(n > 0 or not defs, "advance:%s" % s.key(), "the offset never advances")
        e = g.expr(s.field("meta"), 8)
        c.ok(esub(lambda q: q[0] == "field" and q[3] in ("meta", "snapshot"), e), "meta:%s" % s.key(), "the chunk carries the metadata %s" % fmt(e))
        c.ok(find_call(g.expr(s.field("vote"), 8), ISN) is None, "sender:%s" % s.key(), "the chunk carries the vote %s" % fmt(g.expr(s.field("vote"), 8)))
    c.begin("finished", "sending is reported as done only after the chunk that reaches the end of the snapshot was accepted, or the receiver has a higher vote")
    end = lambda e: esub(lambda q: q[0] in ("await", "call") and nm(q[1], ("seek", "AsyncSeekExt::seek")) and "End" in fmt(q), e)
    done = orm(cmpm("eq", X(lambda e: not end(e)), X(end)), cmpm("ge", X(lambda e: not end(e)), X(end)))
    for s in reqs:
        d = g.expr(s.field("done"), 8)
        c.ok(d[0] != "k", "flag:%s" % s.key(), "every chunk is marked %s" % fmt(d))
        starts = succs(g, s)
        outs = ret_ok(g, "Ok")
        p = g.exit_from(starts, also=reqs, match=okresp(g), exits=outs)
        c.okpath(g, p, "answered:%s" % s.key(), "a snapshot counts as sent without an answer to its last chunk")
        p = g.exit_from([0], also=(), match=orm(done, higher)(g), exits=outs)
        c.okpath(g, p, "end:%s" % s.key(), "a snapshot counts as sent although its end was not reached")


def is_payload(e):
    return e[0] in ("field", "var") or e[0] == "phi" and all(is_payload(a) for a in e[1])


def isvar(e, v):
    return any(q[0] == "agg" and q[1][0] == "adt" and q[1][2] == v for q in parts(e))


def REQ(f):
    return lambda e: esub(lambda q: q[0] == "field" and q[3] == f and adtm(q[2], "InstallSnapshotRequest"), e)


@prop("P27")
def chunks_received(c):
    """receiving a snapshot in chunks"""
    g = c.g(CH + "receive_snapshot")
    OFF = lambda e: efield("Streaming", "offset")(peel(e))
    roff = lambda e: efield("InstallSnapshotRequest", "offset")(peel(e))
    c.begin("stream", "a new reception starts only at offset 0; a chunk is written only to the reception of the same snapshot")
    st_ = g.cons("Streaming")
    c.floor(len(st_), "receptions", 1)
    for s in st_:
        c.guard(g, s, cmpm("eq", X(roff), Z), "zero:%s" % s.key(), "a reception starts in the middle of a snapshot")
        c.ok(zero(g.expr(s.field("offset"), 3)), "init:%s" % s.key(), "a reception starts with the offset %s" % fmt(g.expr(s.field("offset"), 3)))
        c.ok(REQ("meta")(g.expr(s.field("snapshot_id"), 10)), "id:%s" % s.key(), "the reception is for %s" % fmt(g.expr(s.field("snapshot_id"), 10)))
    wr = g.awaits("AsyncWriteExt::write_all", "write_all")
    c.ok(bool(wr), "write", "chunks are not written")
    same_id = cmpm("eq", X(lambda e: "streaming" in fmt(e)), X(REQ("meta")))
    sk = g.awaits("AsyncSeekExt::seek", "seek")
    skok = ism("Result", ("Ok",), X(lambda e: find_call(e, ("seek", "AsyncSeekExt::seek")) is not None))
    for s in wr:
        c.guard(g, s, same_id, "same:%s" % s.key(), "a chunk is written to the reception of another snapshot", also=st_)
        a = g.ig.blocks[s.b].term[1][2]
        d = g.expr(a[1], 10)
        c.ok(REQ("data")(d), "data:%s" % s.key(), "the data written is %s" % fmt(d))
        c.guard(g, s, orm(cmpm("eq", X(roff), X(OFF)), skok), "at:%s" % s.key(), "a chunk is written at a position other than the one it names")
    for s in g.calls("AsyncSeekExt::seek", "seek"):
        e = g.expr(s.args()[1], 8)
        c.ok(isvar(e, "Start") and REQ("offset")(e), "seek:%s" % s.key(), "the reception is moved to %s" % fmt(e))
    wok = ism("Result", ("Ok",), X(lambda e: find_call(e, ("write_all", "AsyncWriteExt::write_all")) is not None))
    for w in g.writes("Streaming", "offset"):
        v = g.value(w, 6)
        if REQ("offset")(v) and v[0] != "bin":
            c.guard(g, w, orm(skok, cmpm("eq", X(roff), X(OFF))), "moved:%s" % w.key(), "the position is changed without moving the reception")
        else:
            c.guard(g, w, wok, "written:%s" % w.key(), "the position advances before the chunk was written")
            k = v[0] == "bin" and v[1].startswith("Add") and esub(lambda q: q[0] == "call" and nm(q[1], ("len", "Vec::len", "slice::len")), v) and REQ("data")(v) or v[0] != "bin" and v[0] != "k"
            c.ok(k, "step:%s" % w.key(), "the position becomes %s" % fmt(v))
    c.begin("complete", "a snapshot counts as received only when its last chunk was written and the data was flushed; it carries that chunk's metadata and the received data, and the reception is closed")
    n = 0
    for s in g.cons("Snapshot"):
        n += 1
        c.guard(g, s, valm(True, X(REQ("done"))), "done:%s" % s.key(), "a snapshot is complete before its last chunk")
        c.guard(g, s, wok, "written:%s" % s.key(), "a snapshot is complete although its last chunk was not written")
        c.guard(g, s, ism("Result", ("Ok",), X(lambda e: find_call(e, ("shutdown", "AsyncWriteExt::shutdown", "flush", "AsyncWriteExt::flush")) is not None)), "flushed:%s" % s.key(), "a snapshot is complete before its data was flushed")
        c.ok(REQ("meta")(g.expr(s.field("meta"), 10)), "meta:%s" % s.key(), "the snapshot received has the metadata %s" % fmt(g.expr(s.field("meta"), 10)))
        d = g.expr(s.field("snapshot"), 12)
        c.ok(esub(lambda q: q[0] == "field" and q[3] == "snapshot_data" or "streaming" in fmt(q)[:200], d), "data:%s" % s.key(), "the snapshot received has the data %s" % fmt(d))
        tk = [q for q in g.calls("Option::take", "take", "mem::take", "mem::replace") if "streaming" in fmt(g.expr(q.args()[0], 8))]
        c.precede(g, tk, s, "closed:%s" % s.key(), "a finished reception stays open")
    c.floor(n, "received snapshots", 1)
    c.begin("contiguous", "a chunk is taken only if everything before it was received")
    for s in wr:
        c.guard(g, s, cmpm("le", X(roff), X(OFF)), "gap", "a chunk beyond the received part is accepted, leaving a gap")


@prop("P27")
def chunks_checked(c):
    """the receiving endpoint"""
    g = c.g("Raft::install_snapshot")
    c.begin("endpoint", "chunks of a leader with a smaller vote are refused; a completed snapshot is installed under the vote of the request")
    wr = g.awaits("AsyncWriteExt::write_all", "write_all")
    c.ok(bool(wr), "write", "chunks are not received")
    req = lambda e: efield("InstallSnapshotRequest", "vote")(peel(e))
    for s in wr:
        c.guard(g, s, cmpm("ge", X(req), ANY, total=False), "vote:%s" % s.key(), "a chunk of a leader with a smaller vote is taken")
    n = 0
    for s in g.cons("RaftMsg", "InstallFullSnapshot"):
        n += 1
        c.ok(req(g.expr(s.field("vote"), 8)), "with:%s" % s.key(), "the snapshot is installed under the vote %s" % fmt(g.expr(s.field("vote"), 8)))
        c.guard(g, s, valm(True, X(REQ("done"))), "done:%s" % s.key(), "a snapshot is installed before its last chunk was received")
    c.floor(n, "installations", 1)
