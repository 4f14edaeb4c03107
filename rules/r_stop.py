"""How a node stops (P24)."""
from common import *
from r_vote import find_call
from r_commit import parts, find_agg
from r_life import XD, dsub
from r_repl import succs
from r_snap import var_defs
from r_start import walk, callee, has

CS = "CoreState"
DONE = lambda e: dsub(lambda q: q[0] == "var" and len(q) > 2 and q[2] == "Done", e)
RUNNING = lambda e: dsub(lambda q: q[0] == "var" and len(q) > 2 and q[2] == "Running", e)
WATCHED = ("borrow_watched", "WatchReceiver::borrow_watched")
LOCK = ("lock", "Mutex::lock")


def is_handle(ty):
    """The join handle of the main task (its result is `Result<Infallible, Fatal>`)."""
    return "JoinHandle<" in ty and "Infallible" in ty and "Fatal<" in ty and "watch" not in ty.split("JoinHandle<")[0].lower()


def owned(ty):
    return is_handle(ty) and not ty.startswith("&") and ty.split("<")[0] in ("", "JoinHandle") or (is_handle(ty) and ty.startswith("<<C as"))


def branch_nodes(g, p, truth=True):
    """Entered nodes of branches on a boolean that, there, is the computed value satisfying p."""
    out = set()
    for n, (b, env) in enumerate(g.x.nodes):
        t = g.ig.blocks[b].term
        if t[0] != "switch" or not t[4]:
            continue
        v = g.x._val(g.x.env_at(n, TERM), t[1])
        if v is not None and v[0] == "k":
            continue
        if not any(p(a) for a in alts(g.expr(t[1], 12))):
            continue
        for y, lab in g.x.succ[n]:
            if (lab != "0") == truth:
                out.add(y)
    return out


@prop("P24")
def join(c):
    """waiting for the main task to end"""
    g = c.g("RaftInner::join_core_task")
    c.begin("joined", "whoever waits for the node to stop waits until the result of its main task is recorded")
    done = g.cons(CS, "Done")
    c.floor(len(done), "recorded results", 1)
    isdone = ism(CS, ("Done",), ANY)
    told = branch_nodes(g, lambda e: callee(e, WATCHED))
    stop = g._stopset(done) | told
    seen = g.x.reach([0], stop=stop, cut=g.cutter(isdone(g)))
    bad = [n for n in g.x.bynode.get(g.ig.exit, []) if n in seen and n not in stop]
    c.okpath(g, g.x.path_to(bad[0]) if bad else None, "exit", "waiting ends before the main task does")
    sends = [s for s in g.calls("WatchSender::send", "send") if g.expr(s.args()[-1], 6)[:2] == ("k", "true")]
    for s in sends:
        c.precede(g, done, s, "told:%s" % s.key(), "the others are told that the main task ended before its result is recorded")
    for s in g.calls("Watch::channel", "watch_channel", "TypeConfigExt::watch_channel"):
        e = g.expr(s.args()[-1], 6)
        c.ok(e[0] == "k" and e[1] == "false", "channel:%s" % s.key(), "the channel others wait on starts with %s" % fmt(e))
    for s in done:
        w = sends
        if g.cons(CS, "Joining"):
            c.follow(g, s, w, "tell:%s" % s.key(), "the others waiting are not told")
    c.begin("result", "what is recorded is the result of the main task; a panic or an abort is recorded as such")
    joined = lambda e: any(q[0] == "await" and RUNNING(q) for q in walk(e))
    n = 0
    for s in done:
        e = g.expr(s.ops()[0], 20)
        for d in var_defs(g, s.ops()[0])[1] or [s]:
            v = g.value(d, 20) if d is not s else e
            v = v if v[0] == "agg" or d is s else v
            n += 1
            f = find_agg(v, ("Fatal",))
            if f is None:
                c.ok(joined(v), "value:%s" % d.key(), "the recorded result is %s" % fmt(v)[:200])
                continue
            c.guard(g, d, ism("Result", ("Err",), XD(joined)), "failed:%s" % d.key(), "the main task's own result is replaced by %s" % fmt(f))
            ispanic = lambda truth: bcallm(("is_panic", "AsyncRuntime::is_panic"), truth)
            if f[1][2] == "Panicked":
                c.guard(g, d, ispanic(True), "panic:%s" % d.key(), "a panic is recorded without one")
            else:
                c.guard(g, d, ispanic(False), "nopanic:%s" % d.key(), "a panic is recorded as %s" % f[1][2])
    c.floor(n, "recorded results", 3)
    c.begin("cancel", "a caller that stops waiting does not take the main task's handle with it")
    k = 0
    spawned_ = set()
    for f in c.P("core").fns():
        for i, l in enumerate(f.locals):
            if l[2] != "__awaitee" or not is_handle(l[0]):
                continue
            k += 1
            ty = l[0]
            if not ty.lstrip().startswith("&mut"):
                c.ok(False, "owned:%s" % f.name, "the future waiting for the main task owns its handle: when it is dropped, %s loses it" % f.name)
                continue
            c.ok(True, "borrowed:%s" % f.name, "")
    c.floor(k, "places waiting for the main task", 1)
    # the struct holding the handle gives it back when dropped
    drops = [f for f in c.P("core").fns() if f.name.endswith("Drop>::drop") and "raft" in f.name]
    back = []
    for f in drops:
        d = c.g(f.name)
        for s in d.cons(CS, "Running"):
            back.append((f, d, s))
    c.floor(len(back), "guards giving the handle back", 1)
    for f, d, s in back:
        e = d.expr(s.ops()[0], 12)
        c.ok(dsub(lambda q: q[0] == "arg" and q[2] == "self", e), "back:%s" % f.name, "the handle given back is %s" % fmt(e)[:120])
        none = ism("Option", ("None",), XD(lambda e: dsub(lambda q: q[0] == "field", e)))
        path = d.exit_from([0], also=[s], match=none(d))
        c.okpath(d, path, "always:%s" % f.name, "the handle is not given back")
        stored = [w for w in writes_through(d) if d.can_reach(s, [w]) or w.b == s.b]
        c.ok(any(True for w in stored), "stored:%s" % f.name, "the handle given back is not stored")
    # and nothing is given back after the result was recorded
    for s in done:
        empt = handle_cleared(g)
        if back:
            c.precede(g, empt, s, "once:%s" % s.key(), "the handle of a task that ended is given back")


def writes_through(d):
    """Assignments through a reference (`*guard = value`)."""
    out = []
    for b in d._live():
        for i, (pl, rv, sp) in enumerate(d.ig.blocks[b].stmts):
            if pl[1] and pl[1][0] == "*":
                out.append(Site(d.x, b, i, rv))
    return out


def handle_cleared(g):
    """Sites that take the handle out of the struct that would give it back, or forget that struct."""
    out = g.calls("mem::forget", "forget", "ManuallyDrop::new")
    for b in g._live():
        B = g.ig.blocks[b]
        for i, (pl, rv, sp) in enumerate(B.stmts):
            if pl[1] and isinstance(pl[1][-1], tuple) and pl[1][-1][0] == "f" and "join" in str(pl[1][-1][2]).lower():
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][2] == "None" or rv[0] == "use":
                    out.append(Site(g.x, b, i, rv))
    for s in g.calls("Option::take", "mem::take", "mem::replace"):
        e = g.expr(s.args()[0], 8)
        if any(q[0] == "field" and is_guard_field(q) for q in walk(e)):
            out.append(s)
    return out


def is_guard_field(q):
    return "join" in str(q[3]).lower()


@prop("P24")
def cause(c):
    """what callers of a stopped node get"""
    c.begin("cause", "a caller whose request cannot be sent or is never answered gets the recorded error")
    n = 0
    for name in ("RaftInner::send_msg", "RaftInner::recv_msg", "RaftInner::call_core", "RaftInner::send_external_command", "RaftInner::get_core_stopped_error", "Raft::with_raft_state", "Raft::with_state_machine"):
        g = c.g(name)
        n += 1
        for s in g.cons("Fatal"):
            if g.ig.blocks[s.b].fn.name in reach_join(c) and not name.endswith("join_core_task"):
                continue
            c.ok(False, "made:%s" % s.key(), "%s makes up the error %s" % (name, s.data[1][2]))
        e = g.expr(("c", g.ig.retplace), 30)
        if name.endswith("get_core_stopped_error"):
            c.ok(DONE(e), "recorded:%s" % name, "the error given is %s" % fmt(e)[:200])
            for s in g.calls("unwrap_err", "Result::unwrap_err"):
                c.guard(g, s, ism(CS, ("Done",), ANY), "done:%s" % s.key(), "the result of the main task is read before it is recorded")
            continue
        sent = [s for s in g.calls("MpscUnboundedSender::send")]
        err = lambda ps: ism("Result", ("Ok",), XD(lambda e: any(p(e) for p in ps)))
        snd = lambda e: find_call(e, ("MpscUnboundedSender::send",)) is not None and not DONE(e)
        rcv = lambda e: any(q[0] == "await" for q in walk(e)) and not DONE(e)
        # the success exit is only reached with the message sent and the answer received
        told = ism(CS, ("Done",), ANY)
        tells = g.calls("unwrap_err", "Result::unwrap_err")
        if name in ("RaftInner::send_msg", "RaftInner::call_core", "RaftInner::send_external_command"):
            c.okpath(g, g.exit_from([0], also=tells, match=orm(told, err([snd]), valm(False, XD(lambda e: e[0] == "call" and nm(e[1], ("is_err", "Result::is_err")) and snd(e))))(g)), "sent:%s" % name, "%s ends normally although nothing was sent" % name)
        if name in ("RaftInner::recv_msg", "RaftInner::call_core", "Raft::with_raft_state"):
            c.okpath(g, g.exit_from([0], also=tells, match=orm(told, err([rcv]))(g)), "received:%s" % name, "%s ends normally although nothing was received" % name)
        if name == "Raft::with_state_machine":
            for s in g.cons("InvalidStateMachineType"):
                alive = branch_nodes(g, lambda e: find_call(e, ("MpscUnboundedSender::send",)) is not None)
                notrun = valm(True, XD(lambda e: find_call(e, ("MpscUnboundedSender::send",)) is not None or callee(e, ("is_ok", "Result::is_ok"))))
                c.guard(g, s, orm(notrun, ism("Result", ("Ok",), XD(snd))), "alive:%s" % s.key(), "a stopped node is reported as a wrong type of state machine")
    c.floor(n, "ways to ask the main task", 7)
    c.begin("apis", "no public call makes up the error of a stopped node")
    m = 0
    for f in c.P("core").fns():
        if f.derived or not f.name.startswith("openraft::raft::"):
            continue
        for bi, b in enumerate(f.blocks):
            for st in b[0]:
                rv = st[1]
                if rv[0] == "agg" and rv[1][0] == "adt" and str(rv[1][1]).endswith("::Fatal"):
                    m += 1
                    c.ok("join_core_task" in f.name or f.name in reach_join(c), "fatal:%s:%s" % (f.name, rv[1][2]), "%s makes up the error %s" % (f.name, rv[1][2]))
    c.floor(m, "errors made", 2)


def reach_join(c):
    if not hasattr(c, "_joinfns"):
        g = c.g("RaftInner::join_core_task")
        c._joinfns = {g.ig.blocks[b].fn.name for b in g._live()}
    return c._joinfns


@prop("P24")
def main_end(c):
    """how the main task ends"""
    g = c.g("RaftCore::main", opaque=("RaftCore::do_main",))
    c.begin("published", "before the main task ends, the node's metrics show it is shut down, and why")
    dm = lambda e: any(q[0] == "await" for q in walk(e)) and callee(e, ("do_main", "RaftCore::do_main")) or any(q[0] == "await" and nm(q[1], ("do_main", "RaftCore::do_main")) for q in walk(e))
    whole = [s for s in g.cons("RaftMetrics") if any(isagg(a, (), ("Err",)) for a in alts(g.expr(s.field("running_state"), 6)))]
    ws = g.writes("RaftMetrics", "running_state") + whole
    ss = g.writes("RaftMetrics", "state") + whole
    val = lambda s, f, d: g.expr(s.field(f), d) if s in whole else g.value(s, d)
    sends = [s for s in g.calls("WatchSender::send", "send", "send_replace", "send_modify") if dsub(lambda q: q[0] in ("field",) and q[3] == "tx_metrics", g.expr(s.args()[0], 10))]
    c.floor(len(sends), "publications", 1)
    c.floor(len(ws), "final running states", 1)
    c.floor(len(ss), "final server states", 1)
    fin = [s for s in sends if any(g.can_reach(w, [s]) is not None or w.b == s.b for w in ws)]
    c.okpath(g, g.exit_from([0], also=ws), "why", "the main task ends without saying why")
    c.okpath(g, g.exit_from([0], also=fin), "sent", "the main task ends without publishing its final state")
    for s in ws:
        v = val(s, "running_state", 16)
        for a in alts(v):
            c.ok(a[0] == "agg" and a[1][2] == "Err" and dm(a) and find_agg(a, ("Fatal",)) is None, "why:%s" % s.key(), "the final running state is %s" % fmt(a)[:160])
        c.follow(g, s, fin, "why-sent:%s" % s.key(), "the reason of the end is not published")
    for s in ss:
        v = val(s, "state", 8)
        c.ok(all(a[0] == "agg" and a[1][2] == "Shutdown" for a in alts(v)), "state:%s" % s.key(), "the final server state is %s" % fmt(v))
    for s in fin:
        c.precede(g, ss, s, "state-first:%s" % s.key(), "the final state is published without the server state")
        c.precede(g, ws, s, "why-first:%s" % s.key(), "the final state is published without the reason")
    e = g.expr(("c", g.ig.retplace), 16)
    c.ok(dm(e) and find_agg(e, ("Fatal",)) is None, "returns", "the main task returns %s" % fmt(e)[:200])
    s0 = c.g("Raft::shutdown")
    c.begin("shutdown", "a shutdown signals the main task before waiting for it")
    sig = [s for s in s0.calls("OneshotSender::send", "send") if dsub(lambda q: q[0] == "field" and q[3] == "tx_shutdown", s0.expr(s.args()[0], 12))]
    c.floor(len(sig), "shutdown signals", 1)
    none = ism("Option", ("None",), XD(lambda e: dsub(lambda q: q[0] == "field" and q[3] == "tx_shutdown", e)))
    c.okpath(s0, s0.exit_from([0], also=sig, match=none(s0)), "signal", "a shutdown does not tell the main task")
    reach = [s for s in s0.cons(CS, "Done")]
    told = branch_nodes(s0, lambda e: callee(e, WATCHED))
    stop = s0._stopset(reach) | told
    seen = s0.x.reach([0], stop=stop, cut=s0.cutter(ism(CS, ("Done",), ANY)(s0)))
    bad = [n for n in s0.x.bynode.get(s0.ig.exit, []) if n in seen and n not in stop]
    c.okpath(s0, s0.x.path_to(bad[0]) if bad else None, "waits", "a shutdown returns before the main task ended")
