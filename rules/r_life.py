"""Life cycle: initialization, start-up, storage errors, shutdown, metrics."""
from common import *
from r_vote import find_call
from r_commit import parts, find_agg
from r_member import in_arm
from r_repl import succs, ends
ME = lambda e: esub(efield("EngineConfig", "id"), e)

INIT = evar("Initialize")


def XD(p, d=18):
    return lambda g, o: p(g.expr(o, d))


def dsub(p, e):
    """esub without a depth limit."""
    seen, work = set(), [e]
    while work:
        q = work.pop()
        if not isinstance(q, tuple) or id(q) in seen:
            continue
        seen.add(id(q))
        if q and isinstance(q[0], str) and p(q):
            return True
        work.extend(x for x in q if isinstance(x, tuple))
    return False


def evari(variant):
    return lambda q: q[0] == "var" and len(q) > 2 and q[2] == variant


# ---- P29: initialization ------------------------------------------------------------


def init_effects(g):
    """Everything initialization changes or asks for (replies excepted)."""
    out = [s for s in g.cons(CMD) if s.data[1][2] != "Respond"]
    out += g.writes("RaftState", "vote") + g.mutcalls("RaftState", "vote") + g.mutcalls("LogIdList", "key_log_ids")
    out += g.writes("MembershipState", "effective") + g.writes("MembershipState", "committed") + g.writes("RaftState", "committed")
    return [s for s in out if in_arm(g, s, "RaftMsg", "Initialize")]


@prop("P29")
def init_guards(c):
    """who may initialize"""
    g = API(c)
    c.begin("pristine", "initialization changes something only on a node without logs that has never voted, with itself among the voters given")
    eff = init_effects(g)
    nolog = ism("Option", ("None",), X(lambda e: all(last_log(a) for a in alts(e))))
    nolog2 = valm(False, X(lambda e: e[0] == "call" and nm(e[1], ("is_some", "Option::is_some")) and all(last_log(a) for a in alts(e[2][0]))))
    member = orm(
        bcallm(("contains", "BTreeSet::contains", "contains_key", "BTreeMap::contains_key"), True, XD(lambda e: dsub(evari("Initialize"), e)), X(ME)),
        ism("Option", ("Some",), XD(lambda e: dsub(evari("Initialize"), e) and ME(e) and find_call(e, ("get", "BTreeMap::get", "get_node", "find")) is not None)),
    )
    seen = set()
    for s in eff:
        k = s.key()
        if k in seen:
            continue
        seen.add(k)
        c.guard(g, s, orm(nolog, nolog2), "log:%s" % k, "a node with logs is initialized")
        c.guard(g, s, PRISTINE, "vote:%s" % k, "a node that has voted is initialized")
        c.guard(g, s, member, "member:%s" % k, "a node is initialized with a membership it is not a voter of")
    c.floor(len(eff), "effects of initialization", 3)
    c.begin("refused", "initialization is refused only for these reasons, and says which")
    some = ism("Option", ("Some",), X(lambda e: all(last_log(a) for a in alts(e))))
    some2 = valm(True, X(lambda e: e[0] == "call" and nm(e[1], ("is_some", "Option::is_some")) and all(last_log(a) for a in alts(e[2][0]))))
    voted = cmpm("ne", vote_state, X(ecall("default")), total=True)
    n = 0
    for s in g.cons("NotAllowed"):
        if not in_arm(g, s, "RaftMsg", "Initialize"):
            continue
        n += 1
        c.guard(g, s, orm(some, some2, voted), "why:%s" % s.key(), "a pristine node refuses to be initialized")
        v = g.expr(s.field("vote"), 6)
        c.ok(all(is_vote_data(a) for a in alts(v)), "vote:%s" % s.key(), "the refusal names the vote %s" % fmt(v))
        v = g.expr(s.field("last_log_id"), 6)
        c.ok(all(last_log(a) for a in alts(v)), "last:%s" % s.key(), "the refusal names the last log id %s" % fmt(v))
    for s in g.cons("NotInMembers"):
        if not in_arm(g, s, "RaftMsg", "Initialize"):
            continue
        n += 1
        p = g.guarded(s, member(g))
        c.ok(p is not None, "member:%s" % s.key(), "a node among the voters given is refused")
    c.floor(n, "refusals", 2)


@prop("P29")
def init_effect(c):
    """what initialization does"""
    g = API(c)
    c.begin("entry", "initialization writes exactly one entry, the membership given, at the very first log id")
    n = 0
    apps = [s for s in g.cons(CMD, "AppendInputEntries") if in_arm(g, s, "RaftMsg", "Initialize") and esub(INIT, g.expr(s.field("entries"), 14))]
    for s in apps:
        n += 1
        e = g.expr(s.field("entries"), 14)
        arrs = [a for a in [find_arr(e)] if a is not None]
        c.ok(all(len(a[2]) == 1 for a in arrs), "one:%s" % s.key(), "initialization writes %s" % fmt(e)[:200])
        c.ok(find_call(e, ("new_membership", "RaftPayload::new_membership", "RaftEntry::new_membership", "FromAppData::from_app_data")) is not None, "membership:%s" % s.key(), "the first entry is %s" % fmt(e)[:200])
        ids = [k for k in g.calls("set_log_id", "RaftLogId::set_log_id") if in_arm(g, k, "RaftMsg", "Initialize") and esub(INIT, g.expr(k.args()[0], 14))]
        mk = find_call(e, ("new_membership", "RaftPayload::new_membership", "RaftEntry::new_membership"))
        c.ok(is_default(mk[2][0]) if mk else False, "born:%s" % s.key(), "the first entry is created with the log id %s" % (fmt(mk[2][0]) if mk else "?"))
        for k in ids:
            v = g.expr(k.args()[1], 8)
            c.ok(is_default(v), "id:%s" % k.key(), "the first entry gets the log id %s" % fmt(v))
    c.floor(n, "first entries", 1)
    c.begin("elects", "an initialized node starts an election, and the entry is part of what it accepted before")
    sv = [s for s in g.cons(CMD, "SendVote") if in_arm(g, s, "RaftMsg", "Initialize")]
    for s in apps:
        c.follow(g, s, sv, "elect:%s" % s.key(), "no election is started")
        eff = [w for w in g.writes("MembershipState", "effective") if in_arm(g, w, "RaftMsg", "Initialize")]
        p = g.must_follow(s, eff) if g.must_precede(eff, s) is not None else None
        q = None if p is None else p
        # (an initialization entry is always a membership: the branch without one does not exist at run time)
        c.ok(bool(eff), "effective:%s" % s.key(), "the membership given does not become effective")
    for s in sv:
        c.precede(g, apps, s, "first:%s" % s.key(), "an election is started before the first entry is written")
    c.begin("answer", "the answer is the outcome")
    k = 0
    for s in g.cons(CMD, "Respond"):
        if not in_arm(g, s, "RaftMsg", "Initialize"):
            continue
        k += 1
        v = g.expr(s.field("resp"), 14)
        c.ok(find_agg(v, ("NotAllowed",)) is not None or find_agg(v, ("Ok",)) is not None or "Initialize" in fmt(v), "what:%s" % s.key(), "initialization is answered with %s" % fmt(v)[:200])
    c.floor(k, "answers", 1)
    r = c.g("Raft::initialize")
    c.begin("request", "the members given are the members used")
    n = 0
    for s in r.cons("RaftMsg", "Initialize"):
        n += 1
        v = r.expr(s.field("members"), 10)
        c.ok(esub(lambda q: q[0] == "arg" and q[2] == "members" or q[0] == "field" and q[3] == "members", v), "members:%s" % s.key(), "the node is initialized with %s" % fmt(v))
    c.floor(n, "requests", 1)
    c.begin("voters", "all members given are voters of a single configuration, each with its node")
    for s in g.cons("Membership"):
        if not in_arm(g, s, "RaftMsg", "Initialize") or not esub(INIT, g.expr(s.field("nodes"), 12)):
            continue
        cf, nd = g.expr(s.field("configs"), 14), g.expr(s.field("nodes"), 14)
        a = find_arr(cf)
        c.ok(a is not None and len(a[2]) == 1 and esub(INIT, a[2][0]) and not esub(lambda q: q[0] == "call" and nm(q[1], ("filter", "Iterator::filter", "skip", "Iterator::skip", "take", "Iterator::take", "filter_map", "Iterator::filter_map")), cf), "configs:%s" % s.key(), "the initial configuration is %s" % fmt(cf)[:200])


def find_arr(e):
    hit = []

    def p(q):
        if q[0] == "agg" and q[1][0] == "array":
            hit.append(q)
            return True
        return False

    esub(p, e)
    return hit[0] if hit else None


def is_default(e):
    e = peel(e)
    if e[0] == "call" and (e[1].endswith("default") or nm(e[1], ("Default::default",))):
        return True
    if e[0] == "agg" and e[1][0] == "adt":
        return all(is_default(x) for x in e[2])
    return e[0] == "k" and e[1].startswith("0")


# ---- P11: storage errors --------------------------------------------------------------

STO = [
    t + "::" + m
    for t, ms in (
        ("RaftLogStorage", ("save_vote", "append", "truncate", "purge", "save_committed", "read_committed", "get_log_state")),
        ("RaftLogStorageExt", ("blocking_append",)),
        ("RaftLogReader", ("read_vote", "try_get_log_entries", "limited_get_log_entries")),
        ("RaftLogReaderExt", ("get_log_id", "try_get_log_entry", "get_log_ids")),
        ("RaftStateMachine", ("apply", "install_snapshot", "begin_receiving_snapshot", "get_current_snapshot", "applied_state")),
        ("RaftSnapshotBuilder", ("build_snapshot",)),
    )
    for m in ms
]


def awname(s):
    return s.data.n if hasattr(s.data, "n") else str(s.data)


def outcome(variant, name):
    """Fact: the result of awaiting `name` is Ok / Err."""
    short_ = "::".join(name.rstrip(")").split("::")[-2:])
    tail = name.split("::")[-1]

    def p(e):
        return all(a[0] in ("await", "call") and (nm(a[1], (short_,)) or a[1] == name or a[1].endswith("::" + tail)) for a in alts(e))

    return ism("Result", (variant,), X(p))


def build_roots(c, w):
    return [(c.g(f), f.name) for f, caps, s in spawned(c, w) if c.g(f).awaits("RaftSnapshotBuilder::build_snapshot", "build_snapshot")]


@prop("P11")
def errors_checked(c):
    """no storage result is ignored"""
    c.begin("checked", "after a storage operation nothing else is done and no success is reported unless it succeeded")
    w = c.g("core::sm::worker::Worker::worker_loop")
    recv = w.awaits("recv", "MpscUnboundedReceiver::recv")
    n = 0
    for g, again, label in (
        (EXEC(c), [], "executor"),
        (w, recv, "state machine task"),
        (c.g("StorageHelper::get_initial_state"), [], "start-up"),
        (c.g("StorageHelper::last_membership_in_log"), [], "start-up"),
        (c.g("LogIdList::load_log_ids"), [], "start-up"),
    ):
        for s in g.awaits(*STO):
            n += 1
            name = awname(s)
            outs = set(ret_ok(g)) | {x for a in again for x in g.nodes(a)}
            okm = outcome("Ok", name)(g)
            stop = set()
            seen = g.x.reach(succs(g, s), cut=g.cutter(okm))
            direct = returned(g, s)
            bad = [x for x in outs if x in seen] if not direct else []
            c.okpath(g, g.x.path_to(bad[0]) if bad else None, "%s:%s" % (label, s.key()), "the result of %s is ignored at %s" % (short_name(name), s.desc()))
            # what else happens before the result is looked at
            later = [k for k in g.awaits(*STO) if k is not s and k.b != s.b]
            hit = [x for k in later for x in g.nodes(k) if x in seen and not any(y in seen and y in g.nodes(s) for y in ())]
            c.okpath(g, g.x.path_to(hit[0]) if hit else None, "next:%s:%s" % (label, s.key()), "the storage is used again although %s may have failed" % short_name(name))
    c.floor(n, "storage operations", 20)


def short_name(n):
    return "::".join(n.split("::")[-2:])


def returned(g, s):
    """The awaited result is returned as it is."""
    name = awname(s)
    e = g.expr(("c", g.ig.retplace), 4) if hasattr(g.ig, "retplace") else ("?",)
    try:
        return all(a[0] in ("await",) and a[1] == name for a in alts(e))
    except Exception:
        return False


@prop("P11")
def errors_reported(c):
    """errors of background work reach the core"""
    c.begin("reported", "an error of the storage in a background task is reported to the core before the task does anything else")
    g = c.g("ReplicationCore::main")
    n = 0
    rep = g.cons("Notification", "StorageError")
    for s in g.awaits(*STO):
        n += 1
        es = g.edges(outcome("Err", awname(s))(g))
        c.ok(bool(es), "tested:%s" % s.key(), "the result of %s is never tested" % short_name(awname(s)))
        nets = g.awaits("RaftNetworkV2::append_entries", "append_entries", "full_snapshot")
        p = g.exit_from(es, also=rep, exits=ends(g, nets))
        if p is None:
            seen = g.x.reach(es, stop=g._stopset(rep))
            hit = [x for k in nets for x in g.nodes(k) if x in seen]
            p = g.x.path_to(hit[0]) if hit else None
        c.okpath(g, p, "replication:%s" % s.key(), "replication does not report that %s failed" % short_name(awname(s)))
    for s in rep:
        v = g.expr(s.ops()[0], 12)
        c.ok(not esub(lambda q: q[0] == "call" and q[1].endswith("default"), v), "what:%s" % s.key(), "the error reported is %s" % fmt(v)[:200])
    sends = g.calls("MpscUnboundedSender::send", "send")
    for s in rep:
        p = g.must_follow(s, sends)
        c.okpath(g, p, "sent:%s" % s.key(), "the error report is not sent")
    w = c.g("core::sm::worker::Worker::worker_loop")
    for h, label in build_roots(c, w):
        for s in h.awaits("RaftSnapshotBuilder::build_snapshot", "build_snapshot"):
            n += 1
            es = h.edges(outcome("Err", awname(s))(h)) or succs(h, s)
            p = h.exit_from(es, also=h.calls("MpscUnboundedSender::send", "send"))
            c.okpath(h, p, "build", "a failed snapshot build is not reported")
            for k in h.calls("MpscUnboundedSender::send", "send"):
                v = h.expr(k.args()[1], 14)
                a = find_agg(v, ("CommandResult",))
                if a is not None and find_call(a, ("build_snapshot", "RaftSnapshotBuilder::build_snapshot")) is not None:
                    r = a[2][0]
                    c.ok(not (isagg(r, ("Result",), ("Ok",)) and not esub(lambda q: q[0] == "call", r)), "build-result", "the build is reported as %s" % fmt(r))
                    if isagg(r, ("Result",), ("Ok",)):
                        c.guard(h, k, outcome("Ok", awname(s)), "build-ok:%s" % k.key(), "a failed build is reported as done")
    sp = c.g("core::sm::worker::Worker::do_spawn")
    k = 0
    for f, caps, s in spawned(c, sp):
        h = c.g(f, opaque=("Worker::worker_loop",))
        for aw in h.awaits("Worker::worker_loop", "worker_loop"):
            k += 1
            es = h.edges(outcome("Err", awname(aw))(h))
            reps = [q for q in h.cons("Notification", "StateMachine") if find_call(h.expr(q.ops()[0], 10), ("worker_loop", "Worker::worker_loop")) is not None and (find_agg(h.expr(q.ops()[0], 10), ("Err",)) is not None or not find_agg(h.expr(q.ops()[0], 10), ("Ok",)))]
            p = h.exit_from(es or succs(h, aw), also=reps)
            c.okpath(h, p, "sm", "an error of the state machine is not reported")
            for q in reps:
                c.okpath(h, h.must_follow(q, h.calls("MpscUnboundedSender::send", "send")), "sm-sent", "the error report of the state machine is not sent")
    c.floor(k, "state machine tasks", 1)
    c.floor(n, "background storage operations", 2)


@prop("P11")
def callback_errors(c):
    """the completion callback"""
    g = c.g("IOFlushed::io_completed")
    c.begin("callback", "a completion callback reports success only for a successful write, and an error for a failed one")
    res = lambda e: earg("result")(e) or peel(e)[0] == "arg" and peel(e)[1] == 2
    okm = ism("Result", ("Ok",), X(res))
    sends = g.calls("MpscUnboundedSender::send", "send")
    c.floor(len(sends), "reports", 2)
    errs = g.edges(ism("Result", ("Err",), X(res))(g))
    c.ok(bool(errs), "tested", "the outcome of the write is not looked at")
    good, bad = [], []
    for s in sends:
        v = g.expr(s.args()[1], 10)
        if any(isagg(a, ("Notification",), ("StorageError",)) for a in alts(v)):
            bad.append(s)
        else:
            good.append(s)
            c.guard(g, s, okm, "success:%s" % s.key(), "a failed write is reported as done")
            c.ok(esub(lambda q: q[0] == "field" and q[3] == "notification", v), "what:%s" % s.key(), "a finished write is reported as %s" % fmt(v))
    p = g.exit_from(errs, also=bad)
    c.okpath(g, p, "error", "a failed write is not reported")
    p = g.exit_from(g.edges(okm(g)), also=good)
    c.okpath(g, p, "done", "a finished write is not reported")


@prop("P11")
def errors_stop(c):
    """the core stops on an error"""
    g = NTF(c)
    c.begin("stop", "when a storage error is reported the core stops: it handles nothing else and its main loop ends with that error")
    for what, m in (
        ("log", ism("Notification", ("StorageError",))),
        ("state machine", ism("Result", ("Err",), X(lambda e: esub(evar("StateMachine"), e)))),
    ):
        es = g.edges(m(g))
        c.ok(bool(es), "handled:%s" % what, "errors of the %s are not handled" % what)
        seen = g.x.reach(es)
        hit = [x for x in ret_ok(g) if x in seen]
        c.okpath(g, g.x.path_to(hit[0]) if hit else None, "fatal:%s" % what, "the core goes on after an error of the %s" % what)
    eff = [s for s in g.cons("sm::response::Response")]
    ress = g.cons("Fatal", "StorageError")
    for s in ress:
        v = g.expr(s.ops()[0], 8)
        c.ok(esub(lambda q: q[0] == "var" and q[2] in ("StorageError", "StateMachine", "Err"), v) or v[0] in ("local", "arg"), "error:%s" % s.key(), "the core stops with %s" % fmt(v))
    # propagation through the loop
    OPQ = ("run_engine_commands", "handle_notification", "handle_api_msg", "process_raft_msg", "process_notification", "run_command", "runtime_loop", "do_main")
    n = 0
    for h, label in ((LOOP(c), "loop"), (RUNCMDS(c), "commands"), (START(c), "start"), (c.g("RaftCore::main", opaque=("RaftCore::do_main",)), "main")):
        aws = h.awaits(*OPQ)
        awn = {awname(s).rstrip(")").split("::")[-1] for s in aws}
        steps = aws + [s for s in h.calls(*OPQ) if awname(s).rstrip(")").split("::")[-1] not in awn]
        for s in steps:
            name = awname(s)
            tail = name.split("::")[-1].rstrip(")")
            es = h.edges(outcome("Err", name)(h))
            es = [e for e in es]
            if not es:
                if returned_any(h, tail):
                    n += 1
                    c.ok(True, "returned:%s:%s" % (label, tail), "")
                continue
            n += 1
            seen = h.x.reach(es)
            hit = [x for x in ret_ok(h) if x in seen]
            c.okpath(h, h.x.path_to(hit[0]) if hit else None, "ends:%s:%s" % (label, tail), "an error of %s does not end the %s" % (tail, label))
            nxt = [x for k in steps for x in h.nodes(k) if x in seen] + [x for k in h.awaits("recv", "MpscUnboundedReceiver::recv") for x in h.nodes(k) if x in seen]
            c.okpath(h, h.x.path_to(nxt[0]) if nxt else None, "more:%s:%s" % (label, tail), "after an error of %s the %s goes on" % (tail, label))
            # and the result is looked at on every path
            okm = outcome("Ok", name)(h)
            seen = h.x.reach(succs(h, s), cut=h.cutter(okm))
            nxt = [x for k in steps for x in h.nodes(k) if x in seen]
            c.okpath(h, h.x.path_to(nxt[0]) if nxt else None, "looked:%s:%s" % (label, s.key()), "the result of %s is ignored" % tail)
    c.floor(n, "steps of the main loop", 4)


def returned_any(h, tail):
    e = h.expr(("c", h.ig.retplace), 6)
    return find_call(e, (tail,)) is not None


@prop("P11")
def main_result(c):
    """what the core's task returns"""
    g = c.g("RaftCore::main", opaque=("RaftCore::do_main",))
    c.begin("result", "the core's task ends with the error that stopped it")
    e = g.expr(("c", g.ig.retplace), 8)
    for a in alts(e):
        c.ok(find_call(a, ("do_main", "RaftCore::do_main")) is not None, "value", "the core's task ends with %s" % fmt(a)[:200])
