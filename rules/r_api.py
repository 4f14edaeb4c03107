"""Requests of the application: reads, answers, client writes, leadership transfer."""
from common import *
from r_vote import find_call
from r_commit import find_agg, parts
from r_member import in_arm

SENDS = ("OneshotSender::send", "Responder::send")
WRAP = ("drop", "mem::drop", "forget", "mem::forget", "from", "into", "From::from", "Into::into", "Option::Some", "is_some", "is_none", "map")


def moved_into(g, s, p):
    """p matches (part of) a moved argument of the call."""
    return any(a[0] == "m" and esub(p, g.expr(a, 14)) for a in s.args())


def sinks(g, p):
    """Calls that take over a value: sending on it, storing it, or passing it to another task."""
    out = []
    for b in g._live():
        t = g.ig.blocks[b].term
        if t[0] not in ("call", "await"):
            continue
        s = Site(g.x, b, TERM, t[1])
        n = t[1].n if hasattr(t[1], "n") else str(t[1])
        if nm(n, WRAP) or n.rsplit("::", 1)[-1] in ("drop", "forget", "from", "into"):
            continue
        if any(a[0] == "m" and esub(p, g.expr(a, 14)) for a in t[2]):
            out.append(s)
    return out


def contexts(c, g):
    """The root and everything it hands to other tasks: [(graph, captures)]."""
    out = [(g, {})]
    for f, caps, site in spawned(c, g):
        out.append((c.g(f), caps))
    return out


ARM_TX = {
    "AppendEntries": "tx",
    "RequestVote": "tx",
    "InstallFullSnapshot": "tx",
    "BeginReceivingSnapshot": "tx",
    "ClientWriteRequest": "tx",
    "CheckIsLeaderRequest": "tx",
    "Initialize": "tx",
    "ChangeMembership": "tx",
}


@prop("P18")
def requests_answered(c):
    """each request is answered, or its answer is entrusted to something that will"""
    g = API(c)
    c.begin("entrusted", "the response channel of each request is answered on, stored or handed over on every path")
    P = c.P()
    adt = P.adt("core::raft_msg::RaftMsg") if hasattr(P, "adt") else None
    n = 0
    for v in sorted(ARM_TX):
        starts = g.edges(ism("RaftMsg", (v,))(g))
        c.ok(bool(starts), "arm:%s" % v, "requests of kind %s are not handled" % v)
        if not starts:
            continue
        n += 1
        p = evar(v)
        tx = lambda e, p=p: e[0] == "field" and e[3] == "tx" and p(e)
        ss = sinks(g, tx)
        ss = [s for s in ss if in_arm(g, s, "RaftMsg", v)]
        c.ok(bool(ss), "sink:%s" % v, "requests of kind %s are never answered" % v)
        path = g.exit_from(starts, also=ss, exits=ret_ok(g))
        c.okpath(g, path, "dropped:%s" % v, "a request of kind %s is dropped without an answer" % v)
    c.floor(n, "kinds of requests", 8)
    starts = g.edges(ism("ExternalCommand", ("GetSnapshot",))(g))
    p = evar("GetSnapshot")
    ss = sinks(g, lambda e: e[0] == "field" and e[3] == "tx" and p(e))
    c.okpath(g, g.exit_from(starts, also=ss, exits=ret_ok(g)) if starts else None, "dropped:GetSnapshot", "a snapshot request is dropped without an answer")
    c.ok(bool(starts) and bool(ss), "sink:GetSnapshot", "a snapshot request is never answered")
    # tasks that took over a channel answer on it
    c.begin("tasks", "a task that took over a response channel answers on it on every path")
    k = 0
    for root in (API(c), NTF(c), EXEC(c), LOOP(c)):
        for f, caps, site in spawned(c, root):
            for name, e in caps.items():
                if not any(esub(lambda q, vv=v: q[0] == "field" and q[3] == "tx" and evar(vv)(q), e) for v in ARM_TX):
                    continue
                k += 1
                h = c.g(f)
                sends = sinks(h, lambda q, nn=name: q[0] == "field" and q[3] == nn and q[2] in ("^", None) or q[0] == "field" and q[3] == nn and q[1][0] == "arg")
                c.ok(bool(sends), "task:%s" % f.name, "the task never answers")
                seen = h.x.reach([0], stop=h._stopset(sends))
                ex = [n for n in h.x.bynode.get(h.ig.exit, []) if n in seen]
                c.okpath(h, h.x.path_to(ex[0]) if ex else None, "task-path:%s:%s" % (f.name, name), "the task ends without answering")
    c.floor(k, "tasks holding a response channel", 1)


@prop("P18")
def responses_sent(c):
    """the executor sends every response it is asked to"""
    g = EXEC(c)
    c.begin("respond", "running a response command sends the response")
    starts = g.edges(ism(CMD, ("Respond",))(g))
    c.floor(len(starts), "response command arms", 1)
    p = evar("Respond")
    ss = [s for s in g.calls(*SENDS) if moved_into(g, s, p)]
    c.ok(bool(ss), "sends", "responses are never sent")
    back = [q for q in g.cons("Option", "Some") if q.ops() and peel(g.expr(q.ops()[0], 6))[0] in ("arg", "field") and esub(lambda e: e[0] == "field" and e[3] == "cmd" or e[0] == "arg" and e[2] == "cmd", g.expr(q.ops()[0], 6)) and not esub(p, g.expr(q.ops()[0], 6))]
    path = g.exit_from(starts, also=ss + back, exits=ret_ok(g))
    c.okpath(g, path, "sent", "a response is dropped")
    for s in ss:
        a = s.args()
        c.ok(len(a) < 2 or esub(p, g.expr(a[1], 12)), "value:%s" % s.key(), "the response sent is %s" % fmt(g.expr(a[1], 12)))
    c.begin("worker", "the state machine worker answers requests with a response channel")
    from r_commit import sm_worker  # noqa: F401  (same root)
    w = c.g("openraft::core::sm::worker::Worker::worker_loop")
    for v in ("GetSnapshot", "BeginReceivingSnapshot"):
        starts = w.edges(ism("sm::command::Command", (v,))(w))
        c.ok(bool(starts), "arm:%s" % v, "%s is not handled" % v)
        pv = evar(v)
        ss = sinks(w, lambda e, pv=pv: e[0] == "field" and e[3] == "tx" and pv(e))
        c.ok(bool(ss), "answer:%s" % v, "%s is never answered" % v)
        nxt = [q for q in w.awaits("MpscUnboundedReceiver::recv", "recv")] + [q for q in w.calls("MpscUnboundedReceiver::recv", "recv")]
        heads = set(w._stopset(nxt))
        seen = w.x.reach(starts, stop=w._stopset(ss))
        bad = [h for h in heads if h in seen] + [h for h in ret_ok(w) if h in seen]
        c.okpath(w, w.x.path_to(bad[0]) if bad else None, "path:%s" % v, "%s is dropped without an answer" % v)


@prop("P15")
def read_index(c):
    """a confirmed read carries the right position"""
    g = API(c)
    c.begin("position", "a read request is answered with at least the committed position and the first log of this leadership")
    n = 0
    noop = efield("Leader", "noop_log_id")
    com = is_state_field("committed")
    for h, caps in contexts(c, g):
        for s in h.calls("OneshotSender::send"):
            if caps:
                if not esub(evar("CheckIsLeaderRequest"), subst(h.expr(s.args()[0], 12), caps)):
                    continue
            elif not esub(evar("CheckIsLeaderRequest"), h.expr(s.args()[0], 12)):
                continue
            v = subst(h.expr(s.args()[1], 14), caps)
            for a in alts(v):
                if a[0] == "agg" and a[1][:1] == ("adt",) and a[1][2] == "Err":
                    continue
                n += 1
                c.ok(at_least(a, noop), "noop:%s" % s.key(), "the read position %s ignores the first log of this leadership" % fmt(a))
                c.ok(at_least(a, com), "committed:%s" % s.key(), "the read position %s ignores the committed position" % fmt(a))
                for q in parts(a):
                    if q[0] == "call" and nm(q[1], ("min", "Ord::min", "cmp::min")):
                        c.ok(not (esub(noop, q) or esub(com, q)), "min:%s" % s.key(), "the read position is the smaller one: %s" % fmt(q))
                # what counts as applied
                t = find_tuple(a)
                if t is not None and len(t[2]) == 2:
                    first, second = t[2]
                    c.ok(at_least(first, noop) and at_least(first, com), "first:%s" % s.key(), "the read position is %s" % fmt(first))
                    c.ok(esub(efield("IOState", "applied"), second), "applied:%s" % s.key(), "the applied position reported is %s" % fmt(second))
            # leadership at the time of the request
            if not caps:
                okv = [a for a in alts(v) if not (a[0] == "agg" and a[1][:1] == ("adt",) and a[1][2] == "Err")]
                if okv and esub(com, okv[0]):
                    c.guard(g, s, ism("Option", ("Some",), X(efield("Engine", "leader"))), "leader:%s" % s.key(), "a read is confirmed by a node that is not leading")
    c.floor(n, "confirmed reads", 2)


def at_least(e, p):
    """The value is at least the one matching p (as far as its form tells)."""
    e = peel(e)
    if p(e):
        return True
    if e[0] == "phi":
        return any(at_least(a, p) for a in e[1])
    if e[0] == "call":
        n = e[1].rsplit("::", 1)[-1]
        if n == "min":
            return all(at_least(a, p) for a in e[2])
        if n in ("or", "or_else", "unwrap_or", "xor", "and", "filter", "zip", "get_or_insert"):
            return bool(e[2]) and at_least(e[2][0], p)
    return any(at_least(k, p) for k in kids_of(e))


def kids_of(e):
    if e[0] in ("field", "var", "idx"):
        return [e[1]]
    if e[0] in ("call", "await", "agg"):
        return [k for k in e[2] if isinstance(k, tuple)]
    if e[0] == "bin":
        return [e[2], e[3]]
    if e[0] == "un":
        return [e[2]]
    return []


def offsets(e):
    """Arithmetic applied to a value, outside the arguments of calls."""
    if e[0] == "bin":
        return [e] if e[1].startswith(("Add", "Sub", "Mul")) else []
    if e[0] == "phi":
        return [b for a in e[1] for b in offsets(a)]
    if e[0] in ("field", "var", "idx"):
        return offsets(e[1])
    if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("next_index", "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "checked_add", "checked_sub"):
        return [e]
    if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("clone", "copied", "unwrap", "index", "cloned", "unwrap_or", "unwrap_or_default", "from", "into", "deref", "borrow", "as_ref"):
        return [b for a in e[2] if isinstance(a, tuple) for b in offsets(a)]
    return []


def find_tuple(e):
    for q in parts(e):
        if q[0] == "agg" and q[1][0] == "tuple" and len(q[2]) == 2:
            return q
    return None


@prop("P15")
def read_confirmed(c):
    """a read is confirmed by a quorum that still accepts this leader"""
    g = API(c)
    c.begin("quorum", "a read request is confirmed only after a quorum of the effective membership accepted this leader")
    n = 0
    for h, caps in contexts(c, g):
        for s in h.calls("OneshotSender::send"):
            if not esub(evar("CheckIsLeaderRequest"), subst(h.expr(s.args()[0], 12), caps)):
                continue
            v = subst(h.expr(s.args()[1], 14), caps)
            if not esub(is_state_field("committed"), v):
                continue
            n += 1
            isq = bcallm(("QuorumSet::is_quorum", "is_quorum"), True)
            c.guard(h, s, isq, "quorum:%s" % s.key(), "a read is confirmed without a quorum")
            # over the effective membership
            for q in h.calls("QuorumSet::is_quorum", "is_quorum"):
                if h.can_reach(q, [s]) is None:
                    continue
                m = subst(h.expr(q.args()[0], 12), caps)
                if not esub(lambda e: e[0] == "field" and adtm(e[2], "MembershipState"), m):
                    c.notes.append("quorum tested over %s" % fmt(m)[:160])
                    continue
                c.ok(esub(efield("MembershipState", "effective"), m), "effective:%s" % q.key(), "the quorum is counted over %s" % fmt(m))
                ids = h.args_sources(q) if hasattr(h, "args_sources") else None
    c.floor(n, "confirmed reads", 2)
    c.begin("granted", "a node counts as accepting only if it answered this leader's request without a higher vote")
    k = 0
    for h, caps in contexts(c, g):
        sends = [s for s in h.calls("OneshotSender::send") if esub(evar("CheckIsLeaderRequest"), subst(h.expr(s.args()[0], 12), caps))]
        if not sends:
            continue
        for q in h.calls("BTreeSet::insert", "HashSet::insert", "Vec::push"):
            if not caps and not in_arm(h, q, "RaftMsg", "CheckIsLeaderRequest"):
                continue
            e = h.expr(q.args()[1], 12)
            if not caps:
                if q.data.n.rsplit("::", 1)[-1] == "push":
                    continue
                k += 1
                c.ok(esub(ANYID, e), "self:%s" % q.key(), "%s counts as accepting at once" % fmt(e))
                continue
            k += 1
            c.guard(h, q, NOTHIGHER, "answered:%s" % q.key(), "a node that refused, or did not answer, counts as accepting")
            c.guard(h, q, ism("Result", ("Ok",), ANY), "ok:%s" % q.key(), "a node whose request failed counts as accepting")
    c.floor(k, "accepting nodes", 2)
    # the requests carry this leader's vote, and their answer is attributed to the node asked
    c.begin("asked", "the requests that confirm a read carry this leader's vote and are attributed to the node asked")
    r = 0
    for f, caps, site in spawned(c, g):
        h = c.g(f)
        for a in h.awaits("append_entries", "RaftNetworkV2::append_entries", "RaftNetwork::append_entries") + [q for q in h.calls("append_entries", "RaftNetworkV2::append_entries", "RaftNetwork::append_entries")]:
            r += 1
            e = subst(h.expr(a.args()[1], 12), caps)
            vt = field_in(e, "AppendEntriesRequest", "vote")
            if vt is not None:
                c.ok(is_vote_data(vt), "vote:%s" % a.key(), "the request carries the vote %s" % fmt(vt))
            cl = subst(h.expr(a.args()[0], 12), caps)
            for t in h.cons("Result", "Ok"):
                tp = h.expr(t.ops()[0], 12)
                if tp[0] == "agg" and tp[1][0] == "tuple" and len(tp[2]) == 2 and any(q[0] == "await" for q in parts(tp[2][1])):
                    who = subst(tp[2][0], caps)
                    c.ok(not ANYID(peel(who)), "attributed:%s" % t.key(), "the answer is attributed to %s" % fmt(who))
            if "target" in caps:
                nc = find_call(cl, ("new_client", "RaftNetworkFactory::new_client"))
                if nc is None:
                    for q in parts(cl):
                        if q[0] == "await" and nm(q[1], ("new_client", "RaftNetworkFactory::new_client")):
                            nc = q
                if nc is not None:
                    c.ok(fmt(peel(nc[2][1])) == fmt(peel(caps["target"])), "target:%s" % a.key(), "the answer of %s is attributed to %s" % (fmt(nc[2][1]), fmt(caps["target"])))
    c.notes.append("confirmation requests: %d" % r)


ANYID = lambda e: efield("RaftCore", "id")(e) or efield("EngineConfig", "id")(e) or (e[0] == "field" and e[3] in ("id", "node_id"))
NOTHIGHER = ism("AppendEntriesResponse", ("Success", "PartialSuccess", "Conflict"), ANY)


def field_in(e, adt, f):
    """Value given to a field in a construction of adt inside e."""
    for q in parts(e):
        if q[0] == "agg" and q[1][0] == "adt" and adtm(q[1][1], adt) and f in q[1][3]:
            return q[2][q[1][3].index(f)]
    return None


@prop("P15")
def read_waits(c):
    """ensure_linearizable returns once the read position is applied"""
    c.begin("wait", "a linearizable read returns only when the read position is applied")
    P = c.P()
    fs = [f for f in P.fns() if nm(f.name, ("raft::Raft::ensure_linearizable",))]
    c.floor(len(fs), "Raft::ensure_linearizable", 1)
    for f in fs:
        g = c.g(f)
        waits = g.awaits("applied_index_at_least", "Wait::applied_index_at_least", "Wait::metrics", "Wait::ge") + g.calls("Wait::metrics", "Wait::ge")
        m = orm(cmpm("le", ANY, ANY), cmpm("ge", ANY, ANY))
        ok = ret_ok(g)
        # the read position is the one obtained from the leader
        asked = g.cons("RaftMsg", "CheckIsLeaderRequest")
        c.ok(bool(asked), "asked:%s" % f.name, "the read position is not asked for")
        p0 = lambda e: esub(lambda q: q[0] == "field" and q[3] == "0", e) and not offsets(peel(e))
        p1 = lambda e: esub(lambda q: q[0] == "field" and q[3] == "1", e) and not offsets(peel(e))
        p1n = lambda e: esub(lambda q: q[0] == "field" and q[3] == "1", e) and [o[1].rsplit("::", 1)[-1] if o[0] == "call" else o[1][:3] for o in offsets(peel(e))] in (["next_index"], ["Add"])
        le = orm(cmpm("le", X(p0), X(p1)), cmpm("lt", X(p0), X(p1n)))
        seen = g.x.reach([0], stop=g._stopset(waits), cut=g.cutter(le(g)))
        bad = [n for n in ok if n in seen]
        c.okpath(g, g.x.path_to(bad[0]) if bad else None, "waited:%s" % f.name, "returns before the read position is applied")
    c.begin("at-least", "waiting for an applied position ends only when the applied position is at least that")
    k = 0
    for f in P.fns():
        if f.name.endswith("Wait::metrics::{closure#0}") or f.name.endswith("Wait::metrics::{closure#0}::{closure#0}"):
            g = c.g(f)
            calls = [s for s in g.calls("Fn::call", "FnMut::call_mut", "FnOnce::call_once", "call")]
            if not calls:
                continue
            k += 1
            seen = g.x.reach([0], cut=g.cutter(bcallm(("Fn::call", "FnMut::call_mut", "FnOnce::call_once", "call"), True)(g)))
            bad = [n for n in ret_ok(g) if n in seen]
            c.okpath(g, g.x.path_to(bad[0]) if bad else None, "condition:%s" % f.name, "waiting ends although the condition does not hold")
    c.notes.append("wait loops: %d" % k)


# ---- P19: client writes ---------------------------------------------------------------

CRC = ("RaftCore", "client_resp_channels")
APPLYRESP = ism("sm::response::Response", ("Apply",))
NEXT = ("next", "Iterator::next")


@prop("P19")
def write_registered(c):
    """a write is registered under the index of its own entry"""
    g = API(c)
    c.begin("registered", "a client's channel is kept under the index of the entry just appended for it")
    ins = [q for q in g.mutcalls(*CRC) if q.data.n.rsplit("::", 1)[-1] == "insert"]
    n = 0
    app = g.cons(CMD, "AppendInputEntries")
    for q in ins:
        n += 1
        key = g.expr(q.args()[1], 12)
        v = "ClientWriteRequest" if in_arm(g, q, "RaftMsg", "ClientWriteRequest") else "ChangeMembership"
        a2 = [s for s in app if in_arm(g, s, "RaftMsg", v)]
        none = orm(ism("Option", ("None",), X(lambda e: find_call(e, ("slice::last", "slice::first")) is not None)), bcallm(("is_empty",), True, ANY), cmpm("le", X(lambda e: find_call(e, ("len", "Vec::len", "slice::len")) is not None), X(lambda e: e[0] == "k" and e[1].startswith("0"))))
        seen = g.x.reach([0], stop=g._stopset(a2), cut=g.cutter(none(g)))
        bad = [x for x in g.nodes(q) if x in seen]
        c.okpath(g, g.x.path_to(bad[0]) if bad else None, "appended:%s" % q.key(), "a write is registered without an entry")
        stale = [s for s in g.calls("slice::last") if g.can_reach(s, [q]) is not None] + [s for s in g.calls("LogIdList::last", "last_log_id") if g.can_reach(s, [q]) is not None]
        if esub(lambda e: e[0] == "call" and nm(e[1], ("slice::last",)), key):
            p = g.guarded_from([y for a in a2 for x in g.nodes(a) for y, _ in g.x.succ[x]], q, lambda f: False, stale)
            c.okpath(g, p, "fresh:%s" % q.key(), "a write is registered under a position computed before its entry was appended")
            ext = [e for e in parts(key) if e[0] == "bin" and e[1].startswith(("Add", "Sub"))]
            c.ok(not ext and esub(lambda e: e[0] == "field" and e[3] == "index", key), "key:%s" % q.key(), "a write is registered under %s" % fmt(key))
        else:
            c.notes.append("registration key of unknown form: %s" % fmt(key)[:160])
        c.ok(esub(evar(v), g.expr(q.args()[2], 12)), "own:%s" % q.key(), "the channel registered is %s" % fmt(g.expr(q.args()[2], 12)))
    c.floor(n, "registrations", 2)


@prop("P19")
def write_answered(c):
    """a write is answered with the result of applying its own entry"""
    g = NTF(c)
    c.begin("applied", "a successful answer is sent only once the entry at that index has been applied, with that entry's result")
    n = 0
    for s in g.cons("ClientWriteResponse"):
        n += 1
        c.guard(g, s, APPLYRESP, "after-apply:%s" % s.key(), "a write is answered as successful before it is applied")
        lid, data, mem = (g.expr(s.field(f), 14) for f in ("log_id", "data", "membership"))
        AE, AR = efield("ApplyResult", "applying_entries"), efield("ApplyResult", "apply_results")
        c.ok(esub(AE, lid), "log-id:%s" % s.key(), "the log id reported is %s" % fmt(lid))
        c.ok(esub(AR, data), "data:%s" % s.key(), "the result reported is %s" % fmt(data))
        c.ok(esub(AE, mem), "membership:%s" % s.key(), "the membership reported is %s" % fmt(mem))
    c.floor(n, "successful answers", 1)
    for s in g.calls("Responder::send"):
        tx = g.expr(s.args()[0], 12)
        rm = [q for q in parts(tx) if q[0] == "call" and q[1].rsplit("::", 1)[-1] in ("remove", "remove_entry", "pop_first", "split_off", "take")]
        if not rm:
            continue
        v = g.expr(s.args()[1], 14)
        if find_agg(v, "ClientWriteResponse") is None:
            continue
        k = rm[0][2][1] if len(rm[0][2]) > 1 else None
        if k is not None:
            good = esub(efield("ApplyResult", "since"), k) or esub(efield("ApplyResult", "applying_entries"), k)
            c.ok(good and not offsets(peel(k)), "index:%s" % s.key(), "the channel answered is the one of %s" % fmt(k))
    for q in g.mutcalls(*CRC):
        if q.data.n.rsplit("::", 1)[-1] in ("pop_first", "pop_last", "first_entry", "last_entry"):
            nn = q.data.n
            popped = lambda e: e[0] == "call" and e[1] == nn
            for s in g.calls("Responder::send"):
                if g.can_reach(q, [s]) is not None:
                    c.guard(g, s, cmpm("eq", X(lambda e: esub(popped, e)), ANY), "popped:%s" % s.key(), "the client answered is whichever waits first")
    # the three sequences advance together
    its = {"entries": "applying_entries", "results": "apply_results"}
    heads = [q for q in g.calls(*NEXT) if esub(efield("ApplyResult", "since"), g.expr(q.args()[0], 12))]
    if heads:
        for q in heads:
            r = find_agg(g.expr(q.args()[0], 14), ("Range", "RangeInclusive"))
            if r is not None and r[2]:
                c.ok(all(efield("ApplyResult", "since")(a) for a in alts(r[2][0])), "from:%s" % q.key(), "the entries applied are matched with the indexes from %s" % fmt(r[2][0])[:160])
        some = g.edges(ism("Option", ("Some",), X(lambda e: e[0] == "call" and nm(e[1], NEXT) and esub(efield("ApplyResult", "since"), e) and not esub(efield("ApplyResult", "applying_entries"), e)))(g))
        for k, f in its.items():
            adv = [q for q in g.calls(*NEXT) if esub(efield("ApplyResult", f), g.expr(q.args()[0], 12)) and not esub(efield("ApplyResult", "since"), g.expr(q.args()[0], 12))]
            if not adv:
                continue
            seen = g.x.reach(some, stop=g._stopset(adv))
            hs = [h for q in heads for h in g.nodes(q)]
            bad = [h for h in hs if h in seen]
            c.okpath(g, g.x.path_to(bad[0]) if bad else None, "together:%s" % k, "the %s fall out of step with the indexes" % k)
            again = []
            for q in adv:
                for x in g.nodes(q):
                    sn = g.x.reach([y for y, _ in g.x.succ[x]], stop=set(hs))
                    again += [z for a in adv for z in g.nodes(a) if z in sn]
            c.okpath(g, g.x.path_to(again[0]) if again else None, "once:%s" % k, "the %s advance twice for one index" % k)
    else:
        c.notes.append("apply loop of unknown form")


@prop("P19")
def removed_writes(c):
    """a channel taken out is answered"""
    c.begin("answered", "each client channel taken out of the registry is answered")
    n = 0
    for g, who in ((API(c), "api"), (NTF(c), "ntf"), (EXEC(c), "exec"), (LOOP(c), "loop")):
        takes = [q for q in g.mutcalls(*CRC) if q.data.n.rsplit("::", 1)[-1] not in ("insert", "len", "is_empty", "get", "iter", "contains_key")]
        takes += [q for q in g.calls("take", "mem::take", "replace", "mem::replace") if q.args() and efield(*CRC)(peel(g.expr(q.args()[0])))]
        for q in takes:
            n += 1
            name = q.data.n.rsplit("::", 1)[-1]
            c.ok(name not in ("clear", "retain"), "kept:%s" % q.key(), "channels are thrown away by %s" % name)
            is_taken = lambda e, nn=q.data.n: e[0] == "call" and e[1] == nn and e[2] and efield(*CRC)(peel(e[2][0]))
            ss = sinks(g, is_taken)
            for z in g.calls("retain", "BTreeMap::retain", "clear", "BTreeMap::clear", "pop_first", "BTreeMap::pop_first", "pop_last", "BTreeMap::pop_last"):
                if z.args() and is_taken(peel(g.expr(z.args()[0], 8))):
                    c.ok(z.data.n.rsplit("::", 1)[-1].startswith("pop"), "thinned:%s" % z.key(), "some of the channels taken out are thrown away")
            empty = orm(ism("Option", ("None",), X(is_taken)), bcallm(("is_empty", "BTreeMap::is_empty"), True, X(is_taken)), cmpm("eq", X(lambda e: find_call(e, ("len", "BTreeMap::len")) is not None), X(lambda e: e[0] == "k" and e[1].startswith("0"))), ism("Option", ("None",), X(lambda e: e[0] == "call" and nm(e[1], NEXT) and esub(is_taken, e))))
            p = g.exit_from([y for x in g.nodes(q) for y, _ in g.x.succ[x]], also=ss, match=empty(g), exits=ret_ok(g))
            c.okpath(g, p, "answered:%s" % q.key(), "a client channel is taken out and dropped without an answer")
            # handed to a task: the task sends on each of them
            for f, caps, site in spawned(c, g):
                names = [k for k, e in caps.items() if esub(is_taken, e)]
                for k in names:
                    h = c.g(f)
                    sends = [s for s in h.calls("Responder::send") if esub(lambda e, kk=k: e[0] == "field" and e[3] == kk, h.expr(s.args()[0], 12))]
                    c.ok(bool(sends), "task:%s" % f.name, "the channels handed to a task are dropped")
                    some = h.edges(ism("Option", ("Some",), X(lambda e: e[0] == "call" and nm(e[1], NEXT)))(h))
                    hs = [x for z in h.calls(*NEXT) for x in h.nodes(z)] + list(h.x.bynode.get(h.ig.exit, []))
                    seen = h.x.reach(some, stop=h._stopset(sends))
                    bad = [x for x in hs if x in seen]
                    c.okpath(h, h.x.path_to(bad[0]) if bad else None, "task-each:%s" % f.name, "a channel handed to a task is dropped")
                    for s in sends:
                        c.ok(find_agg(h.expr(s.args()[1], 12), "ClientWriteResponse") is None, "task-err:%s" % f.name, "removed entries are reported as written")
    c.floor(n, "places where channels are taken out", 2)
    g = EXEC(c)
    c.begin("truncated", "truncating entries answers the clients waiting for them")
    tr = [q for q in g.awaits("truncate", "RaftLogStorage::truncate")]
    c.floor(len(tr), "truncations", 1)
    for q in tr:
        takes = [s for s in g.mutcalls(*CRC) if s.data.n.rsplit("::", 1)[-1] in ("split_off", "remove", "extract_if", "pop_last")]
        c.okpath(g, g.exit_from([y for x in g.nodes(q) for y, _ in g.x.succ[x]], also=takes, exits=ret_ok(g)), "taken:%s" % q.key(), "clients waiting for truncated entries are never answered")
        for s in takes:
            k = g.expr(s.args()[1], 10) if len(s.args()) > 1 else None
            if k is not None and s.data.n.endswith("split_off"):
                c.ok(esub(evar("TruncateLog"), k) and not [e for e in parts(k) if e[0] == "bin"], "from:%s" % s.key(), "the channels taken out start at %s" % fmt(k))


@prop("P19")
def replaced_writes(c):
    """a snapshot may replace entries clients wait for"""
    c.begin("replaced", "installing a snapshot answers the clients waiting for the entries it replaces: they are applied by no one here, and truncated by no one")
    SMC = "core::sm::command::Command"
    def takes(g):
        return [q for q in g.mutcalls(*CRC) if q.data.n.rsplit("::", 1)[-1] not in ("insert", "len", "is_empty", "get", "iter", "contains_key")] + [q for q in g.calls("take", "mem::take", "replace", "mem::replace") if q.args() and efield(*CRC)(peel(g.expr(q.args()[0])))]

    n = 0
    g = NTF(c)
    starts = g.edges(ism("sm::response::Response", ("InstallSnapshot",))(g))
    n += len(starts)
    # a snapshot that was not installed replaces nothing
    p = g.exit_from(starts, also=takes(g), match=ism("Option", ("None",), X(evar("InstallSnapshot")))(g), exits=ret_ok(g)) if starts else None
    x = EXEC(c)
    sx = x.edges(ism(SMC, ("InstallFullSnapshot",))(x))
    q = x.exit_from(sx, also=takes(x), exits=ret_ok(x)) if sx else "none"
    c.floor(n, "installations reported", 1)
    c.okpath(g, p if q is not None else None, "unanswered", "clients waiting for entries that a snapshot replaced are never answered")


@prop("P19")
def apply_result_pairs(c):
    """what the worker reports for an index belongs to that index"""
    w = c.g("openraft::core::sm::worker::Worker::worker_loop")
    c.begin("pairs", "an apply report pairs the entries read for a range with the results of applying exactly these entries")
    n = 0
    for s in w.cons("ApplyResult"):
        n += 1
        f = lambda k: w.expr(s.field(k), 14)
        since, end, ent, res = f("since"), f("end"), f("applying_entries"), f("apply_results")
        c.ok(esub(evar("Apply"), since) and esub(lambda e: e[0] == "field" and e[3] == "first", since) and not [e for e in parts(since) if e[0] == "bin"], "since:%s" % s.key(), "the first index reported is %s" % fmt(since))
        c.ok(esub(lambda e: e[0] == "field" and e[3] == "last", end) and esub(lambda e: e[0] == "bin" and e[1].startswith("Add"), end) or find_call(end, ("next_index",)) is not None, "end:%s" % s.key(), "the end reported is %s" % fmt(end))
        rd = lambda e: e[0] == "await" and nm(e[1], ("try_get_log_entries", "RaftLogReader::try_get_log_entries", "get_log_entries", "RaftLogReaderExt::get_log_entries"))
        c.ok(esub(rd, ent) or w.has(s.field("applying_entries"), C("try_get_log_entries")), "entries:%s" % s.key(), "the entries reported are %s" % fmt(ent))
        drop = find_call(ent, ("filter", "Iterator::filter", "skip", "Iterator::skip", "take", "Iterator::take", "rev", "Iterator::rev", "filter_map", "Iterator::filter_map"))
        c.ok(drop is None, "all:%s" % s.key(), "the entries reported are %s" % fmt(ent))
        ap = [q for q in parts(res) if q[0] == "await" and nm(q[1], ("apply", "RaftStateMachine::apply"))]
        c.ok(bool(ap) and esub(rd, ap[0][2][1]), "results:%s" % s.key(), "the results reported are %s" % fmt(res))
    c.floor(n, "apply reports", 1)


# ---- P20: leadership transfer ---------------------------------------------------------


@prop("P20")
def transfer_blocks_writes(c):
    """a leader giving up leadership proposes nothing more"""
    g = API(c)
    TR = efield("Leader", "transfer_to")
    c.begin("no-writes", "while leadership is being transferred no client entry and no membership is proposed, and no heartbeat extends the lease")
    n = 0
    none = ism("Option", ("None",), X(TR))
    for s in g.cons(CMD, "AppendInputEntries"):
        if in_arm(g, s, "RaftMsg", "ClientWriteRequest") or in_arm(g, s, "RaftMsg", "ChangeMembership"):
            n += 1
            c.guard(g, s, none, "write:%s" % s.key(), "an entry is proposed during a leadership transfer")
    c.floor(n, "proposals", 2)
    k = 0
    for h, who in ((g, "api"), (NTF(c), "ntf")):
        for s in h.cons(CMD, "BroadcastHeartbeat"):
            k += 1
            c.guard(h, s, none, "heartbeat:%s" % s.key(), "heartbeats are sent during a leadership transfer")
    c.floor(k, "heartbeat broadcasts", 1)
    c.begin("start", "a transfer is started by a leader only: it marks the transfer, gives up its lease and tells every node")
    ws = [s for s in g.writes("Leader", "transfer_to") if in_arm(g, s, "RaftMsg", "ExternalCommand")]
    c.floor(len(ws), "transfers started", 1)
    for s in ws:
        c.guard(g, s, ism("Option", ("Some",), X(efield("Engine", "leader"))), "leader:%s" % s.key(), "a transfer is started by a node that is not leading")
        v = g.value(s, 8)
        c.ok(esub(evar("TriggerTransferLeader"), v), "to:%s" % s.key(), "leadership is transferred to %s" % fmt(v))
    for s in g.cons(CMD, "BroadcastTransferLeader"):
        c.precede(g, ws, s, "marked:%s" % s.key(), "the transfer is announced while writes are still accepted")
        e = g.expr(s.field("req"), 14)
        for f, p, what in (("from_leader", lambda e: is_vote_data(e) or efield("Leader", "committed_vote")(peel(e)) or esub(efield("Leader", "committed_vote"), e) or esub(VOTE, e), "vote"),
                           ("to_node_id", lambda e: esub(evar("TriggerTransferLeader"), e), "target"),
                           ("last_log_id", lambda e: esub(efield("Leader", "last_log_id"), e) or last_log(e), "last log")):
            x = field_in(e, "TransferLeaderRequest", f)
            if x is not None:
                c.ok(p(x), "req-%s:%s" % (f, s.key()), "the %s announced is %s" % (what, fmt(x)))
    for s in ws:
        c.follow(g, s, g.cons(CMD, "BroadcastTransferLeader"), "told:%s" % s.key(), "a transfer is started but not announced")
        c.follow(g, s, lease_off(g), "lease:%s" % s.key(), "a leader transferring its leadership keeps its lease")


def lease_off(g):
    return [q for q in g.calls("Leased::disable_lease", "disable_lease")] + g.writes("Leased", "lease_enabled") + g.writes("Leased", "enabled")


@prop("P20")
def transfer_received(c):
    """a node acts on a transfer only for its current leader"""
    g = API(c)
    c.begin("received", "a node gives up the lease of its leader, and the chosen node starts an election, only on that leader's request")
    mine = cmpm("eq", X(lambda e: esub(evar("HandleTransferLeader"), e) and esub(lambda q: q[0] == "field" and q[3] == "from", e)), X(lambda e: is_vote_data(peel(e)) or esub(VOTE, e)))
    n = 0
    offs = [q for q in lease_off(g) if in_arm(g, q, "RaftMsg", "HandleTransferLeader")]
    for q in offs:
        n += 1
        c.guard(g, q, mine, "lease:%s" % q.key(), "the lease is given up for a transfer of another leader")
    c.floor(n, "leases given up", 1)
    k = 0
    for q in g.cons(CMD, "SendVote"):
        if not in_arm(g, q, "RaftMsg", "HandleTransferLeader"):
            continue
        k += 1
        c.guard(g, q, mine, "elect:%s" % q.key(), "an election is started for a transfer of another leader")
        me = cmpm("eq", X(lambda e: esub(evar("HandleTransferLeader"), e) and esub(lambda q: q[0] == "field" and q[3] == "to", e)), X(ANYID))
        c.guard(g, q, me, "me:%s" % q.key(), "a node that was not chosen starts an election")
        c.precede(g, offs, q, "off:%s" % q.key(), "the election starts while the old lease is still valid")
    c.floor(k, "elections started by a transfer", 1)
    c.begin("flushed", "the chosen node starts its election only after waiting for the log of the leader")
    P = c.P()
    fs = [f for f in P.fns() if nm(f.name, ("raft::Raft::handle_transfer_leader",))]
    c.floor(len(fs), "Raft::handle_transfer_leader", 1)
    for f in fs:
        h = c.g(f)
        waits = h.awaits("Wait::metrics", "metrics") + h.calls("Wait::metrics")
        c.ok(bool(waits), "wait:%s" % f.name, "the log of the leader is not waited for")
        # what is waited for: the log reaches the leader's
        want = lambda e: esub(lambda q: q[0] == "field" and q[3] == "last_log_id" and adtm(q[2], "TransferLeaderRequest"), e)
        have = lambda e: esub(lambda q: q[0] == "field" and q[3] == "last_log_index" and adtm(q[2], "RaftMetrics"), e)
        cmps = {}
        for b in h._live():
            t = h.ig.blocks[b].term
            if t[0] != "switch":
                continue
            for q in parts(h.expr(t[1], 14)):
                if q[0] == "bin" and q[1] in ("Ge", "Gt", "Le", "Lt", "Eq", "Ne"):
                    cmps[fmt(q)] = (q[1], q[2], q[3])
                elif q[0] == "call" and q[1].rsplit("::", 1)[-1] in ("ge", "gt", "le", "lt", "eq", "ne") and len(q[2]) == 2:
                    cmps[fmt(q)] = (q[1].rsplit("::", 1)[-1].capitalize(), q[2][0], q[2][1])
        rel = [(op, a, b) for op, a, b in cmps.values() if want(a) != want(b)]
        c.ok(bool(rel), "compared:%s" % f.name, "the log of the leader is not what is waited for")
        for op, a, b in rel:
            if want(a):
                op, a, b = {"Ge": "Le", "Gt": "Lt", "Le": "Ge", "Lt": "Gt"}.get(op, op), b, a
            c.ok(have(a) and op not in ("Le", "Lt", "Ne"), "reached:%s" % f.name, "the node waits for %s %s %s" % (fmt(a)[-120:], op, fmt(b)[-120:]))
        for s in h.cons("RaftMsg", "HandleTransferLeader"):
            notme = cmpm("ne", X(lambda e: esub(lambda q: q[0] == "field" and q[3] == "to_node_id", e)), ANY)
            p = h.guarded(s, notme(h), also=waits)
            c.okpath(h, p, "waited:%s" % s.key(), "the transfer is handled without waiting for the log")
            for fld, want in (("from", "from_leader"), ("to", "to_node_id")):
                e = h.expr(s.field(fld), 8)
                c.ok(esub(lambda q, w=want: q[0] == "field" and q[3] == w, e), "%s:%s" % (fld, s.key()), "%s is %s" % (fld, fmt(e)))
