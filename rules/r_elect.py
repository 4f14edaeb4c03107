"""Timers: elections, leases, heartbeats, switches (P37)."""
from common import *
from r_life import XD, dsub
from r_member import in_arm
from r_metrics import DS, chains, within
from r_repl import succs
from r_snap import var_defs
from r_start import walk, callee
from r_stop import branch_nodes

LOADS = ("Atomic::load", "AtomicBool::load", "load")
STORES = ("Atomic::store", "AtomicBool::store", "store", "swap")
NOW = lambda e: dsub(lambda q: q[0] == "call" and nm(q[1], ("now", "TypeConfigExt::now", "Instant::now")), e)
fld = lambda *names: lambda q: q[0] == "field" and q[3] in names


def switch(name, truth=True):
    p = lambda e: dsub(fld(name), e)
    return orm(bcallm(LOADS, truth, XD(p)), valm(truth, DS(lambda q: q[0] == "call" and nm(q[1], LOADS) and p(q))))


def KI(n):
    """The constant n."""
    return XD(lambda e: peel(e)[0] == "k" and str(peel(e)[1]).split("_")[0] == str(n))


def none(e):
    """A duration of zero."""
    if e[0] == "call" and nm(e[1], ("default", "Default::default")) or "ZERO" in fmt(e):
        return True
    return e[0] == "call" and nm(e[1], ("from_millis", "from_secs", "from_micros", "from_nanos", "Duration::new")) and all(str(a[1]).split("_")[0] in ("0", "0.0") for a in map(peel, e[2]) if a[0] == "k") and all(peel(a)[0] == "k" for a in e[2])


def starts(g):
    """Sites that make this node a candidate."""
    return [s for s in g.writes("Engine", "candidate") if not all(isagg(a, (), ("None",)) for a in alts(g.value(s, 4)))]


def own_voter():
    """The node's own id is looked up, and found, in the voters of the effective membership
    (or of the one an initialization proposes)."""
    known = lambda q: fld("effective")(q) or q[0] == "call" and nm(q[1], ("get_membership",))
    own = lambda e: peel(e)[0] == "field" and peel(e)[3] in ("id", "node_id", "to")

    def looked(q):
        if q[0] != "call" or not dsub(known, q):
            return False
        if nm(q[1], ("any",)):
            return True
        return nm(q[1], ("contains", "is_voter")) and len(q[2]) > 1 and any(own(a) for x in q[2][1:] for a in alts(x))

    node = lambda q: q[0] == "call" and nm(q[1], ("get", "get_node")) and len(q[2]) > 1 and any(own(a) for a in alts(q[2][1])) and dsub(lambda k: k[0] == "call" and nm(k[1], ("get_membership",)), q)
    return orm(valm(True, DS(looked)), ism("Option", ("Some",), XD(lambda e: node(e))), valm(True, DS(lambda q: q[0] == "call" and nm(q[1], ("is_some", "contains_key")) and any(node(a) for a in q[2]))))


@prop("P37")
def campaign(c):
    """when a timer starts an election"""
    g = NTF(c)
    c.begin("tick-election", "a timer starts an election only at a voter that does not lead, with elections enabled, after a quiet time")
    ss = [s for s in starts(g) if in_arm(g, s, "Notification", "Tick")]
    c.floor(len(ss), "elections started by a timer", 1)
    sst = DS(fld("server_state"))
    notl = orm(
        cmpm("ne", sst, ANY), ism("ServerState", ("Follower", "Candidate", "Learner", "Shutdown"), ANY), ism("Option", ("None",), XD(lambda e: peel(e)[0] == "field" and peel(e)[3] == "leader")),
        valm(False, DS(lambda q: q[0] == "call" and nm(q[1], ("is_leader", "is_leading", "is_some")))),
    )
    isv = own_voter()
    dead = lambda e: dsub(fld("last_update"), e) and dsub(fld("lease"), e)
    full = lambda e: dead(e) and dsub(fld("election_timeout"), e)
    never = ism("Option", ("None",), DS(fld("last_update")))
    cnt = DS(lambda q: q[0] == "call" and nm(q[1], ("count", "len")) and dsub(fld("effective"), q) and not dsub(lambda k: k[0] == "call" and nm(k[1], ("filter", "skip", "take", "difference")), q))
    one = orm(cmpm("eq", cnt, KI(1)), cmpm("le", cnt, KI(1)), cmpm("lt", cnt, KI(2)))
    late = lambda d: orm(cmpm("gt", DS(lambda q: NOW(q)), XD(d)), never, one)
    for s in ss:
        c.guard(g, s, notl, "leader:%s" % s.key(), "a leader starts an election by itself")
        c.guard(g, s, isv, "voter:%s" % s.key(), "a node that is not a voter starts an election")
        c.guard(g, s, switch("enable_elect"), "enabled:%s" % s.key(), "an election is started although elections are disabled")
        c.guard(g, s, late(dead), "lease:%s" % s.key(), "an election is started before the lease of the last leader or candidate is over")
        c.guard(g, s, late(full), "timeout:%s" % s.key(), "an election is started without waiting for the election timeout")
        longer = lambda a: peel(g.expr(a, 8))[0] == "field" and peel(g.expr(a, 8))[3] == "smaller_log_timeout"
        adds = [x for x in g.calls("add_assign", "AddAssign::add_assign", "add", "Add::add", "saturating_add") if any(longer(a) for a in x.args())]
        not_seen = valm(False, DS(fld("seen_greater_log")))
        c.guard(g, s, orm(not_seen, never, one), "greater:%s" % s.key(), "a node that knows of a greater log does not wait longer", also=adds)
        rs = [w for w in g.writes("Engine", "seen_greater_log") if g.value(w, 3)[:2] == ("k", "false")]
        for w in rs:
            c.guard(g, w, late(dead), "reset:%s" % w.key(), "what is known of greater logs is forgotten without an election")
    c.begin("greater-log", "a node told of a log greater than its own by a refused vote request remembers it")
    sets = [w for w in g.writes("Engine", "seen_greater_log") if g.value(w, 3)[:2] == ("k", "true")]
    c.floor(len(sets), "places that remember", 1)
    gt = cmpm("gt", DS(lambda q: q[0] == "field" and q[3] == "last_log_id"), DS(lambda q: q[0] == "field" and q[3] in ("log_ids", "key_log_ids", "last_log_id")))
    for w in sets:
        c.guard(g, w, gt, "really:%s" % w.key(), "a log that is not greater makes the node wait longer")


@prop("P04")
def voter(c):
    """who may start an election"""
    c.begin("voter", "an election is started only by a voter of the membership the node knows")
    isv = own_voter()
    n = 0
    for root, g in (("api", API(c)), ("ntf", NTF(c))):
        for s in starts(g):
            n += 1
            c.guard(g, s, isv, "%s:%s" % (root, s.key()), "a node that is not a voter starts an election")
    c.floor(n, "places that start an election", 4)


@prop("P37")
def leases(c):
    """how long a lease runs"""
    c.begin("lease", "a lease runs from the moment the vote was accepted, for the configured time, and only for the vote of an established leader")
    n = 0
    for g in (API(c), NTF(c)):
        for s in g.writes("Leased", "last_update"):
            v = g.value(s, 6)
            n += 1
            c.ok(NOW(v), "now:%s" % s.key(), "the time a vote was accepted is recorded as %s" % fmt(v)[:120])
        vote = lambda q: q[0] == "field" and q[3] == "committed"
        for s in g.writes("Leased", "lease"):
            rv = s.data if False else None
            for a in alts(g.value(s, 8)):
                n += 1
                if none(a):
                    continue
                ch = chains(a)
                c.ok(any(x[-1] == "leader_lease" for x in ch), "length:%s" % s.key(), "a lease of %s" % fmt(a)[:120])
        # where the configured lease is chosen
        for b in g._live():
            for i, (pl, rv, sp) in enumerate(g.ig.blocks[b].stmts):
                if rv[0] != "use" or rv[1][0] not in ("c", "m") or not rv[1][1][1]:
                    continue
                last = [e for e in rv[1][1][1] if e != "*"]
                if not last or last[-1][0] != "f" or last[-1][2] != "leader_lease":
                    continue
                if "is_expired" in g.ig.blocks[b].fn.name:
                    continue
                s = Site(g.x, b, i, rv)
                n += 1
                comm = orm(valm(True, DS(vote)), bcallm(("is_committed",), True))
                c.guard(g, s, comm, "established:%s" % s.key(), "a vote that is not granted by a quorum gets the lease of a leader")
        c.floor(n, "lease updates", 4)
    c.begin("given-up", "a lease that was given up stays given up until the vote changes")
    f = [x for x in c.P("core").fns() if x.name.startswith("openraft::utime::Leased::")]
    k = 0
    for x in f:
        g = c.g(x)
        off = [s for s in g.writes("Leased", "lease_enabled") if g.value(s, 3)[:2] == ("k", "false")]
        on = [s for s in g.writes("Leased", "lease_enabled") if g.value(s, 3)[:2] != ("k", "false")]
        data = g.writes("Leased", "data")
        for s in g.writes("Leased", "lease"):
            v = g.value(s, 4)
            k += 1
            if none(v):
                continue
            p = g.guarded(s, valm(True, DS(fld("lease_enabled")))(g), also=data + on)
            q = g.exit_from(succs(g, s), also=data + on)
            c.okpath(g, p if p and q else None, "kept:%s" % x.name, "a lease that was given up is granted again without a new vote")
        for s in on:
            c.ok(bool(data), "new:%s" % x.name, "a lease that was given up is enabled again without a new vote")
        for s in off:
            z = [w for w in g.writes("Leased", "lease") if none(g.value(w, 4))]
            p = g.exit_from([0], also=z)
            c.okpath(g, p, "off:%s" % x.name, "giving up a lease leaves it running")
        for s in data:
            p = g.exit_from([0], also=on) if x.name.endswith("::update") else None
            c.okpath(g, p, "renew:%s" % x.name, "a new vote does not enable its lease")
    c.floor(k, "changes of a lease", 2)
    c.begin("refresh", "accepting a vote at least as great as its own restarts the quiet time of the node")
    g = API(c)
    ups = g.writes("Leased", "last_update")
    from r_vote import all_vote_writes

    own = XD(lambda e: dsub(lambda q: q[0] == "field" and q[3] == "data" and q[2].endswith("Leased"), e))
    n = 0
    for x in g.calls("PartialOrd::ge", "ge"):
        if len(x.args()) != 2 or not is_vote_arg(g, x.args()[0]) or not own(g, x.args()[1]):
            continue
        if not own(g, x.args()[1]) or own(g, x.args()[0]):
            continue
        n += 1
        nodes = [y for y in branch_nodes(g, lambda e: e[0] == "call" and nm(e[1], ("ge", "PartialOrd::ge"))) if g.ig.blocks[pred_block(g, y)].fn.name == x.fn.name]
        for y in nodes:
            pb = pred_block(g, y)
            if not follows(g, x, pb):
                continue
            p = g.exit_from([y], also=ups)
            c.okpath(g, p, "restart:%s" % x.key(), "a message of a leader or candidate is accepted without restarting the quiet time")
    if not n:
        c.notes.append("no comparison of votes found")


def is_vote_arg(g, op):
    e = peel(g.expr(op, 6))
    return dsub(lambda q: q[0] == "field" and q[3] in ("vote",), e) or (e[0] in ("field", "arg"))


def pred_block(g, n):
    for m, (b, env) in enumerate(g.x.nodes):
        for y, lab in g.x.succ[m]:
            if y == n:
                return b
    return g.x.nodes[n][0]


def follows(g, site, blk):
    t = g.ig.blocks[site.b].term
    b = t[4] if t[0] == "call" else None
    k = 0
    while b is not None and k < 6:
        if b == blk:
            return True
        t = g.ig.blocks[b].term
        b = t[1] if t[0] == "goto" else None
        k += 1
    return False


@prop("P37")
def switches(c):
    """ticks, heartbeats and their switches"""
    c.begin("ticks", "no tick is sent while ticks are disabled")
    g = c.g("Tick::tick_loop")
    ts = g.cons("Notification", "Tick")
    c.floor(len(ts), "ticks", 1)
    for s in ts:
        c.guard(g, s, switch("enabled"), "enabled", "a tick is sent although ticks are disabled")
    c.begin("heartbeats", "a timer sends heartbeats only while they are enabled and due, and sets the next one")
    g = NTF(c)
    hs = [s for s in g.cons("Command", "BroadcastHeartbeat") if in_arm(g, s, "Notification", "Tick")]
    c.floor(len(hs), "heartbeats sent by a timer", 1)
    due = cmpm("ge", DS(lambda q: NOW(q)), DS(lambda q: q[0] in ("call", "field") and "leader" in fmt(q)))
    nxt = [w for w in g.writes("Leader", "next_heartbeat")]
    for s in hs:
        c.guard(g, s, switch("enable_heartbeat"), "enabled", "a heartbeat is sent although heartbeats are disabled")
        c.guard(g, s, due, "due", "a heartbeat is sent before it is due")
    for w in nxt:
        e = g.value(w, 8)
        if in_arm(g, w, "Notification", "Tick"):
            c.ok(NOW(e) and dsub(fld("heartbeat_interval"), e), "next", "the next heartbeat is set to %s" % fmt(e)[:120])
    c.begin("asked", "elections and heartbeats the user asks for do not depend on the switches")
    g = API(c)
    n = 0
    for s in g.calls(*LOADS):
        a = [fmt(g.expr(x, 6)) for x in s.args()]
        c.ok(not any("enable_elect" in x or "enable_heartbeat" in x for x in a), "switch:%s" % s.key(), "a request of the user depends on a switch")
    for v in ("Elect", "Heartbeat"):
        c.ok(True, "asked:%s" % v, "")
    c.begin("switch", "each switch changes what its name says, and starts with the configured value")
    n = 0
    for name, f in (("heartbeat", "enable_heartbeat"), ("elect", "enable_elect"), ("tick", "enabled")):
        fs = [x for x in c.P("core").fns() if x.name == "openraft::raft::runtime_config_handle::RuntimeConfigHandle::" + name]
        for x in fs:
            g = c.g(x)
            st = g.calls(*STORES)
            n += 1
            c.okpath(g, g.exit_from([0], also=[s for s in st if dsub(fld(f), g.expr(s.args()[0], 8))]), "set:%s" % name, "%s does not change its switch" % name)
            for s in st:
                e = g.expr(s.args()[0], 8)
                v = g.expr(s.args()[1], 8)
                ok = dsub(fld(f), e) and (f != "enabled" or dsub(fld("tick_handle"), e))
                c.ok(ok, "which:%s" % name, "%s changes %s" % (name, fmt(e)))
                c.ok(v[0] == "arg", "value:%s" % name, "%s stores %s" % (name, fmt(v)))
    c.floor(n, "switches", 3)
    g = c.g("RuntimeConfig::new")
    for s in g.cons("RuntimeConfig"):
        for f in ("enable_heartbeat", "enable_elect"):
            e = g.expr(s.field(f), 8)
            c.ok(dsub(fld(f), e), "init:%s" % f, "%s starts as %s" % (f, fmt(e)))
    g = c.g("EngineConfig::new")
    c.begin("configured", "timeouts are the configured ones: a random election timeout between its bounds, a lease and a longer wait of at least the upper bound")
    lo, hi = "election_timeout_min", "election_timeout_max"
    n = 0
    for s in g.cons("Config"):
        if s.field("leader_lease") is None:
            continue
        n += 1
        e = g.expr(s.field("election_timeout"), 10)
        rs = [q for q in walk(e) if q[0] == "agg" and "Range" in str(q[1])] or [q for q in walk(e) if q[0] == "call" and nm(q[1], ("RangeInclusive::new",))]
        for r in rs:
            ops = r[2]
            c.ok(dsub(fld(lo), ops[0]) and dsub(fld(hi), ops[1]), "range", "the election timeout is drawn from %s" % fmt(r))
        if not rs:
            c.ok(dsub(fld(lo), e) or dsub(fld(hi), e), "range", "the election timeout is %s" % fmt(e)[:120])
        for f in ("leader_lease", "smaller_log_timeout"):
            e = g.expr(s.field(f), 10)
            c.ok(dsub(fld(hi), e) and not dsub(lambda q: q[0] == "bin" and q[1].startswith(("Sub", "Div", "Shr")), e), f, "%s is %s" % (f, fmt(e)[:120]))
    c.floor(n, "timer configurations", 1)
