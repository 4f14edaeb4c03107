"""Votes: monotone, persisted first, granted only to up-to-date candidates, elected by a quorum."""
from common import *

PRISTINE = [
    cmpm("eq", vote_state, X(ecall("default")), total=True),
]


def vote_writes(g):
    return [s for s in g.writes("Leased", "data") if is_vote_data(g.lpath(s.data)) or prefix(g.lpath(s.data), VOTE)]


def all_vote_writes(g):
    """Assignments of the vote, or of the whole leased value."""
    return vote_writes(g) + [s for s in g.writes("RaftState", "vote")]


@prop("P01")
def vote_never_decreases(c):
    """the stored vote is only replaced by one that is not smaller"""
    c.begin("vote-monotone", "a vote is only replaced by a vote that compares >= to it")
    n = 0
    for g in EVENTS(c):
        ws = all_vote_writes(g)
        for s in ws:
            n += 1
            v = g.value(s)
            m = orm(
                cmpm("ge", same(g, v), vote_state, total=False),
                cmpm("eq", vote_state, X(ecall("default")), total=True),
            )
            c.guard(g, s, m, "write:%s" % s.key(), "vote replaced without being compared with the current vote")
            # the comparison still holds at the write: no other vote write in between
            oth = [w for w in ws if w.b != s.b]
            if oth:
                c.guard(g, s, m, "stale:%s" % s.key(), "vote compared before another replacement of it", start=oth)
        for s in g.mutcalls("RaftState", "vote") + g.mutcalls("Leased", "data"):
            c.ok(False, "opaque:%s" % s.key(), "the vote is modified by %s at %s" % (s.data, s.desc()))
    c.floor(n, "vote replacements", 8)
    covered(c, "Leased", "data", EVENTS(c), exempt=("Leased::into_inner", "Leased::new"))
    covered(c, "RaftState", "vote", EVENTS(c), mut=True)


@prop("P01")
def vote_saved_first(c):
    """a changed vote is queued for storage before anything else"""
    c.begin("save-first", "after the vote changes, saving that vote is queued before any other command")
    n = 0
    for g in EVENTS(c):
        cmds = others(g, CMD, ("SaveVote",))
        for s in all_vote_writes(g):
            v = g.value(s)
            pristine = g.guarded(s, cmpm("eq", vote_state, X(ecall("default")))(g)) is None
            if pristine:
                # the placeholder of a first initialization is replaced by a saved vote before it is used
                c.follow(g, s, g.cons(CMD, "SendVote"), "placeholder:%s" % s.key(), "initialization must go on to vote for itself")
                continue
            n += 1
            saves = [x for x in g.cons(CMD, "SaveVote") if same(g, v)(g, x.field("vote"))]
            c.follow(g, s, saves, "nosave:%s" % s.key(), "the new vote is not saved on some path")
            stop = g._stopset(saves)
            starts = [y for k in g.nodes(s) for y, _ in g.x.succ[k]]
            seen = g.x.reach(starts, stop=stop)
            for k in cmds:
                hit = [x for x in g.nodes(k) if x in seen and x not in stop]
                c.ok(not hit, "early:%s:%s" % (s.key(), k.data[1][2]), "command %s is queued at %s before the vote changed at %s is saved" % (k.data[1][2], k.desc(), s.desc()))
    c.floor(n, "vote replacements", 7)


@prop("P01", "P02", "P12")
def command_queue_is_fifo(c):
    """commands are run in the order they were queued"""
    c.begin("fifo", "the command queue is first-in first-out; only a command that is not ready goes back to the front, and the run stops there")
    good = ("push_back", "pop_front", "push_front", "len", "is_empty", "iter", "with_capacity", "new", "extend", "reserve")
    n = 0
    P = c.P()
    for f in sorted(raw_writers(c, "EngineOutput", "commands"), key=lambda f: f.name):
        if any(t in f.name for t in TESTISH) or f.derived:
            continue
        g = c.g(f)
        for s in g.mutcalls("EngineOutput", "commands"):
            k = s.data.n.rsplit("::", 1)[-1]
            if "take_commands" in f.name or "clear_commands" in f.name:
                continue
            n += 1
            c.ok(k in good, "op:%s:%s" % (f.name, k), "the command queue is changed by %s at %s" % (k, s.desc()))
    c.floor(n, "queue operations", 3)
    g = RUNCMDS(c)
    back = g.calls("VecDeque::push_front")
    pops = g.calls("VecDeque::pop_front")
    run = g.awaits("run_command")
    c.floor(len(run), "command executions", 1)
    for s in back:
        c.ok(g.can_reach(s, run) is None, "continue-after-postpone", "another command is run after a postponed one (%s)" % s.desc())
    for s in run:
        # a command handed back as not ready must be kept
        c.ok(bool(back), "postpone-lost", "a command that is not ready is dropped")
        m = ism("Option", ("Some",), X(lambda e: esub(lambda q: q[0] == "await" and nm(q[1], ("run_command",)), e)))
        starts = [y for y in g.edges(m(g))]
        c.ok(bool(starts), "postpone-untested", "the result of running a command is not examined")
        p = g.exit_from(starts, also=back, exits=ret_ok(g))
        c.okpath(g, p, "postpone-dropped", "a command that is not ready is dropped")
        # an executed command's error stops the run
        e = g.edges(ism("Result", ("Err",), X(lambda e: esub(lambda q: q[0] == "await" and nm(q[1], ("run_command",)), e)))(g))
        c.ok(bool(e), "error-untested", "the error of a failed command is not examined")
        seen = g.x.reach(e)
        c.ok(not any(x in seen for r in run for x in g.nodes(r)), "continue-after-error", "another command is run after one failed")
        c.okpath(g, g.exit_from(e, exits=ret_ok(g)), "error-swallowed", "a failed command is reported as success")
    for s in pops:
        c.follow(g, s, run, "popped-not-run", "a dequeued command is neither run nor kept", cut=ism("Option", ("None",)))


@prop("P01")
def save_vote_executed(c):
    """SaveVote writes the vote and waits for it"""
    c.begin("save-executed", "executing SaveVote stores that vote, waits for it, and stops on an error before anything is reported")
    g = EXEC(c)
    aw = g.awaits("RaftLogStorage::save_vote", "save_vote")
    c.floor(len(aw), "save_vote calls", 1)
    v = payload("SaveVote", "vote")
    for s in aw:
        args = g.ig.blocks[s.b].term[1][2]
        c.ok(len(args) > 1 and v(g.expr(args[1])), "value:%s" % s.key(), "the vote stored is not the vote of the command at %s" % s.desc())
    okr = ism("Result", ("Ok",), X(lambda e: peel(e)[0] == "await" and nm(peel(e)[1], ("save_vote",))))
    starts = g.edges(ism(CMD, ("SaveVote",))(g))
    c.ok(bool(starts), "arm", "no branch executes SaveVote")
    p = g.exit_from(starts, match=okr(g), exits=ret_ok(g))
    # postponement never applies to SaveVote (it has no condition), so Ok exits mean done
    c.okpath(g, p, "ok-without-save", "SaveVote completes without a successful save")
    for s in g.cons("Notification", "VoteResponse"):
        c.guard(g, s, okr, "selfgrant:%s" % s.key(), "this node grants itself before its vote is stored")
    for s in g.cons("Notification", "LocalIO"):
        q = g.guarded_from(starts, s, match=okr(g)) if starts else None
        c.okpath(g, q, "flushed:%s" % s.key(), "the vote is reported as stored before its save succeeded")
    # who may write votes
    P = c.P()
    callers = set()
    for f in P.fns():
        for u in f.blocks:
            t = u[1]
            if t[0] == "call" and t[1][0] == "fn" and fnmatch(t[1][1], ("RaftLogStorage::save_vote",)):
                callers.add(f)
    callers = [f for f in callers if not any(t in f.name for t in TESTISH)]
    seen = {g.ig.blocks[b].fn.uid for b in g.reached_blocks}
    for f in callers:
        c.ok(f.uid in seen, "caller:%s" % f.name, "%s stores votes outside the command executor" % f.name)


def granted_nodes(g, s):
    op = s.field("vote_granted")
    return [n for n, v in g.vals(s, op).items() if v != ("k", 0)]


@prop("P03")
def grants(c):
    """a vote is granted only to an acceptable candidate"""
    g = API(c)
    sites = g.cons("VoteResponse")
    req_vote = X(eall(efield("VoteRequest", "vote")))
    req_log = X(eall(efield("VoteRequest", "last_log_id")))
    k = 0
    for s in sites:
        ns = granted_nodes(g, s)
        if not ns:
            continue
        k += 1
        c.begin("log-up-to-date", "a vote is granted only if the candidate's last log id is >= this node's")
        nodes_guard(c, g, s, ns, cmpm("ge", req_log, X(eall(last_log))), "log", "granted without comparing the last log ids")
        c.begin("vote-not-smaller", "a vote is granted only if the requested vote is >= this node's vote")
        nodes_guard(c, g, s, ns, cmpm("ge", req_vote, vote_state, total=False), "vote", "granted without comparing the votes")
        c.begin("lease", "a vote is granted only if no leader's lease is running")
        leased = lambda f: X(lambda e: esub(efield("Leased", f), e) and esub(VOTE, e))
        now = X(ecall("now", "Instant::now"))
        deadline = X(lambda e: esub(efield("Leased", "last_update"), e) and esub(efield("Leased", "lease"), e) and esub(VOTE, e))
        free = orm(
            ism("Option", ("None",), X(lambda e: efield("Leased", "last_update")(e) and esub(VOTE, e))),
            cmpm("gt", now, deadline),
            cmpm("ge", now, deadline),
            valm(False, X(lambda e: efield("Vote", "committed")(e) and is_vote_data(e))),
        )
        nodes_guard(c, g, s, ns, free, "lease", "granted while a leader lease may be running")
        c.begin("recorded", "a vote that is granted has become this node's vote")
        ws = [w for w in vote_writes(g) if same(g, ("field", ("x",), "x", "x"))(g, ("k", "?", 0, None)) or req_vote_value(g, w)]
        m = orm(
            cmpm("eq", req_vote, vote_state),
            cmpm("le", req_vote, vote_state, total=True),
        )
        nodes_guard(c, g, s, ns, m, "recorded", "granted a vote that was not recorded", also=ws)
    c.begin("count", "the grant decision is found")
    c.floor(k, "granting replies", 1)


def req_vote_value(g, w):
    return all(efield("VoteRequest", "vote")(a) for a in alts(g.value(w)))


@prop("P03")
def rejects_are_quiet(c):
    """a rejected vote request leaves the vote and the lease untouched"""
    c.begin("quiet", "the vote and its lease are only refreshed by a vote request that is granted")
    g = API(c)
    starts = g.edges(ism("RaftMsg", ("RequestVote",))(g))
    c.ok(bool(starts), "arm", "no branch handles RequestVote")
    req_log = X(eall(efield("VoteRequest", "last_log_id")))
    seen = g.x.reach(starts)
    n = 0
    for w in g.writes("Leased", "data") + g.writes("Leased", "last_update"):
        if not any(x in seen for x in g.nodes(w)):
            continue
        n += 1
        p = g.guarded_from(starts, w, cmpm("ge", req_log, X(eall(last_log)))(g))
        c.okpath(g, p, "log:%s" % w.key(), "a candidate with an older log refreshes or replaces the vote at %s" % w.desc())
    c.floor(n, "vote updates by a request", 2)


@prop("P04")
def candidate_vote(c):
    """an election uses the next term and this node's id"""
    c.begin("new-vote", "an election votes for this node itself, uncommitted, in a term one above the current one")
    n = 0
    for g in EVENTS(c):
        for s in g.cons(CMD, "SendVote"):
            n += 1
            e = g.expr(s.field("vote_req"))
            vote = field_of(e, "VoteRequest", "vote")
            lid = field_of(e, "VoteRequest", "last_log_id")
            c.ok(vote is not None and all(is_new_vote(v) for v in alts(vote)), "vote:%s" % s.key(), "vote requested is %s at %s" % (fmt(vote) if vote else "?", s.desc()))
            c.ok(lid is not None and all(last_log(a) or efield("Candidate", "last_log_id")(a) for a in alts(lid)), "lastlog:%s" % s.key(), "last log id sent is %s at %s" % (fmt(lid) if lid else "?", s.desc()))
            c.begin("self-first", "votes are requested only after this node's own vote is saved")
            saves = [x for x in g.cons(CMD, "SaveVote") if vote is not None and same(g, vote)(g, x.field("vote"))]
            alsoeq = cmpm("le", same(g, vote), vote_state) if vote is not None else None
            c.guard(g, s, alsoeq, "save:%s" % s.key(), "vote requests are queued before the own vote is saved", also=saves)
            c.begin("new-vote", "")
    c.floor(n, "elections", 3)


def field_of(e, adt, field):
    """Expression of a field of a struct expression."""
    e = peel(e)
    if e[0] == "agg" and e[1][0] == "adt" and adtm(e[1][1], adt):
        names = e[1][3] if len(e[1]) > 3 else None
        if names and field in names:
            return e[2][list(names).index(field)]
        return None
    if e[0] == "phi":
        return ("phi", tuple(x for x in (field_of(a, adt, field) for a in e[1]) if x is not None))
    return ("field", e, adt, field)


def is_new_vote(v):
    v = peel(v)
    if v[0] != "agg" or not adtm(v[1][1], "Vote"):
        return False
    com = field_of(v, "Vote", "committed")
    lid = field_of(v, "Vote", "leader_id")
    if not (com and com[0] == "k" and com[1].replace("const ", "") == "false"):
        return False
    if lid is None or lid[0] != "agg":
        return False
    term = field_of(lid, "LeaderId", "term")
    node = field_of(lid, "LeaderId", "node_id") or field_of(lid, "LeaderId", "voted_for")
    if term is None or node is None:
        return False
    ok = term[0] == "bin" and term[1].startswith("Add") and term[3][0] == "k" and term[3][1].startswith("1") and peel(term[2])[0] == "field" and peel(term[2])[3] == "term" and is_vote_data(term[2])
    return ok and efield("EngineConfig", "id")(node)


@prop("P04")
def leader_by_quorum(c):
    """leadership starts only with a quorum of grants"""
    c.begin("quorum", "a leader is created only from a candidate granted by a quorum, or for a vote of this node that is already committed")
    n = k = 0
    for g in EVENTS(c):
        for s in g.cons("proposer::leader::Leader"):
            n += 1
            v = g.expr(s.field("committed_vote"))
            v = field_of(v, "CommittedVote", "vote")
            if v is not None and all(is_vote_data(a) for a in alts(v)):
                c.guard(g, s, valm(True, X(lambda e: efield("Vote", "committed")(e) and is_vote_data(e))), "committed:%s" % s.key(), "leader created for a vote that is not committed")
                own = cmpm("eq", X(lambda e: (esub(efield("LeaderId", "node_id"), e) or esub(efield("LeaderId", "voted_for"), e)) and esub(VOTE, e)), X(lambda e: esub(efield("EngineConfig", "id"), e)))
                c.guard(g, s, own, "own:%s" % s.key(), "leader created for another node's vote")
                continue
            k += 1
            cand = lambda e: esub(efield("Engine", "candidate"), e)
            c.ok(v is not None and all(peel(a)[0] == "field" and peel(a)[3] == "vote" and cand(a) for a in alts(v)), "source:%s" % s.key(), "leader's vote is %s at %s" % (fmt(v) if v else "?", s.desc()))
            c.guard(g, s, valm(True, X(lambda e: esub(efield("Candidate", "progress"), e) and esub(ecall("update_with", "is_quorum", "Progress::update"), e))), "quorum:%s" % s.key(), "leader created without a quorum of grants")
        for s in g.calls("Progress::update_with", "Progress::update", entered=True):
            a = s.args()
            if not a or not esub(efield("Candidate", "progress"), g.expr(a[0])):
                continue
            c.begin("grant", "a grant is counted only for a granted response of that node to the current candidate's vote")
            c.guard(g, s, valm(True, X(efield("VoteResponse", "vote_granted"))), "granted:%s" % s.key(), "a response that is no grant is counted")
            c.guard(g, s, cmpm("eq", X(efield("VoteResponse", "vote")), X(efield("Candidate", "vote"))), "vote:%s" % s.key(), "a grant of another vote is counted")
            c.ok(payload("VoteResponse", "target")(g.expr(a[1])), "target:%s" % s.key(), "the grant is counted for %s at %s" % (fmt(g.expr(a[1])), s.desc()))
            c.begin("quorum", "")
    c.floor(k, "elected leaders", 1)
    c.floor(n, "leader creations", 6)
    covered(c, "Engine", "leader", EVENTS(c), mut=True, exempt=("Engine::new", "Engine::testing_new_leader"))


@prop("P04")
def vote_requests(c):
    """votes are asked of voters, with the vote that was saved"""
    c.begin("electorate", "candidates count grants over the voters of the effective membership, and ask those voters")
    n = 0
    for g in EVENTS(c):
        for s in g.cons("proposer::candidate::Candidate"):
            n += 1
            eff = A(F("MembershipState", "effective"), F("Membership", "configs"))
            for fl in ("quorum_set", "progress"):
                o = s.field(fl)
                c.ok(eff(g, o) and not g.has(o, F("MembershipState", "committed")), "%s:%s" % (fl, s.key()), "the candidate's grants are counted over %s at %s" % (fmt(g.expr(o)), s.desc()))
            c.ok(all(last_log(a) for a in alts(g.expr(s.field("last_log_id")))), "lastlog:%s" % s.key(), "the candidate's last log id is %s" % fmt(g.expr(s.field("last_log_id"))))
        # the grants counted are for the candidate's vote: another vote starts from no grants
        for fl in ("vote", "last_log_id", "quorum_set"):
            for s in g.writes("proposer::candidate::Candidate", fl):
                reset = g.writes("proposer::candidate::Candidate", "progress")
                c.ok(any(g.must_follow(s, [r]) is None or g.must_precede([r], s) is None for r in reset), "reused:%s:%s" % (fl, s.key()), "the %s of a candidate changes while it keeps the grants it counted, at %s" % (fl, s.desc()))
    c.floor(n, "candidates", 3)
    c.begin("responses", "a vote response is attributed to the asked node and the asked vote")
    g = EXEC(c)
    k = 0
    for f, caps, site in spawned(c, g):
        g2 = c.g(f)
        for s in g2.cons("Notification", "VoteResponse"):
            k += 1
            tgt = subst(g2.expr(s.field("target")), caps)
            sv = subst(g2.expr(s.field("sender_vote")), caps)
            rs = subst(g2.expr(s.field("resp")), caps)
            c.ok(esub(efield("VoteRequest", "vote"), sv) and esub(evar("SendVote"), sv), "sender:%s" % s.key(), "sender vote is %s" % fmt(sv))
            c.ok(esub(lambda e: e[0] in ("call", "await") and nm(e[1], ("RaftNetworkV2::vote", "vote")), rs), "resp:%s" % s.key(), "response is %s" % fmt(rs))
            # the client asked is the client of the target
            cl = find_call(rs, ("vote",))
            nc = find_call(cl[2][0], ("new_client",)) if cl else None
            c.ok(nc is not None and fmt(peel(nc[2][1])) == fmt(peel(tgt)), "target:%s" % s.key(), "response of %s attributed to %s" % (fmt(nc[2][1]) if nc else "?", fmt(tgt)))
            rq = cl[2][1] if cl else ("?",)
            c.ok(esub(evar("SendVote"), rq), "req:%s" % s.key(), "request sent is %s" % fmt(rq))
            c.ok(esub(efield("MembershipState", "effective"), tgt) , "voter:%s" % s.key(), "vote asked of %s" % fmt(tgt))
    c.floor(k, "vote response notifications", 1)
    for s in g.cons("Notification", "VoteResponse"):
        c.ok(efield("RaftCore", "id")(g.expr(s.field("target"))), "self:%s" % s.key(), "the own grant is attributed to %s" % fmt(g.expr(s.field("target"))))
        r = g.expr(s.field("resp"))
        c.ok(payload("SaveVote", "vote")(field_of(r, "VoteResponse", "vote")), "selfvote:%s" % s.key(), "the own grant is for %s" % fmt(r))


def find_call(e, names, d=0):
    """First call/await sub-expression of one of the names."""
    if d > 16 or not isinstance(e, tuple) or not e:
        return None
    if e[0] in ("call", "await") and nm(e[1], names):
        return e
    kids = []
    if e[0] in ("field", "var", "idx"):
        kids = [e[1]]
    elif e[0] == "phi":
        kids = e[1]
    elif e[0] in ("call", "await", "agg"):
        kids = e[2]
    elif e[0] == "bin":
        kids = e[2:4]
    elif e[0] == "un":
        kids = e[2:3]
    for k in kids:
        r = find_call(k, names, d + 1)
        if r is not None:
            return r
    return None
