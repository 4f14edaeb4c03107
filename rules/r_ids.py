"""One entry per log id (P36)."""
from common import *
from r_life import XD, dsub
from r_log import leader_log
from r_metrics import DS
from r_start import walk

prop("P36")(leader_log)


def idx(g, op, d=0):
    """The index of a log id, as it is."""
    if op[0] not in ("c", "m") or d > 4:
        return False
    last = [e for e in op[1][1] if e != "*"]
    if last:
        return last[-1][0] == "f" and last[-1][2] == "index"
    rvs = [g.ig.blocks[b].stmts[i][1] for b, i in g._defidx().get(op[1][0], ()) if isinstance(i, int) and i < len(g.ig.blocks[b].stmts)]
    return len(rvs) == 1 and rvs[0][0] == "use" and idx(g, rvs[0][1], d + 1)


def leads(g):
    """Sites where the node gets a leader."""
    return [s for s in g.cons("Leader") if s.field("committed_vote") is not None]


@prop("P36")
def fresh(c):
    """where a new leader starts"""
    c.begin("first", "a new leader continues after the last entry of its own log, with the vote it won")
    n = 0
    for g in (API(c), NTF(c), START(c)):
        for s in leads(g):
            n += 1
            e = g.expr(s.field("last_log_id"), 14)
            for a in alts(e):
                if a[0] == "k" or isagg(a, (), ("None",)):
                    c.ok(False, "last:%s" % s.key(), "a new leader starts at %s" % fmt(a))
                    continue
                own = dsub(lambda q: q[0] == "field" and (q[3] in ("key_log_ids", "log_ids") or q[3] == "last_log_id" and "andidate" in fmt(q[1])), a)
                c.ok(own, "last:%s" % s.key(), "a new leader starts after %s" % fmt(a)[:160])
                wrong = [q[1] for q in walk(a) if q[0] == "call" and nm(q[1], ("first", "slice::first"))]
                c.ok(not wrong, "end:%s" % s.key(), "a new leader starts after %s" % fmt(a)[:160])
            v = g.expr(s.field("committed_vote"), 14)
            c.ok(dsub(lambda q: q[0] == "field" and q[3] in ("vote", "data"), v) or v[0] == "arg", "vote:%s" % s.key(), "a new leader has the vote %s" % fmt(v)[:160])
        for s in g.cons("Candidate"):
            op = s.field("last_log_id")
            if op is None:
                continue
            e = g.expr(op, 14)
            for a in alts(e):
                c.ok(dsub(lambda q: q[0] == "field" and q[3] in ("key_log_ids", "log_ids"), a), "candidate:%s" % s.key(), "a candidate's last log is %s" % fmt(a)[:160])
    c.floor(n, "new leaders", 2)
    c.begin("stale", "the log does not grow between a candidate's recording of its last log id and its becoming leader: a leader that starts an election stops leading")
    cand = lambda e: dsub(lambda q: q[0] == "field" and q[3] == "last_log_id" and "andidate" in fmt(q[1]), e)
    k = 0
    used = any(cand(g.expr(s.field("last_log_id"), 14)) for g in (API(c), NTF(c)) for s in leads(g))
    for g in (API(c), NTF(c)) if used else ():
        off = [s for s in g.writes("Engine", "leader") + g.writes("VoteHandler", "leader") if all(isagg(a, (), ("None",)) for a in alts(g.value(s, 6)))]
        off += [s for s in g.mutcalls("Engine", "leader") if short(s.data.n) in ("take", "replace")]
        gone = ism("Option", ("None",), XD(lambda e: dsub(lambda q: q[0] == "field" and q[3] == "leader", e) and not dsub(lambda q: q[0] == "field" and q[2].endswith("::Leader"), e), 10))
        for s in g.writes("Engine", "candidate"):
            if all(isagg(a, (), ("None",)) for a in alts(g.value(s, 6))):
                continue
            k += 1
            if g.guarded(s, gone(g), also=off) is None:
                c.ok(True, "leads:%s" % s.key(), "")
            else:
                c.follow(g, s, off, "leads:%s" % s.key(), "a leader that starts an election goes on appending logs, whose indexes the new leader uses again")
    c.begin("recorded", "after giving ids the leader's last log id is the last one given")
    for g in (API(c), NTF(c)):
        ws = g.writes("Leader", "last_log_id")
        nothing = orm(cmpm("le", idx, idx), cmpm("eq", idx, idx), cmpm("eq", idx, XD(lambda e: dsub(lambda q: q[0] == "call" and nm(q[1], ("next_index",)), e))))
        for s in g.calls("RaftLogId::set_log_id", "set_log_id"):
            if not dsub(lambda q: q[0] == "field" and q[3] == "committed_vote", g.expr(s.args()[1], 12)):
                continue
            p = g.must_follow(s, ws, cut=nothing(g))
            c.okpath(g, p, "last:%s" % s.key(), "ids are given without recording the last one")
    c.begin("received", "entries of another leader keep their ids")
    g = API(c)
    k = 0
    for s in g.calls("RaftLogId::set_log_id", "set_log_id"):
        k += 1
        e = g.expr(s.args()[0], 14)
        c.ok(not dsub(lambda q: q[0] == "var" and q[2] == "AppendEntries", e) and not dsub(lambda q: q[0] == "field" and q[2].endswith("AppendEntriesRequest"), e), "kept:%s" % s.key(), "the id of an entry received from a leader is changed")
    c.floor(k, "places that give ids", 1)


@prop("P36")
def once(c):
    """a leader is not created twice for a vote"""
    c.begin("replaced", "a leader is replaced only by the leader of another vote")
    n = 0
    for g in (API(c), NTF(c)):
        for s in g.writes("Engine", "leader") + g.writes("VoteHandler", "leader") + g.writes("EstablishHandler", "leader"):
            if all(isagg(a, (), ("None",)) for a in alts(g.value(s, 6))):
                continue
            n += 1
            old = XD(lambda e: dsub(lambda q: q[0] == "field" and q[3] == "leader", e) and not dsub(lambda q: q[0] == "field" and q[2].endswith("::Leader"), e))
            other = orm(
                cmpm("ne", DS(lambda q: q[0] == "field" and q[3] == "committed_vote"), ANY),
                cmpm("lt", DS(lambda q: q[0] == "field" and q[3] == "committed_vote"), ANY, total=False),
                ism("Option", ("None",), old),
                bcallm(("is_none",), True, old),
                bcallm(("is_some",), False, old),
            )
            c.guard(g, s, other, "other:%s" % s.key(), "the leader of a vote is replaced by a new leader of the same vote")
    c.floor(n, "places that install a leader", 2)
    c.begin("restart", "a restarted node does not propose under the vote it led with, because entries sent but not flushed before are lost")
    g = START(c)
    ls = leads(g)
    for s in ls:
        c.ok(False, "resume", "a restarted node leads again under its old vote and gives the ids of its lost entries to new ones, at %s" % s.desc())
    if not ls:
        c.ok(True, "resume", "")

