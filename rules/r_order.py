"""Orders: log ids, leader ids, votes, I/O positions (P31).

Every comparison function of these types is interpreted over all the ways two values can relate, field by field, and
its result is compared with the order the protocol needs."""
from itertools import product
from common import *
from absint import Case, get, outcome, ORD, REV, some, NONE

RELS = ("lt", "eq", "gt")
TYPES = (
    "log_id::LogId", "vote::leader_id::leader_id_adv::LeaderId", "vote::leader_id::leader_id_std::LeaderId", "vote::leader_id::leader_id_std::CommittedLeaderId", "vote::vote::Vote",
    "vote::committed::CommittedVote", "vote::non_committed::NonCommittedVote", "raft_state::io_state::io_id::IOId", "raft_state::io_state::log_io_id::LogIOId",
)


def opaque(ty):
    """Comparisons of the other types are taken as given: they have obligations of their own."""
    return tuple("<openraft::%s as core::cmp::%s" % (t, x) for t in TYPES if "openraft::" + t != ty for x in ("PartialOrd>::partial_cmp", "PartialOrd>::lt", "PartialOrd>::le", "PartialOrd>::gt", "PartialOrd>::ge", "Ord>::cmp", "PartialEq>::eq", "PartialEq>::ne"))


def lex(*rs):
    for r in rs:
        if r != "eq":
            return r
    return "eq"


def shown(v):
    if v[0] == "b":
        return v[1]
    if v[0] == "a":
        for r, n in ORD.items():
            if v[1] == n:
                return r
        if v[1] == "None" and not v[2]:
            return "none"
        if v[1] == "Some" and len(v[2]) == 1:
            return shown(v[2][0])
    return None


def want_of(m, r):
    """What method m returns when the two values relate as r."""
    if m in ("partial_cmp", "cmp"):
        return r
    return {"eq": r == "eq", "ne": r != "eq", "lt": r == "lt", "le": r in ("lt", "eq"), "gt": r == "gt", "ge": r in ("gt", "eq")}[m]


def methods(c, sn, ty):
    """Comparison methods the type implements: [(trait, method, function name)]"""
    out = []
    for f in c.P(sn).fns():
        for tr, ms in (("PartialOrd", ("partial_cmp", "lt", "le", "gt", "ge")), ("Ord", ("cmp", "max", "min", "clamp")), ("PartialEq", ("eq", "ne"))):
            for m in ms:
                if f.name in ("<%s as core::cmp::%s>::%s" % (ty, tr, m),):
                    out.append((tr, m, f.name))
    return out


def check(c, sn, ty, cases, what, total=False):
    """cases: [(label, Case, relation or None when it does not matter)]"""
    n = 0
    for tr, m, name in methods(c, sn, ty):
        if m in ("max", "min", "clamp"):
            c.notes.append("%s overrides %s" % (ty, m))
            continue
        g = c.g(name, setname=sn, opaque=opaque(ty), maybe=False)
        n += 1
        for lab, case, r in cases:
            if r is None or (m == "cmp" and r == "none"):
                continue
            if m not in ("partial_cmp", "eq"):
                case = case.clone()
                case.order[()] = r
            o = outcome(g, case, {1: ("o", "self", ()), 2: ("o", "other", ())}, closures(c, sn))
            if o[0] == "unknown":
                c.notes.append("undecided %s %s: %s" % (name, lab, o[1]))
                continue
            w = want_of(m, r)
            got = shown(o[1]) if o[0] == "value" else "a panic"
            if got is None:
                c.notes.append("undecided %s %s: %s" % (name, lab, o[1]))
                continue
            c.ok(got == w, "%s:%s:%s:%s" % (sn, ty.split("::")[-1], m, lab), "%s of two %s with %s gives %s, not %s" % (m, what, lab, got, w))
    c.floor(n, "comparison functions of %s" % what, 2)


def closures(c, sn):
    """Interpret a closure called by a combinator."""

    def sub(clo, args, case):
        f = c.P(sn).by_uid[clo[1]]
        o = outcome(c.g(f, setname=sn, maybe=False), case, dict([(1, ("a", "", clo[2]))] + [(i + 2, a) for i, a in enumerate(args)]))
        return o[1] if o[0] == "value" else ("?", "closure")

    return sub


def fields(names, extra=()):
    """All combinations of relations of the named fields (paths)."""
    for rs in product(RELS, repeat=len(names)):
        yield dict(zip(names, rs))


def lab(rel):
    return ", ".join("%s %s" % (".".join(p) or "it", r) for p, r in sorted(rel.items()))


def adv(path):
    return (path + ("term",), path + ("node_id",))


@prop("P31")
def log_ids(c):
    """the order of log ids and leader ids"""
    c.begin("log-id", "log ids are ordered by the leader that proposed them and then by index; equal only if both are")
    L, N, I = ("leader_id", "term"), ("leader_id", "node_id"), ("index",)
    order = {(): (("leader_id",), ("index",)), ("leader_id",): (("term",), ("node_id",))}
    cases = [(lab(r), Case(rel=r, order=order), lex(r[L], r[N], r[I])) for r in fields((L, N, I))]
    check(c, "core", "openraft::log_id::LogId", cases, "log ids")
    order1 = {(): (("leader_id",), ("index",)), ("leader_id",): (("term",),)}
    cases = [(lab(r), Case(rel=r, order=order1), lex(r[L], r[I])) for r in fields((L, I))]
    check(c, "stl", "openraft::log_id::LogId", cases, "log ids")
    c.begin("leader-id", "leader ids are ordered by term and then by node; with one leader per term, two nodes of a term are not ordered")
    T, D = ("term",), ("node_id",)
    cases = [(lab(r), Case(rel=r, order={(): (("term",), ("node_id",))}), lex(r[T], r[D])) for r in fields((T, D))]
    check(c, "core", "openraft::vote::leader_id::leader_id_adv::LeaderId", cases, "leader ids")
    check(c, "stl", "openraft::vote::leader_id::leader_id_std::CommittedLeaderId", [(t, Case(rel={T: t, ("p",): "eq"}, order={(): (("term",), ("p",))}), t) for t in RELS], "committed leader ids")
    check(c, "stl", "openraft::vote::leader_id::leader_id_std::LeaderId", list(std_cases(())), "leader ids")


def std_rel(t, a, b, v):
    if t != "eq":
        return t
    if a and b:
        return "eq" if v == "eq" else "none"
    return "gt" if a else "lt" if b else "eq"


def std_cases(path):
    T, V = path + ("term",), path + ("voted_for",)
    for t in RELS:
        for a, b in product((False, True), repeat=2):
            for v in RELS if a and b else ("eq",):
                opts = {("self", V): a, ("other", V): b}
                case = Case(rel={T: t, V + ("?",): v}, opts=opts)
                r = std_rel(t, a, b, v)
                case.order = {path: r}
                yield "term %s, voted_for %s/%s %s" % (t, a, b, v), case, r


def with_committed(cases):
    C = ("committed",)
    for l, case, r in cases:
        for a, b in product((False, True), repeat=2):
            k = Case(rel=case.rel, opts=case.opts, order=case.order, flags={("self", C): a, ("other", C): b})
            cr = "eq" if a == b else "lt" if b else "gt"
            k.order = dict(case.order)
            if r == "none":
                w = None if a and b else cr if a != b else "none"
            else:
                w = lex(r, cr)
            k.order[()] = w or "none"
            yield "%s, committed %s/%s" % (l, a, b), k, w


@prop("P31")
def votes(c):
    """the order of votes"""
    c.begin("vote", "votes are ordered by leader id; of the same leader the committed one is greater; of unordered leaders a committed one is greater")
    L, N = ("leader_id", "term"), ("leader_id", "node_id")
    base = [(lab(r), Case(rel=r, order={("leader_id",): (("term",), ("node_id",))}), lex(r[L], r[N])) for r in fields((L, N))]
    V = "openraft::vote::vote::Vote"
    std = list(std_cases(("leader_id",)))
    for sn, b in (("core", base), ("stl", std)):
        cs = list(with_committed(b))
        own = [(l, k.clone(), r) for l, k, r in cs]
        for l, k, r in own:
            k.order.pop((), None)
        check(c, sn, V, own, "votes")
        c.begin("vote-wrap", "a vote known to be committed, or not, is ordered as the vote itself")
        for ty in ("committed::CommittedVote", "non_committed::NonCommittedVote"):
            sub = []
            for w in (RELS if sn == "core" else RELS + ("none",)):
                sub.append((w, Case(order={("vote",): w, (): w}, rel={("vote",): w}), w))
            check(c, sn, "openraft::vote::" + ty, sub, "votes")
        c.begin("vote", "votes are ordered by leader id; of the same leader the committed one is greater; of unordered leaders a committed one is greater")


@prop("P31")
def io_ids(c):
    """the order of I/O positions"""
    c.begin("io-id", "I/O positions are ordered by vote and then by the last log id written under it")
    V, L = ("V",), ("L",)
    pre = ((("Vote", "0", "vote"), V), (("Vote", "0"), V), (("Log", "0", "committed_vote", "vote"), V), (("Log", "0", "committed_vote"), V), (("Log", "0", "log_id"), L))

    def canon(side, p):
        for a, b in pre:
            if p[: len(a)] == a:
                return b + p[len(a):]
        return p

    for sn in ("core", "stl"):
        cases, eqs = [], []
        for a, b in product(("Vote", "Log"), repeat=2):
            for v in RELS + (("none",) if sn == "stl" else ()):
                for pa in ((False, True) if a == "Log" else (False,)):
                    for pb in ((False, True) if b == "Log" else (False,)):
                        for y, z in product(RELS, repeat=2) if pa and pb else (("eq", "eq"),):
                            x = lex(y, z)
                            lr = x if pa and pb else "gt" if pa else "lt" if pb else "eq"
                            if a != b and v == "eq":
                                continue  # a committed vote differs from one that is not
                            k = Case(rel={V: v, L + ("?",): x, L + ("?", "leader_id"): y, L + ("?", "index"): z}, opts={("self", L): pa, ("other", L): pb}, variants={("self", ()): a, ("other", ()): b}, canon=canon)
                            k.order = {("Log", "0"): "none" if v == "none" else lex(v, lr)} if a == b else {}
                            cases.append(("%s/%s, vote %s, log %s/%s %s %s" % (a, b, v, pa, pb, y, z), k, "none" if v == "none" else lex(v, lr)))
        check(c, sn, "openraft::raft_state::io_state::io_id::IOId", cases, "I/O positions")
    c.begin("log-io-id", "positions of log I/O are ordered by the leader's vote and then by log id")
    cases = []
    for v in RELS:
        for pa, pb in product((False, True), repeat=2):
            for x in RELS if pa and pb else ("eq",):
                lr = x if pa and pb else "gt" if pa else "lt" if pb else "eq"
                P_ = ("log_id",)
                cases.append(("vote %s, log %s/%s %s" % (v, pa, pb, x), Case(rel={("committed_vote",): v, P_ + ("?",): x}, opts={("self", P_): pa, ("other", P_): pb}), lex(v, lr)))
    check(c, "core", "openraft::raft_state::io_state::log_io_id::LogIOId", cases, "log I/O positions")


def fn_named(c, sn, *suffix):
    return [f.name for f in c.P(sn).fns() if any(f.name.endswith(x) for x in suffix) and "{closure" not in f.name]


def eval_fn(c, g, name, label, case, args, ok, want, sn):
    o = outcome(g, case, args, closures(c, sn))
    if o[0] == "unknown":
        c.notes.append("undecided %s %s: %s" % (name, label, o[1]))
        return
    v = o[1] if o[0] == "value" else "a panic"
    r = ok(v)
    if r is None:
        c.notes.append("undecided %s %s: %s" % (name, label, v))
        return
    c.ok(r, "%s:%s:%s" % (sn, name.split("openraft::")[-1], label), "%s of %s gives %s, not %s" % (name.split("::")[-1], label, v, want))


SELF = {1: ("o", "self", ())}


@prop("P31")
def conversions(c):
    """what is derived from votes and log ids"""
    num = lambda s, k: lambda v: None if v == "a panic" or v[0] == "?" else v == ("n", s, k)
    is_none = lambda v: v != "a panic" and v[0] == "a" and v[1] == "None"
    is_some_of = lambda p: lambda v: v != "a panic" and v[0] == "a" and v[1] == "Some" and (p(v[2][0]))
    c.begin("index", "the index after no log is 0, the one after a log is one more; the index before 0 is none")
    n = 0
    seen = {}
    for f in c.P("core").fns():
        for tr, ip in (("LogIdOptionExt>", ("?", "index")), ("LogIndexOptionExt>", ("?",))):
            if not any(f.name.endswith("%s::%s" % (tr, m)) for m in ("next_index", "index", "prev_index")):
                continue
            m = f.name.split("::")[-1]
            k = seen[f.name] = seen.get(f.name, -1) + 1
            g = c.g(f, maybe=False)
            n += 1
            none = Case(opts={("self", ()): False})
            full = Case(opts={("self", ()): True}, consts={("self", ip): ("n", "+i", 0)})
            zero = Case(opts={("self", ()): True}, consts={("self", ip): ("n", None, 0)})
            nm_ = "%s#%d" % (f.name, k)
            if m == "next_index":
                eval_fn(c, g, nm_, "none", none, SELF, num(None, 0), 0, "core")
                eval_fn(c, g, nm_, "some", full, SELF, num("+i", 1), "the index plus one", "core")
            elif m == "index":
                eval_fn(c, g, nm_, "none", none, SELF, is_none, "none", "core")
                eval_fn(c, g, nm_, "some", full, SELF, is_some_of(num("+i", 0)), "the index", "core")
            else:
                eval_fn(c, g, nm_, "zero", zero, SELF, is_none, "none", "core")
                eval_fn(c, g, nm_, "some", full, SELF, is_some_of(num("+i", -1)), "the index minus one", "core")
    c.floor(n, "index functions", 3)
    c.begin("same-leader", "a leader id belongs to the leader of a log entry exactly if the leader ids, or with one leader per term the terms, are equal")
    same = lambda w: lambda v: v == ("b", w) if v != "a panic" and v[0] == "b" else None
    T, D = ("term",), ("node_id",)
    for name in fn_named(c, "core", "leader_id_adv::LeaderId::is_same_as_committed"):
        g = c.g(name, setname="core", opaque=(), maybe=False)
        for r in fields((T, D)):
            eval_fn(c, g, name, lab(r), Case(rel=r, order={(): (T, D)}), {1: ("o", "self", ()), 2: ("o", "other", ())}, same(r[T] == "eq" and r[D] == "eq"), "otherwise", "core")
    for name in fn_named(c, "stl", "leader_id_std::LeaderId::is_same_as_committed"):
        g = c.g(name, setname="stl", opaque=(), maybe=False)
        for t in RELS:
            eval_fn(c, g, name, t, Case(rel={T: t}), {1: ("o", "self", ()), 2: ("o", "other", ())}, same(t == "eq"), "otherwise", "stl")
    c.begin("committed-leader", "the leader id of log entries is that of the vote they are proposed under")
    whole = lambda v: v == ("o", "self", ()) if v != "a panic" and v[0] == "o" else None if v == "a panic" or v[0] == "?" else get(v, ("term",)) == ("o", "self", T) and get(v, D) == ("o", "self", D)
    term = lambda v: None if v == "a panic" or v[0] == "?" else get(v, T) == ("o", "self", T)
    for name in fn_named(c, "core", "leader_id_adv::LeaderId::to_committed"):
        eval_fn(c, c.g(name, setname="core"), name, "it", Case(), SELF, whole, "the leader id", "core")
    for name in fn_named(c, "stl", "leader_id_std::LeaderId::to_committed"):
        eval_fn(c, c.g(name, setname="stl"), name, "it", Case(), SELF, term, "the term", "stl")
    for sn in ("core", "stl"):
        for name in fn_named(c, sn, "committed::CommittedVote::new"):
            if "NonCommitted" in name:
                continue
            g = c.g(name, setname=sn, maybe=False)
            ok = lambda v: None if v == "a panic" or v[0] == "?" else get(v, ("vote", "committed")) == ("b", True) and get(v, ("vote", "leader_id")) == ("o", "self", ("leader_id",))
            for b in (False, True):
                eval_fn(c, g, name, "committed %s" % b, Case(flags={("self", ("committed",)): b}), SELF, ok, "the vote, committed", sn)
        for name in fn_named(c, sn, "io_id::IOId::new"):
            g = c.g(name, setname=sn, maybe=False)

            def ok(b):
                def p(v):
                    if v == "a panic" or v[0] == "?":
                        return None
                    if v[0] != "a":
                        return None
                    if not b:
                        return v[1] == "Vote" and get(v, ("0", "vote", "leader_id")) == ("o", "self", ("leader_id",))
                    return v[1] == "Log" and get(v, ("0", "committed_vote", "vote", "leader_id")) == ("o", "self", ("leader_id",)) and get(v, ("0", "log_id"))[:2] == ("a", "None")

                return p

            for b in (False, True):
                eval_fn(c, g, name, "committed %s" % b, Case(flags={("self", ("committed",)): b}), SELF, ok(b), "the position of saving that vote", sn)
