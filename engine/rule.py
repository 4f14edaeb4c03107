"""Obligations, matchers and reporting used by the property rules."""
import hashlib, json, os, sys, time, traceback
from lib import *
from lib import Site
from mir import AnchorError, Program, fmt
from xg import CMP, SWAP, NEG, short
import facts as FX


def root(P, name):
    """The analysable body of a function: an async fn's root is its coroutine."""
    f = P.one(name) if isinstance(name, str) else name
    n = 0
    while f.kind in ("fn", "method", "assoc") or f.is_async:
        ch = [P.by_uid[c] for c in P.children.get(f.uid, [])]
        co = [c for c in ch if c.kind in ("coroutine", "async")]
        if not f.is_async or not ch:
            break
        f = (co or ch)[0]
        n += 1
        if n > 4:
            break
    return f


# ---- expression predicates --------------------------------------------------------


def peel(e):
    """Strip Some/Ok payload projections and Some(..)/Ok(..) wrappers."""
    while True:
        if e[0] == "field" and e[2] in ("core::option::Option", "core::result::Result") and e[3] == "0":
            e = e[1]
        elif e[0] == "var" and e[2] in ("Some", "Ok"):
            e = e[1]
        elif e[0] == "agg" and len(e[1]) >= 3 and e[1][0] == "adt" and e[1][2] in ("Some", "Ok") and len(e[2]) == 1:
            e = e[2][0]
        else:
            return e


def alts(e):
    e = peel(e)
    if e[0] == "phi":
        out = []
        for q in e[1]:
            out += alts(q)
        return out
    return [e]


def efield(adt, field, base=None):
    """The value is the given field (of an optional base)."""

    def p(e):
        e = peel(e)
        if e[0] != "field" or e[3] != field or not adtm(e[2], adt):
            return False
        return base is None or base(e[1])

    return p


def eall(p):
    """Every alternative satisfies p."""
    return lambda e: all(p(q) for q in alts(e))


def eany(p):
    def q(e):
        for a in alts(e):
            if p(a):
                return True
        return False

    return q


def esub(p, e, d=0):
    """Some sub-expression satisfies p."""
    if d > 14:
        return False
    if p(e):
        return True
    k = e[0]
    if k in ("field", "var", "idx"):
        return esub(p, e[1], d + 1)
    if k == "phi":
        return any(esub(p, q, d + 1) for q in e[1])
    if k in ("call", "await"):
        return any(esub(p, q, d + 1) for q in e[2])
    if k == "agg":
        return any(esub(p, q, d + 1) for q in e[2])
    if k == "bin":
        return esub(p, e[2], d + 1) or esub(p, e[3], d + 1)
    if k == "un":
        return esub(p, e[2], d + 1)
    return False


def isagg(e, adts=(), variants=()):
    """e builds one of the given types (and variants)."""
    return e[0] == "agg" and len(e[1]) > 2 and e[1][0] == "adt" and (not adts or any(adtm(e[1][1], a) for a in adts)) and (not variants or e[1][2] in variants)


def ecall(*pats):
    def p(e):
        e = peel(e)
        return e[0] in ("call", "await") and (nm(e[1], pats) or (len(e) > 3 and e[3] and nm(e[3], pats)))

    return p


def earg(*names):
    """The value is (a projection of) a root argument."""

    def p(e):
        e = peel(e)
        while e[0] in ("field", "var", "idx"):
            e = e[1]
        return e[0] == "arg" and (not names or e[2] in names or e[1] in names)

    return p


# ---- operand predicates: (g, operand) -> bool ---------------------------------------


def X(p):
    return lambda g, o: p(g.expr(o))


def A(*ws):
    """Every atom predicate matched in the backward slice of the operand."""
    return lambda g, o: g.has(o, *ws)


def NOT(p):
    return lambda g, o: not p(g, o)


def AND(*ps):
    return lambda g, o: all(p(g, o) for p in ps)


def OR(*ps):
    return lambda g, o: any(p(g, o) for p in ps)


ANY = lambda g, o: True

IMPL = {
    "ge": {"ge", "gt", "eq"},
    "le": {"le", "lt", "eq"},
    "gt": {"gt"},
    "lt": {"lt"},
    "eq": {"eq"},
    "ne": {"ne", "lt", "gt"},
}


def cmpm(op, lp, rp, total=True):
    """Fact matcher: `lhs op rhs` is established.  total=False: a negated comparison of a partially ordered type
    does not establish the opposite one."""

    def mk(g):
        def m(f):
            if f[0] != "cmp":
                return False
            o = f[1]
            if not f[5]:
                if not total and o not in ("eq", "ne"):
                    return False
                o = NEG[o]
            if o in IMPL[op] and lp(g, f[2]) and rp(g, f[3]):
                return True
            if SWAP[o] in IMPL[op] and lp(g, f[3]) and rp(g, f[2]):
                return True
            return False

        return m

    return mk


def ism(adt, names, p=ANY):
    """Fact matcher: an enum value of type adt satisfying p is known to be one of `names`."""
    names = set(names)

    def mk(g):
        def m(f):
            return f[0] == "is" and adtm(f[2], adt) and set(f[3]) and set(f[3]) <= names and p(g, f[1])

        return m

    return mk


def bcallm(pats, truth, *ps):
    """Fact matcher: boolean call returned `truth`; ps are predicates on its arguments."""
    if isinstance(pats, str):
        pats = (pats,)

    def mk(g):
        def m(f):
            if f[0] != "bcall" or f[3] != truth or not fnmatch(f[1], pats):
                return False
            return all(i < len(f[2]) and q(g, f[2][i]) for i, q in enumerate(ps))

        return m

    return mk


def valm(truth, p):
    def mk(g):
        def m(f):
            return f[0] == "val" and f[2] == truth and p(g, f[1])

        return m

    return mk


def orm(*ms):
    def mk(g):
        xs = [m(g) for m in ms]
        return lambda f: any(x(f) for x in xs)

    return mk


# ---- context --------------------------------------------------------------------------


class Ctx:
    def __init__(self, pid, progs):
        self.pid = pid
        self.progs = progs  # shared program cache
        self.ob = 0
        self.bad = []  # (key, message)
        self.rules = {}
        self.roots = set()
        self.used = []
        self.bodies = 0
        self.cache = progs.setdefault("_g", {})
        self.notes = []
        self.rule = "?"
        self.core = "core"  # the configuration "core" stands for; the thorough tier also analyses the single-term-leader one

    # programs
    def P(self, setname="core"):
        if setname == "core":
            setname = self.core
        p = self.progs.get(setname)
        if p is None:
            p = Program(FX.facts(setname))
            self.progs[setname] = p
        return p

    def g(self, name, opaque=(), setname="core", maybe=True, cap=48, depth=14):
        P = self.P(setname)
        f = root(P, name)
        key = (self.core if setname == "core" else setname, f.uid, tuple(opaque), maybe, cap, depth)
        g = self.cache.get(key)
        if g is None:
            g = G(P, f, opaque=opaque, maybe_closures=maybe, cap=cap, depth=depth)
            self.cache[key] = g
        self.roots.add(f.name)
        if g not in self.used:
            self.used.append(g)
        return g

    # obligations
    def begin(self, rule, text):
        self.rule = rule
        self.rules.setdefault(rule, {"text": text, "obligations": 0, "violations": 0})

    def ok(self, cond, key, msg):
        """One obligation.  key: line-free identity of the instance."""
        self.ob += 1
        self.rules[self.rule]["obligations"] += 1
        if not cond:
            self.rules[self.rule]["violations"] += 1
            k = "%s/%s" % (self.rule, key)
            if k not in [b[0] for b in self.bad]:
                self.bad.append((k, "%s: %s" % (self.rules[self.rule]["text"], msg)))
        return cond

    def okpath(self, g, path, key, msg):
        if path is None:
            return self.ok(True, key, msg)
        return self.ok(False, key, msg + "; path: " + (g.path_text(path) or "straight line"))

    def guard(self, g, site, m, key, msg, also=(), start=None):
        p = g.guarded(site, m(g) if m else None, also=also, start=start)
        return self.okpath(g, p, key, "%s at %s" % (msg, site.desc()))

    def precede(self, g, As, site, key, msg, start=None):
        p = g.must_precede(As, site, start=start)
        return self.okpath(g, p, key, "%s at %s" % (msg, site.desc()))

    def follow(self, g, site, Bs, key, msg, cut=None):
        p = g.must_follow(site, Bs, cut=cut(g) if cut else None)
        return self.okpath(g, p, key, "%s after %s" % (msg, site.desc()))

    def floor(self, n, name, want):
        """A rule over no construct at all decides nothing. `want` documents the count on the base tree."""
        self.ok(n >= min(want, 1), "floor:" + name, "no instance of %s found" % name)
