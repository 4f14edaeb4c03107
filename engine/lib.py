"""Rule vocabulary on top of the exploded graph: sites, facts established by branches, path obligations."""
import json, os, sys, time
from collections import defaultdict
from mir import Program, IG, AnchorError, fmt, is_ident, Fn
from xg import XG, CMP, BIN, SWAP, NEG, ISV, short

TERM = 10 ** 6


def nm(name, pats):
    """Does a normalized function name match one of the patterns (suffix on a `::` boundary)?"""
    if name is None:
        return False
    for p in pats:
        if name == p or name.endswith("::" + p):
            return True
        if name.startswith("<"):
            a = name[1:].split(" as ", 1)
            if len(a) == 2:
                alias = a[0] + name[name.index(">::") + 1:]
                tr = a[1].split(">::")[0] + "::" + name.rsplit("::", 1)[1]
                for q in (alias, tr):
                    if q == p or q.endswith("::" + p):
                        return True
    return False


def fnmatch(f, pats):
    return f is not None and (nm(f.n, pats) or nm(f.r, pats))


def adtm(a, suffix):
    return a == suffix or a.endswith("::" + suffix)


class Site:
    __slots__ = ("b", "i", "x", "data")

    def __init__(self, x, b, i, data=None):
        self.x = x
        self.b = b
        self.i = i
        self.data = data

    @property
    def fn(self):
        return self.x.ig.blocks[self.b].fn

    def where(self):
        B = self.x.ig.blocks[self.b]
        if self.i < len(B.stmts):
            ln = B.stmts[self.i][2][0]
        else:
            ln = B.pos[0] if B.pos else 0
            if B.term[0] == "call":
                ln = B.term[5]
        return "%s:%d" % (B.fn.file, ln)

    def desc(self):
        return "%s (in %s)" % (self.where(), self.x.ig.chain(self.b))

    def key(self):
        """Line-free identity."""
        return self.fn.name

    def args(self):
        t = self.x.ig.blocks[self.b].term
        if t[0] in ("call", "enter", "ident"):
            return t[2]
        return []

    def ops(self):
        """Operands of an aggregate statement."""
        B = self.x.ig.blocks[self.b]
        return B.stmts[self.i][1][2]

    def field(self, name):
        """Operand of a named field of an aggregate statement."""
        rv = self.x.ig.blocks[self.b].stmts[self.i][1]
        ak = rv[1]
        if ak[0] == "adt" and name in ak[3]:
            return rv[2][list(ak[3]).index(name)]
        return None


class G:
    """An explored root with query helpers."""

    def __init__(self, prog, fn, opaque=(), depth=14, cap=48, maybe_closures=True):
        self.prog = prog
        self.fn = fn
        self.ig = IG(prog, fn, opaque=opaque, depth=depth, maybe_closures=maybe_closures)
        self.x = XG(self.ig, cap=cap)
        self._facts = {}
        self._nf = {}
        self.ig_g = self
        self.reached_blocks = set(self.x.bynode)

    # ---- sites -----------------------------------------------------------------
    def _live(self):
        return sorted(self.reached_blocks)

    def calls(self, *pats, entered=True, where=None):
        out = []
        for b in self._live():
            B = self.ig.blocks[b]
            t = B.term
            if t[0] in ("call", "ident") or (entered and t[0] == "enter"):
                f = t[1]
                if f is not None and fnmatch(f, pats):
                    s = Site(self.x, b, TERM, f)
                    if where is None or where(s):
                        out.append(s)
            elif t[0] == "dead" and t[1:] and t[1] is not None and fnmatch(t[1], pats):
                out.append(Site(self.x, b, TERM, t[1]))
        return out

    def awaits(self, *pats):
        """Await points whose future was produced by a call matching pats."""
        out = []
        for b in self._live():
            t = self.ig.blocks[b].term
            if t[0] == "await" and t[1] is not None and t[1][1] is not None and fnmatch(t[1][1], pats):
                out.append(Site(self.x, b, TERM, t[1][1]))
        return out

    def cons(self, adt, variant=None):
        out = []
        for b in self._live():
            for i, (pl, rv, sp) in enumerate(self.ig.blocks[b].stmts):
                if rv[0] == "agg" and rv[1][0] == "adt" and adtm(rv[1][1], adt):
                    if variant is None or rv[1][2] == variant:
                        out.append(Site(self.x, b, i, rv))
        return out

    def lpath(self, pl):
        """Access path of an lvalue as an expression tree."""
        l, proj = pl
        inst, i = self.ig.lname[l]
        # base
        j = 0
        if any(e == "*" for e in proj):
            base = self.ig.pexpr((l, ()))
        else:
            base = ("local", l, self.ig.local_desc(l)[1])
            return self.ig._wrap(base, proj)
        return self.ig._wrap(base, proj)

    def writes(self, adt, field, exact=True):
        """Assignments whose destination is (inside) the given field: direct stores only."""
        out = []
        for b in self._live():
            B = self.ig.blocks[b]
            dests = [(i, s[0]) for i, s in enumerate(B.stmts)]
            if B.term[0] in ("call", "ident", "await"):
                dests.append((TERM, B.term[3]))
            for i, pl in dests:
                if not pl[1]:
                    continue
                if self._path_has(pl, adt, field, exact):
                    out.append(Site(self.x, b, i, pl))
        return out

    def _path_has(self, pl, adt, field, exact):
        fs = [e for e in pl[1] if e != "*" and e[0] == "f"]
        last = fs[-1] if fs else None
        if last is not None and adtm(last[1], adt) and last[2] == field:
            return True
        if exact and last is not None and not any(e == "*" for e in pl[1]):
            return False
        e = self.lpath(pl)
        if exact:
            while e[0] in ("var", "idx"):
                e = e[1]
            return self._efield(e, adt, field)
        return self._efield_any(e, adt, field)

    def _efield(self, e, adt, field):
        if e[0] == "field":
            return adtm(e[2], adt) and e[3] == field
        if e[0] == "phi":
            return any(self._efield(q, adt, field) for q in e[1])
        return False

    def _efield_any(self, e, adt, field):
        if e[0] == "field":
            if adtm(e[2], adt) and e[3] == field:
                return True
            return self._efield_any(e[1], adt, field)
        if e[0] in ("var", "idx"):
            return self._efield_any(e[1], adt, field)
        if e[0] == "phi":
            return any(self._efield_any(q, adt, field) for q in e[1])
        return False

    def mutrefs(self, adt, field):
        """`&mut` borrows of (inside) the given field."""
        out = []
        for b in self._live():
            for i, (pl, rv, sp) in enumerate(self.ig.blocks[b].stmts):
                if rv[0] == "ref" and rv[1] == "mut" and rv[2][1]:
                    if self._path_has(rv[2], adt, field, True):
                        out.append(Site(self.x, b, i, rv[2]))
        return out

    def mutcalls(self, adt, field):
        """Opaque calls that receive `&mut` of the given field itself (mem::replace, Option::take, ...)."""
        out = []
        for b in self._live():
            t = self.ig.blocks[b].term
            if t[0] not in ("call",):
                continue
            for a in t[2]:
                pl = self._refmut(a)
                if pl is not None and self._path_has(pl, adt, field, True):
                    out.append(Site(self.x, b, TERM, t[1]))
                    break
        return out

    def _refmut(self, op, d=0):
        if op[0] not in ("c", "m") or d > 12:
            return None
        pl = op[1]
        if [e for e in pl[1] if e != "*"]:
            return None
        ds = [x for x in self.ig.defs.get(pl[0], []) if not x[0]]
        if len(ds) != 1:
            return None
        rv = ds[0][1]
        if rv[0] == "ref":
            if rv[1] != "mut":
                return None
            q = rv[2]
            if not [e for e in q[1] if e != "*"]:
                r = self._refmut(("c", (q[0], ())), d + 1)
                return r if r is not None else q
            return q
        if rv[0] == "use":
            return self._refmut(rv[1], d + 1)
        if rv[0] == "callr" and rv[1] is not None and is_ident(rv[1]) and rv[2]:
            return self._refmut(rv[2][0], d + 1)
        return None

    def load_sites(self, op, d=0, seen=None):
        """Where the value of an operand was read from memory (a copy/clone through a reference or field)."""
        if seen is None:
            seen = set()
        if op[0] not in ("c", "m") or d > 40:
            return []
        l, proj = op[1]
        if (l, proj) in seen:
            return []
        seen.add((l, proj))
        out = []
        idx = self._defidx()
        for b, i in idx.get(l, []):
            B = self.ig.blocks[b]
            if i < len(B.stmts):
                pl, rv, sp = B.stmts[i]
                if [e for e in pl[1] if e != "*"]:
                    if "*" in pl[1]:
                        continue
                if rv[0] == "use" and rv[1][0] in ("c", "m"):
                    q = rv[1][1]
                    if "*" in q[1]:
                        out.append(Site(self.x, b, i, q))
                    else:
                        out += self.load_sites(("c", (q[0], q[1])), d + 1, seen)
                elif rv[0] == "agg":
                    for o in rv[2]:
                        out += self.load_sites(o, d + 1, seen)
                elif rv[0] == "ref":
                    if "*" in proj or not rv[2][1]:
                        out.append(Site(self.x, b, i, rv[2]))
                    else:
                        out.append(Site(self.x, b, i, rv[2]))
            else:
                t = B.term
                if t[0] in ("call", "ident"):
                    f = t[1]
                    if f is not None and short(f.n) in ("clone", "copied", "cloned", "to_owned", "deref"):
                        out.append(Site(self.x, b, TERM, f))
                    elif t[2]:
                        for o in t[2]:
                            out += self.load_sites(o, d + 1, seen)
                elif t[0] == "await":
                    out.append(Site(self.x, b, TERM, None))
        return out

    def _defidx(self):
        r = getattr(self, "_di", None)
        if r is None:
            r = defaultdict(list)
            for b in self._live():
                B = self.ig.blocks[b]
                for i, (pl, rv, sp) in enumerate(B.stmts):
                    r[pl[0]].append((b, i))
                if B.term[0] in ("call", "ident", "await"):
                    r[B.term[3][0]].append((b, TERM))
            self._di = r
        return r

    # ---- data ---------------------------------------------------------------------
    def atoms(self, op):
        return self.ig.atoms(op)

    def expr(self, op, depth=7):
        return self.ig.expr(op, depth)

    # ---- facts ---------------------------------------------------------------------
    def facts(self, b, label):
        key = (b, label)
        r = self._facts.get(key)
        if r is None:
            r = self._compute_facts(b, label)
            self._facts[key] = r
        return r

    def nfacts(self, node, label):
        """Facts of a branch in one path class: a boolean whose value is not known there was not produced by a
        constant (constants are always tracked), so only its computed definition is left."""
        b, env = self.x.nodes[node]
        t = self.ig.blocks[b].term
        if t[0] == "maybe":
            return self.facts(b, label)
        if t[0] != "switch":
            return []
        if not t[4] or self.x.capped:
            return self.facts(b, label)
        r = self._nf.get((node, label))
        if r is None:
            at = self.x.env_at(node, TERM)
            known = self.x._val(at, t[1])
            if known is not None and known[0] == "al":
                known = self.x._val(at, ("c", known[1]))
            if known is not None and known[0] != "al":
                r = self.facts(b, label)
            else:
                key = (b, label, "nc")
                r = self._facts.get(key)
                if r is None:
                    r = self._bfacts(t[1], label != "0", 0, True)
                    self._facts[key] = r
            self._nf[(node, label)] = r
        return r

    def _compute_facts(self, b, label):
        t = self.ig.blocks[b].term
        if t[0] == "maybe":
            h = t[4]
            if h is None:
                return []
            if h[0] == "val":
                return self._bfacts(h[1], label == "run", 0)
            both = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}
            return self._is(h[1], h[2], frozenset([h[3] if label == "run" else both[h[3]]]), frozenset([h[3], both[h[3]]]))
        if t[0] != "switch":
            return []
        op = t[1]
        if t[4]:
            truth = label != "0"
            return self._bfacts(op, truth, 0)
        # discriminant or integer switch
        vals = [v for v, _ in t[2]]
        d = self._discr_def(op)
        if d is not None:
            pl, adt, mp = d
            if label == "else":
                names = frozenset(n for v, n in mp.items() if v not in vals)
            else:
                names = frozenset([mp.get(label, "?")])
            return self._is(pl, adt, names, frozenset(mp.values()))
        return [("int", op, label)]

    def _discr_def(self, op, depth=0):
        if op[0] not in ("c", "m") or depth > 6:
            return None
        ds = [d for d in self.ig.defs.get(op[1][0], []) if not d[0]]
        if len(ds) != 1:
            return None
        rv = ds[0][1]
        if rv[0] == "discr":
            return (rv[1], rv[2], rv[3])
        if rv[0] == "use":
            return self._discr_def(rv[1], depth + 1)
        if rv[0] == "callr" and rv[1] is not None and rv[1].n.endswith("intrinsics::discriminant_value"):
            return None
        return None

    def _is(self, pl, adt, names, allnames):
        out = [("is", ("c", pl), adt, names, allnames)]
        # match on Ordering
        if adt.endswith("cmp::Ordering"):
            src = self._origin_call((pl[0], tuple(e for e in pl[1] if e != "*")))
            if src is not None:
                f, args = src
                if short(f.n) in ("cmp", "partial_cmp"):
                    m = {
                        frozenset(["Less"]): "lt",
                        frozenset(["Greater"]): "gt",
                        frozenset(["Equal"]): "eq",
                        frozenset(["Greater", "Equal"]): "ge",
                        frozenset(["Less", "Equal"]): "le",
                        frozenset(["Less", "Greater"]): "ne",
                    }
                    if names in m:
                        out.append(("cmp", m[names], args[0], args[1], f.h, True))
        # variants of a transformed value: map/ok_or/branch keep the variant
        src = self._origin_call((pl[0], tuple(e for e in pl[1] if e != "*")), exact=True)
        if src is not None:
            f, args = src
            s = short(f.n)
            tr = {"Continue": ("Ok", "Some"), "Break": ("Err", "None")}
            if f.n == "core::ops::try_trait::Try::branch":
                isres = f.r is None or "Result" in f.r
                n2 = frozenset(tr[n][0 if isres else 1] for n in names if n in tr)
                if args[0][0] in ("c", "m"):
                    out += self._is(args[0][1], "core::result::Result" if isres else "core::option::Option", n2, frozenset())
            elif s in ("map", "map_err", "copied", "cloned", "as_ref", "as_mut") and args and args[0][0] in ("c", "m"):
                out += self._is(args[0][1], adt, names, allnames)
            elif s in ("ok_or", "ok_or_else"):
                n2 = frozenset({"Ok": "Some", "Err": "None"}[n] for n in names if n in ("Ok", "Err"))
                if args[0][0] in ("c", "m"):
                    out += self._is(args[0][1], "core::option::Option", n2, frozenset())
            elif s == "ok" and "Result" in f.n:
                n2 = frozenset({"Some": "Ok", "None": "Err"}[n] for n in names if n in ("Some", "None"))
                if args[0][0] in ("c", "m"):
                    out += self._is(args[0][1], "core::result::Result", n2, frozenset())
        return out

    def _origin_call(self, pl, depth=0, exact=False):
        l, proj = pl
        if depth > 20:
            return None
        if exact and proj:
            return None
        ds = [d for d in self.ig.defs.get(l, []) if not d[0]]
        if len(ds) != 1:
            return None
        rv = ds[0][1]
        if rv[0] == "use" and rv[1][0] in ("c", "m"):
            return self._origin_call((rv[1][1][0], tuple(e for e in rv[1][1][1] if e != "*") + proj), depth + 1, exact)
        if rv[0] == "ref":
            return self._origin_call((rv[2][0], tuple(e for e in rv[2][1] if e != "*") + proj), depth + 1, exact)
        if rv[0] == "callr" and rv[1] is not None:
            if is_ident(rv[1]) and rv[2] and rv[2][0][0] in ("c", "m"):
                o = rv[2][0]
                return self._origin_call((o[1][0], tuple(e for e in o[1][1] if e != "*") + proj), depth + 1, exact)
            return (rv[1], rv[2])
        return None

    def _bfacts(self, op, truth, depth, noconst=False):
        """Facts that hold when boolean operand `op` has value `truth`."""
        if op[0] not in ("c", "m") or depth > 12:
            return []
        pl = op[1]
        ds = [d for d in self.ig.defs.get(pl[0], []) if not d[0]]
        own = [("val", op, truth)]
        if pl[1] or not ds:
            return own
        cand = []
        for _, rv in ds:
            if rv[0] == "use" and rv[1][0] == "k" and rv[1][1] in ("true", "false", "const true", "const false"):
                v = rv[1][1].endswith("true")
                if v != truth or noconst:
                    continue
                cand.append(None)
            else:
                cand.append(rv)
        if len(cand) != 1 or cand[0] is None:
            return own
        rv = cand[0]
        if rv[0] == "use":
            return own + self._bfacts(rv[1], truth, depth + 1, noconst)
        if rv[0] == "un" and rv[1] == "Not":
            return own + self._bfacts(rv[2], not truth, depth + 1, noconst)
        if rv[0] == "bin" and rv[1] in BIN:
            return own + self._cmpf(BIN[rv[1]], rv[2], rv[3], None, truth)
        if rv[0] == "callr" and rv[1] is not None:
            f = rv[1]
            if f.n in CMP:
                return own + self._cmpf(CMP[f.n], rv[2][0], rv[2][1], f.h, truth)
            if f.n in ISV:
                yes, no, pol = ISV[f.n]
                a = rv[2][0]
                name = yes if (truth == pol) else no
                adt = "core::option::Option" if "Option" in f.n else "core::result::Result"
                if a[0] in ("c", "m"):
                    return own + self._is(a[1], adt, frozenset([name]), frozenset([yes, no]))
            if is_ident(f) and rv[2]:
                return own + self._bfacts(rv[2][0], truth, depth + 1, noconst)
            return own + [("bcall", f, rv[2], truth)]
        if rv[0] == "await" and rv[1] is not None and rv[1][1] is not None:
            return own + [("bcall", rv[1][1], rv[1][2], truth)]
        return own

    def _cmpf(self, op, a, b, h, truth):
        # (kind, op, a, b, head type, positive)
        return [("cmp", op, a, b, h, truth)]

    # ---- matchers ------------------------------------------------------------------
    def has(self, op, *want):
        """Every wanted atom predicate is satisfied by some atom of op."""
        at = self.atoms(op)
        return all(any(w(a) for a in at) for w in want)

    def vals(self, site, op):
        """{node: abstract value} of an operand at a site: ('k', 0/1), ('a', variant, ..) or None if unknown."""
        out = {}
        for n in self.nodes(site):
            env = self.x.env_at(n, site.i)
            v = self.x._val(env, op)
            d = 0
            while v is not None and v[0] == "r" and d < 5:
                v = self.x._read(env, v[1])
                d += 1
            out[n] = v
        return out

    def value(self, site, depth=7):
        """Expression stored by a write site."""
        B = self.ig.blocks[site.b]
        if site.i < len(B.stmts):
            return self.ig._rvexpr(B.stmts[site.i][1], (), depth)
        t = B.term
        if t[0] in ("call", "ident") and t[1] is not None:
            return self.ig._rvexpr(("callr", t[1], t[2]), (), depth)
        return ("?",)

    def ret_variants(self):
        """{exit node: variant of the root's return value or None}."""
        out = {}
        for n in self.x.bynode.get(self.ig.exit, []):
            v = self.x._read(self.x.nodes[n][1], self.ig.retplace)
            out[n] = v[1] if v is not None and v[0] == "a" else None
        return out

    # ---- obligations -----------------------------------------------------------------
    def nodes(self, site):
        return self.x.bynode.get(site.b, [])

    def _stopset(self, sites, but=None):
        s = set()
        for t in sites:
            s.update(self.nodes(t))
        return s

    def cutter(self, match):
        def cut(i, lab):
            for f in self.nfacts(i, lab):
                if match(f):
                    return True
            return False

        memo = {}

        def cutm(i, lab):
            k = (id(self.nfacts(i, lab)), self.x.nodes[i][0], lab)
            r = memo.get(k)
            if r is None:
                r = cut(i, lab)
                memo[k] = r
            return r

        return cutm

    def edges(self, match):
        """Successor nodes of the branches that establish a matching fact."""
        out = []
        for i, ss in enumerate(self.x.succ):
            b = self.x.nodes[i][0]
            if self.ig.blocks[b].term[0] not in ("switch", "maybe"):
                continue
            for y, lab in ss:
                if any(match(f) for f in self.nfacts(i, lab)):
                    out.append(y)
        return out

    def guarded_from(self, starts, site, match=None, also=()):
        """As `guarded`, from explicit start nodes."""
        stop = set()
        for a in also:
            if a.b == site.b:
                if a.i < site.i:
                    return None
                continue
            stop.update(self.nodes(a))
        seen = self.x.reach(starts, stop=stop, cut=self.cutter(match) if match else None)
        for n in self.nodes(site):
            if n in seen and n not in stop:
                return self.x.path_to(n)
        return None

    def exit_from(self, starts, also=(), match=None, exits=None):
        """Path from the start nodes to the exit that avoids the `also` sites and the matching edges, or None."""
        stop = self._stopset(also)
        seen = self.x.reach(starts, stop=stop, cut=self.cutter(match) if match else None)
        for n in self.x.bynode.get(self.ig.exit, []) if exits is None else sorted(exits):
            if n in seen and n not in stop:
                return self.x.path_to(n)
        return None

    def guarded(self, site, match, also=(), start=None):
        """True when every path from the entry (or from `start` sites) to `site` takes a branch whose fact
        matches, or passes one of the `also` sites.  Returns None if so, else a path (list of nodes)."""
        stop = set()
        for a in also:
            if a.b == site.b:
                if a.i < site.i:
                    return None
                continue
            stop.update(self.nodes(a))
        if start is None:
            starts = [0]
        else:
            starts = []
            for s in start:
                for n in self.nodes(s):
                    starts += [y for y, _ in self.x.succ[n]]
        seen = self.x.reach(starts, stop=stop, cut=self.cutter(match) if match else None)
        for n in self.nodes(site):
            if n in seen and n not in stop:
                return self.x.path_to(n)
        return None

    def must_precede(self, As, site, start=None):
        return self.guarded(site, None, also=As, start=start)

    def must_follow(self, site, Bs, cut=None, exits=None):
        """Every path from after `site` to the exit passes one of Bs.  cut: matcher of facts whose edges are exempt."""
        for b in Bs:
            if b.b == site.b and b.i > site.i:
                return None
        stop = self._stopset(Bs)
        starts = []
        for n in self.nodes(site):
            starts += [y for y, l in self.x.succ[n]]
        seen = self.x.reach(starts, stop=stop, cut=self.cutter(cut) if cut else None)
        ex = exits if exits is not None else [self.ig.exit]
        for b in ex:
            for n in self.x.bynode.get(b, []):
                if n in seen and n not in stop:
                    return self.x.path_to(n)
        return None

    def all_paths_hit(self, Bs, cut=None, exits=None):
        """Every path from the entry to the exit passes one of Bs."""
        stop = self._stopset(Bs)
        seen = self.x.reach([0], stop=stop, cut=self.cutter(cut) if cut else None)
        ex = exits if exits is not None else [self.ig.exit]
        for b in ex:
            for n in self.x.bynode.get(b, []):
                if n in seen and n not in stop:
                    return self.x.path_to(n)
        return None

    def can_reach(self, a, bsites, cut=None):
        """Is some site of bsites reachable after site a?  Returns the site or None."""
        starts = []
        for n in self.nodes(a):
            starts += [y for y, l in self.x.succ[n]]
        seen = self.x.reach(starts, cut=self.cutter(cut) if cut else None)
        for s in bsites:
            if s.b == a.b and s.i > a.i:
                return s
            for n in self.nodes(s):
                if n in seen:
                    return s
        return None

    def path_text(self, path, maxn=14):
        """The branch decisions along a path."""
        out = []
        last = None
        for i, n in enumerate(path[:-1]):
            b = self.x.nodes[n][0]
            B = self.ig.blocks[b]
            if B.term[0] == "switch":
                lab = None
                for y, l in self.x.succ[n]:
                    if y == path[i + 1]:
                        lab = l
                        break
                w = "%s:%s" % (B.fn.file.rsplit("/", 1)[-1], B.pos[0])
                out.append("%s[%s=%s]" % (w, fmt(self.expr(B.term[1]))[:60], lab))
        if len(out) > maxn:
            out = out[:3] + ["..."] + out[-(maxn - 3):]
        return " -> ".join(out)


# ---- atom predicates ---------------------------------------------------------------


def F(adt, field):
    return lambda a: a[0] == "f" and a[2] == field and adtm(a[1], adt)


def C(*pats):
    return lambda a: a[0] == "c" and nm(a[1], pats)


def K(v):
    return lambda a: a[0] == "k" and a[1] == v


def AGG(adt, variant):
    return lambda a: a[0] == "agg" and adtm(a[1], adt) and a[2] == variant


def ARG(name):
    return lambda a: a[0] == "arg" and a[2] == name


def anyof(*ps):
    return lambda a: any(p(a) for p in ps)
