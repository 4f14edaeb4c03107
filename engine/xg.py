"""Path-sensitive exploration of an inlined graph (conditional constant / variant propagation) and path queries."""
from collections import defaultdict, deque
from mir import IG, is_ident, AnchorError, fmt

CAP = 48

# aggregate operands whose variant / truth value rules ask for at the construction site
TRACK = (("::VoteResponse", "vote_granted"), ("engine::command::Command", "when"), ("engine::command::Respond", "resp"))

MODEL_KEEP = {"map": 1, "map_err": 1, "inspect": 1, "inspect_err": 1}


def short(n):
    return n.rsplit("::", 1)[-1]


CMP = {
    "core::cmp::PartialOrd::lt": "lt",
    "core::cmp::PartialOrd::le": "le",
    "core::cmp::PartialOrd::gt": "gt",
    "core::cmp::PartialOrd::ge": "ge",
    "core::cmp::PartialEq::eq": "eq",
    "core::cmp::PartialEq::ne": "ne",
}
BIN = {"Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge", "Eq": "eq", "Ne": "ne"}
SWAP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
NEG = {"lt": "ge", "gt": "le", "le": "gt", "ge": "lt", "eq": "ne", "ne": "eq"}
ISV = {
    "core::option::Option::is_some": ("Some", "None", True),
    "core::option::Option::is_none": ("Some", "None", False),
    "core::result::Result::is_ok": ("Ok", "Err", True),
    "core::result::Result::is_err": ("Ok", "Err", False),
}


class XG:
    def __init__(self, ig, cap=CAP):
        self.ig = ig
        self.cap = cap
        self._relevance()
        self._liveness()
        self._explore()

    # ---- relevance -------------------------------------------------------------
    def _relevance(self):
        ig = self.ig
        rel = set()
        work = []

        def add(l):
            if l not in rel:
                rel.add(l)
                work.append(l)

        add(ig.retplace[0])
        for b in ig.live:
            B = ig.blocks[b]
            for pl, rv, sp in B.stmts:
                if rv[0] == "discr":
                    add(rv[1][0])
                elif rv[0] == "agg" and rv[1][0] == "adt":
                    for adt, fld in TRACK:
                        if rv[1][1].endswith(adt) and fld in rv[1][3]:
                            o = rv[2][list(rv[1][3]).index(fld)]
                            if o[0] in ("c", "m"):
                                add(o[1][0])
            if B.term[0] == "switch":
                o = B.term[1]
                if o[0] in ("c", "m"):
                    add(o[1][0])
            if B.term[0] in ("call", "ident") and B.term[1] is not None and B.term[1].n in ISV:
                a = B.term[2][0]
                if a[0] in ("c", "m"):
                    add(a[1][0])
        while work:
            l = work.pop()
            for dp, rv in ig.defs.get(l, []):
                k = rv[0]
                ops = []
                if k == "use":
                    ops = [rv[1]]
                elif k == "ref":
                    add(rv[2][0])
                elif k == "agg":
                    if rv[1][0] in ("adt", "tuple", "closure", "coroutine"):
                        ops = rv[2]
                elif k == "un":
                    ops = [rv[2]]
                elif k == "discr":
                    add(rv[1][0])
                elif k == "callr":
                    if rv[1] is not None and rv[2]:
                        ops = [rv[2][0]]
                for o in ops:
                    if o[0] in ("c", "m"):
                        add(o[1][0])
        self.rel = rel

    def _liveness(self):
        ig = self.ig
        n = len(ig.blocks)
        use = [0] * n
        deff = [0] * n
        rel = self.rel

        def bit(l):
            return 1 << l

        for b in ig.live:
            B = ig.blocks[b]
            u = 0
            d = 0

            def up(pl):
                nonlocal u
                if pl[0] in rel and not (d >> pl[0]) & 1:
                    u |= bit(pl[0])
                for e in pl[1]:
                    pass

            def uo(o):
                if o[0] in ("c", "m"):
                    up(o[1])

            for pl, rv, sp in B.stmts:
                k = rv[0]
                if k in ("use",):
                    uo(rv[1])
                elif k == "ref":
                    up(rv[2])
                elif k == "bin":
                    uo(rv[2])
                    uo(rv[3])
                elif k == "un":
                    uo(rv[2])
                elif k == "discr":
                    up(rv[1])
                elif k == "agg":
                    for o in rv[2]:
                        uo(o)
                if pl[1]:
                    up(pl)
                else:
                    d |= bit(pl[0])
            t = B.term
            if t[0] == "switch":
                uo(t[1])
            elif t[0] in ("call", "ident"):
                for o in t[2]:
                    uo(o)
                if t[3][1]:
                    up(t[3])
                else:
                    d |= bit(t[3][0])
            elif t[0] == "await":
                for o in t[2]:
                    uo(o)
                d |= bit(t[3][0])
            use[b] = u
            deff[b] = d
        livein = [0] * n
        pred = defaultdict(list)
        for b in ig.live:
            for s in ig.succs(b):
                pred[s].append(b)
        work = deque(ig.live)
        inq = set(ig.live)
        liveout_exit = bit(ig.retplace[0]) if ig.retplace[0] in rel else 0
        use[ig.exit] |= liveout_exit
        while work:
            b = work.pop()
            inq.discard(b)
            out = 0
            for s in ig.succs(b):
                out |= livein[s]
            new = use[b] | (out & ~deff[b])
            if new != livein[b]:
                livein[b] = new
                for p in pred[b]:
                    if p not in inq:
                        inq.add(p)
                        work.append(p)
        self.livein = livein

    # ---- abstract values ---------------------------------------------------------
    def _read(self, env, pl, depth=0):
        if depth > 12:
            return None
        av = env.get(pl[0])
        return self._proj(env, av, pl[1], depth)

    def _proj(self, env, av, proj, depth):
        for i, e in enumerate(proj):
            if av is None:
                return None
            if e == "*":
                if av[0] == "r":
                    return self._read(env, (av[1][0], av[1][1] + proj[i + 1:]), depth + 1)
                continue  # transparent
            if av[0] == "r":
                return self._read(env, (av[1][0], av[1][1] + proj[i:]), depth + 1)
            if e[0] == "v":
                if av[0] == "a" and av[1] == e[1]:
                    continue
                return None
            if e[0] == "f":
                if av[0] == "a" and av[2] is not None and e[3] < len(av[2]):
                    av = av[2][e[3]]
                    continue
                return None
            return None
        return av

    def _val(self, env, o):
        if o[0] in ("c", "m"):
            return self._read(env, o[1])
        if o[0] == "k":
            if o[1] in ("true", "const true"):
                return ("k", 1)
            if o[1] in ("false", "const false"):
                return ("k", 0)
            return None
        return None

    def _canon(self, env, pl, depth=0):
        """Follow known references so that a place denotes a local's own storage."""
        l, proj = pl
        if depth > 12:
            return pl
        for i, e in enumerate(proj):
            if e == "*":
                av = self._proj(env, env.get(l), proj[:i], 0)
                if av is not None and av[0] == "r":
                    return self._canon(env, (av[1][0], av[1][1] + proj[i + 1:]), depth + 1)
                return pl
        return pl

    def _write(self, env, pl, av):
        pl = self._canon(env, pl)
        l, proj = pl
        proj = tuple(e for e in proj if e != "*")
        if l not in self.rel:
            return
        if not proj:
            self._kill(env, l)
            if av is not None:
                d = 4
                while d and self._size(av) > 24:
                    av = self._prune(av, d)
                    d -= 1
                env[l] = av
            return
        cur = env.get(l)
        new = self._upd(cur, proj, av)
        if new is None:
            self._kill(env, l)
        else:
            env[l] = new

    def _kill(self, env, l):
        env.pop(l, None)
        # forget predicates about l
        for k in [k for k, v in env.items() if self._mentions_pred(v, l)]:
            env.pop(k)

    def _mentions_pred(self, v, l):
        if v[0] in ("d", "is", "al", "rel"):
            return v[1][0] == l
        return False

    def _upd(self, cur, proj, av):
        if not proj:
            return av
        e = proj[0]
        if cur is None or cur[0] != "a":
            return None
        if e[0] == "v":
            if cur[1] != e[1]:
                return None
            return self._upd(cur, proj[1:], av) if len(proj) > 1 else av
        if e[0] == "f" and cur[2] is not None and e[3] < len(cur[2]):
            sub = self._upd(cur[2][e[3]], proj[1:], av) if len(proj) > 1 else av
            fs = list(cur[2])
            fs[e[3]] = sub
            return ("a", cur[1], tuple(fs))
        return cur

    def _prune(self, av, d):
        """Keep the variants of the outer levels only."""
        if av is None or av[0] != "a" or not av[2]:
            return av
        if d <= 0:
            return ("a", av[1], None) if av[1] is not None else None
        return ("a", av[1], tuple(self._prune(x, d - 1) for x in av[2]))

    def _size(self, av, d=0):
        if av is None:
            return 1
        if av[0] == "a":
            if d > 4:
                return 100
            return 1 + (sum(self._size(x, d + 1) for x in av[2]) if av[2] else 0)
        return 1

    def _killrefs(self, env, av, d=0):
        if av is None or d > 4:
            return
        if av[0] == "r" and av[2] == "mut":
            p = self._canon(env, av[1])
            self._kill(env, p[0])
        elif av[0] == "a" and av[2]:
            for x in av[2]:
                self._killrefs(env, x, d + 1)

    # ---- transfer -----------------------------------------------------------------
    def _stmt(self, env, pl, rv):
        k = rv[0]
        av = None
        if k == "use":
            av = self._val(env, rv[1])
            if av is None and rv[1][0] == "c" and self._isbool(rv[1][1]):
                p = self._canon(env, rv[1][1])
                if not any(e == "*" for e in p[1]) and p[0] in self.rel and not p[1]:
                    av = ("al", p)
        elif k == "ref":
            p = self._canon(env, rv[2])
            av = ("r", p, rv[1])
        elif k == "agg":
            ak = rv[1]
            if ak[0] == "adt":
                nm = ak[3]
                v = ak[2]
                av = ("a", v, tuple(self._trim(self._val(env, o)) for o in rv[2]))
            elif ak[0] in ("tuple", "closure", "coroutine"):
                av = ("a", None, tuple(self._trim(self._val(env, o)) for o in rv[2]))
        elif k == "un" and rv[1] == "Not":
            v = self._val(env, rv[2])
            if v is not None:
                if v[0] == "k":
                    av = ("k", 1 - v[1]) if v[1] in (0, 1) else None
                elif v[0] == "is":
                    av = ("is", v[1], v[2], v[3], not v[4])
            elif rv[2][0] in ("c", "m") and not rv[2][1][1]:
                pass
        elif k == "discr":
            v = self._read(env, rv[1])
            if v is not None and v[0] == "a" and v[1] is not None:
                for dv, nm in rv[3].items():
                    if nm == v[1]:
                        av = ("k", int(dv))
            if av is None:
                p = self._canon(env, rv[1])
                if v is not None and v[0] == "rel":
                    av = ("d", p, tuple(sorted(rv[3].items())))
                elif not any(e == "*" for e in p[1]):
                    av = ("d", p, tuple(sorted(rv[3].items())))
        self._write(env, pl, av)

    def _trim(self, av):
        if av is not None and av[0] in ("d", "is", "al", "rel"):
            return None
        return av

    def _isbool(self, pl):
        if pl[1]:
            return False
        inst, i = self.ig.lname[pl[0]]
        return i is not None and inst.fn.locals[i][0] == "bool"

    def _deref(self, env, av):
        n = 0
        while av is not None and av[0] == "r" and n < 8:
            av = self._read(env, av[1])
            n += 1
        return av

    def _callmodel(self, env, t):
        f, args, dest = t[1], t[2], t[3]
        if f is None:
            for a in args:
                self._killrefs(env, self._val(env, a))
            return None
        n = f.n
        if is_ident(f) and args:
            v = self._val(env, args[0])
            if v is not None and v[0] == "r" and not n.startswith("core::pin") and n not in ("alloc::boxed::Box::pin", "alloc::boxed::Box::new"):
                # clone/as_ref of a reference: a copy of the pointee (or still the reference)
                w = self._deref(env, v)
                if n.endswith("as_mut") or n.endswith("deref_mut"):
                    return v
                return w if w is not None and w[0] == "a" else v
            return v
        s = short(n)
        if n in ISV and args:
            yes, no, pol = ISV[n]
            v = self._val(env, args[0])
            w = self._deref(env, v)
            if w is not None and w[0] == "a" and w[1] is not None:
                return ("k", 1 if (w[1] == yes) == pol else 0)
            if v is not None and v[0] == "r":
                p = self._canon(env, v[1])
                if not any(e == "*" for e in p[1]):
                    return ("is", p, yes, no, pol)
            return None
        v = self._val(env, args[0]) if args else None
        if n == "core::ops::try_trait::Try::branch":
            isres = f.r is None or "Result" in f.r
            if v is not None and v[0] == "a" and v[1] is not None:
                if v[1] in ("Ok", "Some"):
                    return ("a", "Continue", (v[2] or (None,))[:1])
                if v[1] in ("Err", "None"):
                    return ("a", "Break", (v,))
            return ("rel", ("branch", "Err" if isres else "None"))
        if n == "core::ops::try_trait::FromResidual::from_residual":
            if v is not None and v[0] == "a" and v[1] in ("Err", "None"):
                return ("a", v[1], (None,) if v[1] == "Err" else ())
            if f.r and "Result" in f.r:
                return ("a", "Err", (None,))
            if f.r and "Option" in f.r:
                return ("a", "None", ())
            return None
        pre = n.rsplit("::", 1)[0]
        if pre in ("core::option::Option", "core::result::Result"):
            w = self._deref(env, v)
            if s == "take" and v is not None and v[0] == "r":
                self._write(env, v[1], ("a", "None", ()))
                return w
            if s in ("replace", "insert", "get_or_insert", "get_or_insert_with") and v is not None and v[0] == "r":
                self._write(env, v[1], ("a", "Some", (None,)))
                return w if s == "replace" else None
            for a in args[1:]:
                self._killrefs(env, self._val(env, a))
            if w is not None and w[0] == "a" and w[1] is not None:
                pv = (w[2] or (None,))
                if s in ("map", "inspect"):
                    if w[1] in ("Some", "Ok"):
                        return ("a", w[1], (None,))
                    return w
                if s in ("map_err", "inspect_err"):
                    if w[1] == "Err":
                        return ("a", "Err", (None,))
                    return w
                if s in ("ok_or", "ok_or_else"):
                    return ("a", "Ok", pv[:1]) if w[1] == "Some" else ("a", "Err", (None,))
                if s == "ok":
                    return ("a", "Some", pv[:1]) if w[1] == "Ok" else ("a", "None", ())
                if s == "err":
                    return ("a", "Some", pv[:1]) if w[1] == "Err" else ("a", "None", ())
                if s == "and_then" and w[1] in ("None", "Err"):
                    return w
                if s in ("unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else") and w[1] in ("Some", "Ok"):
                    return pv[0] if pv else None
            return None
        for a in args:
            self._killrefs(env, self._val(env, a))
        return None

    # ---- exploration -----------------------------------------------------------------
    def _clean(self, env, b):
        live = self.livein[b]
        keep = {}
        work = [l for l in env if (live >> l) & 1]
        while work:
            l = work.pop()
            if l in keep or l not in env:
                continue
            keep[l] = env[l]
            self._refs(env[l], work)
        return keep

    def _refs(self, av, work, d=0):
        if av is None or d > 5:
            return
        if av[0] in ("r", "d", "is", "al"):
            work.append(av[1][0])
        elif av[0] == "a" and av[2]:
            for x in av[2]:
                self._refs(x, work, d + 1)

    def _refine(self, env, pl, variant, nf=None):
        l, proj = pl
        if l not in self.rel:
            return True
        cur = self._read(env, pl)
        if cur is not None and cur[0] == "a" and cur[1] is not None:
            return cur[1] == variant
        if not proj:
            if cur is not None and cur[0] == "rel":
                if variant == "Break":
                    ev = cur[1][1]
                    env[l] = ("a", "Break", (("a", ev, (None,) if ev == "Err" else ()),))
                else:
                    env[l] = ("a", variant, (None,))
                return True
            env[l] = ("a", variant, None)
            return True
        # nested: set a sub-value when the parent is known
        cur0 = env.get(l)
        if cur0 is not None and cur0[0] == "a":
            new = self._upd(cur0, tuple(e for e in proj if e != "*"), ("a", variant, None))
            if new is not None:
                env[l] = new
        return True

    def _out(self, b, env):
        """[(succ block, env, label)]"""
        ig = self.ig
        B = ig.blocks[b]
        env = dict(env)
        for pl, rv, sp in B.stmts:
            self._stmt(env, pl, rv)
        t = B.term
        k = t[0]
        if k == "goto":
            return [(t[1], env, None)]
        if k == "switch":
            o = t[1]
            v = self._val(env, o)
            outs = []
            if v is not None and v[0] == "k":
                sv = str(v[1])
                for val, tg in t[2]:
                    if val == sv:
                        return [(tg, env, val)]
                return [(t[3], env, "else")]
            vals = [val for val, _ in t[2]]
            for val, tg in list(t[2]) + [("else", t[3])]:
                e2 = dict(env)
                ok = True
                if t[4]:
                    truth = 0 if val == "0" else 1
                    if o[0] in ("c", "m") and not o[1][1] and o[1][0] in self.rel:
                        if v is not None and v[0] == "al":
                            if v[1][0] in self.rel:
                                e2[v[1][0]] = ("k", truth)
                        if v is not None and v[0] == "is":
                            pol = truth if v[4] else 1 - truth
                            ok = self._refine(e2, v[1], v[2] if pol else v[3])
                        e2[o[1][0]] = ("k", truth)
                elif v is not None and v[0] == "d":
                    mp = dict(v[2])
                    if val != "else":
                        if val in mp:
                            ok = self._refine(e2, v[1], mp[val])
                    else:
                        rest = [n for dv, n in mp.items() if dv not in vals]
                        if not rest and mp:
                            ok = False
                        elif len(rest) == 1:
                            ok = self._refine(e2, v[1], rest[0])
                        else:
                            cur = self._read(e2, v[1])
                            if cur is not None and cur[0] == "a" and cur[1] is not None and cur[1] not in rest:
                                ok = False
                if ok:
                    outs.append((tg, e2, val))
            return outs
        if k in ("call", "ident"):
            av = self._callmodel(env, t)
            self._write(env, t[3], av)
            return [(t[4], env, None)]
        if k == "await":
            for a in t[2]:
                self._killrefs(env, self._val(env, a))
            self._write(env, t[3], None)
            return [(t[4], env, None)]
        if k == "drop":
            return [(t[2], env, None)]
        if k == "enter":
            return [(t[3], env, None)]
        if k == "maybe":
            return [(t[1], env, "run"), (t[2], env, "skip")]
        return []

    def _explore(self):
        ig = self.ig
        self.nodes = []
        self.succ = []
        index = {}
        per = defaultdict(int)
        joined = {}

        def node(b, env):
            env = self._clean(env, b)
            key = (b, frozenset(env.items()))
            i = index.get(key)
            if i is not None:
                return i, False
            if per[b] >= self.cap:
                j = joined.get(b)
                if j is None:
                    j = env
                else:
                    j = {l: v for l, v in j.items() if env.get(l) == v}
                joined[b] = j
                key = (b, frozenset(j.items()))
                i = index.get(key)
                if i is not None:
                    return i, False
                env = j
            per[b] += 1
            i = len(self.nodes)
            index[key] = i
            self.nodes.append((b, env))
            self.succ.append(None)
            return i, True

        i, _ = node(ig.entry, {})
        work = [i]
        while work:
            x = work.pop()
            if self.succ[x] is not None:
                continue
            b, env = self.nodes[x]
            outs = []
            for tb, e2, lab in self._out(b, env):
                y, new = node(tb, e2)
                outs.append((y, lab))
                if self.succ[y] is None:
                    work.append(y)
            self.succ[x] = outs
            if len(self.nodes) > 400000:
                raise AnchorError("exploded graph of %s too large" % ig.root.name)
        self.bynode = defaultdict(list)
        for i, (b, e) in enumerate(self.nodes):
            self.bynode[b].append(i)
        self.capped = [b for b in joined]
        self.pred = None

    # ---- queries ----------------------------------------------------------------------
    def env_at(self, node, i):
        """Abstract environment of a node after its block's statements before index i."""
        b, env = self.nodes[node]
        env = dict(env)
        for k, (pl, rv, sp) in enumerate(self.ig.blocks[b].stmts):
            if k >= i:
                break
            self._stmt(env, pl, rv)
        return env

    def preds(self):
        if self.pred is None:
            self.pred = [[] for _ in self.nodes]
            for i, ss in enumerate(self.succ):
                for y, lab in ss:
                    self.pred[y].append((i, lab))
        return self.pred

    def reach(self, starts, stop=frozenset(), cut=None):
        """Nodes reachable from `starts` (included) without entering beyond nodes in `stop`
        (a stop node is reached but not left) and without taking an edge e for which cut(i, label) holds."""
        seen = set()
        work = []
        for s in starts:
            if s not in seen:
                seen.add(s)
                work.append(s)
        par = {}
        while work:
            x = work.pop()
            if x in stop:
                continue
            for y, lab in self.succ[x]:
                if cut is not None and lab is not None and cut(x, lab):
                    continue
                if y not in seen:
                    seen.add(y)
                    par[y] = x
                    work.append(y)
        self._par = par
        return seen

    def path_to(self, target):
        out = [target]
        while out[-1] in self._par:
            out.append(self._par[out[-1]])
        return list(reversed(out))

    def entry_nodes(self):
        return [0]

    def blocks_of(self, pred):
        return [b for b in self.ig.live if pred(b)]
