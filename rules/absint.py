"""A small abstract interpreter for loop-free functions over symbolic records.

The inputs are symbolic: only how the corresponding fields of two records relate (less, equal, greater, unordered),
which variant or option is present and the value of flags is known.  A function is interpreted once for every such
case; anything it does that is not modelled makes the outcome of the case undecided, never wrong."""
from common import nm

REV = {"lt": "gt", "gt": "lt", "eq": "eq", "none": "none"}
ORD = {"lt": "Less", "eq": "Equal", "gt": "Greater"}


class Unknown(Exception):
    pass


class Panic(Exception):
    pass


def some(v):
    return ("a", "Some", (v,))


NONE = ("a", "None", ())


def ordv(r):
    return NONE if r == "none" else some(("a", ORD[r], ()))


class Case:
    """One case: rel: {path: relation of self to other}, flags: {(side, path): bool}, opts: {(side, path): present},
    variants: {(side, path): name}, order: {path: ordered component paths}, canon: path -> path, ints: {(side,path): v}"""

    def __init__(self, rel=(), flags=(), opts=(), variants=(), order=(), canon=None, consts=()):
        self.rel, self.flags, self.opts, self.variants = dict(rel), dict(flags), dict(opts), dict(variants)
        self.order, self.canon, self.consts = dict(order), canon or (lambda s, p: p), dict(consts)
        # how different fields relate (None: unknown)
        self.default = None

    def clone(self):
        return Case(self.rel, self.flags, self.opts, self.variants, self.order, self.canon, self.consts)

    def path(self, side, p):
        return self.canon(side, p)

    def norm(self, v):
        """A symbolic value with what is known about it."""
        if v[0] == "o":
            k = (v[1], self.path(v[1], v[2]))
            if k in self.flags:
                return ("b", self.flags[k])
            if k in self.opts:
                return some(("o", v[1], v[2] + ("?",))) if self.opts[k] else NONE
            if k in self.variants:
                return ("v", v[1], v[2], self.variants[k])
            if k in self.consts:
                return self.consts[k]
        return v

    def compare(self, a, b):
        if self.default and a[0] == b[0] == "o" and a[1] != b[1] and self.path(a[1], a[2]) != self.path(b[1], b[2]):
            # different fields: some relation other than the wanted one
            return self.default
        a, b = self.norm(a), self.norm(b)
        if self.default and {a[0], b[0]} == {"o", "a"}:
            # a field the case says nothing about
            o = a if a[0] == "o" else b
            if self.path(o[1], o[2]) not in self.rel and self.path(o[1], o[2]) not in self.order:
                return self.default
        if a[0] == "b" and b[0] == "b":
            return "eq" if a[1] == b[1] else "lt" if not a[1] else "gt"
        if a[0] == "n" and b[0] == "n" and b[1] is None and str(a[1]).startswith("+"):
            # a symbolic number that is at least one
            if b[2] - a[2] <= 0:
                return "gt"
            raise Unknown("number")
        if a[0] == "n" and b[0] == "n" and a[1] is None and b[1] is not None:
            return REV[self.compare(b, a)]
        if a[0] == "n" and b[0] == "n":
            if a[1] == b[1]:
                return "eq" if a[2] == b[2] else "lt" if a[2] < b[2] else "gt"
            raise Unknown("numbers %s %s" % (a, b))
        if a[0] == "a" and b[0] == "a":
            if a[1] != b[1]:
                rank = {"None": 0, "Some": 1, "Less": 0, "Equal": 1, "Greater": 2}
                if a[1] in rank and b[1] in rank:
                    return "lt" if rank[a[1]] < rank[b[1]] else "gt"
                raise Unknown("variants")
            for x, y in zip(a[2], b[2]):
                r = self.compare(x, y)
                if r != "eq":
                    return r
            return "eq"
        if a[0] == "o" and b[0] == "o":
            if a[1] == b[1]:
                if a[2] == b[2]:
                    return "eq"
                raise Unknown("same side")
            pa, pb = self.path(a[1], a[2]), self.path(b[1], b[2])
            if pa != pb and self.default:
                return self.default
            if pa != pb:
                raise Unknown("different fields %s %s" % (pa, pb))
            if pa in self.rel:
                r = self.rel[pa]
                return r if a[1] == "self" else REV[r]
            if isinstance(self.order.get(pa), str):
                r = self.order[pa]
                return r if a[1] == "self" else REV[r]
            if pa in self.order:
                for q in self.order[pa]:
                    r = self.compare(("o", a[1], a[2] + q), ("o", b[1], b[2] + q))
                    if r != "eq":
                        return r
                return "eq"
        raise Unknown("comparison of %s and %s" % (a, b))


IDENT = (
    "clone", "Clone::clone", "deref", "Deref::deref", "borrow", "Borrow::borrow", "as_ref", "Option::as_ref", "Option::copied", "Option::cloned",
    "copied", "cloned", "Into::into", "into", "From::from", "from", "AsRef::as_ref", "Option::as_deref", "as_deref", "to_owned",
)


class Interp:
    def __init__(self, g, case, args, sub=None):
        self.g, self.case, self.sub = g, case, sub
        self.env = {}
        for i, a in args.items():
            self.env[i] = a

    def read(self, pl):
        v = self.env.get(pl[0])
        if v is None:
            raise Unknown("local %s" % (pl[0],))
        for e in pl[1]:
            if e == "*":
                continue
            if e[0] == "v":
                v = self.case.norm(v)
                if v[0] == "a":
                    if v[1] != e[1]:
                        raise Unknown("variant")
                elif v[0] == "v":
                    v = ("o", v[1], v[2] + (e[1],))
                continue
            if e[0] == "f":
                if v[0] == "a":
                    if e[3] < len(v[2]):
                        v = v[2][e[3]]
                        continue
                    raise Unknown("field")
                if v[0] == "s":
                    if e[2] in v[2]:
                        v = v[2][e[2]]
                        continue
                    v = ("o", v[1][1], v[1][2] + (e[2],)) if v[1] else None
                    if v is None:
                        raise Unknown("field %s" % e[2])
                    continue
                if v[0] in ("o", "v"):
                    v = ("o", v[1], v[2] + (e[2],))
                    continue
            raise Unknown("projection %s of %s" % (e, v))
        return self.case.norm(v)

    def write(self, pl, v):
        proj = tuple(e for e in pl[1] if e != "*")
        if not proj:
            self.env[pl[0]] = v
            return
        if len(proj) == 1 and proj[0][0] == "f":
            b = self.env.get(pl[0])
            if b is not None and b[0] == "o":
                self.env[pl[0]] = ("s", b, {proj[0][2]: v})
                return
            if b is not None and b[0] == "s":
                self.env[pl[0]] = ("s", b[1], dict(b[2], **{proj[0][2]: v}))
                return
            if b is not None and b[0] == "a":
                l = list(b[2])
                l[proj[0][3]] = v
                self.env[pl[0]] = ("a", b[1], tuple(l)) + b[3:]
                return
        raise Unknown("write to %s" % (pl,))

    def op(self, o):
        if o[0] in ("c", "m"):
            return self.read(o[1])
        if o[0] == "k":
            s = str(o[1])
            if s in ("true", "false"):
                return ("b", s == "true")
            d = s.split("_")[0]
            if d.lstrip("-").isdigit():
                return ("n", None, int(d))
            for x in ("None", "Less", "Equal", "Greater"):
                if s.endswith("::" + x) or s == x:
                    return ("a", x, ())
            return ("c", s)
        raise Unknown("operand %s" % (o,))

    def rv(self, rv):
        k = rv[0]
        if k == "use":
            return self.op(rv[1])
        if k == "ref":
            return self.read(rv[2])
        if k == "agg":
            kind = rv[1]
            vs = tuple(self.op(o) for o in rv[2])
            if kind[0] == "adt":
                if kind[1].startswith("core::option") or kind[1].startswith("core::cmp") or kind[1].startswith("core::result") or "ControlFlow" in kind[1]:
                    return ("a", kind[2], vs)
                return ("a", kind[2] or kind[1], vs, tuple(kind[3]) if len(kind) > 3 else ())
            if kind[0] == "closure":
                return ("clo", kind[1], vs)
            return ("a", "", vs)
        if k == "discr":
            v = self.read(rv[1])
            if v[0] == "a":
                return ("d", v[1], rv[3])
            if v[0] == "v":
                return ("d", v[3], rv[3])
            raise Unknown("discriminant of %s" % (v,))
        if k == "bin":
            a, b = self.op(rv[2]), self.op(rv[3])
            return self.bin(rv[1], a, b)
        if k == "un":
            a = self.op(rv[2])
            if rv[1] == "Not" and a[0] == "b":
                return ("b", not a[1])
        if k == "cast":
            return self.op(rv[1]) if isinstance(rv[1], tuple) and rv[1][0] in ("c", "m", "k") else self.op(rv[2])
        raise Unknown("rvalue %s" % (rv[:2],))

    def bin(self, o, a, b):
        if a[0] == "dv" and b[0] == "dv" and o in ("Eq", "Ne"):
            return ("b", (a[1] == b[1]) == (o == "Eq"))
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return ("b", self.rel(o.lower(), self.case.compare(a, b)))
        if o.startswith(("Add", "Sub")) and a[0] == "n" and b[0] == "n" and b[1] is None:
            r = ("n", a[1], a[2] + (b[2] if o.startswith("Add") else -b[2]))
            return ("a", "", (r, ("b", False))) if "WithOverflow" in o else r
        if o in ("BitAnd", "BitOr") and a[0] == "b" and b[0] == "b":
            return ("b", (a[1] and b[1]) if o == "BitAnd" else (a[1] or b[1]))
        raise Unknown("operator %s" % o)

    @staticmethod
    def rel(o, r):
        return {"eq": r == "eq", "ne": r != "eq", "lt": r == "lt", "le": r in ("lt", "eq"), "gt": r == "gt", "ge": r in ("gt", "eq")}[o]

    def call(self, fn, args):
        last = fn.n.split("::")[-1]
        if len(args) == 2 and last in ("add", "sub") and "arith" in fn.n:
            return self.bin(last.capitalize(), *args)
        if len(args) >= 2 and args[-1][0] == "clo" and self.sub and last in ("map", "map_or", "and_then", "unwrap_or_else", "map_or_else", "is_some_and"):
            a = self.case.norm(args[0])
            if a[0] != "a":
                raise Unknown("call of %s" % fn.n)
            run = lambda *x: self.sub(args[-1], x, self.case)
            if a[1] == "Some":
                v = a[2][0] if last == "unwrap_or_else" else run(a[2][0])
                return some(v) if last == "map" else v
            if a[1] == "None":
                if last == "map_or":
                    return args[1]
                if last == "unwrap_or_else":
                    return run()
                if last in ("map", "and_then"):
                    return NONE
                if last == "is_some_and":
                    return ("b", False)
            raise Unknown("call of %s" % fn.n)
        if len(args) == 2 and args[1][0] == "clo" and self.sub and last == "then_with":
            a = self.case.norm(args[0])
            if a[0] == "a" and a[1] in ("Less", "Equal", "Greater"):
                return self.sub(args[1], (), self.case) if a[1] == "Equal" else a
            raise Unknown("call of %s" % fn.n)
        if len(args) == 2:
            if last == "partial_cmp":
                return ordv(self.case.compare(*args))
            if last == "cmp":
                r = self.case.compare(*args)
                if r == "none":
                    raise Panic()
                return ("a", ORD[r], ())
            if last in ("eq", "ne", "lt", "le", "gt", "ge"):
                return ("b", self.rel(last, self.case.compare(*args)))
        if last in ("clone", "deref", "borrow", "as_ref", "copied", "cloned", "into", "from", "to_owned", "as_deref") and len(args) == 1:
            return args[0]
        a = self.case.norm(args[0]) if args else None
        if last in ("discriminant_value", "discriminant") and a is not None:
            if a[0] == "v":
                return ("dv", a[3])
            if a[0] == "a":
                return ("dv", a[1])
        if a is not None and a[0] == "a":
            if last in ("unwrap", "expect"):
                if a[1] in ("Some", "Ok"):
                    return a[2][0]
                raise Panic()
            if last == "branch":
                if a[1] in ("Some", "Ok"):
                    return ("a", "Continue", (a[2][0],))
                return ("a", "Break", (("a", a[1], a[2]),))
            if last == "from_residual":
                return a
            if last in ("is_some", "is_none"):
                return ("b", (a[1] == "Some") == (last == "is_some"))
            if a[1] in ("Less", "Equal", "Greater"):
                if last == "reverse":
                    return ("a", {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[a[1]], ())
                if last == "then":
                    return args[1] if a[1] == "Equal" else a
                if last.startswith("is_"):
                    r = {"Less": "lt", "Equal": "eq", "Greater": "gt"}[a[1]]
                    return ("b", self.rel(last[3:], r))
            if last == "unwrap_or":
                return a[2][0] if a[1] == "Some" else args[1]
        raise Unknown("call of %s" % fn.n)

    def run(self, limit=400):
        b = self.g.x.nodes[0][0]
        n = 0
        while True:
            n += 1
            if n > limit:
                raise Unknown("loop")
            B = self.g.ig.blocks[b]
            for pl, rv, sp in B.stmts:
                try:
                    self.write(pl, self.rv(rv))
                except Unknown as e:
                    # only matters if it is used
                    if not pl[1]:
                        self.env[pl[0]] = ("?", str(e))
                    else:
                        raise
            t = B.term
            if t[0] == "goto":
                b = t[1]
            elif t[0] == "exit":
                return self.read(self.g.ig.retplace) if isinstance(self.g.ig.retplace, tuple) else self.env[0]
            elif t[0] == "enter":
                b = t[3]
            elif t[0] == "drop":
                b = t[2]
            elif t[0] == "ident":
                self.write(t[3], self.op(t[2][0]))
                b = t[4]
            elif t[0] == "dead":
                raise Panic()
            elif t[0] == "switch":
                v = self.op(t[1])
                if v[0] == "b":
                    k = "1" if v[1] else "0"
                elif v[0] == "d":
                    k = next((x for x, y in v[2].items() if y == v[1]), None)
                elif v[0] == "n" and v[1] is None:
                    k = str(v[2])
                elif v[0] == "n" and str(v[1]).startswith("+") and v[2] >= 0:
                    if any(x != "0" for x, y in t[2]):
                        raise Unknown("switch on a number")
                    k = "#"
                else:
                    raise Unknown("switch on %s" % (v,))
                nxt = [y for x, y in t[2] if x == k]
                b = nxt[0] if nxt else t[3]
                if b is None:
                    raise Panic()
            elif t[0] == "call":
                if t[4] is None:
                    raise Panic()
                try:
                    r = self.call(t[1][1] if isinstance(t[1], tuple) else t[1], [self.op(o) for o in t[2]])
                except Unknown as e:
                    r = ("?", str(e))
                if r[0] == "?" and not t[3][1]:
                    self.env[t[3][0]] = r
                else:
                    self.write(t[3], r)
                b = t[4]
            else:
                raise Unknown("terminator %s" % t[0])


def outcome(g, case, args, sub=None):
    """('value', v) | ('panic',) | ('unknown', why)"""
    try:
        v = Interp(g, case, args, sub).run()
        if "?" in str(v) and v[0] == "?":
            return ("unknown", v[1])
        return ("value", v)
    except Panic:
        return ("panic",)
    except Unknown as e:
        return ("unknown", str(e))


def get(v, path):
    """A field of a result, by name."""
    for f in path:
        if v[0] == "a" and len(v) > 3 and f in v[3]:
            v = v[2][v[3].index(f)]
        elif v[0] == "a" and f.isdigit() and int(f) < len(v[2]):
            v = v[2][int(f)]
        elif v[0] == "s":
            v = v[2][f] if f in v[2] else ("o", v[1][1], v[1][2] + (f,))
        elif v[0] in ("o", "v"):
            v = ("o", v[1], v[2] + (f,))
        else:
            return ("?", "no field %s" % f)
    return v
