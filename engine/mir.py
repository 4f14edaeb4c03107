"""Facts model, MIR inliner and path-sensitive exploration.

A `Program` holds the MIR of every body dumped by driver.rs.  An `IG` is the flow graph of one root function
with its local callees (functions, closures, awaited coroutines) inlined, so that a rule does not see helper
boundaries.  `IG.explore` walks it with a finite abstract environment (known enum variants and boolean
constants) and yields the exploded graph on which dominance / must-pass questions are decided.
"""
import json, os, sys
from collections import defaultdict, deque

sys.setrecursionlimit(20000)

TRACE_PREFIX = ("tracing::", "trace_span", "debug_assert", "func_name", "log::")


def is_trace_mac(m):
    return m is not None and m.startswith(TRACE_PREFIX)


def conv_place(p):
    out = []
    for e in p[1:]:
        if e == "*":
            out.append("*")
        elif e[0] == "f":
            out.append(("f", e[1], e[2], e[3]))
        elif e[0] == "v":
            out.append(("v", e[1]))
        else:
            out.append(tuple(e))
    return (p[0], tuple(out))


class FnRef:
    __slots__ = ("n", "u", "tr", "r", "ru", "h", "cl", "a")

    def __init__(self, d):
        self.n = d["n"]
        self.u = d["u"]
        self.tr = d["tr"]
        self.r = d["r"][0] if d["r"] else None
        self.ru = d["r"][1] if d["r"] else None
        self.h = d["h"]
        self.cl = d["cl"]
        self.a = d["a"]

    def names(self):
        return (self.n, self.r) if self.r else (self.n,)

    def __repr__(self):
        return self.r or self.n


def conv_op(o):
    k = o[0]
    if k in ("c", "m"):
        return (k, conv_place(o[1]))
    if k == "fn":
        return ("fn", FnRef(o[1]))
    return ("k", o[1], o[2], o[3])


def conv_rv(r):
    k = r[0]
    if k == "use":
        return ("use", conv_op(r[1]))
    if k == "ref":
        return ("ref", r[1], conv_place(r[2]))
    if k == "cast":
        return ("use", conv_op(r[1]))
    if k == "bin":
        return ("bin", r[1], conv_op(r[2]), conv_op(r[3]))
    if k == "un":
        return ("un", r[1], conv_op(r[2]))
    if k == "discr":
        return ("discr", conv_place(r[1]), r[2], r[3])
    if k == "agg":
        return ("agg", tuple(tuple(x) if isinstance(x, list) else x for x in r[1]), tuple(conv_op(x) for x in r[2]))
    if k == "setd":
        return ("setd", r[1])
    return ("other",)


class Fn:
    def __init__(self, d, crate):
        self.uid = d["uid"]
        self.name = d["name"]
        self.kind = d["kind"]
        self.parent = d["parent"]
        self.file = d["file"]
        self.line = d["line"]
        self.endline = d["endline"]
        self.argc = d["argc"]
        self.derived = d["derived"]
        self.trait = d["trait"]
        self.vis = d["vis"]
        self.is_async = d["async"]
        self.mac = d["mac"]
        self.caps = d.get("caps")
        self.crate = crate
        self._raw = d
        self._blocks = None
        self._locals = None

    def __repr__(self):
        return self.name

    @property
    def locals(self):
        """[(type string, head adt, debug name)]"""
        if self._locals is None:
            tys = self.crate.tys
            self._locals = [(tys[l[0]], l[1], l[2] if len(l) > 2 else None) for l in self._raw["locals"]]
        return self._locals

    @property
    def blocks(self):
        if self._blocks is None:
            self._prep()
        return self._blocks

    def _prep(self):
        raw = self._raw["blocks"]
        bs = []
        for b in raw:
            if b.get("cl"):
                bs.append(([], ("resume",), (0,)))
                continue
            st = [(conv_place(s[0]), conv_rv(s[1]), tuple(s[2])) for s in b["s"]]
            t = b["t"]
            k = t[0]
            if k == "goto":
                t = ("goto", t[1])
            elif k == "switch":
                t = ("switch", conv_op(t[1]), [(v, x) for v, x in t[2]], t[3], t[4])
            elif k == "drop":
                t = ("drop", conv_place(t[1]), t[2])
            elif k == "call":
                t = ("call", conv_op(t[1]), [conv_op(a) for a in t[2]], conv_place(t[3]), t[4], t[5])
            elif k == "assert":
                t = ("assert", conv_op(t[1]), t[2], t[3])
            elif k == "yield":
                t = ("goto", t[1])
            else:
                t = (k,)
            bs.append((st, t, tuple(b["p"])))
        self._vec_macro(bs)
        self._blocks = bs
        self._skip_trace()

    @staticmethod
    def _vec_macro(bs):
        """vec![a, b]: the array written into the fresh box is the value."""
        box = set()
        for i, (st, t, p) in enumerate(bs):
            if t[0] == "call" and t[1][0] == "fn" and t[1][1].n == "alloc::boxed::Box::new_uninit" and not t[3][1] and t[4] is not None:
                box.add(t[3][0])
        if not box:
            return
        init = set()
        for i, (st, t, p) in enumerate(bs):
            for j, (pl, rv, sp) in enumerate(st):
                if pl[0] in box and len(pl[1]) == 3 and pl[1][0] == "*" and rv[0] == "agg" and rv[1][0] == "array":
                    st[j] = ((pl[0], ()), rv, sp)
                    init.add(pl[0])
        for i, (st, t, p) in enumerate(bs):
            if t[0] == "call" and t[1][0] == "fn" and t[1][1].n == "alloc::boxed::Box::new_uninit" and t[3][0] in init:
                bs[i] = (st, ("goto", t[4]), p)

    def succ(self, i):
        t = self._blocks[i][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3]]
        return []

    def _skip_trace(self):
        """Replace the branches inside tracing / debug_assert macros by a jump to their post-dominator."""
        bs = self._blocks
        cand = [
            i
            for i, (st, t, p) in enumerate(bs)
            if t[0] == "switch" and len(p) > 1 and is_trace_mac(p[1])
        ]
        if not cand:
            return
        n = len(bs)
        EXIT = n
        succ = [self.succ(i) for i in range(n)]
        # diverging blocks (panic of debug_assert) are ignored for post-dominance
        live = set()
        pred = defaultdict(list)
        for i in range(n):
            for j in succ[i]:
                pred[j].append(i)
        work = [i for i in range(n) if bs[i][1][0] == "ret"]
        live.update(work)
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in live:
                    live.add(p)
                    work.append(p)
        # forward reachability from 0
        reach = {0}
        work = [0]
        while work:
            x = work.pop()
            for y in succ[x]:
                if y not in reach:
                    reach.add(y)
                    work.append(y)
        nodes = [i for i in range(n) if i in live and i in reach]
        order = []
        seen = set()

        def dfs(s):
            stack = [(s, iter(pred[s] if s != EXIT else [i for i in nodes if bs[i][1][0] == "ret"]))]
            seen.add(s)
            while stack:
                v, it = stack[-1]
                for w in it:
                    if w in seen or w not in live or w not in reach:
                        continue
                    seen.add(w)
                    stack.append((w, iter(pred[w])))
                    break
                else:
                    order.append(v)
                    stack.pop()

        dfs(EXIT)
        num = {v: i for i, v in enumerate(order)}
        ipd = {EXIT: EXIT}
        changed = True
        rpo = list(reversed(order))
        while changed:
            changed = False
            for v in rpo:
                if v == EXIT:
                    continue
                ss = [s for s in succ[v] if s in num]
                if bs[v][1][0] == "ret":
                    ss = [EXIT]
                new = None
                for s in ss:
                    if s not in ipd:
                        continue
                    if new is None:
                        new = s
                    else:
                        a, b = new, s
                        while a != b:
                            while num[a] < num[b]:
                                a = ipd[a]
                            while num[b] < num[a]:
                                b = ipd[b]
                        new = a
                if new is not None and ipd.get(v) != new:
                    ipd[v] = new
                    changed = True
        for i in cand:
            if i not in ipd:
                continue
            tgt = ipd[i]
            st, t, p = bs[i]
            if p[1].startswith("tracing::instrument"):
                # a region that awaits the instrumented body must be kept: take one of the two branches
                reg = set()
                work = [s for s in succ[i]]
                while work:
                    x = work.pop()
                    if x == tgt or x in reg or x not in live:
                        continue
                    reg.add(x)
                    work.extend(succ[x])
                polls = any(
                    bs[x][1][0] == "call"
                    and bs[x][1][1][0] == "fn"
                    and bs[x][1][1][1].n == "core::future::future::Future::poll"
                    for x in reg
                )
                if polls:
                    # choose the branch without Instrumented if visible; both run the same coroutine
                    bs[i] = (st, ("goto", t[3]), p)
                    continue
            if tgt == EXIT:
                continue
            bs[i] = (st, ("goto", tgt), p)


class Crate:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.name = d["crate"]
        self.tys = d["tys"]
        self.fns = [Fn(b, self) for b in d["bodies"]]
        self.adts = {a["name"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.traits = {t["name"]: t for t in d["traits"]}
        self.stolen = d["stolen"]


def _head(t):
    if not isinstance(t, str):
        return t
    return t.lstrip("&").split("<", 1)[0]


def _errty(t):
    """E of `Result<T, E>`."""
    if not isinstance(t, str) or _head(t).rsplit("::", 1)[-1] != "Result" or not t.endswith(">"):
        return None
    d, a = 0, t[t.index("<") + 1 : -1]
    for i, ch in enumerate(a):
        if ch in "<([":
            d += 1
        elif ch in ")]" or ch == ">" and a[i - 1] != "-":
            d -= 1
        elif ch == "," and d == 0:
            return a[i + 1 :].strip()
    return None


class Program:
    def __init__(self, paths):
        self.crates = [Crate(p) for p in paths]
        self.by_uid = {}
        self.by_name = defaultdict(list)
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.children = defaultdict(list)
        for c in self.crates:
            for f in c.fns:
                self.by_uid[f.uid] = f
                self.by_name[f.name].append(f)
                if f.name.startswith("<") and " as " in f.name:
                    a = f.name[1:].split(" as ", 1)[0] + f.name[f.name.index(">::") + 1:]
                    self.by_name[a].append(f)
                if f.kind != "fn" and f.parent:
                    self.children[f.parent].append(f.uid)
            self.adts.update(c.adts)
            self.impls += c.impls
            self.traits.update(c.traits)
        # trait method name -> impl uids
        self.impl_of = defaultdict(list)
        for i in self.impls:
            if not i["trait"]:
                continue
            for n, u in i["items"]:
                m = n.rsplit("::", 1)[1]
                self.impl_of[i["trait"] + "::" + m].append(u)
        self._cg = None

    def fns(self):
        return self.by_uid.values()

    def froms(self, derived=False):
        """{(source type, target type): [From::from]} by exact type and by head."""
        r = getattr(self, "_froms", None)
        if r is None:
            r = (defaultdict(list), defaultdict(list))
            for f in self.by_uid.values():
                if f.kind == "fn" and f.name.endswith("core::convert::From>::from") and f.argc == 1:
                    k = (f.locals[1][0], f.locals[0][0])
                    for q in {k, (_head(k[0]), _head(k[1]))}:
                        r[1][q].append(f)
                        if not f.derived:
                            r[0][q].append(f)
            self._froms = r
        return r[1 if derived else 0]

    def find(self, suffix):
        """Functions whose normalized name equals or ends with `suffix` (on a `::` boundary)."""
        r = list(self.by_name.get(suffix, []))
        if r:
            return r
        out = []
        for n, fs in self.by_name.items():
            if n.endswith("::" + suffix) or (n.startswith("<") and n.endswith(suffix)):
                out += fs
        return out

    def one(self, suffix):
        r = self.find(suffix)
        if len(r) != 1:
            raise AnchorError("anchor %r: %d functions match" % (suffix, len(r)))
        return r[0]

    # ---- call graph --------------------------------------------------------
    def callees(self, fn):
        """uids of local functions that `fn` may call or reference (closures contained in it are separate)."""
        out = []
        for st, t, p in fn.blocks:
            ops = []
            for pl, rv, sp in st:
                if rv[0] == "use":
                    ops.append(rv[1])
                elif rv[0] == "agg":
                    ops += rv[2]
                    if rv[1][0] in ("closure", "coroutine"):
                        out.append(rv[1][1])
            if t[0] == "call":
                ops.append(t[1])
                ops += t[2]
            for o in ops:
                if o[0] == "fn":
                    out += self.targets(o[1])
        return out

    def targets(self, f):
        if f.ru and f.ru in self.by_uid:
            return [f.ru]
        if f.u in self.by_uid and not f.tr:
            return [f.u]
        if f.tr and not f.ru:
            m = f.u.rsplit("::", 1)[-1]
            r = list(self.impl_of.get(f.tr + "::" + m, []))
            if f.u in self.by_uid:
                r.append(f.u)
            return [x for x in r if x in self.by_uid]
        return []

    def callgraph(self):
        if self._cg is None:
            fw = {}
            bw = defaultdict(set)
            for f in self.fns():
                s = set(self.callees(f))
                fw[f.uid] = s
                for x in s:
                    bw[x].add(f.uid)
            self._cg = (fw, bw)
        return self._cg

    def reachable(self, roots):
        fw, _ = self.callgraph()
        seen = set(roots)
        w = list(roots)
        while w:
            x = w.pop()
            for y in fw.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return seen

    def root_fn(self, f):
        while f.kind != "fn" and f.parent in self.by_uid:
            f = self.by_uid[f.parent]
        return f


class AnchorError(Exception):
    pass


# calls that return (a view of) their first argument
IDENT = {
    "core::future::into_future::IntoFuture::into_future",
    "tracing::instrument::Instrument::instrument",
    "core::pin::Pin::new_unchecked",
    "core::pin::Pin::new",
    "core::pin::Pin::as_mut",
    "alloc::boxed::Box::pin",
    "alloc::boxed::Box::new",
    "futures_util::future::future::FutureExt::fuse",
    "futures_util::future::FutureExt::fuse",
    "core::clone::Clone::clone",
    "core::option::Option::as_ref",
    "core::option::Option::as_mut",
    "core::option::Option::as_deref",
    "core::option::Option::as_deref_mut",
    "core::option::Option::copied",
    "core::option::Option::cloned",
    "core::result::Result::as_ref",
    "core::result::Result::as_mut",
    "core::ops::deref::Deref::deref",
    "core::ops::deref::DerefMut::deref_mut",
    "core::convert::AsRef::as_ref",
    "core::borrow::Borrow::borrow",
    "alloc::borrow::ToOwned::to_owned",
    "core::iter::traits::collect::IntoIterator::into_iter",
    "core::mem::drop__never",
    "core::hint::must_use",
    "core::convert::identity",
    "alloc::boxed::box_assume_init_into_vec_unsafe",
    "alloc::slice::into_vec",
    "[T]::into_vec",
}
SPAWN = ("::spawn", "::spawn_local", "::spawn_blocking", "::spawn_task")


def is_ident(f):
    return f.n in IDENT


class Block:
    __slots__ = ("stmts", "term", "fn", "ctx", "ob", "pos", "orig")

    def __init__(self, fn, ctx, ob, pos):
        self.stmts = []
        self.term = None
        self.fn = fn
        self.ctx = ctx
        self.ob = ob
        self.pos = pos


class Inst:
    """One inlined instance of a body."""
    __slots__ = ("fn", "base", "parent", "site", "depth")

    def __init__(self, fn, base, parent, site, depth):
        self.fn = fn
        self.base = base
        self.parent = parent
        self.site = site
        self.depth = depth

    def stack(self):
        x = self
        out = []
        while x:
            out.append(x.fn.uid)
            x = x.parent
        return out


class IG:
    MAXB = 60000

    def __init__(self, prog, root, opaque=(), depth=14, inline=None, maybe_closures=True):
        """opaque: callable(Fn)->bool or iterable of name suffixes that are not inlined."""
        self.prog = prog
        self.root = root
        if callable(opaque):
            self.opaque = opaque
        else:
            op = tuple(opaque)
            self.opaque = lambda f: any(f.name == o or f.name.endswith("::" + o) for o in op)
        self.maxdepth = depth
        self.blocks = []
        self.lname = []  # per global local: (Inst, idx)
        self.defs = defaultdict(list)  # global local -> [(proj, rvalue | ('call', callinfo))]
        self.addr = set()
        self.calls = []  # (block id) of remaining call terminators
        self.enters = []  # (block, FnRef, args, callee Fn)
        self.maybe_closures = maybe_closures
        self.truncated = []
        self.insts = []
        inst = self._inst(root, None, None, 0)
        self.exit = self._newblock(root, inst, -1, (root.endline,))
        self.blocks[self.exit].term = ("exit",)
        self.retplace = (inst.base, ())
        self.entry = self._inline_body(inst, None, self.exit)
        self.rootinst = inst
        self._prune()
        self._reach = None
        self._expr_cache = {}
        self._atoms_cache = {}

    # ---- construction ------------------------------------------------------
    def _inst(self, fn, parent, site, depth):
        base = len(self.lname)
        inst = Inst(fn, base, parent, site, depth)
        for i in range(len(fn.locals)):
            self.lname.append((inst, i))
        self.insts.append(inst)
        return inst

    def _newlocal(self, inst):
        self.lname.append((inst, None))
        return len(self.lname) - 1

    def _newblock(self, fn, inst, ob, pos):
        if len(self.blocks) >= self.MAXB:
            raise AnchorError("inlined graph of %s exceeds %d blocks" % (self.root.name, self.MAXB))
        self.blocks.append(Block(fn, inst, ob, pos))
        return len(self.blocks) - 1

    def _gp(self, inst, p):
        b = inst.base
        proj = p[1]
        for e in proj:
            if e != "*" and e[0] == "i":
                proj = tuple(("i", e[1] + b) if (x != "*" and x[0] == "i") else x for x in proj)
                break
        return (p[0] + b, proj)

    def _go(self, inst, o):
        if o[0] in ("c", "m"):
            return (o[0], self._gp(inst, o[1]))
        return o

    def _grv(self, inst, r):
        k = r[0]
        if k == "use":
            return ("use", self._go(inst, r[1]))
        if k == "ref":
            return ("ref", r[1], self._gp(inst, r[2]))
        if k == "bin":
            return ("bin", r[1], self._go(inst, r[2]), self._go(inst, r[3]))
        if k == "un":
            return ("un", r[1], self._go(inst, r[2]))
        if k == "discr":
            return ("discr", self._gp(inst, r[1]), r[2], r[3])
        if k == "agg":
            return ("agg", r[1], tuple(self._go(inst, x) for x in r[2]))
        return r

    def _def(self, place, rv):
        self.defs[place[0]].append((place[1], rv))
        if rv[0] == "ref":
            if not any(e == "*" for e in rv[2][1]):
                self.addr.add(rv[2][0])

    def _add(self, blk, place, rv, sp):
        self.blocks[blk].stmts.append((place, rv, sp))
        self._def(place, rv)

    def _inline_body(self, inst, args, ret_blk, ret_place=None):
        """Create the blocks of `inst.fn`; returns its entry block id.  args: list of operands (global)."""
        fn = inst.fn
        bs = fn.blocks
        entry = self._newblock(fn, inst, -1, (fn.line,))
        if args is not None:
            for i, a in enumerate(args):
                self._add(entry, (inst.base + 1 + i, ()), ("use", a), (fn.line,))
        # reachable blocks in RPO
        order = []
        seen = set()

        def rpo():
            stack = [(0, iter(fn.succ(0)))]
            seen.add(0)
            while stack:
                v, it = stack[-1]
                for w in it:
                    if w not in seen:
                        seen.add(w)
                        stack.append((w, iter(fn.succ(w))))
                        break
                else:
                    order.append(v)
                    stack.pop()
            order.reverse()

        rpo()
        m = {b: self._newblock(fn, inst, b, bs[b][2]) for b in order}
        self.blocks[entry].term = ("goto", m[0])
        # statements first for all the blocks, so that resolution sees them
        for b in order:
            for pl, rv, sp in bs[b][0]:
                self._add(m[b], self._gp(inst, pl), self._grv(inst, rv), sp)
        for b in order:
            t = bs[b][1]
            B = self.blocks[m[b]]
            k = t[0]
            if k == "goto":
                B.term = ("goto", m[t[1]])
            elif k == "switch":
                B.term = ("switch", self._go(inst, t[1]), [(v, m[x]) for v, x in t[2]], m[t[3]], t[4])
            elif k == "drop":
                B.term = ("drop", self._gp(inst, t[1]), m[t[2]])
            elif k == "assert":
                B.term = ("goto", m[t[3]])
            elif k == "ret":
                if ret_place is not None:
                    self._add(m[b], ret_place, ("use", ("m", (inst.base, ()))), bs[b][2])
                B.term = ("goto", ret_blk)
            elif k == "call":
                self._call(inst, m[b], t, m)
            else:
                B.term = ("dead",)
        return entry

    def resolve(self, op, depth=0):
        """Follow single definitions of an operand to its origin: ('agg',..)/('call',..)/('fn',..)/None."""
        if depth > 40:
            return None
        if op[0] == "fn":
            return op
        if op[0] not in ("c", "m"):
            return None
        return self.resolve_place(op[1], depth)

    def resolve_place(self, pl, depth=0):
        if depth > 40:
            return None
        l, proj = pl
        proj = tuple(e for e in proj if e != "*")
        ds = [d for d in self.defs.get(l, []) if d[0] == ()]
        if len(ds) != 1:
            # several defs are fine if there is one aggregate coroutine/closure
            return None
        rv = ds[0][1]
        if rv[0] == "use":
            o = rv[1]
            if o[0] in ("c", "m"):
                return self.resolve_place((o[1][0], o[1][1] + proj), depth + 1)
            return o if not proj else None
        if rv[0] == "ref":
            return self.resolve_place((rv[2][0], rv[2][1] + proj), depth + 1)
        if rv[0] == "agg":
            if not proj:
                return (rv, l)
            e = proj[0]
            rest = proj[1:]
            if e[0] == "v":
                if not rest:
                    return None
                e = rest[0]
                rest = rest[1:]
            if e[0] == "f" and e[3] < len(rv[2]):
                o = rv[2][e[3]]
                if o[0] in ("c", "m"):
                    return self.resolve_place((o[1][0], o[1][1] + rest), depth + 1)
                return o if not rest else None
            return None
        if rv[0] == "callr":
            f = rv[1]
            if is_ident(f) and rv[2]:
                o = rv[2][0]
                if o[0] in ("c", "m"):
                    return self.resolve_place((o[1][0], o[1][1] + proj), depth + 1)
            return (rv, l)
        return None

    def _callee(self, f):
        if f.ru and f.ru in self.prog.by_uid:
            return self.prog.by_uid[f.ru]
        if not f.tr and f.u in self.prog.by_uid:
            return self.prog.by_uid[f.u]
        return None

    def _from_of(self, inst, f):
        """`Into::into` is `From::from` of the target type."""
        tys = inst.fn.crate.tys
        if not f.a or len(f.a) < 2 or not all(isinstance(i, int) and i < len(tys) for i in f.a[:2]):
            return None
        t, u = tys[f.a[0]], tys[f.a[1]]
        idx = self.prog.froms()
        cs = idx.get((t, u)) or idx.get((_head(t), _head(u))) or []
        return cs[0] if len(cs) == 1 else None

    NOINLINE = (
        "core::cmp::", "core::fmt::", "core::hash::", "alloc::string::ToString", "serde", "core::error::",
    )

    def _can(self, inst, fn):
        if inst.depth >= self.maxdepth:
            self.truncated.append(fn.name)
            return False
        if fn.uid in inst.stack():
            return False
        if self.opaque(fn):
            return False
        if fn.derived:
            return False
        return True

    def _call(self, inst, blk, t, m):
        _, fo, args, dest, target, line = t
        B = self.blocks[blk]
        fo = self._go(inst, fo)
        args = [self._go(inst, a) for a in args]
        dest = self._gp(inst, dest)
        tgt = m[target] if target is not None else None
        sp = B.pos
        if fo[0] == "fn":
            f = fo[1]
        else:
            f = None
        if tgt is None:
            B.term = ("dead", f, args)
            if f is not None:
                B.orig = ("call", f, args, dest, None, line)
            return
        if f is None:
            # call through a local (fn pointer)
            r = self.resolve(fo)
            if r and r[0] == "fn":
                f = r[1]
            else:
                B.term = ("call", None, args, dest, tgt, line)
                self.defs[dest[0]].append((dest[1], ("callr", None, tuple(args))))
                return
        if len(sp) > 1 and is_trace_mac(sp[1]) and not (
            f.n == "core::future::future::Future::poll" or is_ident(f)
        ):
            # plumbing of the tracing macros
            if not self._interesting_args(args):
                B.term = ("goto", tgt)
                self.defs[dest[0]].append((dest[1], ("other",)))
                return
        if f.n == "core::future::future::Future::poll" and args:
            r = self.resolve(args[0])
            if r and r[0] != "fn" and r[0][0] == "agg" and r[0][1][0] == "coroutine":
                cu = r[0][1][1]
                cf = self.prog.by_uid.get(cu)
                if cf is not None and self._can(inst, cf):
                    ci = self._inst(cf, inst, (inst.fn, line), inst.depth + 1)
                    tmp = self._newlocal(inst)
                    after = self._newblock(inst.fn, inst, -2, sp)
                    self._add(after, dest, ("agg", ("adt", "core::task::poll::Poll", "Ready", ("0",)), (("m", (tmp, ())),)), sp)
                    self.blocks[after].term = ("goto", tgt)
                    e = self._inline_body(ci, [("m", (r[1], ())), ("k", "resume", 0, None)], after, (tmp, ()))
                    B.term = ("enter", f, args, e, cf)
                    self.enters.append((blk, f, args, cf))
                    return
            tmp = self._newlocal(inst)
            after = self._newblock(inst.fn, inst, -2, sp)
            self._add(after, dest, ("agg", ("adt", "core::task::poll::Poll", "Ready", ("0",)), (("m", (tmp, ())),)), sp)
            self.blocks[after].term = ("goto", tgt)
            org = None
            if r and r[0] != "fn" and r[0][0] == "callr":
                org = r[0]
            # coroutines handed to the awaited combinator run here
            blk2 = self._maybe(inst, blk, org[2] if org else [], sp, line) if org else blk
            B2 = self.blocks[blk2]
            B2.term = ("await", org, args, (tmp, ()), after, line)
            self.defs[tmp].append(((), ("await", org, args[0])))
            return
        if is_ident(f) and args:
            cal = self._callee(f)
            # local Deref/Clone impls with a body are still views of their argument unless derived
            if f.n not in ("core::clone::Clone::clone",) or cal is None or cal.derived or True:
                if cal is not None and not cal.derived and f.n in (
                    "core::ops::deref::Deref::deref",
                    "core::ops::deref::DerefMut::deref_mut",
                    "core::convert::AsRef::as_ref",
                    "core::clone::Clone::clone",
                ) and self._can(inst, cal):
                    pass  # inline the local impl below
                else:
                    B.term = ("ident", f, args, dest, tgt, line)
                    self.defs[dest[0]].append((dest[1], ("callr", f, tuple(args))))
                    return
        if f.n in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call"):
            r = self.resolve(args[0])
            cf = None
            selfop = args[0]
            if r and r[0] == "fn":
                cf = self._callee(r[1])
                tup = self.resolve(args[1])
                if cf is not None and tup and tup[0] != "fn" and tup[0][0] == "agg" and self._can(inst, cf):
                    self._inl(inst, blk, f, cf, list(tup[0][2]), dest, tgt, line)
                    return
            elif r and r[0] != "fn" and r[0][0] == "agg" and r[0][1][0] == "closure":
                cf = self.prog.by_uid.get(r[0][1][1])
                tup = self.resolve(args[1])
                if cf is not None and tup and tup[0] != "fn" and tup[0][0] == "agg" and self._can(inst, cf):
                    self._inl(inst, blk, f, cf, [("m", (r[1], ()))] + list(tup[0][2]), dest, tgt, line)
                    return
        if f.n == "core::ops::try_trait::FromResidual::from_residual" and f.r and "Result" in f.r and tgt is not None:
            if self._residual(inst, blk, t, f, args, dest, tgt, line, sp):
                return
        cal = self._callee(f)
        if cal is None and f.n == "core::convert::Into::into":
            cal = self._from_of(inst, f)
        if cal is not None and f.tr and f.tr.startswith(self.NOINLINE):
            cal = None
        if cal is not None and self._can(inst, cal) and cal.argc == len(args):
            self._inl(inst, blk, f, cal, args, dest, tgt, line)
            return
        # opaque call
        blk2 = blk
        if self.maybe_closures:
            blk2 = self._maybe_call(inst, blk, f, args, sp, line)
        self.blocks[blk2].term = ("call", f, args, dest, tgt, line)
        self.defs[dest[0]].append((dest[1], ("callr", f, tuple(args))))

    def _interesting_args(self, args):
        for a in args:
            r = self.resolve(a)
            if r and r[0] != "fn" and r[0][0] == "agg" and r[0][1][0] in ("closure", "coroutine"):
                return True
        return False

    def _inl(self, inst, blk, f, cal, args, dest, tgt, line):
        ci = self._inst(cal, inst, (inst.fn, line), inst.depth + 1)
        B = self.blocks[blk]
        e = self._inline_body(ci, args, tgt, dest)
        B.term = ("enter", f, args, e, cal)
        self.enters.append((blk, f, args, cal))

    def _residual(self, inst, blk, t, f, args, dest, tgt, line, sp):
        """`?` on a Result: the error is kept, or converted by the From impl of the target error type."""
        src, dst = t[2][0], t[3]
        if src[0] not in ("c", "m") or src[1][1] or dst[1]:
            return False
        e, u = _errty(inst.fn.locals[src[1][0]][0]), _errty(inst.fn.locals[dst[0]][0])
        if e is None or u is None:
            return False
        pay = ("m", (args[0][1][0], tuple(args[0][1][1]) + (("v", "Err"), ("f", "core::result::Result", "0", 0))))
        mk = ("adt", "core::result::Result", "Err", ("0",))
        if e == u:
            self._add(blk, dest, ("agg", mk, (pay,)), sp)
            self.blocks[blk].term = ("goto", tgt)
            return True
        idx = self.prog.froms(True)
        cs = idx.get((e, u)) or idx.get((_head(e), _head(u))) or []
        if len(cs) != 1 or cs[0].uid in inst.stack() or inst.depth >= self.maxdepth or self.opaque(cs[0]):
            return False
        tmp = self._newlocal(inst)
        after = self._newblock(inst.fn, inst, -2, sp)
        self._add(after, dest, ("agg", mk, (("m", (tmp, ())),)), sp)
        self.blocks[after].term = ("goto", tgt)
        self._inl(inst, blk, f, cs[0], [pay], (tmp, ()), after, line)
        return True

    def _maybe_call(self, inst, blk, f, args, sp, line):
        """Closures passed to an opaque combinator may run (0 or 1 times) before it returns."""
        if any(s in f.n for s in SPAWN):
            return blk
        return self._maybe(inst, blk, args, sp, line, coroutines=False, f=f)

    # closures of these run exactly if the receiver is the given variant, with its payload: (variant, position)
    RUNS = {
        "core::option::Option": {
            "map": ("Some",), "and_then": ("Some",), "inspect": ("Some",), "is_some_and": ("Some",), "filter": ("Some",), "is_none_or": ("Some",),
            "map_or": (None, "Some"), "map_or_else": ("None", "Some"), "ok_or_else": ("None",), "or_else": ("None",), "unwrap_or_else": ("None",),
        },
        "core::result::Result": {
            "map": ("Ok",), "and_then": ("Ok",), "inspect": ("Ok",), "is_ok_and": ("Ok",),
            "map_or": (None, "Ok"), "map_or_else": ("Err", "Ok"), "map_err": ("Err",), "inspect_err": ("Err",), "or_else": ("Err",),
            "unwrap_or_else": ("Err",), "is_err_and": ("Err",),
        },
    }

    def _hint(self, f, args, i):
        """When the i-th argument, a closure, runs."""
        if f is None or not args:
            return None
        head, _, name = f.n.rpartition("::")
        if name == "then" and i == 1 and "bool" in head:
            return ("val", args[0])
        vs = self.RUNS.get(head, {}).get(name)
        if vs is None or i < 1 or i > len(vs) or vs[i - 1] is None or args[0][0] not in ("c", "m"):
            return None
        return ("is", args[0][1], head, vs[i - 1])

    def _maybe(self, inst, blk, args, sp, line, coroutines=True, f=None):
        for i, a in enumerate(args):
            r = self.resolve(a)
            if not r:
                continue
            cf = None
            cargs = []
            if r[0] == "fn":
                cf = self._callee(r[1])
                if cf is None:
                    continue
                cargs = [("k", "?", 0, None)] * cf.argc
            elif r[0][0] == "agg" and r[0][1][0] == "closure":
                cf = self.prog.by_uid.get(r[0][1][1])
                if cf is None:
                    continue
                cargs = [("m", (r[1], ()))] + [("k", "?", 0, None)] * (cf.argc - 1)
            elif coroutines and r[0][0] == "agg" and r[0][1][0] == "coroutine":
                cf = self.prog.by_uid.get(r[0][1][1])
                if cf is None:
                    continue
                cargs = [("m", (r[1], ())), ("k", "resume", 0, None)]
            if cf is None or not self._can(inst, cf):
                continue
            hint = self._hint(f, args, i)
            if hint and hint[0] == "is" and hint[3] != "None":
                off = 0 if r[0] == "fn" else 1
                if cf.argc == off + 1:
                    cargs[off] = ("m", (hint[1][0], tuple(hint[1][1]) + (("v", hint[3]), ("f", hint[2], "0", 0))))
            nxt = self._newblock(inst.fn, inst, -3, sp)
            tmp = self._newlocal(inst)
            ci = self._inst(cf, inst, (inst.fn, line), inst.depth + 1)
            e = self._inline_body(ci, cargs, nxt, (tmp, ()))
            self.blocks[blk].term = ("maybe", e, nxt, cf, hint)
            blk = nxt
        return blk

    # ---- graph ---------------------------------------------------------------
    def succs(self, b):
        t = self.blocks[b].term
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k in ("call", "ident"):
            return [t[4]]
        if k == "await":
            return [t[4]]
        if k == "enter":
            return [t[3]]
        if k == "maybe":
            return [t[1], t[2]]
        return []

    def _prune(self):
        seen = {self.entry}
        w = [self.entry]
        while w:
            x = w.pop()
            for y in self.succs(x):
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        self.live = seen

    # ---- expressions ----------------------------------------------------------
    def local_desc(self, l):
        inst, i = self.lname[l]
        if i is None:
            return ("tmp", None, None, None)
        ty, head, nm = inst.fn.locals[i]
        return (inst.fn.name, nm, head, ty)

    GROW = ("push", "insert", "extend", "push_back", "push_front", "append", "extend_from_slice", "push_str")

    def _mutplace(self, op, d=0):
        """The place an operand borrows mutably."""
        if op[0] not in ("c", "m") or d > 12:
            return None
        l, proj = op[1]
        if [e for e in proj if e != "*"]:
            return None
        ds = [x for x in self.defs.get(l, []) if not x[0]]
        if len(ds) != 1:
            return None
        rv = ds[0][1]
        if rv[0] == "ref":
            q = rv[2]
            if not [e for e in q[1] if e != "*"]:
                r = self._mutplace(("c", (q[0], ())), d + 1)
                return r if r is not None else q
            return q
        if rv[0] == "use":
            return self._mutplace(rv[1], d + 1)
        if rv[0] == "callr" and rv[1] is not None and is_ident(rv[1]) and rv[2]:
            return self._mutplace(rv[2][0], d + 1)
        return None

    def grown(self):
        """{local: [(field path, added operands)]} of collections filled by push/insert/extend."""
        r = getattr(self, "_grown", None)
        if r is None:
            r = defaultdict(list)
            for B in self.blocks:
                t = B.term
                if t[0] == "call" and t[1] is not None and t[1].n.rsplit("::", 1)[-1] in self.GROW and len(t[2]) > 1:
                    pl = self._mutplace(t[2][0])
                    if pl is not None:
                        r[pl[0]].append((tuple(e for e in pl[1] if e != "*"), t[2][1:]))
            self._grown = r
        return r

    def atoms(self, op, limit=4000):
        """Backward data slice of an operand: the set of fields, callees, constants, arguments it derives from."""
        out = set()
        seen = set()
        work = []

        def push_place(pl):
            l, proj = pl
            flds = tuple(e for e in proj if e != "*")
            work.append((l, flds))

        def push(o):
            if o[0] in ("c", "m"):
                push_place(o[1])
            elif o[0] == "k":
                out.add(("k", o[1]))
                if o[3]:
                    out.add(("kd", o[3]))
            elif o[0] == "fn":
                out.add(("fn", o[1].n))

        push(op)
        n = 0
        while work:
            it = work.pop()
            if it in seen:
                continue
            seen.add(it)
            n += 1
            if n > limit:
                out.add(("limit",))
                break
            l, proj = it
            for e in proj:
                if e[0] == "f":
                    out.add(("f", e[1], e[2]))
                elif e[0] == "v":
                    out.add(("v", e[1]))
            inst, i = self.lname[l]
            if inst is self.rootinst and i is not None and 1 <= i <= inst.fn.argc:
                out.add(("arg", i, inst.fn.locals[i][2]))
            for gp, added in self.grown().get(l, ()):
                k = min(len(gp), len(proj))
                if gp[:k] == proj[:k]:
                    for o in added:
                        push(o)
            for dproj, rv in self.defs.get(l, []):
                dp = tuple(e for e in dproj if e != "*")
                # is this def relevant for proj?
                fl = tuple(e for e in proj if e[0] == "f")
                dl = tuple(e for e in dp if e[0] == "f")
                k = min(len(fl), len(dl))
                if fl[:k] != dl[:k]:
                    continue
                rest = fl[len(dl):] if len(fl) > len(dl) else ()
                # keep the raw tail (with variants) for projections through uses
                if not dl:
                    tail = proj
                else:
                    tail = rest
                kk = rv[0]
                if kk == "use":
                    o = rv[1]
                    if o[0] in ("c", "m"):
                        q = (o[1][0], tuple(e for e in o[1][1] if e != "*") + tail)
                        work.append(q)
                    else:
                        push(o)
                elif kk == "ref":
                    work.append((rv[2][0], tuple(e for e in rv[2][1] if e != "*") + tail))
                elif kk == "bin":
                    out.add(("bin", rv[1]))
                    push(rv[2])
                    push(rv[3])
                elif kk == "un":
                    out.add(("un", rv[1]))
                    push(rv[2])
                elif kk == "discr":
                    push_place(rv[1])
                    out.add(("discr", rv[2]))
                elif kk == "agg":
                    ak = rv[1]
                    sub = [e for e in tail if e[0] == "f"]
                    if ak[0] == "adt":
                        out.add(("agg", ak[1], ak[2]))
                    vs = [e for e in tail if e[0] == "v"]
                    if ak[0] == "adt" and vs and tail[0][0] == "v" and tail[0][1] != ak[2]:
                        continue
                    if sub:
                        e = sub[0]
                        # remaining projection after the first field
                        j = tail.index(e)
                        r2 = tail[j + 1:]
                        names = ak[3] if ak[0] == "adt" else None
                        idx = None
                        if names is not None and e[2] in names:
                            idx = names.index(e[2])
                        elif e[3] < len(rv[2]):
                            idx = e[3]
                        if idx is not None and idx < len(rv[2]):
                            o = rv[2][idx]
                            if o[0] in ("c", "m"):
                                work.append((o[1][0], tuple(x for x in o[1][1] if x != "*") + r2))
                            else:
                                push(o)
                    else:
                        for o in rv[2]:
                            push(o)
                elif kk == "callr":
                    f = rv[1]
                    if f is not None:
                        if is_ident(f):
                            o = rv[2][0] if rv[2] else None
                            if o is not None and o[0] in ("c", "m"):
                                work.append((o[1][0], tuple(x for x in o[1][1] if x != "*") + tail))
                            elif o is not None:
                                push(o)
                            continue
                        if f.n == "core::ops::try_trait::Try::branch" and rv[2] and rv[2][0][0] in ("c", "m"):
                            o = rv[2][0]
                            tl = tail
                            if len(tl) >= 2 and tl[0][0] == "v":
                                isres = f.r is None or "Result" in f.r
                                adt = "core::result::Result" if isres else "core::option::Option"
                                if tl[0][1] == "Continue":
                                    tl = (("v", "Ok" if isres else "Some"), ("f", adt, "0", 0)) + tl[2:]
                                else:
                                    tl = tl[2:]
                            work.append((o[1][0], tuple(x for x in o[1][1] if x != "*") + tl))
                            continue
                        for nn in f.names():
                            out.add(("c", nn))
                    for o in rv[2]:
                        push(o)
                elif kk == "await":
                    org = rv[1]
                    out.add(("await",))
                    if org is not None and org[1] is not None:
                        for nn in org[1].names():
                            out.add(("c", nn))
                        for o in org[2]:
                            push(o)
                    else:
                        push(rv[2])
        return frozenset(out)

    def expr(self, op, depth=7):
        """Expression tree of an operand (single definitions followed)."""
        if op[0] == "k":
            return ("k", op[1], op[3])
        if op[0] == "fn":
            return ("fn", op[1].n)
        if op[0] not in ("c", "m"):
            return ("?",)
        return self.pexpr(op[1], depth)

    def pexpr(self, pl, depth=7):
        pl = (pl[0], tuple(e for e in pl[1] if e != "*"))
        key = (pl, depth)
        c = self._expr_cache.get(key)
        if c is not None:
            return c
        self._expr_cache[key] = ("rec",)
        r = self._pexpr(pl, depth)
        self._expr_cache[key] = r
        return r

    def _wrap(self, base, proj):
        for e in proj:
            if e == "*":
                continue
            if e[0] == "f":
                if e[1] == "core::task::poll::Poll":
                    continue
                base = ("field", base, e[1], e[2])
            elif e[0] == "v":
                if e[1] in ("Ready",):
                    continue
                base = ("var", base, e[1])
            else:
                base = ("idx", base)
        return base

    def _pexpr(self, pl, depth):
        l, proj = pl
        inst, i = self.lname[l]
        if depth <= 0:
            return ("...",)
        ds = self.defs.get(l, [])
        full = [d for d in ds if not [e for e in d[0] if e != "*"]]
        if not full:
            if i is not None and 1 <= i <= inst.fn.argc:
                return self._wrap(("arg", i, inst.fn.locals[i][2], inst.fn.locals[i][1]), proj)
            return self._wrap(("local", l, self.local_desc(l)[1]), proj)
        outs = []
        if inst is self.rootinst and i is not None and 1 <= i <= inst.fn.argc and any(not d[0] for d in full):
            # a parameter that is also assigned
            outs.append(self._wrap(("arg", i, inst.fn.locals[i][2], inst.fn.locals[i][1]), proj))
        for dproj, rv in full:
            outs.append(self._rvexpr(rv, proj, depth))
        u = []
        for o in outs:
            if o not in u and o != ("never",):
                u.append(o)
        if not u:
            return ("never",)
        if len(u) == 1:
            return u[0]
        return ("phi", tuple(u[:24]))

    def _rvexpr(self, rv, pj, depth):
        kk = rv[0]
        if kk == "use":
            o = rv[1]
            if o[0] in ("c", "m"):
                return self.pexpr((o[1][0], o[1][1] + pj), depth)
            return self._wrap(self.expr(o, depth), pj)
        if kk == "ref":
            return self.pexpr((rv[2][0], rv[2][1] + pj), depth)
        if kk == "agg":
            ak = rv[1]
            if pj:
                e = pj[0]
                rest = pj[1:]
                if e[0] == "v":
                    if ak[0] == "adt" and ak[2] != e[1]:
                        return ("never",)
                    if not rest:
                        return self._wrap(("agg", ak[:4], ()), pj)
                    e = rest[0]
                    rest = rest[1:]
                if e[0] == "f":
                    names = ak[3] if ak[0] == "adt" else None
                    idx = names.index(e[2]) if names is not None and e[2] in names else e[3]
                    if idx < len(rv[2]):
                        o = rv[2][idx]
                        if o[0] in ("c", "m"):
                            return self.pexpr((o[1][0], o[1][1] + rest), depth)
                        return self._wrap(self.expr(o, depth), rest)
            return ("agg", ak[:4] if ak[0] == "adt" else ak[:2], tuple(self.expr(o, depth - 1) for o in rv[2]))
        if kk == "callr":
            f = rv[1]
            if f is None:
                return self._wrap(("call", "?", (), None), pj)
            if is_ident(f) and rv[2]:
                o = rv[2][0]
                if o[0] in ("c", "m"):
                    return self.pexpr((o[1][0], o[1][1] + pj), depth)
                return self._wrap(self.expr(o, depth), pj)
            if f.n == "core::ops::try_trait::Try::branch" and len(pj) >= 2 and pj[0] == ("v", "Continue") and rv[2]:
                isres = f.r is None or "Result" in f.r
                o = rv[2][0]
                if o[0] in ("c", "m"):
                    adt = "core::result::Result" if isres else "core::option::Option"
                    return self.pexpr(
                        (o[1][0], o[1][1] + (("v", "Ok" if isres else "Some"), ("f", adt, "0", 0)) + pj[2:]), depth
                    )
            return self._wrap(("call", f.n, tuple(self.expr(a, depth - 1) for a in rv[2]), f.r), pj)
        if kk == "await":
            org = rv[1]
            if org is not None and org[1] is not None:
                return self._wrap(("await", org[1].n, tuple(self.expr(a, depth - 1) for a in org[2])), pj)
            return self._wrap(("await", "?", (self.expr(rv[2], depth - 1),)), pj)
        if kk == "bin":
            if pj and rv[1].endswith("WithOverflow"):
                pj = pj[1:]
            return self._wrap(("bin", rv[1].replace("WithOverflow", ""), self.expr(rv[2], depth - 1), self.expr(rv[3], depth - 1)), pj)
        if kk == "un":
            return self._wrap(("un", rv[1], self.expr(rv[2], depth - 1)), pj)
        if kk == "discr":
            return ("discr", self.pexpr(rv[1], depth - 1), rv[2])
        return self._wrap(("?",), pj)

    # ---- conditions -------------------------------------------------------------
    def cond_of(self, b):
        """For a switch block: list of (label_target, [facts]) where fact = (kind, ...)."""
        t = self.blocks[b].term
        assert t[0] == "switch"
        op = t[1]
        return op

    def where(self, b, span=None):
        B = self.blocks[b]
        ln = (span or B.pos)[0]
        return "%s:%s" % (B.fn.file, ln)

    def chain(self, b):
        """Inlining chain of a block, for reports."""
        x = self.blocks[b].ctx
        out = []
        while x is not None:
            out.append(x.fn.name.replace("openraft::", "") + (("@%d" % x.site[1]) if x.site else ""))
            x = x.parent
        return " <- ".join(out)


def fmt(e, d=0):
    """Readable expression."""
    if d > 10:
        return "…"
    k = e[0]
    if k == "k":
        return str(e[1])
    if k == "arg":
        return str(e[2] or "arg%d" % e[1])
    if k == "local":
        return str(e[2] or "_%d" % e[1])
    if k == "field":
        return "%s.%s" % (fmt(e[1], d + 1), e[3])
    if k == "var":
        return "(%s as %s)" % (fmt(e[1], d + 1), e[2])
    if k in ("call", "await"):
        n = e[1]
        n = n.rsplit("::", 1)[-1]
        return "%s%s(%s)" % ("await " if k == "await" else "", n, ", ".join(fmt(a, d + 1) for a in e[2]))
    if k == "bin":
        return "(%s %s %s)" % (fmt(e[2], d + 1), e[1], fmt(e[3], d + 1))
    if k == "un":
        return "%s(%s)" % (e[1], fmt(e[2], d + 1))
    if k == "discr":
        return "discr(%s)" % fmt(e[1], d + 1)
    if k == "agg":
        n = e[1][2] if e[1][0] == "adt" else e[1][0]
        return "%s{%s}" % (n, ", ".join(fmt(a, d + 1) for a in e[2]))
    if k == "phi":
        return "phi(%s)" % " | ".join(fmt(a, d + 1) for a in e[1])
    if k == "idx":
        return fmt(e[1], d + 1) + "[]"
    return str(k)
