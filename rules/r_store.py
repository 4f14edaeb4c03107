"""The bundled stores: memstore, rocksstore, sledstore (P30)."""
from common import *
from r_life import XD, dsub
from r_metrics import DS, between
from r_repl import succs
from r_snap import var_defs
from r_start import walk

STORES = ("memstore", "rocksstore", "sledstore")
DISK = STORES[1:]
LOGDEL = ("delete_range_cf", "delete_cf")
PERSIST = ("put_cf", "delete_range_cf", "delete_cf", "merge_cf", "DB::write", "Tree::insert", "Tree::remove", "Tree::apply_batch", "Tree::clear", "transaction")
ARG = lambda f: lambda q: q[0] == "field" and q[2] == "^" and q[3] == f
FLD = lambda *n: lambda q: q[0] == "field" and q[3] in n
CALL = lambda *n: lambda q: q[0] == "call" and nm(q[1], n)
ITEM = lambda q: q[0] == "call" and nm(q[1], ("next", "Iterator::next"))


def find(c, crate, name):
    for f in c.P("stores").fns():
        if f.uid.startswith("openraft_%s::{impl" % crate) and f.uid.endswith("}::" + name):
            return f
    return None


def root(c, crate, name):
    f = find(c, crate, name)
    c.ok(f is not None, "present:%s::%s" % (crate, name), "the store has no %s" % name)
    return None if f is None else c.g(f, setname="stores", opaque=("id_to_bin",))


def each(c, names, stores=STORES):
    for crate in stores:
        for n in names:
            g = root(c, crate, n)
            if g is not None:
                yield crate, n, g


def bases(g, op, d=10):
    return g.expr(op, d)


def tree(e):
    """The name of the column family, tree or guarded field an expression refers to."""
    for q in walk(e):
        if q[0] == "call" and nm(q[1], ("cf_handle", "open_tree")):
            for a in q[2]:
                if a[0] == "k":
                    return a[1].strip('b"')
    for q in walk(e):
        if q[0] == "await" and nm(q[1], ("write", "read", "RwLock::write", "RwLock::read")):
            a = q[2][0]
            while a[0] == "field":
                if a[3] not in ("0",):
                    return a[3]
                a = a[1]
    return None


def const(e):
    for q in walk(e):
        if q[0] == "k":
            return q[1].strip('b"')
    return None


def generics(g, b):
    """The type arguments of the inlined functions a block belongs to."""
    inst = g.ig.blocks[b].ctx
    ents = [B.term for B in g.ig.blocks if B.term[0] == "enter"]
    out = []
    while inst is not None and inst.parent is not None:
        for t in ents:
            if isinstance(t[3], int) and g.ig.blocks[t[3]].ctx is inst and t[1] is not None:
                tys = inst.parent.fn.crate.tys
                out += [tys[i] for i in t[1].a if isinstance(i, int) and i < len(tys)]
        inst = inst.parent
    return out


def slot(g, s, cf, key):
    """Where a value is kept: the tree and the key (through an associated constant: the type that has it)."""
    k = const(key) or fmt(key)
    if "KEY" in k:
        k = "/".join(t for t in generics(g, s.b) if "meta::" in t) or k
    return (tree(cf), k)


class Put:
    __slots__ = ("s", "to", "key", "val", "kop", "vop")

    def __init__(self, g, s, to, kop, vop):
        self.s, self.to, self.kop, self.vop = s, to, kop, vop
        self.key = g.expr(kop, 16) if kop is not None else None
        self.val = g.expr(vop, 24) if vop is not None else None


def puts(g):
    """Everything stored under a key."""
    out = []
    for s in g.calls("put_cf"):
        a = s.args()
        out.append(Put(g, s, tree(g.expr(a[1], 8)), a[2], a[3]))
    for s in g.calls("Tree::insert", "TransactionalTree::insert", "Batch::insert", "BTreeMap::insert", "HashMap::insert"):
        a = s.args()
        out.append(Put(g, s, tree(g.expr(a[0], 8)), a[1], a[2]))
    return out


def gwrites(g):
    """Assignments through a write guard: (site, field, value)."""
    out = []
    for b in sorted(g._live()):
        for i, st in enumerate(g.ig.blocks[b].stmts):
            pl = st[0]
            if not isinstance(pl, tuple) or len(pl) != 2 or pl[1] != ("*",):
                continue
            for q in walk(g.expr(("c", (pl[0], ())), 8)):
                if q[0] == "await" and nm(q[1], ("write", "RwLock::write")) and q[2] and q[2][0][0] == "field":
                    s = Site(g.x, b, i, st)
                    out.append((s, q[2][0][3], g.value(s, 24)))
                    break
    for s in g.calls("Option::replace", "Option::insert", "mem::replace"):
        a = s.args()
        for q in walk(g.expr(a[0], 8)):
            if q[0] == "await" and nm(q[1], ("write", "RwLock::write")) and q[2] and q[2][0][0] == "field":
                out.append((s, q[2][0][3], g.expr(a[1], 24)))
                break
    return out


def oks(g):
    return ret_ok(g)


def stores(g):
    """Writes of whole values: (site, slot, value, destination)."""
    out = [(s, (f, f), v) for s, f, v in gwrites(g)]
    for p in puts(g):
        if nm(calln(g, p.s), ("put_cf", "Tree::insert", "TransactionalTree::insert")):
            i = 1 if nm(calln(g, p.s), ("put_cf",)) else 0
            out.append((p.s, slot(g, p.s, g.expr(p.s.args()[i], 8), p.key), p.val))
    return out


def calln(g, s):
    t = g.ig.blocks[s.b].term
    return t[1].n if t[0] in ("call", "ident", "enter") else ""


def loads(g):
    """Reads of whole values: (predicate on expressions, slot, site)."""
    out = []
    for s in g.calls("get_cf", "Tree::get", "TransactionalTree::get"):
        i = 1 if nm(calln(g, s), ("get_cf",)) else 0
        out.append((s, slot(g, s, g.expr(s.args()[i], 8), g.expr(s.args()[i + 1], 8))))
    for s in g.awaits("read", "write", "RwLock::read", "RwLock::write"):
        t = g.ig.blocks[s.b].term
        e = g.expr(t[1][2][0], 6)
        while e[0] == "field" and e[3] == "0":
            e = e[1]
        if e[0] == "field":
            out.append((s, (e[3], e[3])))
    return out


def flushes(g):
    out = [s for s in g.calls("flush_wal", "DBCommon::flush_wal") if not any(a[0] == "k" and a[1] == "false" for a in map(g.expr, s.args()[1:]))]
    return out + g.awaits("flush_async", "Tree::flush_async", "Db::flush_async") + g.calls("Tree::flush", "Db::flush", "DBCommon::flush", "flush_opt")


def persists(g):
    return g.calls(*PERSIST)


FALLIBLE = PERSIST + ("flush_wal", "Tree::flush", "DBCommon::flush", "get_cf", "Tree::get", "Tree::last", "Tree::first")


def done(g):
    """Sites at which success is reported before the end."""
    return [s for s in g.calls("io_completed", "IOFlushed::io_completed") if not isagg(peel1(g.expr(s.args()[1], 6)), ("Result",), ("Err",))]


def peel1(e):
    return e


def tail(g, s):
    """Is the result of this call or await itself returned?"""
    t = g.ig.blocks[s.b].term
    n = t[1].n if t[0] != "await" else t[1][1].n
    for a in alts(g.expr(("c", g.ig.retplace), 10)):
        while a[0] == "call" and nm(a[1], ("map_err", "map", "Result::map_err", "Result::map")) and a[2] or isagg(a, ("Poll",)) and a[2]:
            a = a[2][0]
        if a[0] in ("call", "await") and a[1] == n:
            return True
    return False


def exits(g, s=None):
    """Ends that report success.  An unknown result that may be the one of the given call is not one of them."""
    out = set(oks(g))
    if s is not None and tail(g, s):
        out = {n for n, v in g.ret_variants().items() if v == "Ok"}
    for s in done(g):
        out |= set(g.nodes(s))
    return out


def result_of(s, g):
    """Fact: the result of this call or await is Ok."""
    t = g.ig.blocks[s.b].term
    n = t[1].n if t[0] != "await" else t[1][1].n
    k = "await" if t[0] == "await" else "call"
    return ism("Result", ("Ok",), DS(lambda q: q[0] == k and (q[1] == n or q[1].endswith(n.split("::")[-1]))))


@prop("P30")
def durable(c):
    """what is reported stored is stored"""
    c.begin("flushed", "on disk, a vote, entries, a truncation and an installed snapshot are flushed before they are reported")
    n = 0
    for crate, name, g in each(c, ("save_vote", "append", "truncate", "install_snapshot"), DISK):
        fl = flushes(g)
        ws = persists(g)
        c.ok(bool(ws), "writes:%s::%s" % (crate, name), "nothing is written")
        for w in ws:
            n += 1
            c.okpath(g, g.exit_from(succs(g, w), also=fl, exits=exits(g)), "flushed:%s::%s" % (crate, name), "success is reported without a flush after the write at %s" % w.desc())
        for f in fl:
            n += 1
            c.okpath(g, g.exit_from(succs(g, f), match=result_of(f, g)(g), exits=exits(g, f)), "checked:%s::%s" % (crate, name), "success is reported though the flush at %s failed" % f.desc())
    c.floor(n, "writes that must be flushed", 8)
    c.begin("error", "a failed operation of the database is not reported as success")
    n = 0
    for crate, name, g in each(c, ("save_vote", "append", "truncate", "purge", "apply", "install_snapshot", "build_snapshot", "read_vote", "get_log_state", "get_current_snapshot"), DISK):
        for w in g.calls(*FALLIBLE):
            t = g.ig.blocks[w.b].term
            ty = g.ig.tyof(t[3][0]) if hasattr(g.ig, "tyof") else ""
            n += 1
            c.okpath(g, g.exit_from(succs(g, w), match=result_of(w, g)(g), exits=exits(g, w)), "error:%s::%s:%s" % (crate, name, t[1].n.split("::")[-1]), "success is reported though %s failed" % w.desc())
    c.floor(n, "database operations", 30)
    c.begin("appended", "appending stores every entry under its index before it is reported done, and always reports")
    n = 0
    for crate, name, g in each(c, ("append",)):
        ns = [s for s in g.calls("next", "Iterator::next") if dsub(ARG("entries"), g.expr(s.args()[0], 8))]
        c.ok(bool(ns), "loop:%s" % crate, "the entries are not iterated")
        ps = [p for p in puts(g) if dsub(ITEM, p.val) and dsub(ARG("entries"), p.val)]
        for p in ps:
            n += 1
            k = idx(p.key) or next((q for q in walk(p.key) if q[0] == "call" and nm(q[1], ("max", "min", "saturating_add", "saturating_sub", "wrapping_add", "wrapping_sub"))), None)
            c.ok(k is None or is_index(k), "key:%s" % crate, "an entry is stored under %s" % fmt(p.key)[:120])
        for x in ns:
            n += 1
            es = some_edges(g, x)
            c.ok(bool(es), "next:%s" % crate, "the loop over the entries cannot be followed")
            c.okpath(g, g.exit_from(es, also=[p.s for p in ps], exits=exits(g) | {m for y in ns for m in g.nodes(y)}), "entry:%s" % crate, "an entry is not stored")
        bs = [p.s for p in ps if nm(calln(g, p.s), ("Batch::insert",))]
        for b in bs:
            c.okpath(g, g.exit_from(succs(g, b), also=g.calls("apply_batch", "Tree::apply_batch"), exits=exits(g)), "batch:%s" % crate, "the entries are not written")
        for s in done(g):
            n += 1
            c.okpath(g, between(g, none_start(g), ns, s), "after:%s" % crate, "entries are reported stored before all of them are")
            c.okpath(g, next((g.x.path_to(m) for w in persists(g) + [p.s for p in ps] for m in g.nodes(w) if m in g.x.reach(succs(g, s))), None), "last:%s" % crate, "something is written after success was reported")
        c.okpath(g, g.exit_from([0], also=g.calls("io_completed", "IOFlushed::io_completed"), exits=oks(g)), "reported:%s" % crate, "append returns without reporting that the entries are stored")
        for p in ps:
            c.ok(p.to in ("log", "logs") or p.to is None, "tree:%s" % crate, "entries are stored in %s" % p.to)
    c.floor(n, "appends", 9)


def none_start(g):
    return [0]


def some_edges(g, x):
    """The edges on which the iterator advanced by the call had an item."""
    ln = g.expr(x.args()[0], 6)
    out = []
    for nn, (b, env) in enumerate(g.x.nodes):
        if g.ig.blocks[b].term[0] != "switch":
            continue
        for y, lab in g.x.succ[nn]:
            if any(f[0] == "is" and f[2].endswith("Option") and f[3] == {"Some"} and isnext(g.expr(f[1], 7), ln) for f in g.nfacts(nn, lab)):
                out.append(y)
    return out


def isnext(e, it):
    return e[0] == "call" and nm(e[1], ("next", "Iterator::next")) and (e[2][0] == it or fmt(e[2][0]) == fmt(it))


def idx(e):
    """The index encoded in a key, or None if its form is unknown."""
    for q in walk(e):
        if q[0] == "call" and nm(q[1], ("id_to_bin",)):
            return q[2][0]
    for q in walk(e):
        if q[0] == "call" and nm(q[1], ("to_be_bytes",)):
            return q[2][0]
    if e[0] in ("field", "bin", "k"):
        return e
    return None


def is_index(e):
    e = peel(e)
    if e[0] == "call" and nm(e[1], ("index", "get_index", "RaftLogId::index", "RaftLogId::get_index")):
        return True
    return e[0] == "field" and e[3] == "index"


@prop("P30")
def votes(c):
    """the vote"""
    c.begin("vote", "saving a vote stores the given vote, and reading it returns what was stored")
    for crate in STORES:
        g, h = root(c, crate, "save_vote"), root(c, crate, "read_vote")
        if g is None or h is None:
            continue
        ws = [(s, sl) for s, sl, v in stores(g) if dsub(ARG("vote"), v)]
        c.okpath(g, g.exit_from([0], also=[s for s, sl in ws], exits=oks(g)), "saved:%s" % crate, "save_vote succeeds without storing the vote")
        for s, sl, v in stores(g):
            c.ok(dsub(ARG("vote"), v), "value:%s" % crate, "save_vote stores %s" % fmt(v)[:120])
        rs = {sl for s, sl in loads(h)}
        c.ok(rs == {sl for s, sl in ws}, "slot:%s" % crate, "the vote is stored at %s and read from %s" % (sorted({sl for s, sl in ws}), sorted(rs)))
        returns(c, h, ("get", "get_cf", "Tree::get", "read", "RwLock::read", "write", "RwLock::write"), "read:%s" % crate, "the vote read")


def returns(c, g, names, key, what):
    """What is returned comes from the named reads; nothing is returned only when there is nothing."""
    read = lambda q: q[0] in ("call", "await") and nm(q[1], names)
    vs = alts(g.expr(("c", g.ig.retplace), 16))
    c.ok(any(dsub(read, a) for a in vs), key, "%s is not what is stored: %s" % (what, "; ".join(fmt(a)[:80] for a in vs)))
    for s in g.cons("Result", "Ok"):
        a = peel(g.expr(s.ops()[0], 14))
        if isagg(a, ("Option",), ("None",)) and not dsub(read, a):
            c.guard(g, s, ism("Option", ("None",), XD(lambda e: plain(e, read), 12)), key + ":none", "nothing is returned as %s though something is stored" % what)


def plain(e, read):
    """The value read itself, not a part of it."""
    if read(e):
        return True
    if e[0] == "phi":
        return any(plain(a, read) for a in e[1])
    if e[0] == "agg":
        return any(plain(a, read) for a in e[2])
    if e[0] == "field" and e[3] != "0":
        return False
    if e[0] in ("field", "var"):
        return plain(e[1], read)
    return e[0] in ("call", "await") and bool(e[2]) and plain(e[2][0], read)


BASE0 = ("range", "BTreeMap::range", "Tree::range")


def bounds(e):
    """(low, high, high inclusive) of a range expression; low/high None: unbounded.  None: unknown form."""
    if e[0] == "agg" and e[1][0] == "adt":
        n = e[1][1].split("::")[-1]
        o = e[2]
        if n == "RangeFrom":
            return (o[0], None, False)
        if n == "RangeTo":
            return (None, o[0], False)
        if n == "RangeToInclusive":
            return (None, o[0], True)
        if n == "Range":
            return (o[0], o[1], False)
        if n == "RangeFull":
            return (None, None, False)
    if e[0] == "call" and nm(e[1], ("RangeInclusive::new", "new")) and len(e[2]) == 2:
        return (e[2][0], e[2][1], True)
    return None


def removals(c, g):
    """Ranges of the log that are removed: (site, bounds, items removed?)."""
    out = []
    for s in g.calls("delete_range_cf"):
        a = s.args()
        out.append((s, tree(g.expr(a[1], 8)), (g.expr(a[2], 10), g.expr(a[3], 10), False), None))
    for s in g.calls(*BASE0):
        a = s.args()
        out.append((s, tree(g.expr(a[0], 8)), bounds(g.expr(a[1], 14)), s))
    for s in g.calls("BTreeMap::split_off"):
        a = s.args()
        out.append((s, tree(g.expr(a[0], 8)), ("split", g.expr(a[1], 10)), None))
    for s in g.calls("BTreeMap::retain"):
        a = s.args()
        op = None
        for q in walk(g.expr(a[1], 6)):
            if q[0] == "agg" and q[1][0] == "closure":
                f = c.P("stores").by_uid.get(q[1][1])
                h = c.g(f, setname="stores")
                for e in alts(h.expr(("c", h.ig.retplace), 10)):
                    e = peel(e)
                    if e[0] == "bin" and len(e) > 3 or e[0] == "call" and len(e[2]) == 2:
                        l, r = e[2:4] if e[0] == "bin" else e[2]
                        n = (e[1] if e[0] == "bin" else e[1].split("::")[-1]).lower()
                        key = lambda x: dsub(lambda z: z[0] == "arg" and z[1] == 2, x)
                        op = n if key(l) and not key(r) else {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(n) if key(r) else None
        out.append((s, tree(g.expr(a[0], 8)), ("retain", op), None))
    return out


MAXK = lambda e: e[0] == "k" and ("MAX" in e[1] or e[1].startswith("18446744073709551615"))
ZERO = lambda e: e[0] == "k" and e[1].startswith("0")


def given(e):
    """The index of the log id given to the operation."""
    e = peel(e)
    return e[0] == "field" and e[3] == "index" and dsub(ARG("log_id"), e)


def given1(e):
    e = peel(e)
    return e[0] == "bin" and e[1].startswith("Add") and any(given(x) for x in e[2:]) and any(x[0] == "k" and x[1].startswith("1_") or x[0] == "k" and x[1] == "1" for x in e[2:])


def removed_all(c, g, crate, name, s):
    """Every item of the range is removed and the removal is applied."""
    rng = g.value(s, 16)
    srcs = lambda e: dsub(lambda q: q[0] == "call" and nm(q[1], BASE0), e)
    ns = [x for x in g.calls("next", "Iterator::next") if srcs(g.expr(x.args()[0], 12))]
    rs = [x for x in g.calls("Batch::remove", "Tree::remove", "BTreeMap::remove", "delete_cf") if dsub(ITEM, g.expr(x.args()[1] if not nm(calln(g, x), ("delete_cf",)) else x.args()[2], 12))]
    c.ok(bool(ns) and bool(rs), "items:%s::%s" % (crate, name), "the entries in the range are not removed")
    for x in ns:
        es = some_edges(g, x)
        c.okpath(g, g.exit_from(es, also=rs + [p for p in g.calls("Vec::push") if dsub(ITEM, g.expr(p.args()[1], 10))], exits=oks(g) | {m for y in ns for m in g.nodes(y)}), "each:%s::%s" % (crate, name), "an entry in the range is kept")
        bad = [q[1] for q in walk(g.expr(x.args()[0], 14)) if q[0] == "call" and nm(q[1], ("skip", "take", "step_by", "filter", "skip_while", "take_while", "filter_map", "rev_skip"))]
        c.ok(not bad, "all:%s::%s" % (crate, name), "only some of the entries in the range are removed (%s)" % ", ".join(bad))
    for x in g.calls("next", "Iterator::next"):
        if g.calls("Vec::push") and not srcs(g.expr(x.args()[0], 12)):
            c.okpath(g, g.exit_from(some_edges(g, x), also=rs, exits=oks(g) | set(g.nodes(x))), "each:%s::%s" % (crate, name), "an entry in the range is kept")
    for r in rs:
        if nm(calln(g, r), ("Batch::remove",)):
            c.okpath(g, g.exit_from(succs(g, r), also=g.calls("apply_batch", "Tree::apply_batch"), exits=oks(g)), "applied:%s::%s" % (crate, name), "the removal is not applied")
    return ns


@prop("P30")
def ranges(c):
    """truncating, purging and reading entries"""
    for name, text in (("truncate", "truncating removes exactly the entries from the given position on"), ("purge", "purging removes exactly the entries up to the given position, after recording it")):
        c.begin(name, text)
        n = 0
        for crate, _, g in each(c, (name,)):
            dels = []
            for s, to, bd, items in removals(c, g):
                n += 1
                key = "%s::%s" % (crate, name)
                c.ok(to in (None, "log", "logs"), "tree:" + key, "%s removes entries of %s" % (name, to))
                if bd is None:
                    c.notes.append("P30 %s: unrecognised range" % key)
                    dels.append(s)
                    continue
                if bd[0] == "split":
                    c.ok(given(bd[1]) if name == "truncate" else given1(bd[1]), "bounds:" + key, "the log is split at %s" % fmt(bd[1])[:100])
                    dels.append(s)
                    continue
                if bd[0] == "retain":
                    c.ok(bd[1] in (None, "lt" if name == "truncate" else "gt"), "bounds:" + key, "what is kept is %s the given position" % bd[1])
                    dels.append(s)
                    continue
                lo, hi, inc = bd
                lo = lo if lo is None else (idx(lo) or lo)
                hi = hi if hi is None else (idx(hi) or hi)
                if name == "truncate":
                    ok = lo is not None and given(lo) and (hi is None or MAXK(hi))
                else:
                    ok = (lo is None or ZERO(lo)) and hi is not None and (given(hi) if inc else given1(hi))
                c.ok(ok, "bounds:" + key, "%s removes [%s, %s%s" % (name, fmt(lo)[:60] if lo else "", fmt(hi)[:60] if hi else "", "]" if inc else ")"))
                dels.append(s)
                if items is not None:
                    dels += removed_all(c, g, crate, name, s)
            c.okpath(g, g.exit_from([0], also=dels, exits=oks(g)), "removed:%s::%s" % (crate, name), "%s succeeds without removing entries" % name)
            ws = stores(g)
            if name == "truncate":
                for s, sl, v in ws:
                    c.ok(False, "else:%s" % crate, "truncate also stores %s" % fmt(v)[:80])
                continue
            rec = [s for s, sl, v in ws if dsub(ARG("log_id"), v)]
            for s, sl, v in ws:
                c.ok(dsub(ARG("log_id"), v) and not isagg(peel(v), (), ("None",)), "record:%s" % crate, "purge records %s" % fmt(v)[:80])
            # what changes the log, rather than just looking at it
            muts = [x for x in g.calls("delete_range_cf", "BTreeMap::remove", "BTreeMap::split_off", "BTreeMap::retain", "apply_batch", "Tree::apply_batch", "Tree::remove")]
            for m in muts:
                c.precede(g, rec, m, "first:%s" % crate, "entries are removed before the purged position is recorded")
            c.ok(bool(muts), "muts:%s" % crate, "purge removes nothing")
            c.okpath(g, g.exit_from([0], also=rec, exits=oks(g)), "recorded:%s" % crate, "purge succeeds without recording the position")
        c.floor(n, "ranges of %s" % name, 3)
    c.begin("read", "reading a range returns exactly the stored entries in it, in order")
    n = 0
    for crate, name, g in each(c, ("try_get_log_entries",)):
        R = ARG("range")
        its = g.calls(*BASE0) + g.calls("iterator_cf")
        c.ok(bool(its), "source:%s" % crate, "no range of the log is read")
        for s in its:
            n += 1
            a = s.args()
            e = g.expr(a[-1], 16)
            c.ok(tree(g.expr(a[1] if nm(calln(g, s), ("iterator_cf",)) else a[0], 8)) in (None, "log", "logs"), "tree:%s" % crate, "entries are read from elsewhere")
            c.ok(not dsub(lambda q: q[0] == "agg" and q[1][0] == "adt" and q[1][-2 if len(q[1]) > 3 else 2] == "Reverse", e), "order:%s" % crate, "entries are read backwards")
            c.ok(dsub(R, e) or dsub(CALL("id_to_bin"), e), "bounds:%s" % crate, "the range read is %s" % fmt(e)[:120])
            exact = e[0] != "agg" and dsub(R, e) and not dsub(CALL("id_to_bin"), e)
            if exact:
                continue
            ks = g.calls("id_to_bin")
            sb = DS(CALL("start_bound", "RangeBounds::start_bound"))
            for k in ks:
                n += 1
                v = g.expr(k.args()[0], 8)
                var = next((q[2] for q in walk(v) if q[0] == "var" and q[2] in ("Included", "Excluded")), None)
                key = "start:%s:%s" % (crate, var)
                if var == "Included":
                    c.ok(peel2(v)[0] in ("field", "var"), key, "reading from x included starts at %s" % fmt(v)[:80])
                elif var == "Excluded":
                    c.ok(v[0] == "bin" and v[1].startswith("Add") and any(x[0] == "k" and x[1].startswith("1") for x in v[2:]), key, "reading from x excluded starts at %s" % fmt(v)[:80])
                else:
                    c.guard(g, k, ism("Bound", ("Unbounded",), ANY), key, "a bounded read starts at %s" % fmt(v)[:60])
                    c.ok(ZERO(v), key, "an unbounded read starts at %s" % fmt(v)[:60])
            inr = bcallm(("contains", "RangeBounds::contains"), True, DS(R))
            pushes = g.calls("Vec::push")
            for p in pushes:
                n += 1
                c.guard(g, p, inr, "in:%s" % crate, "an entry outside of the range is returned")
                es = g.edges(inr(g))
                ns = g.calls("next", "Iterator::next")
                c.okpath(g, g.exit_from(es, also=pushes, exits=oks(g) | {m for y in ns for m in g.nodes(y)}), "every:%s" % crate, "an entry in the range is not returned")
            if not pushes:
                col = [x for x in g.calls("collect", "Iterator::collect", "try_collect")]
                for x in col:
                    n += 1
                    ch = [q[1].split("::")[-1] for q in walk(g.expr(x.args()[0], 20)) if q[0] == "call" and q[1].split("::")[-1] in ADAPT]
                    bad = [q for q in ch if q not in ("map", "take_while", "filter", "copied", "cloned", "inspect")]
                    c.ok(not bad, "chain:%s" % crate, "the entries read go through %s" % ", ".join(bad))
                    c.ok(any(q in ("take_while", "filter") for q in ch), "bounded:%s" % crate, "reading does not stop at the end of the range")
                c.ok(bool([x for x in g.calls("contains", "RangeBounds::contains")]), "contains:%s" % crate, "no entry is tested against the range")
        for s in g.calls("rev", "Iterator::rev", "pop", "Vec::pop", "Vec::insert", "VecDeque::push_front", "swap", "sort_by", "dedup", "reverse", "truncate", "Vec::truncate", "skip", "Iterator::skip"):
            c.ok(False, "shape:%s" % crate, "the entries read are changed at %s" % s.desc())
        if g.calls("Vec::push") and not g.calls("id_to_bin"):
            ns = g.calls("next", "Iterator::next")
            for x in ns:
                c.okpath(g, g.exit_from(some_edges(g, x), also=g.calls("Vec::push"), exits=oks(g) | {m for y in ns for m in g.nodes(y)}), "every:%s" % crate, "an entry in the range is not returned")
    c.floor(n, "reads", 8)
    c.begin("state", "the log state is the last purged position and the last entry, or the last purged position if there is none")
    n = 0
    for crate, name, g in each(c, ("get_log_state",)):
        h = root(c, crate, "purge")
        want = {sl for s, sl, v in stores(h) if dsub(ARG("log_id"), v)}
        got = {sl for s, sl in loads(g) if sl[1] not in ("log", "logs")}
        c.ok(got == want, "slot:%s" % crate, "the purged position is recorded at %s and read from %s" % (sorted(want), sorted(got)))
        last = CALL("next_back", "DoubleEndedIterator::next_back", "last", "Tree::last", "Iterator::last", "last_key_value", "BTreeMap::last_key_value", "next", "Iterator::next")
        purged = lambda q: q[0] in ("call", "await") and (nm(q[1], ("get_cf", "Tree::get")) or nm(q[1], ("read", "RwLock::read")) and dsub(FLD("last_purged_log_id"), q))
        for s in g.calls("next", "Iterator::next", "first", "Tree::first", "first_key_value"):
            e = g.expr(s.args()[0], 10)
            c.ok(nm(calln(g, s), ("next", "Iterator::next")) and (dsub(lambda q: q[0] == "agg" and len(q[1]) > 2 and q[1][2] == "End", e) or dsub(CALL("rev", "Iterator::rev"), e)), "last:%s" % crate, "the log state is taken from the first entry")
        nolast = ism("Option", ("None",), DS(last))
        for s in g.cons("LogState"):
            n += 1
            ep, el = g.expr(s.field("last_purged_log_id"), 20), g.expr(s.field("last_log_id"), 24)
            c.ok(dsub(purged, ep), "purged:%s" % crate, "the last purged position is %s" % fmt(ep)[:100])
            if not dsub(last, el) or isagg(peel(el), (), ("None",)):
                c.guard(g, s, nolast, "none:%s" % crate, "the last entry is ignored: %s" % fmt(el)[:80])
            some = g.guarded(s, ism("Option", ("Some",), DS(last))(g)) is None
            c.ok(some or dsub(purged, el), "fallback:%s" % crate, "the last position ignores the purged one")
            l, ds = var_defs(g, s.field("last_log_id"))
            for d in ds:
                v = g.value(d, 20)
                if not dsub(last, v):
                    c.guard(g, d, nolast, "prefer:%s" % crate, "the purged position replaces that of the last entry")
            for x in g.calls("min", "cmp::min", "Ord::min"):
                c.ok(False, "max:%s" % crate, "the smaller position is taken")
    c.floor(n, "log states", 3)


ADAPT = ("map", "take_while", "filter", "skip", "skip_while", "take", "step_by", "rev", "filter_map", "flat_map", "inspect", "copied", "cloned", "chain", "zip", "map_while")


def peel2(e):
    return peel(e)


def fieldname(e, n):
    """The value is the given part of the state machine's state: a field, or what is kept under that key."""
    return dsub(FLD(n), e) or dsub(lambda q: q[0] == "call" and nm(q[1], ("get", "Tree::get", "get_cf")) and any(a[0] == "k" and n in a[1] for a in q[2]), e)


def state_writes(g, n):
    """Writes of a part of the state: (site, value)."""
    out = []
    for b in sorted(g._live()):
        for i, st in enumerate(g.ig.blocks[b].stmts):
            pl = st[0]
            fs = [x for x in pl[1] if x != "*" and x[0] == "f"] if isinstance(pl, tuple) and len(pl) == 2 else []
            if fs and fs[-1][2] == n and g.lpath(pl)[0] == "field":
                out.append((Site(g.x, b, i, pl), g.value(Site(g.x, b, i, st), 20)))
    for p in puts(g):
        if p.key is not None and const(p.key) == n:
            out.append((p.s, p.val))
    return out


@prop("P30")
def applying(c):
    """applying entries"""
    c.begin("apply", "every entry is applied once, in order, recording its position and membership with its effects, and gets one response")
    n = 0
    for crate, name, g in each(c, ("apply",)):
        src = ARG("entries")
        ns = [s for s in g.calls("next", "Iterator::next") if dsub(src, g.expr(s.args()[0], 10))]
        c.ok(bool(ns), "loop:%s" % crate, "the entries are not iterated")
        ends_ = oks(g) | {m for y in ns for m in g.nodes(y)} | {m for y in g.calls("transaction") for m in g.nodes(y)}
        item = lambda e: dsub(ITEM, e) and dsub(src, e)
        pos = [(s, v) for s, v in state_writes(g, "last_applied_log")]
        mem = [(s, v) for s, v in state_writes(g, "last_membership")]
        dat = [p for p in puts(g) if p.key is not None and item(p.key) and item(p.val)]
        push = g.calls("Vec::push")
        for s, v in pos:
            n += 1
            c.ok(item(v) and dsub(lambda q: q[0] == "field" and q[3] == "log_id" or q[0] == "call" and nm(q[1], ("get_log_id", "RaftLogId::get_log_id")), v), "position:%s" % crate, "the applied position is set to %s" % fmt(v)[:100])
        is_mem = ism("EntryPayload", ("Membership",), DS(ITEM))
        is_norm = ism("EntryPayload", ("Normal",), DS(ITEM))
        for x in ns:
            es = some_edges(g, x)
            bad = [q[1] for q in walk(g.expr(x.args()[0], 14)) if q[0] == "call" and q[1].split("::")[-1] in ("skip", "take", "step_by", "filter", "skip_while", "take_while", "filter_map", "rev")]
            c.ok(not bad, "all:%s" % crate, "only some entries are applied, or in another order")
            for ss, k, msg in (([s for s, v in pos], "position", "an entry is applied without recording its position"), (push, "response", "an entry gets no response")):
                n += 1
                c.okpath(g, g.exit_from(es, also=ss, match=failed(g), exits=ends_), "%s:%s" % (k, crate), msg)
            for p in push:
                for q in push:
                    c.okpath(g, between(g, succs(g, p), ns, q), "once:%s" % crate, "an entry gets two responses")
        for fact, ws, k, msg in ((is_mem, [s for s, v in mem], "membership", "a membership entry is applied without recording the membership"), (is_norm, [p.s for p in dat], "data", "a request is applied without its effect")):
            n += 1
            es = g.edges(fact(g))
            c.ok(bool(es), "arm:%s:%s" % (k, crate), "entries of one kind are not handled")
            c.okpath(g, g.exit_from(es, also=ws, match=failed(g), exits=ends_), "%s:%s" % (k, crate), msg)
        for s, v in mem:
            n += 1
            c.guard(g, s, is_mem, "onlymember:%s" % crate, "the membership is replaced by an entry that has none")
            c.ok(dsub(lambda q: q[0] == "var" and q[2] == "Membership", v) and dsub(lambda q: q[0] == "field" and q[3] == "log_id" or q[0] == "call" and nm(q[1], ("get_log_id", "RaftLogId::get_log_id")), v), "stored:%s" % crate, "the membership recorded is %s" % fmt(v)[:120])
        for p in dat:
            n += 1
            ks = [q[3] for q in (peel(strip(p.key)), peel(strip(p.val))) if q[0] == "field"]
            c.ok(ks in (["key", "value"], ["client", "status"], []) or len(ks) == 1, "pair:%s" % crate, "a request stores %s" % ks)
        if crate == "sledstore":
            tx = g.calls("transaction")
            c.ok(len(tx) == 1, "tx:%s" % crate, "applying does not use one transaction")
            for s in g.calls("Tree::insert", "Tree::remove", "Tree::apply_batch"):
                c.ok(False, "outside:%s" % crate, "part of the state is written outside of the transaction at %s" % s.desc())
            for t in tx:
                e = g.expr(t.args()[0], 10)
                c.ok({"state_machine", "data"} <= {q[2][1][1].strip('"') for q in walk(e) if q[0] == "call" and nm(q[1], ("open_tree",)) and q[2][1][0] == "k"}, "trees:%s" % crate, "the transaction does not cover position and data")
    c.floor(n, "parts of applying", 18)
    c.begin("applied", "the applied state is the position and membership recorded")
    for crate, name, g in each(c, ("applied_state",)):
        vs = [a for a in alts(g.expr(("c", g.ig.retplace), 20)) if isagg(a, (), ()) or a[0] == "agg"]
        ts = [a for a in vs if a[1][0] == "tuple"]
        c.ok(bool(ts), "value:%s" % crate, "the applied state is %s" % fmt(g.expr(("c", g.ig.retplace), 8))[:100])
        for t in ts:
            c.ok(fieldname(t[2][0], "last_applied_log") and fieldname(t[2][1], "last_membership"), "parts:%s" % crate, "the applied state is %s" % fmt(t)[:160])


def strip(e):
    while e[0] == "call" and len(e[2]) == 1 and nm(e[1], ("as_bytes", "clone", "as_slice", "to_vec", "into_bytes", "as_str", "to_string", "to_owned")):
        e = e[2][0]
    return e


def newest(c, g):
    """Fact: the stored snapshot is not newer than the one that was built."""
    stored = lambda q: q[0] in ("call", "await") and (nm(q[1], ("get", "Tree::get", "get_cf")) and any(a[0] == "k" and "snapshot" in a[1] for a in q[2]) or nm(q[1], ("read", "write", "RwLock::read", "RwLock::write")) and dsub(FLD("current_snapshot"), q))

    def pos(e):
        if dsub(FLD("last_log_id"), e):
            return True
        for q in walk(e):
            if q[0] == "agg" and q[1][0] == "closure":
                f = c.P("stores").by_uid.get(q[1][1])
                if f is not None and dsub(FLD("last_log_id"), (lambda h: h.expr(("c", h.ig.retplace), 8))(c.g(f, setname="stores"))):
                    return True
        return False

    old = lambda e: dsub(stored, e) and pos(e)
    new = lambda e: not dsub(stored, e) and (fieldname(e, "last_applied_log") or dsub(FLD("last_log_id"), e))
    return orm(cmpm("le", XD(old, 20), XD(new, 20)), ism("Option", ("None",), XD(lambda e: dsub(stored, e) and not dsub(lambda q: q[0] == "call" and nm(q[1], ("filter",)), e), 16)))


def guard_locks(g, field=None):
    """Where exclusive locks are taken: (site, name of what is locked, local of the guard)."""
    out = []
    for s in g.awaits("write", "RwLock::write", "lock", "Mutex::lock"):
        t = g.ig.blocks[s.b].term
        n = lockname(g.expr(t[1][2][0], 6))
        out.append((s, n))
    for s in g.calls("Mutex::lock", "RwLock::write"):
        t = g.ig.blocks[s.b].term
        if any(a[0].b == s.b for a in out):
            continue
        if nm(t[1].n, ("Mutex::lock",)) and "std" in t[1].n:
            out.append((s, lockname(g.expr(s.args()[0], 6))))
    return out


def lockname(e):
    while e[0] in ("field", "call"):
        if e[0] == "field":
            if e[3] != "0":
                return e[3]
            e = e[1]
        else:
            e = e[2][0] if e[2] else ("?",)
    return None


@prop("P30")
def snapshots(c):
    """building, installing and returning snapshots"""
    STATE = ("sm", "state_machine")
    c.begin("build", "a snapshot has the state, position and membership of one moment, and is stored before it is returned unless a newer one is stored")
    n = 0
    locks = {}
    for crate, name, g in each(c, ("build_snapshot",)):
        ws = [(s, sl, v) for s, sl, v in stores(g) if sl[1] in ("snapshot", "current_snapshot")]
        ok = newest(c, g)
        for s, sl, v in ws:
            n += 1
            c.guard(g, s, ok, "newest:%s" % crate, "a snapshot that was built replaces a newer one installed meanwhile")
            c.ok(dsub(lambda q: isagg(q, ("SnapshotMeta",)), v) and not isagg(peel(v), (), ("None",)), "stored:%s" % crate, "what is stored as the snapshot is %s" % fmt(v)[:100])
            locks[crate] = {nme for l, nme in guard_locks(g) if g.must_precede([l], s) is None}
            rd = [l for l, x in loads(g) if x[1] in ("snapshot", "current_snapshot")]
            held = False
            for l, nme in guard_locks(g):
                if g.must_precede([l], s) is None and all(l.b == r.b or g.must_precede([l], r) is None for r in rd) and not released(g, l, s):
                    held = True
            c.ok(held, "atomic:%s" % crate, "a snapshot may be installed between the comparison with the stored snapshot and its replacement")
        c.okpath(g, g.exit_from([0], also=[s for s, sl, v in ws], match=NOTOLDER(c, g), exits=oks(g)), "kept:%s" % crate, "a snapshot is returned that is not stored")
        for s in g.cons("SnapshotMeta"):
            n += 1
            el, em = g.expr(s.field("last_log_id"), 20), g.expr(s.field("last_membership"), 20)
            c.ok(fieldname(el, "last_applied_log"), "position:%s" % crate, "the snapshot's position is %s" % fmt(el)[:100])
            c.ok(fieldname(em, "last_membership"), "membership:%s" % crate, "the snapshot's membership is %s" % fmt(em)[:100])
        for s in g.cons("Snapshot"):
            n += 1
            em, ed = g.expr(s.field("meta"), 24), g.expr(s.field("snapshot"), 24)
            c.ok(dsub(lambda q: isagg(q, ("SnapshotMeta",)), em), "meta:%s" % crate, "the snapshot returned has the meta data %s" % fmt(em)[:80])
            c.ok(dsub(lambda q: q[0] == "call" and nm(q[1], ("to_vec", "to_string")) and (dsub(FLD(*STATE), q) or dsub(lambda r: r[0] == "agg", q)), ed), "data:%s" % crate, "the snapshot returned has the data %s" % fmt(ed)[:80])
        # one moment: every part is read under one acquisition of the lock on the state
        acq = [s for s in g.awaits("read", "write", "RwLock::read", "RwLock::write") if lockname(g.expr(g.ig.blocks[s.b].term[1][2][0], 6)) in STATE]
        used = [s for s in acq if guard_used(g, s)]
        c.ok(len(used) <= 1, "moment:%s" % crate, "the state is read in %d separate moments" % len(used))
    c.floor(n, "snapshots built", 9)
    c.begin("install", "installing replaces the state by that of the snapshot and stores the snapshot under the given meta data")
    n = 0
    for crate, name, g in each(c, ("install_snapshot",)):
        data = lambda v: dsub(lambda q: q[0] == "call" and nm(q[1], ("from_slice", "from_str", "from_reader")) and dsub(ARG("snapshot"), q), v)
        ws = [(s, sl, v) for s, sl, v in stores(g) if sl[1] in ("snapshot", "current_snapshot")]
        for s, sl, v in ws:
            n += 1
            c.ok(dsub(ARG("meta"), v) and dsub(ARG("snapshot"), v), "stored:%s" % crate, "what is stored as the snapshot is %s" % fmt(v)[:100])
            mine = {nme for l, nme in guard_locks(g) if g.must_precede([l], s) is None and not released(g, l, s)}
            c.ok(bool(mine & locks.get(crate, set())), "lock:%s" % crate, "the snapshot is stored without excluding a snapshot builder")
        c.okpath(g, g.exit_from([0], also=[s for s, sl, v in ws], exits=oks(g)), "snapshot:%s" % crate, "installation succeeds without storing the snapshot")
        if crate == "sledstore":
            parts = [(k, [s for s, v in state_writes(g, k) if data(v)]) for k in ("last_applied_log", "last_membership")]
            parts.append(("data", [p.s for p in puts(g) if p.key is not None and data(p.key) and data(p.val)]))
            tx = g.calls("transaction")
            for k, ss in parts:
                n += 1
                c.ok(bool(ss), "state:%s:%s" % (crate, k), "the %s of the snapshot is not installed" % k)
                for s in ss:
                    c.ok(nm(calln(g, s), ("TransactionalTree::insert",)) and len(tx) == 1, "unit:%s:%s" % (crate, k), "position, membership and data are not replaced as a unit: %s" % s.desc())
            has = ism("Option", ("None",), XD(lambda e: data(e) and fieldname(e, "last_applied_log"), 16))
            for k, ss in parts[:2]:
                for t in tx:
                    c.ok(bool(txstart(g, t)), "body:%s" % crate, "the body of the transaction is not found")
                    c.okpath(g, g.exit_from(txstart(g, t), also=ss, match=orm(lambda g: failed(g), has)(g) if k == "last_applied_log" else failed(g), exits=set(g.nodes(t))), "all:%s:%s" % (crate, k), "the %s of the snapshot is not installed" % k)
            c.okpath(g, g.exit_from([0], also=tx, exits=oks(g)), "tx:%s" % crate, "installation succeeds without replacing the state")
            ns = [x for x in g.calls("next", "Iterator::next") if data(g.expr(x.args()[0], 12))]
            for x in ns:
                c.okpath(g, g.exit_from(some_edges(g, x), also=parts[2][1], match=failed(g), exits=oks(g) | {m for y in ns + tx for m in g.nodes(y)}), "each:%s" % crate, "part of the data is not installed")
        else:
            st = [s for s, f, v in gwrites(g) if f in STATE and data(v)] + [s for s in g.writes("RocksStateMachine", "sm") if data(g.value(s, 16))]
            n += 1
            c.okpath(g, g.exit_from([0], also=st, exits=oks(g)), "state:%s" % crate, "installation succeeds without replacing the state")
    c.floor(n, "installations", 6)
    c.begin("current", "the current snapshot is the stored one, and a restart restores the state machine from it")
    for crate, name, g in each(c, ("get_current_snapshot",)):
        b = root(c, crate, "build_snapshot")
        want = {sl for s, sl, v in stores(b) if sl[1] in ("snapshot", "current_snapshot")}
        i = root(c, crate, "install_snapshot")
        inst = {sl for s, sl, v in stores(i) if sl[1] in ("snapshot", "current_snapshot")}
        got = {sl for s, sl in loads(g)}
        c.ok(got == want == inst, "slot:%s" % crate, "the snapshot is stored at %s and %s and read from %s" % (sorted(want), sorted(inst), sorted(got)))
        returns(c, g, ("get", "get_cf", "Tree::get", "read", "RwLock::read", "write", "RwLock::write"), "read:%s" % crate, "the current snapshot")
        for s in g.cons("Snapshot"):
            em, ed = g.expr(s.field("meta"), 20), g.expr(s.field("snapshot"), 20)
            c.ok(dsub(FLD("meta"), em) and dsub(FLD("data"), ed), "parts:%s" % crate, "the current snapshot is %s with %s" % (fmt(em)[:60], fmt(ed)[:60]))
    f = next((f for f in c.P("stores").fns() if f.uid.endswith("::new") and "RocksStateMachine" in f.name), None)
    c.ok(f is not None, "restore", "no constructor of the state machine found")
    if f is not None:
        g = c.g(f, setname="stores", opaque=("id_to_bin",))
        st = [s for s in g.writes("RocksStateMachine", "sm") if dsub(CALL("from_slice"), g.value(s, 16))]
        snap = ism("Option", ("Some",), XD(lambda e: dsub(lambda q: q[0] == "call" and nm(q[1], ("get_cf",)) or q[0] in ("await", "call") and q[1].endswith("get_current_snapshot"), e), 16))
        es = [y for y in g.edges(snap(g))]
        c.ok(bool(st), "restored", "the state machine is not restored from the stored snapshot")
        last = outer(g, es)
        c.okpath(g, g.exit_from(last, also=st), "restored:all", "a stored snapshot is not restored")


def outer(g, es):
    """Edges in the root body only."""
    out = []
    for nn, (b, env) in enumerate(g.x.nodes):
        for y, lab in g.x.succ[nn]:
            if y in es and g.ig.blocks[b].term[0] == "switch" and g.ig.blocks[b].fn.uid.split("::{closure")[0] == g.ig.root.uid.split("::{closure")[0]:
                out.append(y)
    return out


def txstart(g, t):
    """Where the body of a transaction starts."""
    uids = {q[1][1] for a in t.args() for q in alts(g.expr(a, 6)) if q[0] == "agg" and q[1][0] == "closure"}
    return [m for B in g.ig.blocks if B.term[0] == "maybe" and B.term[3].uid in uids for m in g.x.bynode.get(B.term[1], [])]


def failed(g):
    """Fact: something failed."""
    return orm(ism("Result", ("Err",), ANY), ism("ControlFlow", ("Break",), ANY))(g)


def NOTOLDER(c, g):
    """Fact: a newer snapshot is stored already."""
    old = newest(c, g)(g)

    def f(fact):
        if fact[0] == "cmp":
            return old(fact[:5] + (not fact[5],)) if len(fact) == 6 else False
        if fact[0] == "val":
            return old((fact[0], fact[1], not fact[2]))
        return False

    return f


def released(g, l, s):
    """Can the guard taken at l be dropped before s is reached?"""
    t = g.ig.blocks[l.b].term
    gl = guard_locals(g, l)
    ds = []
    for b in g._live():
        t = g.ig.blocks[b].term
        if t[0] == "drop" and t[1][0] in gl or t[0] in ("call", "ident", "enter") and t[1] is not None and nm(t[1].n, ("mem::drop", "drop")) and any(a[0] == "m" and a[1][0] in gl for a in t[2]):
            ds.append(Site(g.x, b, TERM, None))
    for d in ds:
        t = g.ig.blocks[d.b].term
        if t[0] == "drop":
            mv = moves(g, t[1][0])
            if any(b == d.b for b in mv) or between(g, succs(g, l), [Site(g.x, b, TERM, None) for b in mv], d) is None:
                continue  # moved out before
        if any(n in g.x.reach(succs(g, l)) for n in g.nodes(d)) and between(g, succs(g, d), [l], s) is not None:
            return True
    return False


def moves(g, x):
    """Blocks in which a local, or a part of it, is moved out."""
    out = set()
    for b in g._live():
        B = g.ig.blocks[b]
        ops = [o for st in B.stmts for o in ([st[1][1]] if st[1][0] == "use" else st[1][2] if st[1][0] == "agg" else [])]
        if B.term[0] in ("call", "ident", "enter", "await"):
            ops += list(B.term[2])
        if any(o[0] == "m" and o[1][0] == x for o in ops):
            out.add(b)
    return out


def guard_locals(g, l):
    """The locals that hold the guard taken at l."""
    t = g.ig.blocks[l.b].term
    dest = t[3] if t[0] in ("call", "ident", "await") else None
    seen = {dest[0]} if dest else set()
    for _ in range(12):
        add = set()
        for b in g._live():
            B = g.ig.blocks[b]
            for st in B.stmts:
                rv = st[1]
                if rv[0] == "use" and rv[1][0] == "m" and rv[1][1][0] in seen and not st[0][1]:
                    add.add(st[0][0])
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[-1] in ("Poll", "Result", "Option") and any(o[0] == "m" and o[1][0] in seen for o in rv[2]):
                    add.add(st[0][0])
            if B.term[0] in ("call", "ident") and B.term[1] is not None and nm(B.term[1].n, ("unwrap", "expect", "Result::unwrap", "Result::expect")) and B.term[2] and B.term[2][0][0] == "m" and B.term[2][0][1][0] in seen:
                add.add(B.term[3][0])
        if add <= seen:
            break
        seen |= add
    return seen


def guard_used(g, l):
    """Is anything read through the guard taken at l?"""
    gl = guard_locals(g, l)
    for b in g._live():
        B = g.ig.blocks[b]
        for st in B.stmts:
            if st[1][0] == "ref" and st[1][2][0] in gl:
                return True
    return False
