"""C01, C02, C04, C05, C18, C19: adding entries and building the reader."""
import re

from .common import *
from .seek import frame, efield, order, result_kind
from ..base import CheckFailed, Unidentified
from ..roles import flat_fields
from . import rule

GO, GC, GN, GT, GI = ("G", "b_off"), ("G", "b_cd"), ("G", "b_n"), ("G", "b_total"), ("G", "b_item")
MAPTY = re.compile(r"IndexMap|HashMap|BTreeMap|Vec")
LOCAL, CENTRAL, END = 82, 74, 98   # fixed bytes of an entry's header+extra+descriptor, its directory header+extra, the end records

WHAT = ("Abstract interpretation of the builder's functions on arbitrary builders and entries. Builder::build is run as a fixpoint over its "
        "loop with specification counters (offset, directory size, entries) that advance at every entry pushed; what is stored is compared "
        "with them. Each adding call must add exactly the bytes of the entry's records and data, insert exactly once under the given name, "
        "or fail with the error of the violated condition and leave every field as it was. Assumed: EntryData::size() of one entry "
        "returns the same number every time.")


class BuilderRoles:
    def __init__(self, prog):
        self.prog = prog
        T = prog.types
        r = find(prog, "Builder", None, "size")
        self.ty = r["self_ty"]
        self.leaves = flat_fields(prog, self.ty)
        run = Run(prog, r)
        hit = None
        for o in run.outs:
            c = [p for p, t in self.leaves if T[t]["k"] == "int" and run.rd(o.st, p) == o.val]
            if len(c) != 1 or hit not in (None, c[0]):
                raise Unidentified("Builder::size does not return one stored number")
            hit = c[0]
        self.total = hit
        m = [p for p, t in self.leaves if "IndexMap" in T[t]["s"]]
        if len(m) != 1 or hit is None:
            raise Unidentified("entry map of the builder not identified")
        self.entries = m[0]
        mt = T[dict(self.leaves)[self.entries]]
        self.entry_ty = mt["args"][1]
        self.e_leaves = flat_fields(prog, self.entry_ty)
        d = [p for p, t in self.e_leaves if T[t]["k"] == "param"]
        if len(d) != 1:
            raise Unidentified("data of a builder entry not identified")
        self.e_data = d[0]

    def fname(self, p):
        n, ty = [], self.ty
        for i in p:
            f = self.prog.types[ty]["variants"][0]["f"][i]
            n.append(f["n"])
            ty = f["t"]
        return ".".join(n)


def roles_of(ctx):
    if not hasattr(ctx, "_broles"):
        ctx._broles = BuilderRoles(ctx.prog)
    return ctx._broles


def get(v, path):
    for i in path:
        if not isinstance(v, VAgg):
            return None
        v = v.f[i]
    return v


def size_of(eng, st, data):
    return eng.mk_sym(st, M.uf_name(eng, st, "data_size", [data]), eng.find_ty("u64"))


# ------------------------------------------------------------------ build
class BuildHooks(RunHooks):
    """counters of the specification, advanced at every entry that is put into the reader"""

    def __init__(self, ctx, total=None, item=None):
        super().__init__()
        self.ctx, self.item, self.pushes, self.items = ctx, item, [], 0

    def map_item_value(self, st, item):
        if self.item is not None and isinstance(item, VAgg) and len(item.f) == 2:
            return VAgg(item.ty, item.var, (item.f[0], self.item))
        return None

    def on_event(self, st, kind, **kw):
        eng, br = self.eng, roles_of(self.ctx)
        if kind in ("map_item", "map_end"):
            self.events.append((kind, st.copy(), kw))
        if kind == "map_end" and st.store.get(GT) is not None and self.item is None:
            st.assume(ge0(st.store[GT] - st.store[GO] - st.store[GC] - END))
            st._add_ge(st.store[GT] - st.store[GO] - END)
        if kind == "map_item":
            self.items += 1
            it = kw["item"]
            st.store[GI] = it
            # the recorded total covers this entry and all before it
            if isinstance(it, VAgg) and len(it.f) == 2 and st.store.get(GT) is not None and self.item is None:
                e = eng.expand(st, it.f[1]) if isinstance(it.f[1], VSym) else it.f[1]
                d = get(e, br.e_data)
                if d is not None:
                    nl = eng.as_seq(st, it.f[0]).length()
                    T, O, C, sz = st.store[GT], st.store[GO], st.store[GC], size_of(eng, st, d)
                    st.assume(ge0(T - O - C - END - nl - nl - LOCAL - CENTRAL - sz))
                    # consequences (all parts are at least zero)
                    st._add_ge((T - O - END - nl - LOCAL - sz))
                    st._add_ge((T - O - END))
                    st._add_ge((T - C - END - nl - CENTRAL))
                    st._add_ge((T - nl - LOCAL - sz))
        elif kind == "vec_push":
            v = kw["value"]
            if isinstance(v, VSym):
                v = eng.expand(st, v)
            if isinstance(v, VAgg) and v.ty == self.ctx.roles.entry_ty or isinstance(v, VAgg) and self.ctx.prog.types[v.ty].get("path") == self.ctx.prog.types[self.ctx.roles.entry_ty].get("path"):
                self.pushed(st, v, kw)

    def pushed(self, st, v, kw):
        eng, r, br = self.eng, self.ctx.roles, roles_of(self.ctx)
        self.pushes.append((st.copy(), v, kw))
        nl = eng.as_seq(st, get(v, r.e_name)).length()
        size = get(v, r.e_size)
        if GO in st.store and isinstance(size, Aff):
            st.store[GO] = st.store[GO] + nl + LOCAL + size
            st.store[GC] = st.store[GC] + nl + CENTRAL
            st.store[GN] = st.store[GN] + 1


def build_run(ctx):
    if not hasattr(ctx, "_build"):
        br = roles_of(ctx)

        def prep(run, eng, st):
            st.store[GO] = st.store[GC] = st.store[GN] = ZERO
            b = run.args[0]
            v = eng.expand(st, b) if isinstance(b, VSym) else b
            t = get(v, br.total)
            st.store[GT] = t
            st.assume(ge0(t - END))
            return [st]
        ctx._build = Run(ctx.prog, find(ctx.prog, "Builder", None, "build"), BuildHooks(ctx), prep)
    return ctx._build


@rule("C01", "C02", "C04", "C05", "C19")
def build(ctx, rep):
    prog, r, br = ctx.prog, ctx.roles, roles_of(ctx)
    run = build_run(ctx)
    eng = run.eng
    rep.explanation = (rep.explanation + " " + WHAT).strip()
    rep.analysed |= run.fns
    P = rep.prop
    for f, bb, why in run.losts:
        rep.undecided("path analysed to its end", f, why)
    if P == "C19":
        for f, w, span, s in run.panics:
            if eng.stale(s):
                continue
            if w.startswith("assert:overflow"):
                rep.judge(False if all(exact_val(x) for x in s.ge) and not eng_phi(s) else None, "no size sum overflows while building", "%s (%s)" % (f, w),
                          "reachable when %s" % "; ".join(map(str, s.ge))[:400])
        rep.ok("no size sum overflows while building", "Builder::build")
        return
    live = [x for x in run.h.pushes if not eng.stale(x[0])]
    for st, v, kw in live:
        it = st.store.get(GI)
        key = it.f[0] if isinstance(it, VAgg) and len(it.f) == 2 else None
        ent = it.f[1] if isinstance(it, VAgg) and len(it.f) == 2 else None
        if isinstance(ent, VSym):
            ent = eng.expand(st, ent)
        if P == "C02":
            off = get(v, r.e_off)
            rep.judge(verdict(st, eq0(off - st.store[GO])), "an entry's header offset is the number of bytes before it", "Builder::build",
                      "stored %s, emitted before %s" % (show(off), show(st.store[GO])))
        if P == "C05":
            ln = eng.as_seq(st, eng.read(st, kw["ref"].root, kw["ref"].path)).length() if isinstance(kw.get("ref"), VRef) else None
            nm = get(v, r.e_name)
            rep.judge(True if nm == key else (None if not exact_any(nm) else False), "entry i of the reader is entry i of the builder", "Builder::build: name",
                      "name %s, entry's key %s" % (show(nm), show(key)))
            evs = [k for k in ("next_back",)]
            if ln is not None:
                rep.judge(verdict(st, eq0(ln - st.store[GN])), "entry i of the reader is entry i of the builder", "Builder::build: place",
                          "pushed at %s, entry number %s" % (show(ln), show(st.store[GN])))
        if P in ("C01", "C04") and ent is not None:
            d = get(ent, br.e_data)
            size = get(v, r.e_size)
            rep.judge(True if size == size_of(eng, st, d) else verdict(st, eq0(size - size_of(eng, st, d))), "the announced data size is that of the entry's data", "Builder::build",
                      "stored %s" % show(size))
        if P == "C04" and ent is not None:
            for nm, a, b in (("name", get(v, r.e_name), key), ("data", get(v, r.e_data), get(ent, br.e_data))):
                rep.judge(True if a == b else (False if exact_any(a) else None), "a record's values are those of its own entry", "Builder::build: " + nm,
                          "%s, entry has %s" % (show(a), show(b)))
    for o in run.outs:
        st = o.st
        v = run.expand(st, o.val)
        g = lambda p: get(v, p)
        go, gc, gn = st.store[GO], st.store[GC], st.store[GN]
        w = "Builder::build"
        if P == "C02":
            for nm, p, want in (("directory offset", r.cd_offset, go), ("directory size", r.cd_size, gc), ("end record offset", r.eocd_offset, go + gc)):
                rep.judge(verdict(st, eq0(g(p) - want)), "end records describe what is emitted", "%s: %s" % (w, nm), "stored %s, emitted %s" % (show(g(p)), show(want)))
        if P == "C01":
            t = g(r.total)
            rep.judge(verdict(st, eq0(t - go - gc - END)), "the reader announces the bytes of all records", w, "stored %s, records take %s" % (show(t), show(go + gc + END)))
        if P in ("C02", "C05"):
            ln = eng.as_seq(st, g(r.entries)).length()
            rep.judge(verdict(st, eq0(ln - gn)), "every entry is in the reader once", w, "%s entries, %s pushed" % (show(ln), show(gn)))
            m = [k for k in st.store if k == GI]
            ml = atom_aff(Atom("maplen(%s)" % M.short(run.init_map), (), 0, M.ISZ)) if hasattr(run, "init_map") else None
        if P == "C05":
            ch = run.expand(st, g(r.chunk))
            LH, ED, DD, CD, EO, FI = order(ctx)
            n = eng.as_seq(st, g(r.entries)).length()
            if isinstance(ch, VAgg) and ch.var is not None:
                if ch.var == LH:
                    x = verdict(st, band(eq0(ch.f[0]), ge0(n - 1)))
                elif ch.var == EO:
                    x = verdict(st, eq0(n))
                else:
                    x = False
                rep.judge(x, "a new reader stands at its first record", w, "cursor %s with %s entries" % (show(ch), show(n)))
            else:
                rep.undecided("a new reader stands at its first record", w, show(ch))
            for nm, p in (("position", r.position), ("skip", r.skip), ("processed", r.proc)):
                rep.judge(verdict(st, eq0(g(p))), "a new reader starts at the beginning", "%s: %s" % (w, nm), show(g(p)))
            rep.judge(verdict(st, eq0(eng.as_seq(st, g(r.staging)).length())), "a new reader starts at the beginning", w + ": staged", "")
            pin = run.expand(st, g(r.pinned))
            rep.judge(isinstance(pin, VAgg) and pin.var == r.pin_none, "a new reader starts at the beginning", w + ": source", show(pin))
    rep.count("build_outcomes", len(run.outs))
    rep.count("entries_pushed_sites", len(live))
    if run.losts:
        return
    rep.floor("outcomes of Builder::build", len(run.outs), 1)
    rep.floor("places where an entry is put into the reader", len(live), 1)
    if P == "C05":
        ends = [(s, kw) for k, s, kw in run.h.events if k == "map_end" and not eng.stale(s)]
        for k, s, kw in run.h.events:
            if k == "map_item":
                rep.judge(kw.get("dir") == "next", "entries are taken in insertion order", "Builder::build", "taken with %s" % kw.get("dir"))
        for s, kw in ends:
            rep.judge(verdict(s, eq0(kw["index"] - s.store[GN])), "no entry is left out", "Builder::build", "%s of %s entries pushed" % (show(s.store[GN]), show(kw["index"])))
        rep.floor("ends of the walk over the entries", len(ends), 1)


def eng_phi(s):
    return any("phi:" in str(x) or "phx:" in str(x) for x in s.ge)


# ------------------------------------------------------------------ adding
def add_run(ctx):
    if not hasattr(ctx, "_add"):
        br = roles_of(ctx)

        def prep(run, eng, st):
            # what Builder::new establishes and every adding call keeps
            st.assume(ge0(run.rd(st, br.total) - END))
            return [st]

        class H(RunHooks):
            def on_event(h, st, kind, **kw):
                super().on_event(st, kind, **kw)
                if kind in ("map_insert", "map_other"):
                    k = ("G", "ins")
                    st.store[k] = (st.store.get(k) or ()) + ((kind, kw.get("key"), kw.get("value"), kw.get("kind_")),)
        ctx._add = Run(ctx.prog, find(ctx.prog, "Builder", None, "add_entry"), H(), prep)
    return ctx._add


@rule("C01", "C18", "C19")
def adding(ctx, rep):
    prog, br = ctx.prog, roles_of(ctx)
    run = add_run(ctx)
    eng, P = run.eng, rep.prop
    rep.explanation = rep.explanation if WHAT in rep.explanation else (rep.explanation + " " + WHAT).strip()
    rep.analysed |= run.fns
    for f, bb, why in run.losts:
        rep.undecided("path analysed to its end", f, why)
    name = run.args[1]
    seq = name if isinstance(name, VSeq) else eng.as_seq(State(), name)
    nl = seq.length()
    t0 = run.init(br.total)
    n_ok = n_err = 0
    for o in run.outs:
        st = o.st
        k, x = result_kind(run, st, o.val)
        ins = st.store.get(("G", "ins")) or ()
        if k == "ok":
            n_ok += 1
            added = [i for i in ins if i[0] == "map_insert"]
            t1 = run.rd(st, br.total)
            if P == "C18":
                rep.judge(len(added) == 1 and len(ins) == 1, "a successful add inserts exactly one entry", "add_entry", "%d insertion(s)" % len(ins))
            if len(added) != 1:
                rep.judge(False if P == "C01" else None, "an add accounts for one inserted entry", "add_entry", "%d insertion(s)" % len(added))
                continue
            _, key, val, kind = added[0]
            e = eng.expand(st, val) if isinstance(val, VSym) else val
            d = get(e, br.e_data)
            kl = key.length() if isinstance(key, VSeq) and P == "C01" else nl     # the records hold the stored name
            want = t0 + kl + kl + LOCAL + CENTRAL + size_of(eng, st, d) if d is not None else None
            v = verdict(st, eq0(t1 - want)) if isinstance(t1, Aff) and want is not None else None
            if P in ("C01", "C19"):
                rep.judge(v, "the announced size grows by the entry's records and data", "add_entry", "%s, want %s" % (show(t1), show(want)))
            if P == "C19":
                x2 = verdict(st, ge0(K((1 << 64) - 1) - want)) if want is not None else None
                rep.judge(x2, "an unrepresentable total is refused", "add_entry", "total %s accepted" % show(want))
            if P == "C18":
                rep.judge(verdict(st, ge0(K(65535) - nl)), "only names of at most 65535 bytes are accepted", "add_entry", "length %s" % show(nl))
                rep.judge(True if key == name else (False if exact_any(key) else None), "the entry is stored under the given name", "add_entry", "stored under %s" % show(key))
                has = [(n, b) for n, b in st.lits.items() if str(n).startswith("has_key(")]
                rep.judge(kind == "Vacant" or any(not b for _, b in has), "only a name not yet present is accepted", "add_entry", "inserted into %s place" % kind)
                if want is not None:
                    rep.judge(verdict(st, ge0(K((1 << 64) - 1) - want)), "the archive stays below 2^64 bytes", "add_entry", show(want))
                others = [p for p, t in br.leaves if p not in (br.total, br.entries)]
                frame(rep, run, st, others, "adding changes only the entries and the size", "add_entry", fname=br.fname)
        elif k == "err":
            n_err += 1
            e = eng.expand(st, x) if isinstance(x, VSym) else x
            en = variant(prog, e)
            if P == "C18":
                frame(rep, run, st, [p for p, t in br.leaves], "a failed add leaves the builder as it was", "add_entry (%s)" % en, fname=br.fname)
                rep.judge(not ins, "a failed add leaves the builder as it was", "add_entry (%s): insertions" % en, "%d insertion(s)" % len(ins))
                present = any(b for n, b in st.lits.items() if str(n).startswith("has_key("))
                if en == "TooLongEntryName":
                    v = verdict(st, ge0(nl - 65536))
                elif en == "DuplicateEntryName":
                    v = True if present else False
                elif en == "TooLongZipFile":
                    # the total with any size of the data known to this path, or already without the data
                    over = t0 + nl + nl + LOCAL + CENTRAL - (1 << 64)
                    v = True if st.decide(ge0(over)) is True else None
                    atom = sorted({a for f in st.ge for a in f.atoms() if str(a.op).startswith("data_size(")}, key=str)
                    if v is None and len(atom) == 1:
                        v = verdict(st, ge0(over + atom_aff(atom[0])))
                else:
                    v = None
                rep.judge(v, "each violated condition gives its own error", "add_entry: %s" % en, "returned although its condition does not hold: %s" % "; ".join(map(str, st.ge))[:300])
                if isinstance(e, VAgg) and e.f:
                    rep.judge(True if e.f[0] == name else (False if exact_any(e.f[0]) else None), "an error carries the name", "add_entry: %s" % en, show(e.f[0]))
        else:
            rep.undecided("outcome of an add", "add_entry", show(o.val))
    if P in ("C19", "C18"):
        for f, w, span, s in run.panics:
            rep.judge(False if all(exact_val(y) for y in s.ge) else None, "adding never panics", "%s (%s)" % (f, w), "reachable when %s" % "; ".join(map(str, s.ge))[:300])
        rep.ok("adding never panics", "add_entry")
    if not run.losts:
        rep.floor("successful outcomes of add_entry", n_ok, 1)
        rep.floor("refusing outcomes of add_entry", n_err, 3)
    # the empty builder
    if P == "C01":
        for nm, tr in (("new", None), ("default", "Default")):
            ru = Run(prog, find(prog, "Builder", tr, nm))
            for o in ru.outs:
                v = ru.expand(o.st, o.val)
                t = get(v, br.total)
                rep.judge(verdict(o.st, eq0(t - END)) if isinstance(t, Aff) else None, "an empty builder announces the end records", "Builder::" + nm, show(t))
                m = get(v, br.entries)
                rep.judge(True if isinstance(m, VSym) and "emptymap" in str(m.name) else None, "an empty builder has no entries", "Builder::" + nm, show(m))


@rule("C18", "C01")
def only_adding_adds(ctx, rep):
    """no other public function changes the entries or the size, or hands out write access to them"""
    prog, br = ctx.prog, roles_of(ctx)
    n = 0
    own = {br.total, br.entries}
    for root in prog.roots:
        if root.get("trait") or root.get("self_ty") is None or root.get("body") is None:
            continue
        t = prog.types[root["self_ty"]]
        if t.get("path") != prog.types[br.ty].get("path") or not root.get("pub"):
            continue
        b = prog.bodies[root["body"]]
        if b["argc"] < 1:
            continue
        at = prog.types[b["locals"][1]]
        if at["k"] != "ref" or not at.get("mut"):
            continue
        n += 1
        nm = "Builder::%s" % root["name"]
        if root["name"] == "add_entry":
            continue
        run = Run(prog, root)
        rep.analysed |= run.fns
        for o in run.outs:
            ins = [k for k, s, kw in run.h.events if k in ("map_insert", "map_other")]
            for p in own:
                a, c = run.init(p), run.rd(o.st, p)
                if a == c:
                    rep.ok("only the adding calls change entries and size", "%s: %s" % (nm, br.fname(p)))
                else:
                    rep.judge(False if exact_any(c) else None, "only the adding calls change entries and size", "%s: %s" % (nm, br.fname(p)), "becomes %s" % show(c))
            # a mutable reference to them in the result
            ref = run.ref()
            for v in refs(o.val):
                vp = tuple(e[:2] for e in v.path)
                if v.root == ref.root and vp[:len(ref.path)] == tuple(e[:2] for e in ref.path):
                    rest = vp[len(ref.path):]
                    for p in own:
                        q = epath(p)
                        if rep.prop != "C01" and rest and q[:len(rest)] == rest[:len(q)] and mutable(prog, root, v):
                            rep.bad("no other call hands out write access to entries or size", nm, "returns a mutable reference to %s" % br.fname(p))
            if rep.prop != "C01":
                rep.ok("no other call hands out write access to entries or size", nm + " checked")
    rep.floor("public functions with write access to a builder", n, 4)


def mutable(prog, root, v):
    t = prog.types[root["output"]] if root.get("output") is not None else None
    return t is not None and t["k"] == "ref" and bool(t.get("mut"))


def refs(v, d=5):
    if d < 0:
        return []
    if isinstance(v, VRef):
        return [v]
    if isinstance(v, VAgg):
        return [y for x in v.f for y in refs(x, d - 1)]
    return []
