"""C23, C24, C31: entries made from the file system."""
import re

from .common import *
from .builder import roles_of
from .seek import result_kind
from .setters import setters
from ..base import CheckFailed, Unidentified
from . import rule

FOLLOWING = ("tokio::fs::metadata", "std::fs::metadata", "tokio::fs::canonicalize", "tokio::fs::try_exists", "std::path::Path::is_dir",
             "std::path::Path::is_file", "std::path::Path::exists", "std::path::Path::metadata", "std::path::Path::canonicalize")
# conversions that keep every byte of a path
KEEPING = {"arc_from", "into", "to_vec", "into_os_string", "into_encoded_bytes", "into_vec", "as_bytes", "from", "clone", "to_owned", "as_os_str",
           "into_boxed_slice", "into_bytes", "as_encoded_bytes", "to_path_buf", "as_path", "into_boxed_path"}
# path operations whose result is not the path
CHANGING = {"to_string_lossy", "display", "file_name", "parent", "join", "extension", "with_extension", "to_str", "strip_prefix", "components", "canonicalize",
            "file_stem", "to_string"}
CLASSIFY = ("tokio::fs::DirEntry::metadata", "tokio::fs::DirEntry::file_type", "tokio::fs::symlink_metadata")
PATH = "std::path::PathBuf"


def async_fn(ctx, of, owner=None):
    prog = ctx.prog
    roots = [r for r in prog.roots if r["name"] == of and r.get("pub") and not r.get("trait") and (owner is None or owner in r["path"])]
    if not roots:
        raise CheckFailed("no public function %s%s" % (owner + "::" if owner else "", of))
    base = roots[0]["path"]
    cs = [t for t in prog.types if t["k"] == "coroutine" and t["path"] == base + "::{closure#0}" and t.get("body") is not None]
    if len(cs) != 1:
        raise Unidentified("%s is not one asynchronous function" % base)
    return cs[0], base


def named(v, n):
    return isinstance(v, VSym) and v.name == n


def name_of(v):
    if isinstance(v, VSym):
        return v.name
    if isinstance(v, VSeq) and len(v.segs) == 1 and v.segs[0][0] == "sym" and not v.over:
        return v.segs[0][1]
    return None


def whole(st, v):
    """is a sequence one input from its start to its end?"""
    if not isinstance(v, VSeq):
        return True
    s = v.segs
    return len(s) == 1 and s[0][0] == "sym" and st.decide(eq0(s[0][2])) is True and str(s[0][3]) == "%s.len" % s[0][1]


def peel(eng, name, through=KEEPING, d=12):
    """what a value was made from by byte-preserving conversions: (origin, changing operation or None, known)"""
    while d:
        d -= 1
        m = re.match(r"^deref\((.*)\)$", name)
        if m:
            name = m.group(1)
        m = re.match(r"^(.*)@\d+\.\d+$", name)
        if m and name not in eng.origins:
            name = m.group(1)
        for suf in (".box",):
            if name.endswith(suf):
                name = name[:-len(suf)]
        o = eng.origins.get(name)
        if o is None or o[0] == "fs":
            return name, o, None, o is not None or bool(re.match(r"^a\d+(\.\d+)*$", name))
        if o[0] != "uf":
            return name, o, None, False
        fn = o[1].rsplit("::", 1)[-1]
        if fn in CHANGING:
            return name, o, fn, True
        if fn not in through or len(o[2]) < 1 or name_of(o[2][0]) is None:
            return name, o, None, False
        name = name_of(o[2][0])
    return name, None, None, False


# ------------------------------------------------------------------ the entry: size, opening, reading
class SrcHooks(RunHooks):
    """what one call did to the sources it holds"""
    SRC = ("X", "fs.srcs")

    def on_event(self, st, kind, **kw):
        super().on_event(st, kind, **kw)
        if kind in ("src_read", "src_start_seek", "src_seek_complete", "fut_poll", "fs_start"):
            n = sum(1 for r in st.store if r[0] == "Y")
            st.store[("Y", n)] = UNDEF
            self.notes = getattr(self, "notes", {})
            nid = len(self.notes)
            self.notes[nid] = (kind, kw)
            st.store[("Y", n)] = const(nid)

    def of(self, st):
        r = sorted((k[1], v) for k, v in st.store.items() if k[0] == "Y")
        return [self.notes[v.c if hasattr(v, "c") else int(str(v))] for _, v in r if isinstance(v, Aff)]


def const(n):
    return ZERO + n


def clear(st):
    for r in [r for r in st.store if r[0] == "Y"]:
        del st.store[r]


class Entry:
    """the operations of the entry type, applied to values"""

    def __init__(self, ctx):
        prog = self.prog = ctx.prog
        self.T = prog.types
        size = [r for r in prog.roots if r.get("trait", "") and r["trait"].endswith("EntryData") and r["name"] == "size" and r["path"].startswith("<filesystem_entry::")]
        opn = [r for r in prog.roots if r.get("trait", "") and r["trait"].endswith("EntryData") and r["name"] == "get_reader" and r["path"].startswith("<filesystem_entry::")]
        if len(size) != 1 or len(opn) != 1:
            size = [r for r in prog.roots if r.get("trait", "") and r["trait"].endswith("EntryData") and r["name"] == "size" and "FilesystemEntry" in r["path"]]
            opn = [r for r in prog.roots if r.get("trait", "") and r["trait"].endswith("EntryData") and r["name"] == "get_reader" and "FilesystemEntry" in r["path"]]
        if len(size) != 1 or len(opn) != 1:
            raise CheckFailed("EntryData for FilesystemEntry not found")
        self.size, self.open = size[0], opn[0]
        self.ty = size[0]["self_ty"]

    def trait_fn(self, ty, name):
        """the implementation of a trait operation for a type"""
        for r in self.prog.roots:
            if r.get("trait") and r["name"] == name and r.get("self_ty") is not None and self.T[r["self_ty"]]["s"] == self.T[ty]["s"] and r.get("body") is not None:
                return r
        return None

    def call(self, eng, st, body, args, i_ty=None):
        b = self.prog.bodies[body]
        xs = []
        for i in range(b["argc"]):
            ty = b["locals"][i + 1]
            if i < len(args) and args[i] is not None:
                a = args[i]
                if self.T[ty].get("path") == "std::pin::Pin":
                    a = VAgg(ty, None, (a,))
                xs.append(a)
            else:
                xs.append(eng.mk_sym(st, "call%d.%s" % (i, b["path"].rsplit("::", 1)[-1]), ty))
        return eng.run(b, xs, st, 1), xs

    def ref(self, eng, st, v, tag):
        root = ("O", "fs." + tag)
        st.store[root] = v
        eng.objty[root] = v.ty
        return VRef(root, (), v.ty, True)


def cursor_in(eng, v, d=6):
    if d < 0 or not isinstance(v, VAgg):
        return None
    if eng.ty_path(v.ty) == "std::io::Cursor":
        return v
    for x in v.f:
        r = cursor_in(eng, x, d - 1)
        if r is not None:
            return r
    return None


def same_source(rep, ent, eng, st, v, path, md, kind, where, h):
    """C24 for one value: announced size and what is read belong together.  kind: 'dir', 'link' or 'file'"""
    P = "announced size and source belong together"
    losts0 = len(h.losts)
    ref = ent.ref(eng, st, v, "entry")
    outs, _ = ent.call(eng, st.copy(), ent.size["body"], [ref])
    sizes = [o.val for o in outs]
    con = "%s of a %s" % (where, {"dir": "directory", "link": "symbolic link", "file": "file"}[kind])
    if not sizes:
        rep.undecided(P, con, "no size was computed")
        return
    if kind == "dir":
        for s in sizes:
            z = st.decide(eq0(s))
            rep.judge(z is True or (None if not exact_val(s) else False), P, con + " has size 0", "size is %s" % show(s))
        return
    if kind == "file":
        want = "len(%s)" % md
        for s in sizes:
            good = str(s) == want
            rep.judge(good or (False if exact_val(s) else None), P, con + ": size is the length its metadata tells", "size is %s, the metadata's length is %s" % (show(s), want))
    pan0 = len(h.panics)
    clear(st)
    outs, _ = ent.call(eng, st.copy(), ent.open["body"], [ref])
    if not outs:
        if len(h.panics) > pan0 and len(h.losts) == losts0:
            rep.bad(P, con + " can be opened", "getting the reader panics")
        else:
            rep.undecided(P, con + " can be opened", "opening was not followed")
        return
    for o in outs:
        began = [k for k in h.of(o.st) if k[0] == "fs_start"]
        fut = o.val
        fty = eng.val_ty(fut, None)
        poll = ent.trait_fn(fty, "poll") if fty is not None else None
        if poll is None:
            rep.undecided(P, con + ": opening", "the future is not one of this crate")
            continue
        clear(o.st)
        fref = ent.ref(eng, o.st, fut, "future")
        pouts, _ = ent.call(eng, o.st, poll["body"], [fref])
        for po in pouts:
            what = [k for k in h.of(po.st)]
            val = po.val if isinstance(po.val, VAgg) else eng.expand(po.st, po.val)
            vn = variant(ent.prog, val)
            polled = [k for k in what if k[0] == "fut_poll"]
            if vn == "Pending":
                ok_ = any(k[1]["outcome"] == "pending" for k in polled)
                rep.judge(ok_ or False, P, con + ": opening waits only for the source", "Pending without a pending source")
                continue
            res = val.f[0]
            res = res if isinstance(res, VAgg) else eng.expand(po.st, res)
            if variant(ent.prog, res) == "Err":
                errs = [k[1].get("err") for k in polled if k[1]["outcome"] == "err"]
                rep.judge(bool(errs) and show(res.f[0]) == show(errs[-1]) or (False if not errs else None), P, con + ": opening fails only with the source's error",
                          "error %s" % show(res.f[0])[:120])
                continue
            rd = res.f[0]
            readers(rep, ent, eng, po.st, rd, P, con, kind, path, sizes, began, polled, h)


OPS = (("poll_read", "src_read"), ("start_seek", "src_start_seek"), ("poll_complete", "src_seek_complete"))


def readers(rep, ent, eng, st, rd, P, con, kind, path, sizes, began, polled, h):
    rty = eng.val_ty(rd, None)
    for opn, ev in OPS:
        f = ent.trait_fn(rty, opn)
        if f is None:
            rep.undecided(P, con + ": " + opn, "the reader is not one of this crate")
            continue
        s = st.copy()
        clear(s)
        rref = ent.ref(eng, s, rd, "reader")
        outs, xs = ent.call(eng, s, f["body"], [rref])
        for o in outs:
            ops = [k for k in h.of(o.st) if k[0].startswith("src_")]
            c2 = "%s: %s goes to the source once" % (con, opn)
            if len(ops) != 1 or ops[0][0] != ev:
                val = o.val if isinstance(o.val, VAgg) else eng.expand(o.st, o.val)
                rep.judge(None if h.losts else False, P, c2,
                          "one call performs %s, returning %s" % ([k[0] for k in ops] or "no operation on its source", show(val)[:120]))
                continue
            kw = ops[0][1]
            # the result and the caller's buffer or position are handed through
            val = o.val if isinstance(o.val, VAgg) else eng.expand(o.st, o.val)
            good = handed_on(eng, ent.prog, o.st, val, kw, opn)
            rep.judge(good, P, "%s: %s returns what the source returned" % (con, opn), "source: %s, result %s" % (kw["outcome"], show(val)[:160]))
            if opn == "start_seek":
                a = name_of(M.canon(eng, o.st, kw["pos"])) or str(kw["pos"])
                b = name_of(M.canon(eng, o.st, xs[1])) or str(xs[1])
                rep.judge(a == b or (False if exact_any(kw["pos"]) else None), P, "%s: seeks go to the position asked for" % con, "position %s for %s" % (a, b))
            if opn == "poll_read":
                rr = M.pin_ref(eng, o.st, kw["buf"]) if not isinstance(kw["buf"], VRef) else kw["buf"]
                rep.judge(rr.root == xs[2].root and tuple(rr.path) == tuple(xs[2].path), P, "%s: reads fill the buffer given" % con, "%s instead of %s" % (rr, xs[2]))
            # which object is it?
            r = M.pin_ref(eng, o.st, kw["self_"])
            src = eng.read(s, r.root, r.path)
            c3 = "%s: %s reaches the object it was made from" % (con, opn)
            if kind == "file":
                opened = [k[1]["value"] for k in polled if k[1]["outcome"] == "ok"]
                if not (opened and named(src, getattr(opened[-1], "name", 0))):
                    rep.judge(False if isinstance(src, VAgg) and eng.ty_path(src.ty) == "std::io::Cursor" else None, P, c3, "the source is %s, opened was %s" % (show(src), [show(x) for x in opened]))
                    continue
                fut = [k[1].get("fut") for k in polled if k[1]["outcome"] == "ok"][-1]
                org = getattr(fut, "origin", None)
                if not (org and org[0] == "call" and org[1] == "tokio::fs::File::open"):
                    rep.undecided(P, c3, "how %s opens the file is not known" % show(fut))
                    continue
                p = org[2][0]
                rep.judge(same_path(eng, p, path), P, c3, "opens %s, the entry's object is at %s" % (show(p), path))
            else:
                if not (isinstance(src, VAgg) and eng.ty_path(src.ty) == "std::io::Cursor" and len(src.f) == 2):
                    rep.judge(False if polled or began else None, P, c3, "the source is %s" % show(src))
                    continue
                inner = M.canon(eng, s, src.f[0])
                nm = name_of(inner)
                if nm is None or not whole(s, inner):
                    rep.judge(False if exact_any(inner) else None, P, c3, "the data is %s" % show(inner))
                    continue
                base, o2, changed, known = peel(eng, nm)
                if changed:
                    rep.bad(P, c3, "the data is %s of the link's target, not its bytes" % changed)
                elif not (o2 and o2[0] == "fs" and o2[1] == "tokio::fs::read_link"):
                    rep.judge(False if known and (o2 is None or o2[0] == "fs") else None, P, c3, "the data comes from %s" % nm)
                else:
                    rep.judge(same_path(eng, o2[2][0], path), P, c3, "the target read is that of %s, the entry's object is at %s" % (show(o2[2][0]), path))
                z = s.decide(eq0(src.f[1])) if isinstance(src.f[1], Aff) else None
                rep.judge(z is True or (False if isinstance(src.f[1], Aff) and exact_val(src.f[1]) else None), P, "%s: reading starts at the first byte" % con, "starts at %s" % show(src.f[1]))
                sq = eng.as_seq(s, inner)
                for sz in sizes:
                    d = s.decide(eq0(sz - sq.length()))
                    rep.judge(d is True or (False if exact_val(sz) and exact_val(sq.length()) else None), P, "%s: size is the length of the target" % con,
                              "size is %s, the target's length %s" % (show(sz), show(sq.length())))


def same_path(eng, p, path):
    n = name_of(p)
    if n is None:
        return None
    if n == path:
        return True
    base, o, changed, known = peel(eng, n)
    if base == path and not changed:
        return True
    return False if known else None


def handed_on(eng, prog, st, val, kw, opn):
    want = kw["outcome"]
    n = variant(prog, val)
    if opn != "start_seek":
        if n == "Pending":
            return want == "pending"
        if n != "Ready":
            return None
        val = val.f[0]
        val = val if isinstance(val, VAgg) else eng.expand(st, val)
        n = variant(prog, val)
    if n == "Err":
        return want == "err" and show(val.f[0]) == show(kw["err"])
    if n != "Ok":
        return None
    if want != "ok":
        return False
    if opn == "poll_complete":
        d = st.decide(eq0(val.f[0] - kw["pos"]))
        return True if d is True else (False if exact_val(val.f[0]) else None)
    return True


def kind_of(st, md):
    """what the path knows about an object from its metadata"""
    d, l = st.decide(lit("is_dir(%s)" % md)), st.decide(lit("is_symlink(%s)" % md))
    if d is True:
        return "dir"
    if l is True:
        return "link"
    if d is False and l is False:
        return "file"
    return None


WHAT24 = ("The value made by FilesystemEntry::with_metadata is followed, per kind of object, through size, get_reader, the opening future and the reader's operations "
          "(composed abstract interpretation): the size announced is the length of what is read, from the object at the entry's path, and operations go through unchanged.")


@rule("C24")
def entry_sources(ctx, rep):
    rep.explanation = WHAT24
    ent = Entry(ctx)
    prog = ctx.prog
    co, base = async_fn(ctx, "with_metadata", "FilesystemEntry")
    names = upvars(prog, co)
    path = one(names, lambda t: t.get("path") == PATH, "the path given to with_metadata")
    md = one(names, lambda t: t["k"] == "ref" and prog.types[t["el"]].get("path") == "std::fs::Metadata", "the metadata given to with_metadata")
    h = SrcHooks()
    run = Run(prog, {"body": co["body"], "name": "with_metadata"}, h)
    eng = run.eng
    kinds = {}
    for o in run.outs:
        v = unready(run, o)
        k, x = result_kind(run, o.st, v)
        if k == "err":
            errs = [e for e in h.events if e[0] == "fs_call" and e[2]["outcome"] == "err"]
            rep.judge(any(show(e[2]["err"]) == show(x) for e in errs) or (None if run.losts else False), "construction fails only with the file system's error", base, show(x)[:160])
            continue
        if k != "ok":
            rep.undecided("construction is followed", base, show(v)[:200])
            continue
        x = run.expand(o.st, x)
        kd = kind_of(o.st, "?" + md)
        if kd is None:
            # the object's kind was not asked for on this path: all three may get here
            rep.judge(False if not run.losts else None, "every kind of object is told apart", base, "an entry is made without knowing whether the object is a directory, a link or a file")
            continue
        kinds[kd] = kinds.get(kd, 0) + 1
        same_source(rep, ent, eng, o.st, x, path, "?" + md, kd, "with_metadata's entry", h)
    for w in h.losts[:5]:
        rep.undecided("construction is followed", w[0], w[2])
    if not h.losts:
        for kd in ("dir", "link", "file"):
            rep.floor("kinds of object: " + kd, kinds.get(kd, 0), 1)
    forwarders(ctx, rep)
    rep.analysed |= {prog.bodies[x]["path"] for x in eng.visited}


def forwarders(ctx, rep):
    """every other reader of a source that only hands operations on (the blanket implementation)"""
    prog = ctx.prog
    P = "operations are handed on to the reader itself"
    fs = {r["name"]: r for r in prog.roots if (r.get("trait") or "").endswith("EntryReader") and r.get("self_ty") is not None
          and prog.types[r["self_ty"]]["k"] == "param" and r.get("body") is not None}
    if len(fs) < 3:
        raise CheckFailed("the implementation of EntryReader for every AsyncRead + AsyncSeek was not found")
    for opn, ev in (("poll_read", "src_read"), ("start_seek", "src_start_seek"), ("poll_seek_complete", "src_seek_complete")):
        h = SrcHooks()
        run = Run(prog, fs[opn], h)
        con = "%s for every AsyncRead + AsyncSeek" % opn
        for o in run.outs:
            ops = [k for k in h.of(o.st) if k[0].startswith("src_")]
            if len(ops) != 1 or ops[0][0] != ev:
                rep.judge(None if h.losts else False, P, con, "one call performs %s" % [k[0] for k in ops])
                continue
            kw = ops[0][1]
            val = run.expand(o.st, o.val)
            rep.judge(handed_on(run.eng, prog, o.st, val, kw, "poll_complete" if "complete" in opn else opn), P, con + ": result", show(val)[:120])
            r = M.pin_ref(run.eng, o.st, kw["self_"])
            rep.judge(r.root == run.ref().root and tuple(r.path) == tuple(run.ref().path), P, con + ": same reader", str(r))
            if opn == "start_seek":
                rep.judge(show(kw["pos"]) == show(run.args[2]) or (False if exact_any(kw["pos"]) else None), P, con + ": same position", show(kw["pos"]))
            if opn == "poll_read":
                rr = M.pin_ref(run.eng, o.st, kw["buf"])
                rep.judge(rr.root == run.args[3].root, P, con + ": same buffer", str(rr))
        for w in h.losts[:3]:
            rep.undecided(P, con, w[2])
        rep.analysed |= run.fns


def upvars(prog, co):
    """(name, type) of what an async function captured"""
    return [("a0.%d" % i, prog.types[t]) for i, t in enumerate(co["els"])]


def one(names, pred, what):
    r = [n for n, t in names if pred(t)]
    if len(r) != 1:
        raise Unidentified("%s not identified (%d candidates)" % (what, len(r)))
    return r[0]


def unready(run, o):
    v = run.expand(o.st, o.val)
    if isinstance(v, VAgg) and run.eng.ty_path(v.ty) == "std::task::Poll" and variant(run.prog, v) == "Ready":
        return v.f[0]
    return v


# ------------------------------------------------------------------ the walk
FLAGS = ("meta", "open", "some", "kind", "added", "pushed", "esc", "popd", "empty", "listed", "rootdir", "rootadded", "err", "failed")


def X(n):
    return ("X", "walk." + n)


class WalkHooks(RunHooks):
    """follows, on every path, one object at a time through the walk.
    some: 0 no object open, 1 the listing answered, 2 its end, 3 an object; kind: 0 not known, 1 directory, 2 something else."""

    def __init__(self, dirparam, entry_ty):
        super().__init__()
        self.dir, self.ety = dirparam, entry_ty
        self.lits = {}
        self.metas = {}
        self.found = []
        self.inserts = []
        self.slots = []
        self.checked = {}
        self.slot = {}
        self.types = {}
        self.dates = {}
        self.metawhy = ""

    # -- ghosts
    def g(self, st, n):
        v = st.store.get(X(n))
        return 0 if v is None else int(str(v))

    def s(self, st, n, k):
        st.store[X(n)] = const(k)

    def extra_key(self, st):
        return [(n, self.g(st, n)) for n in FLAGS] + [("rootname", st.refine.get(getattr(self, "rootname", None)))]

    def obj(self, st):
        v = st.store.get(X("obj"))
        return v.name if isinstance(v, VSym) else None

    def prepare(self, st):
        for n in FLAGS:
            self.s(st, n, 0)

    def problem(self, st, rule_, con, what, sure=True):
        self.found.append((rule_, con, what, sure))

    def held(self, rule_, con):
        self.checked[(rule_, con)] = self.checked.get((rule_, con), 0) + 1

    def refresh(self, st):
        o = self.obj(st)
        if o is None:
            return
        if self.g(st, "some") == 1:
            v = st.refine.get(o)
            if v is None:
                x = self.eng.expand(st, st.store[X("obj")])
                v = x.var if isinstance(x, VAgg) else None
            if v is not None:
                self.s(st, "some", 2 if v == 0 else 3)
        if self.g(st, "kind") == 0:
            for l, (what, who) in self.lits.items():
                d = st.decide(lit(l)) if who == o else None
                if d is None:
                    continue
                if what == "is_dir":
                    self.s(st, "kind", 1 if d else 2)
                elif d:
                    self.s(st, "kind", 2)
        if self.g(st, "rootdir") == 0:
            self.root_known(st)

    def root_known(self, st):
        for l, (what, who) in self.lits.items():
            d = st.decide(lit(l)) if who == "root" else None
            if d is None:
                continue
            if what == "is_dir":
                self.s(st, "rootdir", 1 if d else 2)
            elif d:
                self.s(st, "rootdir", 2)

    def pre_loop_head(self, st, body, bb):
        self.refresh(st)
        self.own_meta(st)
        if self.g(st, "rootdir") == 0:
            self.root_known(st)
        return None

    def on_call(self, st, c):
        """setting the date and time is summarised: which fields it writes is decided from its own body, what it puts there does not matter here"""
        leaves = self.dates.get(c.rpath)
        if leaves is None or not c.args or not isinstance(c.args[0], VRef) or self.eng.p.types[c.ret]["k"] != "ref":
            return None
        r = c.args[0]
        for p in leaves:
            path = tuple(r.path) + epath(p)
            self.eng.write(st, r.root, path, self.eng.mk_sym(st, st.fresh("date"), leaves[p]))
        return [(st, r)]

    def added_value(self, st, who):
        """the entry added for an object, as it is now"""
        rs = [r for r in self.slot.get(who, ()) if r in st.store]
        return st.store[rs[0]] if len(rs) == 1 else None

    def own_meta(self, st):
        """does the entry added for this object carry its metadata?  (meta: 0 not known, 1 yes, 2 no)"""
        v = self.added_value(st, self.obj(st)) if self.g(st, "added") and self.g(st, "some") == 3 else None
        if v is None:
            return
        r = carries(self, st, v, self.obj(st))
        if r is not None:
            self.s(st, "meta", 1 if r is True else 2)
            if r is not True:
                self.metawhy = r

    # -- rounds
    META = "an entry added carries the metadata of its object"
    ADD = "every object found is added exactly once"
    DESC = "the walk descends exactly into real directories"
    ENDS = "every listing is read to its end"
    ERRS = "an error ends the walk and is returned"
    ROOT = "only a real directory is walked"

    def close(self, st, where):
        """the object being handled is done"""
        self.refresh(st)
        some = self.g(st, "some")
        if some == 0:
            return
        if some == 2:
            self.s(st, "open", 0)
        elif some == 1:
            self.problem(st, self.ADD, where, "an answer of the listing is dropped without looking at it")
        else:
            esc = self.g(st, "esc")
            a, p, k = self.g(st, "added"), self.g(st, "pushed"), self.g(st, "kind")
            if a == 1:
                self.held(self.ADD, where)
                self.own_meta(st)
                m = self.g(st, "meta")
                if m == 1:
                    self.held(self.META, "object found")
                else:
                    self.problem(st, self.META, "object found", self.metawhy if m else "what the entry carries is not known", m == 2)
            else:
                self.problem(st, self.ADD, where, "an object of kind %s is added %s" % (("unknown", "directory", "other")[k], "not at all" if a == 0 else "more than once"), not esc)
            if k == 1 and p != 1:
                self.problem(st, self.DESC, where, "a directory found is put on the list of directories to read %s" % ("not at all" if p == 0 else "more than once"), not esc)
            else:
                self.held(self.DESC, where)
        self.s(st, "some", 0)
        st.store.pop(X("obj"), None)

    def on_event(self, st, kind, **kw):
        super().on_event(st, kind, **kw)
        if kind in ("fs_start", "fs_call", "map_insert", "vec_push", "vec_popped", "vec_empty", "map_entry", "map_other") and self.g(st, "err"):
            if not (kind == "fs_call" and kw["outcome"] == "err"):
                self.problem(st, self.ERRS, "after a failed %s" % self.errfn(st), "the walk goes on (%s)" % (kw.get("fn") or kind))
                st.dead = True
                return
        if kind == "fs_call":
            fn, args = kw["fn"], kw["args"]
            a = name_of(args[0]) if args else None
            if kw["outcome"] == "err":
                self.s(st, "err", 1)
                st.store[X("errv")] = kw["err"]
                return
            v = kw["value"]
            if fn == "tokio::fs::ReadDir::next_entry":
                self.close(st, "next object")
                self.s(st, "some", 1)
                self.s(st, "open", 1)
                for n in ("kind", "added", "pushed", "esc", "meta"):
                    self.s(st, n, 0)
                st.store[X("obj")] = v
                return
            who = None
            if fn in CLASSIFY:
                if a == self.dir:
                    who = "root" if fn == "tokio::fs::symlink_metadata" else None
                elif a is not None:
                    who = self.owner(st, a)
            if who is not None:
                for w in ("is_dir", "is_symlink", "is_file"):
                    self.lits["%s(%s)" % (w, M.short(v))] = (w, who)
                if "file_type" not in fn:
                    self.metas[M.short(v)] = who
        elif kind == "fs_start":
            fn = kw["fn"]
            if fn == "tokio::fs::read_dir":
                self.listing(st, kw["args"][0])
            elif fn == "tokio::fs::DirEntry::path":
                a = name_of(kw["args"][0])
                o = self.obj(st)
                if a is not None and o is not None and a.startswith(o) and isinstance(kw["value"], VSym):
                    self.metas.setdefault(("path", kw["value"].name), o)
        elif kind == "vec_push":
            self.push(st, kw["value"], kw["ref"])
        elif kind == "vec_popped":
            self.pop(st, kw["value"])
        elif kind == "vec_empty":
            v = M.canon(self.eng, st, kw["ref"])
            if isinstance(v, VSeq) and v.elty is not None and self.eng.p.types[v.elty].get("path") == PATH:
                self.s(st, "empty", 1)
        elif kind == "map_insert":
            self.insert(st, kw)

    def errfn(self, st):
        v = st.store.get(X("errv"))
        m = re.match(r"err:([\w:]+)", getattr(v, "name", ""))
        return m.group(1) if m else "operation"

    def owner(self, st, name):
        """the object a path or directory entry belongs to"""
        o = self.obj(st)
        if o is not None and name.startswith(o):
            return o
        return self.metas.get(("path", name))

    def is_path(self, v):
        ty = self.eng.val_ty(v, None)
        return ty is not None and self.eng.p.types[ty].get("path") == PATH

    def push(self, st, v, ref):
        if not self.is_path(v):
            # something else kept for later: what becomes of it is not followed
            if self.mentions(st, v):
                self.s(st, "esc", 1)
            return
        n = name_of(v)
        self.refresh(st)
        o = self.obj(st)
        if n is not None and o is not None and self.metas.get(("path", n)) == o:
            k = self.g(st, "kind")
            if k != 1:
                self.problem(st, self.DESC, "object found", "its path is put on the list of directories to read although it is %s" % (
                    "not a directory" if k == 2 else "not known to be a directory (by metadata that does not follow links)"))
            else:
                self.held(self.DESC, "object found")
            self.s(st, "pushed", min(2, self.g(st, "pushed") + 1))
            self.s(st, "empty", 0)
            return
        if n == self.dir:
            self.s(st, "empty", 0)
            if self.g(st, "listed") or self.g(st, "open"):
                self.problem(st, self.DESC, "the given directory", "is put on the list of directories again")
            return
        base, org, changed, known = peel(self.eng, n) if n else (None, None, None, False)
        self.s(st, "esc", 1)
        self.problem(st, self.DESC, "list of directories to read", "another path is put there: %s" % (n or show(v)), bool(known and (changed or org is not None)))

    def pop(self, st, v):
        if not self.is_path(v):
            return
        self.close(st, "next directory")
        if self.g(st, "popd"):
            self.problem(st, self.DESC, "next directory", "a directory taken from the list is not read")
        self.s(st, "popd", 1)
        st.store[X("popv")] = v

    def listing(self, st, arg):
        self.root_known(st)
        self.close(st, "next directory")
        if self.g(st, "open"):
            self.problem(st, self.ENDS, "next directory", "a listing is left before its end", not self.g(st, "esc"))
        if self.g(st, "rootdir") != 1:
            self.problem(st, self.ROOT, "the given directory", "a directory is read before the given path is known to be a real directory (by metadata that does not follow links)")
        else:
            self.held(self.ROOT, "the given directory")
        n = name_of(arg)
        pv = st.store.get(X("popv"))
        if n == self.dir:
            if self.g(st, "listed") and not self.g(st, "popd"):
                self.problem(st, self.DESC, "the given directory", "is read again")
            self.s(st, "listed", 1)
            self.s(st, "popd", 0)
        elif self.g(st, "popd") and pv is not None and M.short(M.canon(self.eng, st, pv)) == M.short(arg):
            self.s(st, "popd", 0)
            self.held(self.DESC, "directory read")
        else:
            base, org, changed, known = peel(self.eng, n) if n else (None, None, None, False)
            self.problem(st, self.DESC, "directory read", "%s is read, which was not put on the list" % (n or show(arg)), bool(known and changed))

    def mentions(self, st, v, d=5):
        o = self.obj(st)
        if o is None or d < 0:
            return False
        v = M.canon(self.eng, st, v)
        if isinstance(v, VSym):
            if v.name.startswith(o) or self.owner(st, v.name) == o or self.metas.get(M.short(v)) == o:
                return True
            org = self.eng.origins.get(v.name)
            return bool(org) and len(org) > 2 and any(self.mentions(st, x, d - 1) for x in org[2])
        if isinstance(v, VAgg):
            return any(self.mentions(st, x, d - 1) for x in v.f)
        if isinstance(v, VSeq):
            return any(self.mentions(st, x, d - 1) for s in v.segs if s[0] == "lit" for x in s[1]) or any(
                self.mentions(st, VSym(s[1], None, None), d - 1) for s in v.segs if s[0] == "sym")
        return False

    def on_unknown_call(self, st, c, f, args):
        if any(not isinstance(a, VRef) and self.mentions(st, a) for a in args):
            self.s(st, "esc", 1)

    def on_extern(self, st, c):
        # what is only lent cannot be kept
        if any(not isinstance(a, VRef) and self.mentions(st, a) for a in c.args):
            self.s(st, "esc", 1)

    def data(self, v):
        return find_entry(self.eng, v, self.ety)

    def insert(self, st, kw):
        self.refresh(st)
        self.root_known(st)
        d = self.data(kw["value"])
        p = path_in(self.eng, st, d) if d is not None else None
        o = self.obj(st)
        if p == self.dir:
            self.s(st, "rootadded", min(2, self.g(st, "rootadded") + 1))
            self.slot.setdefault("root", set()).add(kw.get("slot"))
            self.inserts.append(("root", st.copy(), kw, None))
            return
        if p is not None and o is not None and self.metas.get(("path", p)) == o and self.g(st, "some") == 3:
            self.s(st, "added", min(2, self.g(st, "added") + 1))
            self.slot.setdefault(o, set()).add(kw.get("slot"))
            self.inserts.append(("object", st.copy(), kw, p))
            return
        base, org, changed, known = peel(self.eng, p) if p else (None, None, None, False)
        self.problem(st, self.ADD, "entry added", "its path is %s, not that of the object found" % p, bool(known and changed))


def find_entry(eng, v, ty, d=5):
    if d < 0 or not isinstance(v, VAgg):
        return v if isinstance(v, VSym) and v.ty == ty else None
    if v.ty == ty:
        return v
    for x in v.f:
        r = find_entry(eng, x, ty, d - 1)
        if r is not None:
            return r
    return None


def path_in(eng, st, v):
    """the path held by an entry"""
    if isinstance(v, VSym):
        v = eng.expand(st, v)
    if not isinstance(v, VAgg):
        return None
    r = []

    def go(x, d):
        if d < 0:
            return
        ty = eng.val_ty(x, None)
        if ty is not None and eng.p.types[ty].get("path") == PATH:
            r.append(name_of(x))
        elif isinstance(x, VAgg):
            for y in x.f:
                go(y, d - 1)
    go(v, 4)
    return r[0] if len(r) == 1 else None


def carries(h, st, v, who):
    """True: type and permissions of the entry are those of the object's metadata; a text: they are not; None: not known"""
    ms = [m for m, o in h.metas.items() if o == who and isinstance(m, str)]
    text = repr(v)
    if not ms:
        return "no metadata of the object was read (without following links)"
    n = text.count("permissions(")
    own = sum(text.count("permissions(%s)" % m) for m in ms)
    if n != own:
        return None if INEXACT.search(text) else "its permissions are those of another object"
    kd = [k for k in (kind_of(st, m) for m in ms) if k]
    if not kd:
        kd = {1: ["dir"]}.get(h.g(st, "kind") if who != "root" else h.g(st, "rootdir"), [])
    if not kd:
        return None
    for p, want in h.types.items():
        x = v
        for i in p:
            x = h.eng.step(st, x, ("f", i))
        x = h.eng.expand(st, x) if isinstance(x, VSym) else x
        if not (isinstance(x, VAgg) and x.var is not None):
            return None
        if x.var != want[kd[0]]:
            return "its type is not that of the object (%s)" % kd[0]
    if n == 0:
        return None if INEXACT.search(text) else "it does not carry the permissions in the object's metadata"
    return True


def walk(ctx):
    if hasattr(ctx, "_walk"):
        return ctx._walk
    prog = ctx.prog
    ent = Entry(ctx)
    co, base = async_fn(ctx, "add_directory_recursive")
    names = upvars(prog, co)
    d = one(names, lambda t: t.get("path") == PATH, "the directory given to add_directory_recursive")
    root = one(names, lambda t: t.get("path") == "std::option::Option", "the root name given to add_directory_recursive")
    h = WalkHooks(d, ent.ty)
    h.rootname = root
    h.types, h.dates = type_values(ctx), date_setters(ctx)

    def prep(run, eng, st):
        h.eng = eng
        h.prepare(st)
        return [st]
    run = Run(prog, {"body": co["body"], "name": "add_directory_recursive"}, h, prep)
    ctx._walk = (run, h, ent, d, root, base)
    return ctx._walk


def type_values(ctx):
    """where an entry keeps its type, and what the setters put there"""
    S = setters(ctx)
    res = {}
    for n, k in (("file", "file"), ("directory", "dir"), ("symlink", "link")):
        ru = S.apply(n)
        for o in ru.outs:
            for p, t in S.br.e_leaves:
                v = ru.rd(o.st, p)
                v = ru.eng.expand(o.st, v) if isinstance(v, VSym) else v
                if isinstance(v, VAgg) and v.var is not None:
                    res.setdefault(p, {})[k] = v.var
    res = {p: m for p, m in res.items() if len(m) == 3 and len(set(m.values())) == 3}
    if len(res) != 1:
        raise Unidentified("where an entry keeps its type was not identified")
    return res


def date_setters(ctx):
    """bodies of the date and time setters, with the fields each may write"""
    S = setters(ctx)
    res = {}
    for n, r in S.roots.items():
        if not n.startswith("datetime"):
            continue
        ru = S.apply(n)
        if ru.losts or not ru.outs:
            continue
        ps = {}
        for o in ru.outs:
            for p, t in S.br.e_leaves:
                if ru.init(p) != ru.rd(o.st, p):
                    ps[p] = t
        res[r["path"]] = ps
    return res


def has_type(prog, v, suffix, d=6):
    if d < 0:
        return False
    ty = getattr(v, "ty", None)
    if ty is not None and (prog.types[ty].get("path") or "").endswith(suffix):
        return True
    return isinstance(v, VAgg) and any(has_type(prog, x, suffix, d - 1) for x in v.f)


def holds(v, name, d=6):
    if d < 0:
        return False
    if named(v, name):
        return True
    return isinstance(v, VAgg) and any(holds(x, name, d - 1) for x in v.f)


def ends(ctx):
    """what every path through the walk returns"""
    run, h, ent, d, rootname, base = walk(ctx)
    if hasattr(h, "ended"):
        return h.ended
    res = h.ended = []
    for o in run.outs:
        st = o.st
        v = unready(run, o)
        k, x = result_kind(run, st, v)
        h.root_known(st)
        if k == "ok":
            h.close(st, "end of the walk")
        res.append((k, x, st))
    return res


WHAT23 = ("Every path of the recursive walk is followed through its loops with, per object the listing yields, what is known about it, how often it was added and "
          "whether its path was put on the list of directories to read (typestate over the abstract interpretation of the async function's MIR).")


@rule("C23")
def recursion(ctx, rep):
    rep.explanation = WHAT23
    run, h, ent, d, rootname, base = walk(ctx)
    prog = ctx.prog
    sure = not h.losts
    res = ends(ctx)
    n = {"ok": 0, "refused": 0, "error": 0}
    for k, x, st in res:
        errv = st.store.get(X("errv")) if h.g(st, "err") else None
        if k == "ok":
            n["ok"] += 1
            con = "the walk succeeds"
            rep.judge(errv is None, h.ERRS, con, "although %s failed" % (h.errfn(st) if errv is not None else ""))
            rep.judge(h.g(st, "rootdir") == 1, h.ROOT, con, "without the given path being known to be a directory")
            esc = h.g(st, "esc")
            rep.judge(h.g(st, "listed") >= 1 or (None if esc else False), h.DESC, con + ": the given directory is read", "it is not")
            rep.judge(not h.g(st, "popd") or (None if esc else False), h.DESC, con + ": no directory taken from the list is left unread", "one is")
            rep.judge(not h.g(st, "open") or (None if esc else False), h.ENDS, con, "with a listing left before its end")
            rep.judge(h.g(st, "empty") == 1 or (None if esc else False), h.DESC, con + ": the list of directories is empty", "it is not known to be empty")
        elif k == "err":
            if errv is not None:
                n["error"] += 1
                rep.judge(holds(x, errv.name) or (None if not exact_any(x) else False), h.ERRS, "after a failed %s" % h.errfn(st), "returned %s" % show(x)[:160])
            elif h.g(st, "rootdir") == 2:
                n["refused"] += 1
                rep.judge(not h.g(st, "listed") and not h.g(st, "rootadded") and not h.g(st, "added"), h.ROOT, "refusal", "after something was read or added")
            elif has_type(prog, x, "AddEntryError"):
                n["error"] += 1
                rep.ok(h.ERRS, "an entry that could not be added")
            elif h.g(st, "rootdir") == 0 and not h.g(st, "listed"):
                rep.judge(None if h.losts else False, h.ROOT, "refusal", "the given path is refused without its kind being known: %s" % show(x)[:120])
            else:
                rep.judge(None if h.losts or not exact_any(x) else False, h.ADD, "an error of the walk's own", "%s is returned although nothing failed" % show(x)[:160])
        else:
            rep.undecided("every result is understood", base, show(x if x is not None else "?")[:160])
    for (r, c, what, sur) in h.found:
        rep.judge(False if sur else None, r, c, what)
    for (r, c), k in h.checked.items():
        for _ in range(1):
            rep.ok(r, c)
        rep.count("checked: " + r, k)
    for w, st, kw, p in h.inserts:
        own_entry(ctx, rep, run, h, ent, w, st, kw, p, d)
    for f, w, span, st in run.panics:
        if all(exact_val(y) for y in st.ge):
            rep.count("panicking branches seen")
    for w in h.losts[:5]:
        rep.undecided("the walk is followed", w[0], w[2])
    if sure:
        rep.floor("ways the walk succeeds", n["ok"], 1)
        rep.floor("refusals of something that is not a directory", n["refused"], 1)
        rep.floor("errors returned", n["error"], 4)
        rep.floor("objects added", sum(1 for i in h.inserts if i[0] == "object"), 3)
    rep.count("paths", len(res))
    rep.analysed |= run.fns


def own_entry(ctx, rep, run, h, ent, who, st, kw, p, d):
    """the entry added is made from the object's own path and metadata"""
    P = "an entry is made from its own object"
    o = h.obj(st) if who == "object" else "root"
    ms = [m for m, x in h.metas.items() if x == o and isinstance(m, str)]
    con = "object found" if who == "object" else "the given directory"
    path = p if who == "object" else d
    if not ms:
        rep.judge(None if h.losts else False, P, con, "no metadata of it was read without following links")
        return
    for m in ms:
        kd = kind_of(st, m)
        if kd is None and who == "root" and h.g(st, "rootdir") == 1:
            kd = "dir"
        if kd is None:
            continue
        key = (who, kd, repr(h.data(kw["value"])))
        if key in getattr(h, "seen_entries", set()):
            rep.ok(P, "%s (%s)" % (con, kd))
            return
        h.seen_entries = getattr(h, "seen_entries", set()) | {key}
        sub = SrcHooks()
        old = run.eng.hooks
        run.eng.hooks, sub.eng = sub, run.eng
        try:
            same_source(rep, ent, run.eng, st.copy(), h.data(kw["value"]), path, m, kd, con, sub)
        finally:
            run.eng.hooks = old
        rep.ok(P, "%s (%s)" % (con, kd))
        return
    rep.judge(None if h.losts else False, P, con, "an entry is added without the object's kind being known")


# ------------------------------------------------------------------ names
WHAT31 = ("The key of every entry the file system functions add is compared, as a sequence of pieces, with the name the documentation gives it: root name without outer slashes "
          "and one slash, the path relative to the given directory, one slash exactly for directories.")
RULE31 = "a name is root name, relative path and slash"


def trimmed(eng, st, seg, of):
    """sides on which slashes were removed from the argument to make this piece, or None"""
    sides = set()
    name = seg[1]
    ty = eng.find_ty("u8")
    if st.decide(eq0(seg[2])) is not True:
        return {"?"} if name.startswith(of) else None
    # a piece from the start, as long as what trimming the end leaves
    base = M.short(VSeq(ty, [("sym", name, ZERO, atom_aff(Atom(name + ".len", (), 0, ISZ)))]))
    cut = atom_aff(Atom("trim_end_matches(%s, '/').len" % base, (), 0, ISZ))
    if st.decide(eq0(seg[3] - cut)) is True:
        sides.add("end")
    elif str(seg[3]) != "%s.len" % name:
        return ({"?"} if INEXACT.search(str(seg[3])) or "ph" in str(seg[3]) and re.search(r"\bph[ix]:", str(seg[3])) else set()) if name.startswith(of) or name.startswith("trim_") else None
    for _ in range(6):
        m = re.match(r"^(trim\w*)\((.*), '/'\)$", name)
        if not m:
            break
        sides |= {"trim_matches": {"start", "end"}, "trim_start_matches": {"start"}, "trim_end_matches": {"end"}}.get(m.group(1), {"?"})
        name = m.group(2)
        q = re.match(r"^\[(.*)\[0\.\.\+.*\]\]$", name)
        if q:
            name = q.group(1)
    return sides if name.startswith(of) else None


def root_prefix(eng, st, segs, of):
    """does the sequence start with the root name without slashes and one slash?  (True/False/None, rest)"""
    if not segs or segs[0][0] != "sym":
        return None, segs
    sides = trimmed(eng, st, segs[0], of)
    ok_ = None
    if sides is not None:
        ok_ = sides == {"start", "end"} if "?" not in sides else None
    if len(segs) < 2 or segs[1][0] != "lit" or not segs[1][1] or str(segs[1][1][0]) != "47":
        return (False if sides is not None else None), segs[1:]
    rest = list(segs[1:])
    lits = rest[0][1][1:]
    rest = ([("lit", tuple(lits))] if lits else []) + rest[1:]
    return ok_, rest


def relative(eng, st, seg, path, d):
    """is this piece the whole of the path relative to the directory?"""
    if seg[0] != "sym":
        return False
    whole_ = whole(st, VSeq(None, [seg]))
    base, o, changed, known = peel(eng, seg[1])
    if changed == "to_string_lossy" and name_of(o[2][0]):
        base, o, changed, known = peel(eng, name_of(o[2][0]))
    if changed == "strip_prefix":
        a, b = o[2][0], o[2][1]
        if name_of(a) == path and name_of(b) == d:
            return True if whole_ else False
        return False if name_of(a) is not None and name_of(b) is not None else None
    if changed:
        return False
    if base == path and known:
        return False
    return None


@rule("C31")
def names(ctx, rep):
    rep.explanation = WHAT31
    run, h, ent, d, rootname, base = walk(ctx)
    eng = run.eng
    n = {}
    for who, st, kw, p in h.inserts:
        key = kw["key"]
        key = eng.as_seq(st, key) if not isinstance(key, VSeq) else key
        rn = st.refine.get(rootname)
        o = h.obj(st) if who == "object" else "root"
        if rn is None:
            rep.judge(None if h.losts else False, RULE31, "%s: root name" % who, "an entry is named before it is known whether a root name was given")
            continue
        con = "%s, %s root name" % ("object found" if who == "object" else "the given directory", "no" if rn == 0 else "a")
        n[(who, rn)] = n.get((who, rn), 0) + 1
        if key.over:
            rep.undecided(RULE31, con, show(key)[:200])
            continue
        segs = list(key.segs)
        if rn == 1:
            ok_, segs = root_prefix(eng, st, segs, rootname)
            rep.judge(ok_, RULE31, con + ": prefix", "the name is %s" % show(key)[:300])
            if ok_ is not True:
                continue
        if who == "root":
            rep.judge(not segs, RULE31, con + ": nothing more", "the name is %s" % show(key)[:300])
            continue
        if not segs:
            rep.bad(RULE31, con + ": path", "the name is %s" % show(key)[:300])
            continue
        r = relative(eng, st, segs[0], p, d)
        rep.judge(r, RULE31, con + ": relative path", "the name is %s" % show(key)[:300])
        tail = segs[1:]
        k = h.g(st, "kind")
        txt = [str(x) for s in tail for x in (s[1] if s[0] == "lit" else ("?",))]
        want = {1: ["47"], 2: []}.get(k)
        if want is None:
            rep.judge(False if exact_any(key) and not h.losts else None, RULE31, con + ": slash at the end", "named without knowing whether the object is a directory")
        else:
            rep.judge(txt == want or (None if "?" in txt else False), RULE31, con + ": slash at the end", "%s gets %s" % ({1: "a directory", 2: "something else"}[k], txt or "no slash"))
    for k, x, st in ends(ctx):
        if k != "ok":
            continue
        rn = st.refine.get(rootname)
        ra = h.g(st, "rootadded")
        if rn is None:
            rep.judge(None if ra or h.losts else False, "the root is added exactly when a root name is given", base, "the root name is not looked at")
        else:
            rep.judge(ra == (1 if rn == 1 else 0) or (None if h.g(st, "esc") else False), "the root is added exactly when a root name is given",
                      "a root name" if rn else "no root name", "the root is added %s" % ["not at all", "once", "more than once"][ra])
    for who, st, kw, p in h.inserts:
        if who == "root":
            rep.judge(h.g(st, "rootdir") == 1, "the root is added as a directory", base, "its kind is not known")
    for w in h.losts[:5]:
        rep.undecided("the walk is followed", w[0], w[2])
    if not h.losts:
        for k in (("object", 0), ("object", 1), ("root", 1)):
            rep.floor("names: %s, root name %s" % (k[0], "given" if k[1] else "not given"), n.get(k, 0), 1)
    single(ctx, rep, ent)
    rep.analysed |= run.fns


class SingleHooks(WalkHooks):
    def on_event(self, st, kind, **kw):
        RunHooks.on_event(self, st, kind, **kw)
        if kind == "map_insert":
            self.inserts.append(("object", st.copy(), kw, None))
            self.slot.setdefault("it", set()).add(kw.get("slot"))
            self.s(st, "added", min(2, self.g(st, "added") + 1))

    def pre_loop_head(self, st, body, bb):
        return None

    def on_extern(self, st, c):
        pass

    def on_unknown_call(self, st, c, f, args):
        pass


def single(ctx, rep, ent):
    """Builder::add_filesystem_entry"""
    prog = ctx.prog
    co, base = async_fn(ctx, "add_filesystem_entry")
    up = upvars(prog, co)
    path = one(up, lambda t: t.get("path") == PATH, "the path given to add_filesystem_entry")
    name = one(up, lambda t: t.get("path") == "std::string::String", "the name given to add_filesystem_entry")
    md = one(up, lambda t: t["k"] == "ref" and prog.types[t["el"]].get("path") == "std::fs::Metadata", "the metadata given to add_filesystem_entry")
    h = SingleHooks(path, ent.ty)
    h.rootname = None
    h.types, h.dates = type_values(ctx), date_setters(ctx)
    h.metas["?" + md] = "it"

    def prep(run, eng, st):
        h.eng = eng
        h.prepare(st)
        return [st]
    run = Run(prog, {"body": co["body"], "name": "add_filesystem_entry"}, h, prep)
    eng = run.eng
    R = "a name given is kept, with a slash at its end exactly for directories"
    n = {}
    for who, st, kw, _ in h.inserts:
        kd = kind_of(st, "?" + md)
        key = kw["key"]
        key = eng.as_seq(st, key) if not isinstance(key, VSeq) else key
        if kd is None:
            rep.judge(False if not h.losts else None, R, "add_filesystem_entry", "an entry is named without its kind being known")
            continue
        con = "add_filesystem_entry of a %s" % {"dir": "directory", "link": "symbolic link", "file": "file"}[kd]
        n[kd] = n.get(kd, 0) + 1
        segs = [s for s in key.segs]
        ok_ = None
        if key.over or not segs or segs[0][0] != "sym":
            rep.judge(None if key.over or not segs or segs[0][0] != "lit" else False, R, con, show(key)[:200])
            continue
        s0 = segs[0]
        sides = trimmed(eng, st, s0, name)
        if sides is not None:
            ok_ = sides == {"end"} if "?" not in sides else None
        rep.judge(ok_, R, con + ": the name without slashes at its end", "the name is %s" % show(key)[:200])
        txt = [str(x) for s in segs[1:] for x in (s[1] if s[0] == "lit" else ("?",))]
        want = ["47"] if kd == "dir" else []
        rep.judge(txt == want or (None if "?" in txt else False), R, con + ": slash at the end", "%s is put behind it" % (txt or "nothing"))
        pth = path_in(eng, st, h.data(kw["value"]))
        rep.judge(pth == path or None, R, con + ": its path", "path %s" % pth)
        sub = SrcHooks()
        run.eng.hooks, sub.eng = sub, run.eng
        try:
            same_source(rep, ent, eng, st.copy(), h.data(kw["value"]), path, "?" + md, kd, "add_filesystem_entry's entry", sub)
        finally:
            run.eng.hooks = h
    for o in run.outs:
        v = unready(run, o)
        k, x = result_kind(run, o.st, v)
        if k != "ok":
            continue
        rep.judge(h.g(o.st, "added") == 1, R, "add_filesystem_entry adds one entry", "%d" % h.g(o.st, "added"))
        e = h.added_value(o.st, "it")
        r = carries(h, o.st, e, "it") if e is not None else None
        rep.judge(True if r is True else None if r is None else False, "an entry added carries the metadata given", "add_filesystem_entry", str(r))
    for w in h.losts[:5]:
        rep.undecided("add_filesystem_entry is followed", w[0], w[2])
    if not h.losts:
        for kd in ("dir", "link", "file"):
            rep.floor("add_filesystem_entry: " + kd, n.get(kd, 0), 1)
    rep.analysed |= run.fns
