"""C25, C26, C27: byte streams, response bodies, HTTP responses and the channel that gives the reader back."""
from .common import *
from .memory import find_val, leaf
from .seek import result_kind
from ..base import CheckFailed, Unidentified
from ..readobl import seq_eq
from ..roles import find_values, flat_fields
from . import rule


# ---------------------------------------------------------------- roles
class WebRoles:
    def __init__(self, ctx):
        prog = self.prog = ctx.prog
        self.reader_ty = ctx.roles.reader_ty
        self.rpath = prog.types[self.reader_ty]["path"]
        self.stream_poll = self._trait("Stream", "poll_next")
        self.stream_ty = self.stream_poll["self_ty"]
        self.spath = prog.types[self.stream_ty]["path"]
        sl = flat_nonlocal(prog, self.stream_ty, {self.rpath})
        self.s_reader = only([p for p, t in sl if prog.types[t].get("path") == self.rpath], "reader of the byte stream")
        self.s_other = [(p, t) for p, t in sl if p != self.s_reader]

    def _trait(self, tr, name, many=False):
        rs = [r for r in self.prog.roots if r["name"] == name and (r.get("trait") or "").split("::")[-1] == tr and r.get("self_ty") is not None
              and self.prog.types[r["self_ty"]].get("local") and r.get("body") is not None]
        if len(rs) != 1:
            raise CheckFailed("%d implementations of %s found" % (len(rs), tr))
        return rs[0]

    def web(self):
        if hasattr(self, "body_poll"):
            return self
        prog = self.prog
        self.body_poll = self._trait("MessageBody", "poll_next")
        self.body_size = self._trait("MessageBody", "size")
        self.respond = self._trait("Responder", "respond_to")
        self.body_ty = self.body_poll["self_ty"]
        self.bpath = prog.types[self.body_ty]["path"]
        self.adapter_ty = self.respond["self_ty"]
        # what the body announces
        run = Run(prog, self.body_size)
        base = run.init(())
        names = {}
        for p, t in flat_nonlocal(prog, self.body_ty, {self.spath, self.rpath}):
            if prog.types[t]["k"] == "int":
                names[p] = run.init(p)
        self.b_ints = names
        self.size_outs = [(o.st, run.expand(o.st, o.val)) for o in run.outs]
        self.b_size = None
        for st, v in self.size_outs:
            x = v.f[0] if variant(prog, v) == "Sized" else None
            for p, y in names.items():
                if isinstance(x, Aff) and x == y:
                    self.b_size = p
        # what is left: the number that reading changes
        wr = set()
        run = Run(prog, self.body_poll, hooks=ReadHooks(self), prep=body_prep(self))
        for o in run.outs:
            for p in names:
                if run.rd(o.st, p) != run.init(p):
                    wr.add(p)
        self.poll_run = run
        self.b_left = next(iter(wr)) if len(wr) == 1 else None
        self.b_stream = only([p for p, t in flat_nonlocal(prog, self.body_ty, {self.spath, self.rpath}) if prog.types[t].get("path") in (self.spath,)], "byte stream of the body")
        return self


def only(xs, what):
    if len(xs) != 1:
        raise Unidentified("%s not identified (%d candidates)" % (what, len(xs)))
    return xs[0]


def flat_nonlocal(prog, ty, stop):
    """leaf fields, not looking inside the types named in `stop`"""
    out = []

    def go(t, path, d):
        x = prog.types[t]
        if x["k"] == "adt" and x.get("path") in stop and path:
            out.append((path, t))
        elif x["k"] == "adt" and x.get("akind") == "struct" and x.get("local") and d < 7 and "variants" in x:
            for i, f in enumerate(x["variants"][0]["f"]):
                go(f["t"], path + (i,), d + 1)
        elif x["k"] == "tuple" and x["els"]:
            for i, e in enumerate(x["els"]):
                go(e, path + (i,), d + 1)
        else:
            out.append((path, t))
    go(ty, (), 0)
    return out


def wroles(ctx):
    if not hasattr(ctx, "_web"):
        ctx._web = WebRoles(ctx)
    return ctx._web


GOT, LAST, NREAD, ERR, PEND = (("X", "web.%s" % n) for n in ("got", "last", "reads", "err", "pend"))


class ReadHooks(RunHooks):
    """remembers, per path, what was read from the reader"""

    def __init__(self, wr):
        super().__init__()
        self.wr = wr

    def note(self, st, outcome, seq=None, err=None):
        st.store[NREAD] = st.store.get(NREAD, ZERO) + 1
        if outcome == "pending":
            st.store[PEND] = ONE
        elif outcome == "err":
            st.store[ERR] = err
        else:
            got = st.store.get(GOT)
            st.store[GOT] = seq if got is None else VSeq(got.elty, got.segs + seq.segs)
            st.store[LAST] = seq.length()

    def on_event(self, st, kind, **kw):
        super().on_event(st, kind, **kw)
        if kind == "reader_read":
            self.note(st, kw["outcome"], kw.get("seq"), kw.get("err"))

    def on_call(self, st, c):
        # a direct read from the reader: any outcome an AsyncRead may have
        if c.name == "poll_read" and c.body is not None and c.argtys:
            p = self.wr.prog
            b = p.bodies[c.body]
            if not b["local"] or b["argc"] != 3:
                return None
            t = p.types[b["locals"][1]]
            if self.wr.rpath not in t["s"]:
                return None
            eng = self.eng
            res = []
            out = M.read_outcomes(eng, st, c, c.args[0], c.args[2], "reader")
            for s, v in out:
                n = variant(p, v)
                if n == "Pending":
                    self.note(s, "pending")
                else:
                    x = v.f[0]
                    if variant(p, x) == "Err":
                        self.note(s, "err", err=x.f[0])
                    else:
                        rr, bv = M.rb(eng, s, c.args[2])
                        seg = bv.f[2].segs[-1]
                        self.note(s, "ok", VSeq(bv.f[2].elty, [seg]) if seg[0] == "sym" and str(seg[1]).startswith("src") else VSeq(bv.f[2].elty, []))
                res.append((s, v))
            return res
        return None


class WRun(Run):
    def __init__(self, prog, root, hooks, prep=None):
        h = hooks

        def pr(run, eng, st):
            h.eng = eng
            return prep(run, eng, st) if prep else None
        super().__init__(prog, root, hooks=h, prep=pr)


def set_at(run, eng, st, path, val, i=0):
    r = run.refs[i] if hasattr(run, "refs") else run.ref(i)
    eng.write(st, r.root, tuple(r.path) + epath(path), val)


def buf_paths(wr):
    return [(p, t) for p, t in wr.s_other if wr.prog.types[t].get("path") in ("bytes::BytesMut", "std::vec::Vec", "bytes::Bytes")]


def body_prep(wr):
    """a body's stream is between two polls: its buffer is empty and has room"""
    def prep(run, eng, st):
        run.h.eng = eng
        bs = [p for p, t in flat_nonlocal(wr.prog, wr.body_ty, {wr.spath, wr.rpath}) if wr.prog.types[t].get("path") == wr.spath]
        for b in bs:
            for p, t in buf_paths(wr):
                cap = atom_aff(Atom("cap0", (), 1, ISZ))
                set_at(run, eng, st, b + p, VSeq(eng.find_ty("u8"), [], (), t, cap))
    return prep


# ---------------------------------------------------------------- C26: streams
def kind_of(v, st=None):
    """abstract state of a buffer between polls: (is it empty, has it room)"""
    if not isinstance(v, VSeq):
        return None
    return (len(v.segs) == 0 or st is not None and st.decide(eq0(v.length())) is True, None if v.cap is None else (0 if v.cap.is_const and v.cap.c <= 0 else 1))


def buffer_of(run, st, v, p):
    x = v
    for i in p:
        x = run.eng.step(st, x, ("f", i))
    return x


def takes_stream(prog, wr, root):
    """does the function get a stream it did not make itself?"""
    b = prog.bodies[root["body"]]
    for t in b["locals"][1:b["argc"] + 1]:
        x = prog.types[t]
        while x["k"] == "ref" or x.get("path", "").endswith("pin::Pin"):
            t = x["el"] if x["k"] == "ref" else x["args"][0]
            x = prog.types[t]
        if t == wr.stream_ty or x.get("path") == wr.spath:
            return True
    return False


def stream_makers(prog, wr):
    """every function of the crate that returns a byte stream"""
    return [r for r in prog.roots if r.get("body") is not None and r.get("kind") != "closure"
            and prog.types[prog.bodies[r["body"]]["locals"][0]].get("path") == wr.spath]


def in_state(wr, B, Bty, k, argi=0):
    """prepares a stream whose buffer is in the given abstract state"""
    def prep(run, eng, st):
        run.eng = eng
        u8 = eng.find_ty("u8")
        nm = "buf0"
        segs = [] if k[0] is True else [("sym", nm, ZERO, atom_aff(Atom(nm + ".len", (), 0, ISZ)))]
        cap = {0: ZERO, 1: atom_aff(Atom("cap0", (), 1, ISZ)), None: None}[k[1]]
        r = run.ref(argi)
        if isinstance(r, VRef):
            eng.write(st, r.root, tuple(r.path) + epath(B), VSeq(u8, segs, (), Bty, cap))
        run.buf0 = VSeq(u8, segs)
    return prep


@rule("C26")
def streams(ctx, rep):
    wr, prog = wroles(ctx), ctx.prog
    rep.explanation = (rep.explanation + " " +
        "Every outcome of polling a byte stream, in every state of its buffer that the ways of making a stream and polling itself can leave: "
        "what is handed out plus what stays buffered equals what was buffered plus what the reader delivered in this poll; items are not empty; "
        "the end is reported only when the reader reported its end; the reader's error and readiness are passed on; no assertion of the stream "
        "fails. Every outcome of polling a response body with any number of bytes left: never more than what is left, bookkeeping exact, cut only at the announced length, end exactly at zero.").strip()
    bufs = buf_paths(wr)
    if len(bufs) != 1:
        rep.undecided("buffer of the byte stream", prog.tys(wr.stream_ty), "%d candidate fields" % len(bufs))
        return
    B, Bty = bufs[0]
    kinds = {}
    n = 0
    makers = stream_makers(prog, wr)
    copiers = [r for r in makers if takes_stream(prog, wr, r)]

    def made(root, run):
        """records the states of the streams a function returns"""
        rep.analysed |= run.fns
        nm = root["name"] + (" (%s)" % root["trait"].split("::")[-1] if root.get("trait") else "")
        for o in run.outs:
            x = run.expand(o.st, buffer_of(run, o.st, run.expand(o.st, o.val), B))
            k = kind_of(x, o.st) if isinstance(x, VSeq) else ("?", None)
            if nm not in kinds.setdefault(k, []):
                kinds[k].append(nm)
            if k not in seen:
                todo.append(k)
    todo, seen = [], set()
    for root in makers:
        if root not in copiers:
            made(root, Run(prog, root))
            n += 1
    rep.floor("ways of making a byte stream", n, 1)
    # functions that get a stream find it in one of the states found so far; polling closes the set
    polls = 0
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        frm = ", ".join(kinds.get(k, ["a previous poll"]))
        for root in copiers:
            made(root, Run(prog, root, prep=in_state(wr, B, Bty, k)))
        run = WRun(prog, wr.stream_poll, ReadHooks(wr), in_state(wr, B, Bty, k))
        rep.analysed |= run.fns
        for f, bb, why in run.losts:
            rep.undecided("path analysed to its end", f, why)
        for f, w, span, s in run.panics:
            sure = all(exact_val(x) and "unknown" not in str(x) for x in s.ge) and k[1] is not None
            rep.judge(False if sure else None, "no assertion of the stream fails", "%s, stream from %s" % (short_fn(f), frm), "%s reachable when the buffer is %s with %s" % (
                w, "empty" if k[0] is True else "not known empty", {0: "no capacity", 1: "some capacity", None: "unknown capacity"}[k[1]]))
        rep.ok("no assertion of the stream fails", "stream from %s" % frm)
        for o in run.outs:
            polls += 1
            st = o.st
            v = run.expand(st, o.val)
            got = st.store.get(GOT) or VSeq(run.buf0.elty, [])
            after = run.rd(st, B)
            before = VSeq(run.buf0.elty, run.buf0.segs + got.segs)
            what, item, e = poll_item(prog, run, st, v)
            aseg = after.segs if isinstance(after, VSeq) else None
            if aseg is None:
                rep.undecided("nothing is dropped or repeated", what, "buffer %s" % show(after))
                continue
            ka = kind_of(after, st)
            if ka not in seen:
                kinds.setdefault(ka, ["a previous poll"])
                todo.append(ka)
            out = item.segs if isinstance(item, VSeq) else ()
            if what == "item" and not isinstance(item, VSeq):
                rep.undecided("nothing is dropped or repeated", what, "item %s" % show(item))
                continue
            ok, at = seq_eq(run.eng, st, VSeq(before.elty, tuple(out) + tuple(aseg)), before)
            if what == "end":
                # nothing may be left when the end is announced
                rep.judge(verdict(st, eq0(VSeq(before.elty, aseg).length())), "the end leaves nothing behind", what, "still buffered %s" % show(after))
                z = st.store.get(LAST)
                rep.judge(verdict(st, eq0(z)) if z is not None else (False if not st.store.get(NREAD) else None), "the stream ends only where the reader ends", what,
                          "last read delivered %s" % show(z))
            rep.judge(ok, "nothing is dropped or repeated", what, "handed out %s, still buffered %s, had %s" % (show(item), show(after), show(before)))
            if what == "item":
                rep.judge(verdict(st, ge0(item.length() - 1)), "no empty chunk", what, show(item))
            elif what == "error":
                x = st.store.get(ERR)
                rep.judge(True if x is not None and same_err(run, st, e, x) else (False if x is None and exact_any(e) else None), "the reader's error passes through", what, show(e))
            elif what == "pending":
                rep.judge(True if st.store.get(PEND) == ONE else (False if st.store.get(NREAD) is None or st.store.get(GOT) is not None else None), "not ready only if the reader is not ready", what, "")
            elif what == "?":
                rep.undecided("outcome of polling the stream", what, show(v))
    rep.floor("outcomes of polling a byte stream", polls, 4)


def short_fn(f):
    return f.split("::")[-1] if not f.startswith("<") else f.split("<")[1].split(" as ")[0].split("::")[-1] + "::" + f.split("::")[-1]


def same_err(run, st, e, x, d=4):
    if e == x:
        return True
    e = run.expand(st, e) if isinstance(e, VSym) else e
    if isinstance(e, VSym) and e.origin and d > 0:
        o = e.origin
        for y in (o[2] if len(o) > 2 and isinstance(o[2], tuple) else ()):
            if same_err(run, st, y, x, d - 1):
                return True
    if isinstance(e, VAgg) and d > 0:
        return any(same_err(run, st, y, x, d - 1) for y in e.f)
    return False


def poll_item(prog, run, st, v):
    """classifies Poll<Option<Result<item, error>>>"""
    n = variant(prog, v)
    if n == "Pending":
        return "pending", None, None
    if n != "Ready":
        return "?", None, None
    o = run.expand(st, v.f[0])
    n = variant(prog, o)
    if n == "None":
        return "end", None, None
    if n != "Some":
        return "?", None, None
    r = run.expand(st, o.f[0])
    n = variant(prog, r)
    if n == "Ok":
        x = r.f[0]
        return "item", run.expand(st, x) if isinstance(x, VSym) else x, None
    if n == "Err":
        return "error", None, r.f[0]
    return "?", None, None


@rule("C26")
def bodies(ctx, rep):
    wr, prog = wroles(ctx).web(), ctx.prog
    run = wr.poll_run
    rep.analysed |= run.fns
    if wr.b_left is None:
        rep.undecided("bytes left of a body", prog.tys(wr.body_ty), "no single field holds it")
        return
    left0 = run.init(wr.b_left)
    for f, bb, why in run.losts:
        rep.undecided("path analysed to its end", f, why)
    for f, w, span, s in run.panics:
        if s.store.get(LAST) is not None and s.decide(eq0(s.store[LAST])) is True:
            continue    # the reader ended before the announced length: excluded by what the responder announces
        rep.judge(False if all(exact_val(x) for x in s.ge) else None, "no assertion of the body fails", short_fn(f), "%s when %s" % (w, "; ".join(map(str, s.ge))[:300]))
    rep.ok("no assertion of the body fails", "Body")
    n = 0
    for o in run.outs:
        st, eng = o.st, run.eng
        n += 1
        v = run.expand(st, o.val)
        what, item, e = poll_item(prog, run, st, v)
        left = run.rd(st, wr.b_left)
        got = st.store.get(GOT)
        if not isinstance(left, Aff):
            rep.undecided("bytes left of a body", what, show(left))
            continue
        if wr.b_size is not None and wr.b_size != wr.b_left:
            a, b = run.init(wr.b_size), run.rd(st, wr.b_size)
            rep.judge(True if a == b else verdict(st, eq0(a - b)), "the announced length stays", what, "%s becomes %s" % (show(a), show(b)))
        if what == "end":
            rep.judge(verdict(st, eq0(left0)), "the body ends exactly at the announced length", what, "ends with %s left" % show(left0))
        else:
            if st.decide(eq0(left0)) is True:
                rep.bad("the body ends exactly at the announced length", what, "%s although nothing is left" % what)
        if what == "item":
            if not isinstance(item, VSeq):
                rep.undecided("the body hands out the reader's bytes", what, show(item))
                continue
            ln = item.length()
            rep.judge(verdict(st, eq0(left - left0 + ln)), "bytes left go down by what is handed out", what, "left %s becomes %s, handed out %s" % (show(left0), show(left), show(ln)))
            rep.judge(verdict(st, ge0(left0 - ln)), "a body never exceeds its announced length", what, "%s of %s left" % (show(ln), show(left0)))
            rep.judge(verdict(st, ge0(ln - 1)), "no empty chunk", what + " of the body", show(ln))
            g = got or VSeq(item.elty, [])
            try:
                pre = eng.seq_sub(st, g, ZERO, ln)
                ok, at = seq_eq(eng, st, item, pre)
            except Lost:
                ok = None
            rep.judge(ok, "the body hands out the reader's bytes", what, "handed out %s, read %s" % (show(item), show(g)))
            cut = g.length() - ln
            if st.decide(eq0(cut)) is not True:
                s = st.copy()
                if s.assume(ge0(cut - 1)) and not s.dead:
                    rep.judge(verdict(s, eq0(left)), "bytes are cut off only at the announced length", what, "cut %s with %s left" % (show(cut), show(left)))
        else:
            rep.judge(verdict(st, eq0(left - left0)), "nothing is counted that was not handed out", what, "left %s becomes %s" % (show(left0), show(left)))
            if got is not None:
                rep.judge(verdict(st, eq0(got.length())), "nothing is dropped or repeated", what + " of the body", "read %s" % show(got))
        if what == "error":
            x = st.store.get(ERR)
            rep.judge(True if x is not None and same_err(run, st, e, x) else (False if x is None and exact_any(e) else None), "the reader's error passes through", what + " of the body", show(e))
        if what == "pending":
            rep.judge(True if st.store.get(PEND) == ONE else (False if st.store.get(NREAD) is None or got is not None else None), "not ready only if the reader is not ready", what + " of the body", "")
        if what == "?":
            rep.undecided("outcome of polling a body", what, show(v))
    rep.floor("outcomes of polling a body", n, 0 if run.losts else 4)
    for st, v in wr.size_outs:
        rep.judge(True if wr.b_size is not None else (False if variant(prog, v) in ("None", "Stream") else None), "the body announces its length", "MessageBody::size", show(v))


# ---------------------------------------------------------------- C25: responses
RANGE_ATOM = re.compile(r"ParsedRanges::validate\(")


def contract(run, st, total):
    """what http_range_header::ParsedRanges::validate guarantees: at least one range, start <= end < size"""
    atoms = {}
    for f in list(st.ge) + [x for v in st.store.values() for x in affs(v)]:
        for a in f.atoms():
            s = str(a.op)
            if not RANGE_ATOM.search(s):
                continue
            if s.endswith(".len"):
                atoms[(s, "len")] = a
            for e in (".start", ".end"):
                if s.endswith(e):
                    atoms.setdefault((s[:-len(e)], "r"), {})[e] = a
    fs = []
    for (s, k), a in atoms.items():
        if k == "len":
            fs.append(atom_aff(a) - 1)
        else:
            lo, hi = a.get(".start"), a.get(".end")
            if lo is not None and hi is not None:
                fs.append(atom_aff(hi) - atom_aff(lo))
            if hi is not None:
                fs.append(total - 1 - atom_aff(hi))
            if lo is not None:
                fs.append(total - 1 - atom_aff(lo))
    for f in fs:
        if st.assume(ge0(f)) is False or st.dead:
            return False
    return not any(st.decide(ge0(f)) is False for f in fs)


def affs(v, d=7):
    if isinstance(v, Aff):
        return [v]
    if isinstance(v, VAgg) and d > 0:
        return [y for x in v.f for y in affs(x, d - 1)]
    return []


def pieces(eng, seq):
    """a formatted string as literal text and displayed values"""
    out = []
    for s in seq.segs:
        if s[0] == "lit":
            cs = []
            for x in s[1]:
                if isinstance(x, str):
                    cs.append(x)
                elif isinstance(x, Aff) and x.is_const:
                    cs.append(chr(x.c))
                else:
                    return None
            out.append("".join(cs))
        elif s[0] == "sym" and s[1] in eng.displayed:
            out.append(eng.displayed[s[1]])
        else:
            return None
    return out


def text(eng, v):
    """literal text of a header value, if it is one"""
    if isinstance(v, VSeq):
        p = pieces(eng, v)
        if p is not None and all(isinstance(x, str) for x in p):
            return "".join(p)
    return None


def number(eng, v):
    if isinstance(v, Aff):
        return v
    if isinstance(v, VSeq):
        p = pieces(eng, v)
        if p is not None and len(p) == 1:
            return p[0] if isinstance(p[0], Aff) else (K(int(p[0])) if p[0].isdigit() else None)
    return None


def numbers(ps):
    """joins digits in literals: pieces of a range header as tokens"""
    out = []
    for x in ps:
        if isinstance(x, str):
            for t in re.findall(r"\d+|\D+", x):
                out.append(K(int(t)) if t.isdigit() else t)
        else:
            out.append(x)
    return out


@rule("C25")
def responses(ctx, rep):
    wr, prog, R = wroles(ctx).web(), ctx.prog, ctx.roles
    rep.explanation = ("Every response the responder can produce, for any reader and any request: the status, headers and body value of each path are compared: "
        "no range header gives 200 and the whole archive; an unparsable one 400 and an unsatisfiable one 416 with 'bytes */total', both without a body; a satisfiable one "
        "is answered with its first range; content-range names the body's start, last byte and the total; content-length is the body's length; 206 exactly when the "
        "body is not the whole archive; the body's reader stands at the announced start and its length stays within the archive; type and range support are declared. "
        "Assumed: http_range_header::ParsedRanges::validate yields at least one range with start <= end < size.")
    run = Run(prog, wr.respond)
    rep.analysed |= run.fns
    for f, bb, why in run.losts:
        rep.undecided("path analysed to its end", f, why)
    a_reader = only([p for p, t in flat_nonlocal(prog, wr.adapter_ty, {wr.rpath}) if prog.types[t].get("path") == wr.rpath], "reader of the responder")
    i0 = 0
    total = None
    st0 = State()
    v = run.args[0]
    for i in a_reader + tuple(R.total):
        v = run.eng.step(st0, v, ("f", i))
    total = v
    cases = set()
    n = 0
    for k, st, kw in run.h.events:
        if k == "http" and kw["call"].name == "validate":
            a = kw["call"].args[1]
            rep.judge(verdict(st, eq0(a - total)) if isinstance(a, Aff) else None, "ranges are checked against the archive's size", "respond_to", "checked against %s" % show(a))
        if k != "response":
            continue
        s = st.copy()
        if s.assume(ge0(total - 22)) is False or not contract(run, s, total):
            continue
        n += 1
        case = classify(run, s)
        h, status, body = kw["headers"], kw["status"], kw["body"]
        one_response(ctx, rep, wr, run, s, case, h, status, body, total, R)
        cases.add(case)
    if not run.losts:
        rep.floor("responses", n, 4)
        for c in ("no range", "unparsable", "unsatisfiable", "satisfiable"):
            if c not in cases:
                rep.undecided("kinds of request distinguished", c, "no response path is known to be of this kind")
    for f, w, span, s in run.panics:
        if "reader::" in f or "ReadState" in f:
            continue    # seeking is decided by C33 and C06
        s = s.copy()
        if s.assume(ge0(total - 22)) is False or not contract(run, s, total):
            rep.ok("no request makes the responder panic", "%s in %s" % (w, short_fn(f)), "excluded by what validation guarantees")
            continue
        rep.judge(False if all(exact_val(x) for x in s.ge) else None, "no request makes the responder panic", "%s in %s" % (w, short_fn(f)), "reachable when %s" % "; ".join(map(str, s.ge))[:400])
    rep.ok("no request makes the responder panic", "respond_to")


def why_refused(run, st):
    """False: the header was readable, and neither the parser nor the validation that other requests go through had failed"""
    ns = [(str(n), v) for n, v in st.refine.items()]
    if not any(n.startswith("actix_web::http::header::HeaderMap::get(") and v == 1 for n, v in ns):
        return None
    ok = {"to_str": None, "parse_range_header": None, "validate": None}
    for n, v in ns:
        for k in ok:
            if n.startswith({"to_str": "actix_web::http::header::HeaderValue::", "parse_range_header": "http_range_header::", "validate": "http_range_header::ParsedRanges::"}[k] + k + "("):
                ok[k] = v
    if ok["to_str"] == 0 and ok["parse_range_header"] is None:
        # the parser is asked for other requests
        return False if any(k == "http" and kw["call"].name == "parse_range_header" for k, s, kw in run.h.events) else None
    return False if ok["parse_range_header"] == 0 and ok["validate"] is None else None


def classify(run, st):
    kind = {}
    for nm, var in st.refine.items():
        nm = str(nm)
        if "HeaderMap::get(" in nm and nm.startswith("actix_web::http::header::HeaderMap::get("):
            kind["get"] = var
            kind["range"] = "RANGE" in nm or "'range'" in nm.lower()
        elif nm.startswith("http_range_header::ParsedRanges::validate("):
            kind["validate"] = var
        elif nm.startswith("http_range_header::parse_range_header("):
            kind["parse"] = var
        elif "HeaderValue::to_str(" in nm and nm.startswith("actix_web::http::header::HeaderValue::to_str("):
            kind["str"] = var
    if kind.get("get") == 0 and kind.get("range"):
        return "no range"
    if kind.get("get") == 1 and kind.get("range"):
        if kind.get("str") == 1 or kind.get("parse") == 1:
            return "unparsable"
        if kind.get("parse") == 0 and kind.get("validate") == 1:
            return "unsatisfiable"
        if kind.get("validate") == 0:
            return "satisfiable"
    return "?"


def one_response(ctx, rep, wr, run, st, case, h, status, body, total, R):
    eng, prog = run.eng, run.prog
    what = "request with %s range" % case if case != "no range" else "request without range"
    if case == "?":
        what = "request of unknown kind"
    code = status.c if isinstance(status, Aff) and status.is_const else None
    if code is None:
        rep.undecided("status of the response", what, show(status))
        return
    for name, want in (("content-type", "application/zip"), ("accept-ranges", "bytes")):
        if body is None and code >= 400:
            continue
        val = h.get(name)
        t = text(eng, val) if val is not None else None
        rep.judge(False if val is None else (True if t == want else (False if t is not None else None)), "archive responses declare type and range support", "%s: %s" % (what, name), "is %s" % show(val))
    if body is not None and not (isinstance(body, VAgg) and prog.types[body.ty].get("path") == wr.bpath):
        if isinstance(body, VSeq) and not body.segs or case in ("unparsable", "unsatisfiable") and isinstance(body, VSeq):
            body = None
    if case in ("unparsable", "unsatisfiable"):
        want = 400 if case == "unparsable" else 416
        rep.judge(code == want, "a refused range has its own status", what, "status %d" % code)
        rep.judge(body is None if body is None or isinstance(body, VAgg) and prog.types[body.ty].get("path") == wr.bpath else None,
                  "a refused range gets no archive bytes", what, "body %s" % show(body))
        if case == "unsatisfiable":
            val = h.get("content-range")
            ps = pieces(eng, val) if isinstance(val, VSeq) else None
            if val is None:
                rep.bad("an unsatisfiable range is told the size", what, "no content-range header")
            elif ps is None:
                rep.undecided("an unsatisfiable range is told the size", what, show(val))
            else:
                tk = numbers(ps)
                ok = len(tk) == 2 and tk[0] == "bytes */" and isinstance(tk[1], Aff) and verdict(st, eq0(tk[1] - total))
                rep.judge(True if ok is True else (False if ok is False else None), "an unsatisfiable range is told the size", what, show(val))
        return
    if case == "?" and body is None and code >= 400 and why_refused(run, st) is False:
        rep.judge(False if all(exact_val(x) for x in st.ge) else None, "only an unparsable or unsatisfiable range is refused", "respond_to: status %d" % code,
                  "refused although neither parsing nor validating the range failed")
        return
    if body is None:
        if case in ("no range", "satisfiable"):
            rep.bad("the archive is sent", what, "status %d without a body" % code)
        elif code in (200, 206):
            rep.undecided("the archive is sent", what, "status %d without a body" % code)
        return
    if not (isinstance(body, VAgg) and prog.types[body.ty].get("path") == wr.bpath):
        rep.undecided("body of the response", what, show(body))
        return

    def at(p):
        x = body
        for i in p:
            x = eng.step(st, x, ("f", i))
        return x
    L = at(wr.b_size) if wr.b_size is not None else None
    left = at(wr.b_left) if wr.b_left is not None else None
    bs = only([p for p, t in flat_nonlocal(prog, wr.body_ty, {wr.rpath}) if prog.types[t].get("path") == wr.rpath], "reader of the body")
    O = at(bs + tuple(R.position))
    if not all(isinstance(x, Aff) for x in (L, left, O)):
        rep.undecided("body of the response", what, "length %s, left %s, position %s" % (show(L), show(left), show(O)))
        return
    rep.judge(verdict(st, eq0(L - left)), "the body yields exactly its announced length", what, "announced %s, will yield %s" % (show(L), show(left)))
    cl = h.get("content-length")
    if cl is not None:
        x = number(eng, cl)
        rep.judge(verdict(st, eq0(x - L)) if x is not None else None, "content-length is the body's length", what, "header %s, body %s" % (show(cl), show(L)))
    else:
        rep.ok("content-length is the body's length", what, "set by the server from the body")
    rep.judge(verdict(st, ge0(total - O - L)), "the body stays within the archive", what, "start %s, length %s, total %s" % (show(O), show(L), show(total)))
    whole = band(eq0(O), eq0(L - total))
    if code == 200:
        a, b = verdict(st, eq0(O)), verdict(st, eq0(L - total))
        rep.judge(False if False in (a, b) else (True if a and b else None), "200 only for the whole archive", what, "200 with start %s and length %s" % (show(O), show(L)))
    elif code == 206:
        s = st.copy()
        w = s.assume(eq0(O)) and s.assume(eq0(L - total)) and not s.dead
        rep.judge(None if w and not (exact_val(O) and exact_val(L)) else (not w), "206 only for a part of the archive", what, "206 with start %s and length %s" % (show(O), show(L)))
    else:
        rep.bad("status of a response with archive bytes", what, "status %d" % code)
    cr = h.get("content-range")
    if cr is None:
        rep.judge(code != 206, "a partial response says which part", what, "no content-range header")
    else:
        ps = pieces(eng, cr) if isinstance(cr, VSeq) else None
        tk = numbers(ps) if ps is not None else None
        if tk is None:
            rep.undecided("content-range agrees with the body", what, show(cr))
        else:
            ok = len(tk) == 6 and tk[0] == "bytes " and tk[2] == "-" and tk[4] == "/"
            if not ok:
                rep.bad("content-range agrees with the body", what, "header %s" % show(cr))
            else:
                for nm, x, want in (("start", tk[1], O), ("end", tk[3], O + L - 1), ("total", tk[5], total)):
                    rep.judge(verdict(st, eq0(x - want)) if isinstance(x, Aff) else None, "content-range agrees with the body", "%s: %s" % (what, nm), "header says %s, body has %s" % (show(x), show(want)))
    if case == "no range":
        rep.judge(False if code != 200 else True, "without a range the whole archive is sent", what, "status %d" % code)
    if case == "satisfiable":
        # the first range asked for
        first = None
        for f in [x for x in affs(body)] + list(st.ge):
            for a in f.atoms():
                s = str(a.op)
                if RANGE_ATOM.search(s) and s.endswith("[0].start"):
                    first = s[:-len(".start")]
        lo = hi = None
        for f in [x for x in affs(body)] + list(st.ge):
            for a in f.atoms():
                if first and str(a.op) == first + ".start":
                    lo = atom_aff(a)
                if first and str(a.op) == first + ".end":
                    hi = atom_aff(a)
        if lo is None or hi is None:
            rep.judge(False if exact_val(O) and exact_val(L) else None, "a satisfiable range is answered with its first range", what, "start %s, length %s" % (show(O), show(L)))
        else:
            a, b = verdict(st, eq0(O - lo)), verdict(st, eq0(O + L - 1 - hi))
            rep.judge(False if False in (a, b) else (True if a and b else None), "a satisfiable range is answered with its first range", what, "start %s, length %s" % (show(O), show(L)))
