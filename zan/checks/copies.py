"""C27, C28: copies and moves of readers, and the reader that comes back when a response is dropped."""
from .common import *
from .seek import at_target, frame, layout, impossible
from .builder import END
from .web import WRun, flat_nonlocal, only, wroles
from ..base import CheckFailed, Report, Unidentified
from ..readobl import seq_eq
from . import rule


class View:
    """a reader inside some value or place, with the interface of a run"""

    def __init__(self, run, now, init):
        self.run, self.eng, self.prog = run, run.eng, run.prog
        self._now, self._init = now, init

    def rd(self, st, p, at=0):
        return self._now(st, p)

    def init(self, p, at=0):
        return self._init(p)

    def expand(self, st, v):
        return self.run.expand(st, v)


def value_at(run, st, v, p):
    for i in p:
        v = run.eng.step(st, v, ("f", i))
    return v


def place(run, prefix=(), i=0):
    """the reader inside the place an argument refers to"""
    return View(run, lambda st, p: run.rd(st, prefix + p, i), lambda p: run.init(prefix + p, i))


def given(run, prefix=(), i=0):
    """the reader inside an argument passed by value"""
    f = lambda p: value_at(run, State(), run.args[i], prefix + p)
    return View(run, lambda st, p: value_at(run, st, run.args[i], prefix + p), f)


def copy_of(run, v, orig, prefix=()):
    """the reader inside a resulting value, compared with where it came from"""
    return View(run, lambda st, p: value_at(run, st, v, prefix + p), orig.init)


def fixed_paths(r):
    return [p for p, t in r.leaves if p[:1] == r.total[:1] or p == r.entries] if r.total[:1] != r.position[:1] else [r.total, r.cd_offset, r.eocd_offset, r.cd_size, r.entries]


def fname_of(r):
    return lambda p: r._fname(r.reader_ty, p)


def entries_same(rep, vw, st, r, rule_, what):
    a, b = vw.init(r.entries), vw.rd(st, r.entries)
    eng = vw.eng
    try:
        sa, sb = eng.as_seq(st, a), eng.as_seq(st, b)
    except Lost:
        rep.undecided(rule_, what + ": entries", show(b))
        return
    ok, at = seq_eq(eng, st, sb, sa)
    if ok is None and len(sa.segs) == len(sb.segs) == 1 and sa.segs[0] == sb.segs[0]:
        ok = True
    if ok is None and st.decide(eq0(sa.length() - sb.length())) is False:
        ok = False
    rep.judge(ok, rule_, what + ": entries", "%s becomes %s" % (show(a), show(b)))


def repositioned(ctx, rep, vw, st, what, pos):
    """same archive, same position, nothing half-read"""
    r = ctx.roles
    at_target(ctx, rep, vw, st, what, pos)
    frame(rep, vw, st, [p for p in fixed_paths(r) if p != r.entries], "sizes are kept", what, fname=fname_of(r))
    entries_same(rep, vw, st, r, "entries and learned checksums are kept", what)


def untouched(ctx, rep, vw, st, what):
    r = ctx.roles
    for p, t in r.leaves:
        if p == r.entries:
            entries_same(rep, vw, st, r, "moving a reader changes nothing in it", what)
        else:
            frame(rep, vw, st, [p], "moving a reader changes nothing in it", what, fname=fname_of(r))


def panics(rep, run, r, what, rd):
    for f, w, span, s in run.panics:
        if bad_layout(rd, s, r):
            continue
        tags = [str(x) for x in s.ge]
        ex = all(exact_val(x) for x in s.ge) and not any("bs#" in t or "pp#" in t or "head" in t or "loop" in t for t in tags)
        rep.judge(False if ex else None, "no panic", "%s in %s (%s)" % (what, f, w), "reachable when %s" % "; ".join(tags)[:300])
    rep.ok("no panic", what)


def bad_layout(vw, s, r):
    # the entries are those of the start: the panic may come after they were moved elsewhere
    return impossible(View(vw.run, lambda st, p: vw.init(p), vw.init), s, r)


def lay(vw_of, r):
    def prep(run, eng, st):
        run.eng = eng
        return layout(vw_of(run), eng, st, r)
    return prep


def the(prog, name, self_pred=None, trait=None, many=False):
    rs = [x for x in prog.roots if x["name"] == name and x.get("body") is not None and not x.get("derived_only")
          and ((x.get("trait") or "").split("::")[-1].split("<")[0] == (trait or "")) and (self_pred is None or x.get("self_ty") is not None and self_pred(prog.types[x["self_ty"]]))]
    if len(rs) != 1 and not many:
        raise CheckFailed("public item %s%s not found (%d candidates)" % (name, " of " + trait if trait else "", len(rs)))
    return rs if many else rs[0]


def lost(rep, run):
    rep.analysed |= run.fns
    for f, bb, why in run.losts:
        rep.undecided("path analysed to its end", f, why)


@rule("C28")
def copies(ctx, rep):
    r, prog = ctx.roles, ctx.prog
    wr = wroles(ctx)
    rep.explanation = (
        "Every outcome of every operation that copies or moves a reader (clone, taking out of a pin, wrapping into a stream or responder, unwrapping, "
        "cloning a stream), for a reader in any state: a copy has the same entries with the same learned checksums, the same sizes, the same position with a "
        "cursor consistent with it, and neither staged bytes nor an open source; the original is unchanged, or after taking equals a new empty archive in every field; "
        "moves leave every field as it was; access to the reader inside a stream refers to that reader. Cloning entry data is assumed to give equal data.")
    rpred = lambda t: t.get("path") == wr.rpath
    spred = lambda t: t.get("path") == wr.spath
    n = 0
    # cloning a reader
    run = Run(prog, the(prog, "clone", rpred, "Clone"), prep=lay(place, r))
    lost(rep, run)
    src = place(run)
    for o in run.outs:
        n += 1
        v = run.expand(o.st, o.val)
        repositioned(ctx, rep, copy_of(run, v, src), o.st, "Reader::clone", run.init(r.position))
        untouched(ctx, rep, src, o.st, "Reader::clone, the original")
    panics(rep, run, r, "Reader::clone", src)
    # a new empty archive
    run = Run(prog, the(prog, "new_empty_file", rpred))
    lost(rep, run)
    empty = None
    for o in run.outs:
        n += 1
        v = run.expand(o.st, o.val)
        vw = View(run, lambda st, p, v=v: value_at(run, st, v, p), lambda p: None)
        at_target(ctx, rep, vw, o.st, "Reader::new_empty_file", ZERO)
        for p, want, nm in ((r.total, K(END), "total size"), (r.cd_offset, ZERO, "directory offset"), (r.eocd_offset, ZERO, "end offset"), (r.cd_size, ZERO, "directory size")):
            if p is None:
                continue
            x = vw.rd(o.st, p)
            rep.judge(verdict(o.st, eq0(x - want)) if isinstance(x, Aff) else None, "an empty archive is only its end record", "new_empty_file: %s" % nm, show(x))
        ln = run.eng.as_seq(o.st, vw.rd(o.st, r.entries)).length()
        rep.judge(verdict(o.st, eq0(ln)), "an empty archive is only its end record", "new_empty_file: entries", show(ln))
        empty = (run, o.st, v)
    # taking out of a pin
    run = Run(prog, the(prog, "take_pinned", rpred), prep=lay(place, r))
    lost(rep, run)
    src = place(run)
    for o in run.outs:
        n += 1
        v = run.expand(o.st, o.val)
        repositioned(ctx, rep, copy_of(run, v, src), o.st, "Reader::take_pinned", run.init(r.position))
        left_empty(ctx, rep, run, o.st, src, empty, "Reader::take_pinned")
    panics(rep, run, r, "Reader::take_pinned", src)
    # wrapping and unwrapping
    sp = wr.s_reader
    wraps = [(the(prog, "new", spred), (), sp), (the(prog, "into_bytes_stream", rpred), (), sp), (the(prog, "into_reader", spred), sp, ())]
    wraps += [(x, (), sp) for x in the(prog, "from", spred, "From", many=True) if prog.types[prog.bodies[x["body"]]["locals"][1]].get("path") == wr.rpath]
    for root, frm, to in wraps:
        run = Run(prog, root)
        lost(rep, run)
        nm = root["name"] if not root.get("trait") else "%s (%s)" % (root["name"], root["trait"].split("::")[-1])
        for o in run.outs:
            n += 1
            v = run.expand(o.st, o.val)
            untouched(ctx, rep, copy_of(run, v, given(run, frm), to), o.st, nm)
        panics(rep, run, r, nm, given(run, frm))
    # cloning a stream
    run = Run(prog, the(prog, "clone", spred, "Clone"), prep=lay(lambda ru: place(ru, sp), r))
    lost(rep, run)
    src = place(run, sp)
    for o in run.outs:
        n += 1
        v = run.expand(o.st, o.val)
        repositioned(ctx, rep, copy_of(run, v, src, sp), o.st, "BytesStream::clone", src.init(r.position))
        untouched(ctx, rep, src, o.st, "BytesStream::clone, the original")
    panics(rep, run, r, "BytesStream::clone", src)
    # references into a stream
    for nm in ("reader_ref", "reader_mut", "reader_pin_mut"):
        run = Run(prog, the(prog, nm, spred))
        lost(rep, run)
        for o in run.outs:
            n += 1
            v = o.val
            while isinstance(v, VAgg) and len(v.f) == 1:
                v = v.f[0]
            a = run.ref(0)
            ok = None
            if isinstance(v, VRef):
                ok = v.root == a.root and [x[:2] for x in v.path] == [x[:2] for x in a.path] + list(epath(sp))
            rep.judge(ok, "access to a stream's reader refers to that reader", nm, show(v))
            untouched(ctx, rep, place(run, sp), o.st, nm)
    # wrapping into a responder
    if any(x["name"] == "into_responder" for x in prog.roots):
        wr.web()
        ap = only([p for p, t in flat_nonlocal(prog, wr.adapter_ty, {wr.rpath}) if prog.types[t].get("path") == wr.rpath], "reader of the responder")
        for nm, pre in (("into_responder", ()), ("into_responder_with_channel", (0,))):
            run = Run(prog, the(prog, nm, rpred))
            lost(rep, run)
            for o in run.outs:
                n += 1
                v = run.expand(o.st, o.val)
                untouched(ctx, rep, copy_of(run, v, given(run), pre + ap), o.st, nm)
    # a copied or wrapped stream is immediately usable: polling it finds a buffer its own assertions accept
    from .web import streams
    sub = Report(rep.prop, rep.tier)
    streams(ctx, sub)
    rep.adopt(sub, {"no assertion of the stream fails": "a copied or wrapped stream can be polled"})
    rep.floor("outcomes of copying and moving", n, 10)


def left_empty(ctx, rep, run, st, src, empty, what):
    """the reader left behind equals a new empty archive"""
    r = ctx.roles
    if empty is None:
        rep.undecided("what is left is an empty archive", what, "the empty archive was not analysed")
        return
    erun, est, ev = empty
    for p, t in r.leaves:
        nm = "%s: %s" % (what, fname_of(r)(p))
        a, b = value_at(erun, est, ev, p), src.rd(st, p)
        b = run.expand(st, b)
        a = erun.expand(est, a)
        if isinstance(a, Aff) and isinstance(b, Aff):
            rep.judge(verdict(st, eq0(a - b)), "what is left is an empty archive", nm, "%s, not %s" % (show(b), show(a)))
        elif isinstance(a, VSeq) and isinstance(b, (VSeq, VSym)):
            try:
                ln = run.eng.as_seq(st, b).length()
                rep.judge(verdict(st, eq0(ln)), "what is left is an empty archive", nm, "%s left" % show(b))
            except Lost:
                rep.undecided("what is left is an empty archive", nm, show(b))
        else:
            rep.judge(True if a == b else (False if exact_any(b) and exact_any(a) else None), "what is left is an empty archive", nm, "%s, not %s" % (show(b), show(a)))


# ---------------------------------------------------------------- C27
SENT, TX, FATE = ("X", "c27.n"), ("X", "c27.tx"), ("X", "c27.fate")
SENDER = "tokio::sync::oneshot::Sender"


def sender_paths(prog, ty, d=8):
    """paths of the fields that hold (optionally) a channel for a reader"""
    res = []

    def go(t, path, d):
        x = prog.types[t]
        if x["k"] != "adt":
            return
        if x.get("path") == SENDER or x.get("path") in ("std::option::Option", "core::option::Option") and x.get("args") and prog.types[x["args"][0]].get("path") == SENDER:
            res.append(path)
        elif x.get("akind") == "struct" and x.get("local") and d > 0:
            for i, f in enumerate(x["variants"][0]["f"]):
                go(f["t"], path + (i,), d - 1)
    go(ty, (), d)
    return res


class DropHooks(RunHooks):
    """what becomes of the channel on each path"""
    wants_drops = True

    def __init__(self, prog):
        super().__init__()
        self.prog = prog

    def channels(self, st, v):
        ty = getattr(v, "ty", None)
        if ty is None:
            return []
        out = []
        for p in sender_paths(self.prog, ty):
            x = v
            for i in p:
                x = self.eng.step(st, x, ("f", i))
            out.append(x)
        return out

    def on_drop(self, st, body, root, path, v):
        for c in self.channels(st, v):
            st.store[FATE] = VAgg(0, None, (st.store[FATE].f if FATE in st.store else ()) + (c,))

    def on_event(self, st, kind, **kw):
        super().on_event(st, kind, **kw)
        if kind == "send":
            st.store[SENT] = st.store.get(SENT, ZERO) + 1
        if kind == "response" and kw.get("body") is not None:
            for c in self.channels(st, kw["body"]):
                st.store[FATE] = VAgg(0, None, (st.store[FATE].f if FATE in st.store else ()) + (c,))
        if kind == "mem_forget":
            for c in self.channels(st, kw["value"]):
                self.events.append(("forgotten", st, {"value": kw["value"]}))


@rule("C27")
def returned(ctx, rep):
    wr, prog, r = wroles(ctx).web(), ctx.prog, ctx.roles
    rep.explanation = (
        "Every outcome of dropping the object that holds the return channel, for a reader in any state: with a channel exactly one send, on that channel, of a reader with the "
        "same entries, learned checksums, sizes and position; without one nothing is sent; a failed send is not an error. The responder with a channel is made with the sender of "
        "the returned receiver and the one without has none; every path of respond_to hands the holder with its channel unchanged to the body or drops it; polling a body leaves the "
        "channel alone; nothing that holds the channel is forgotten, leaked or wrapped against dropping. Rust runs drop handlers exactly once (language guarantee).")
    holders = [x for x in prog.roots if x["name"] == "drop" and (x.get("trait") or "").split("::")[-1] == "Drop" and x.get("self_ty") is not None
               and len(sender_paths(prog, x["self_ty"])) == 1 and prog.types[x["self_ty"]].get("local")]
    inner = [x for x in holders if x["body"] is not None]
    if not inner:
        any_sender = any(sender_paths(prog, t) for t in (wr.body_ty, wr.adapter_ty))
        rep.judge(False if any_sender else None, "dropping a response gives the reader back", prog.tys(wr.body_ty), "no drop handler of a type that holds the channel")
        return
    root = only(inner, "drop handler with the channel")
    hty = root["self_ty"]
    ch = sender_paths(prog, hty)[0]
    rp = only([p for p, t in flat_nonlocal(prog, hty, {wr.rpath}) if prog.types[t].get("path") == wr.rpath], "reader of the dropped response")

    h = DropHooks(prog)

    def prep(run, eng, st):
        h.eng = eng
        run.eng = eng
        return layout(place(run, rp), eng, st, r)
    run = Run(prog, root, hooks=h, prep=prep)
    lost(rep, run)
    src = place(run, rp)
    ch0 = run.init(ch)
    n = 0
    for o in run.outs:
        n += 1
        c = run.expand(o.st, ch0)
        vn = variant(prog, c)
        cnt = o.st.store.get(SENT, ZERO)
        if vn == "Some":
            rep.judge(verdict(o.st, eq0(cnt - 1)), "with a channel the reader is sent exactly once", "drop", "%s sends" % show(cnt))
        elif vn == "None":
            rep.judge(verdict(o.st, eq0(cnt)), "without a channel nothing is sent", "drop", "%s sends" % show(cnt))
        else:
            rep.judge(False if cnt == ZERO else None, "with a channel the reader is sent exactly once", "drop", "the channel is not looked at; %s sends" % show(cnt))
    sends = 0
    for k, st, kw in h.events:
        if k != "send":
            continue
        sends += 1
        c = run.expand(st, ch0)
        tx = kw["tx"]
        rep.judge(True if isinstance(c, VAgg) and c.f and c.f[0] == tx else (False if exact_any(tx) else None), "the reader goes to the response's own channel", "drop", show(tx))
        v = run.expand(st, kw["value"])
        repositioned(ctx, rep, copy_of(run, v, src), st, "reader sent on drop", src.init(r.position))
    panics(rep, run, r, "dropping a response", src)
    rep.floor("outcomes of dropping a response", n, 2)
    if not run.losts:
        rep.floor("sends on drop", sends, 1)
    # making responders
    for nm, pre in (("into_responder", ()), ("into_responder_with_channel", (0,))):
        run = Run(prog, the(prog, nm, lambda t: t.get("path") == wr.rpath))
        lost(rep, run)
        ap = only(sender_paths(prog, wr.adapter_ty), "channel of the responder")
        for o in run.outs:
            v = run.expand(o.st, o.val)
            c = run.expand(o.st, value_at(run, o.st, v, pre + ap))
            vn = variant(prog, c)
            if not pre:
                rep.judge(vn == "None" if vn else None, "a plain responder has no channel", nm, show(c))
                continue
            rx = value_at(run, o.st, v, (1,))
            tx = c.f[0] if vn == "Some" else None
            if vn is None:
                rep.undecided("the returned receiver belongs to the responder's channel", nm, show(c))
            elif vn == "None":
                rep.bad("the returned receiver belongs to the responder's channel", nm, "no channel is kept")
            else:
                a, b = str(getattr(tx, "name", "")), str(getattr(rx, "name", ""))
                rep.judge(a[:-3] == b[:-3] and a.endswith(".tx") and b.endswith(".rx") if "oneshot" in a and "oneshot" in b else None,
                          "the returned receiver belongs to the responder's channel", nm, "%s and %s" % (show(tx), show(rx)))
    # responding
    h = DropHooks(prog)

    def prep(run, eng, st):
        h.eng = eng
    run = Run(prog, wr.respond, hooks=h, prep=prep)
    lost(rep, run)
    ap = only(sender_paths(prog, wr.adapter_ty), "channel of the responder")
    c0 = value_at(run, State(), run.args[0], ap)
    m = 0
    for o in run.outs:
        m += 1
        fate = o.st.store.get(FATE)
        cs = fate.f if fate is not None else ()
        if not cs:
            rep.undecided("responding keeps the channel with the reader", "respond_to", "neither dropped nor sent along on some path")
        for c in cs:
            x = run.expand(o.st, c)
            y = run.eng.expand(o.st.copy(), c0) if isinstance(c0, VSym) else c0
            rep.judge(True if c == c0 or x == y else (False if exact_any(x) else None), "responding keeps the channel with the reader", "respond_to", "channel becomes %s" % show(c))
    for k, st, kw in h.events:
        if k == "forgotten":
            rep.bad("nothing that holds the channel is forgotten", "respond_to", show(kw["value"])[:200])
    rep.floor("outcomes of responding", m, 0 if run.losts else 4)
    # streaming
    run = wr.poll_run
    lost(rep, run)
    bp = only(sender_paths(prog, wr.body_ty), "channel of the body")
    for o in run.outs:
        frame(rep, run, o.st, [bp], "polling a body leaves the channel alone", "MessageBody::poll_next", fname=lambda p: "channel")
    # nothing defeats dropping
    bad = re.compile(r"(mem::forget|ManuallyDrop.*::new|Box.*::leak|Box.*::into_raw|Pin.*::into_inner_unchecked)$")
    sites = 0
    for b in prog.bodies.values():
        if not b["local"]:
            continue
        for blk in b["blocks"]:
            t = blk["t"]
            if t[0] != "call":
                continue
            sites += 1
            c = t[1]
            nm = c.get("path", "") if isinstance(c, dict) else ""
            if bad.search(nm) and any(holds(prog, x, hty) for x in (c.get("targs") or [])):
                rep.bad("nothing that holds the channel is forgotten", b["path"], "%s of %s" % (nm, [prog.tys(x) for x in c.get("targs")]))
    rep.count("call sites searched for leaks", sites)
    rep.ok("nothing that holds the channel is forgotten", "crate", "%d call sites" % sites)


def holds(prog, ty, inner, d=8):
    x = prog.types[ty]
    if ty == inner:
        return True
    if d <= 0 or x["k"] != "adt":
        return False
    if x.get("local") and "variants" in x:
        return any(holds(prog, f["t"], inner, d - 1) for v in x["variants"] for f in v["f"])
    return any(isinstance(a, int) and holds(prog, a, inner, d - 1) for a in (x.get("args") or []))
