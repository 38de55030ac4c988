"""C32: reading and seeking an in-memory entry; what the pass-through sources hand on."""
from .common import *
from .seek import is_invalid_input, result_kind
from ..base import CheckFailed, Unidentified
from . import rule

WHAT = ("Every outcome of opening, reading, seeking and sizing an in-memory entry, from any position and for any room and any bytes: the bytes "
        "appended are exactly the entry's bytes from the position on, as many as both the room and the rest allow, the position advances by that "
        "number; a seek stores base plus offset computed without bounds, or fails with InvalidInput only when that is negative or not "
        "representable and leaves the position alone; completing a seek reports the position; a fresh source starts at 0; the announced size is "
        "the number of bytes. usize is taken to be 64 bits wide (the target analysed).")


def memory_reader(prog):
    """the source type of the blanket EntryData implementation for anything that is a byte slice"""
    gr = [r for r in prog.roots if r["name"] == "get_reader" and (r.get("trait") or "").endswith("EntryData") and prog.types[r["self_ty"]]["k"] == "param"]
    if len(gr) != 1:
        raise CheckFailed("the EntryData implementation for byte slices was not found (%d candidates)" % len(gr))
    run = Run(prog, gr[0])
    out = []
    for o in run.outs:
        out.append((o.st, run.expand(o.st, o.val)))
    tys = {r["self_ty"] for r in prog.roots if (r.get("trait") or "").endswith("EntryReader") and prog.types[r["self_ty"]]["k"] == "adt"
           and not prog.types[r["self_ty"]].get("args")}
    return gr[0], run, out, tys


def of_type(prog, ty, name, trait):
    x = [r for r in prog.roots if r["name"] == name and r.get("self_ty") == ty and (r.get("trait") or "").endswith(trait)]
    if len(x) != 1:
        raise CheckFailed("%s::%s of %s not found" % (trait, name, prog.tys(ty)))
    return x[0]


def leaf(v):
    while isinstance(v, VAgg) and len(v.f) == 1:
        v = v.f[0]
    return v


def find_val(run, st, v, ty, d=6):
    if d < 0:
        return None
    if getattr(v, "ty", None) == ty:
        return v
    v = run.expand(st, v)
    if isinstance(v, VRef):
        return None
    for x in (v.f if isinstance(v, VAgg) else ()):
        r = find_val(run, st, x, ty, d - 1)
        if r is not None:
            return r
    return None


@rule("C32")
def memory(ctx, rep):
    prog = ctx.prog
    rep.explanation = WHAT
    root, run0, outs0, tys = memory_reader(prog)
    rep.analysed |= run0.fns
    mine = None
    for ty in sorted(tys):
        for st, v in outs0:
            if find_val(run0, st, v, ty) is not None:
                mine = ty
    if mine is None:
        raise Unidentified("the in-memory source type was not identified")
    # where the position is kept: what completing a seek reports
    root = of_type(prog, mine, "poll_seek_complete", "EntryReader")
    done = Run(prog, root)
    rep.analysed |= done.fns
    eng = done.eng
    r = done.ref()
    base = eng.read(State(), r.root, r.path)
    paths = []

    def walk(v, p):
        if isinstance(v, Aff):
            paths.append(p)
        elif isinstance(v, VSym):
            x = eng.expand(State(), v)
            if isinstance(x, VAgg) and x.var is None:
                walk(x, p)
        elif isinstance(v, VAgg):
            for i, x in enumerate(v.f):
                walk(x, p + (i,))
    walk(base, ())
    if len(paths) != 1:
        rep.undecided("position field", prog.tys(mine), "%d integer fields" % len(paths))
        return
    P = paths[0]
    for o in done.outs:
        v = done.expand(o.st, o.val)
        x = None
        if variant(prog, v) == "Ready":
            k, x = result_kind(done, o.st, v.f[0])
            ok = verdict(o.st, eq0(x - done.init(P))) if k == "ok" and isinstance(x, Aff) else (False if k == "err" else None)
        else:
            ok = False if variant(prog, v) == "Pending" else None
        rep.judge(ok, "seek completion reports the position", "poll_seek_complete", show(v))
        same(rep, done, o.st, P, "completing a seek keeps the position", "poll_seek_complete")
    rep.floor("outcomes of completing a seek", len(done.outs), 1)
    # a fresh source
    for st, v in outs0:
        s = find_val(run0, st, v, mine)
        if s is None:
            rep.undecided("a fresh source starts at 0", "get_reader", show(v))
            continue
        x = s
        for i in P:
            x = eng.step(st, x, ("f", i))
        rep.judge(verdict(st, eq0(x)) if isinstance(x, Aff) else None, "a fresh source starts at 0", "get_reader", "position %s" % show(x))
    # reading
    run = Run(prog, of_type(prog, mine, "poll_read", "EntryReader"))
    rep.analysed |= run.fns
    lost(rep, run)
    buf = run.ref(3)
    n = 0
    for o in run.outs:
        st, eng = o.st, run.eng
        n += 1
        v = run.expand(st, o.val)
        inner = run.expand(st, v.f[0]) if isinstance(v, VAgg) and v.f else None
        good = variant(prog, v) == "Ready" and variant(prog, inner) == "Ok"
        rep.judge(good if isinstance(v, VAgg) and v.var is not None else None, "a read of memory completes at once", "poll_read", show(v))
        p, q = run.init(P), run.rd(st, P)
        b1, b0 = eng.read(st, buf.root, buf.path), None
        data = seq_of_data(run, st)
        if data is None:
            rep.undecided("bytes read", "poll_read", "the entry's bytes were not identified")
            continue
        L = data.length()
        fresh = State()
        _, b0 = M.rb(eng, fresh, VRef(buf.root, buf.path, buf.ty, True))
        if isinstance(b1, VSym):
            b1 = b0
        room = b0.f[1] - b0.f[0]
        got = b1.f[0] - b0.f[0]
        done_case = 0
        for cond, want, nm in ((ge0(p - L), ZERO, "at or beyond the end"), (band(ge0(L - p - 1), ge0(room - (L - p))), L - p, "room for the rest"),
                               (band(ge0(L - p - 1), ge0(L - p - room - 1)), room, "less room than the rest")):
            s = st.copy()
            if not s.assume(cond) or s.dead:
                continue
            done_case += 1
            rep.judge(verdict(s, eq0(got - want)), "as many bytes as fit and remain", nm, "appended %s, expected %s" % (show(got), show(want)))
            if isinstance(q, Aff):
                rep.judge(verdict(s, eq0(q - p - want)), "the position advances by the bytes read", nm, "position %s becomes %s" % (show(p), show(q)))
            else:
                rep.undecided("the position advances by the bytes read", nm, show(q))
            # which bytes
            old = b0.f[2].length()
            try:
                new = eng.seq_sub(s, b1.f[2], b0.f[0], got)
                exp = eng.seq_sub(s, data, p, got) if s.decide(eq0(got)) is not True else VSeq(data.elty, [])
                from ..readobl import seq_eq
                if s.decide(eq0(got)) is True:
                    rep.ok("the bytes are the entry's from the position on", nm)
                else:
                    ok, at = seq_eq(eng, s, new, exp)
                    rep.judge(ok, "the bytes are the entry's from the position on", nm, "appended %s, expected %s" % (show(new), show(exp)))
            except Lost as e:
                rep.undecided("the bytes are the entry's from the position on", nm, str(e))
            try:
                keep = eng.seq_sub(s, b1.f[2], ZERO, b0.f[0])
                rep.judge(True if keep.segs == b0.f[2].segs or seq_eq(eng, s, keep, b0.f[2])[0] else None,
                          "what the caller had is kept", nm, show(keep))
            except Lost as e:
                rep.undecided("what the caller had is kept", nm, str(e))
        if not done_case:
            rep.undecided("bytes read", "poll_read", "no case")
    rep.floor("outcomes of reading", n, 1 if run.losts else 2)
    panics(rep, run, "reading never panics", "poll_read")
    # seeking
    run = Run(prog, of_type(prog, mine, "start_seek", "EntryReader"))
    rep.analysed |= run.fns
    lost(rep, run)
    seen = set()
    for o in run.outs:
        st, eng = o.st, run.eng
        k, e = result_kind(run, st, o.val)
        pos = run.expand(st, run.args[2])
        vn = variant(prog, pos)
        p, q = run.init(P), run.rd(st, P)
        if vn is None:
            ways = [(nm_, split_kind(run, st, i)) for i, nm_ in enumerate(("Start", "End", "Current"))]
            ways = [(a, b) for a, b in ways if b is not None]
        else:
            ways = [(vn, (st, pos))]
        for nm, (s, pv) in ways:
            seen.add(nm)
            if nm == "End":
                data = seq_of_data(run, s)
                if data is None:
                    rep.undecided("a seek goes to exactly the computed position", nm, "length of the entry not identified")
                    continue
                basep = data.length()
            else:
                basep = p if nm == "Current" else ZERO
            tgt = basep + pv.f[0]
            if k == "ok":
                rep.judge(verdict(s, eq0(q - tgt)) if isinstance(q, Aff) else None, "a seek goes to exactly the computed position", nm,
                          "position %s, expected %s" % (show(q), show(tgt)))
            elif k == "err":
                neg, big = s.decide(ge0(tgt)), s.decide(ge0(tgt - (1 << 64)))
                ok = True if neg is False or big is True else (False if exact_val(tgt) else None)
                rep.judge(ok, "only unrepresentable positions are refused", nm, "refused %s when %s" % (show(tgt), "; ".join(map(str, s.ge))[:300]))
                rep.judge(is_invalid_input(prog, run, s, e), "refused as invalid input", nm, show(e))
                same(rep, run, s, P, "a refused seek stays where it was", nm)
            else:
                rep.undecided("outcome of a seek", nm, show(o.val))
    if not run.losts:
        rep.floor("kinds of seek", len(seen), 3)
    panics(rep, run, "seeking never panics", "start_seek")
    # size
    sz = [r for r in prog.roots if r["name"] == "size" and (r.get("trait") or "").endswith("EntryData") and prog.types[r["self_ty"]]["k"] == "param"]
    rep.floor("size of in-memory entries", len(sz), 1)
    for r_ in sz:
        run = Run(prog, r_)
        rep.analysed |= run.fns
        for o in run.outs:
            data = seq_of_data(run, o.st, 0)
            rep.judge(verdict(o.st, eq0(o.val - data.length())) if data is not None and isinstance(o.val, Aff) else (False if isinstance(o.val, Aff) and o.val.is_const else None),
                      "announced size is the number of bytes", "size", show(o.val))


def split_kind(run, st, i):
    s = st.copy()
    d = run.eng.discr(s, run.args[2])
    if not isinstance(d, Aff) or not s.assume(eq0(d - i)) or s.dead:
        return None
    v = run.eng.expand(s, run.args[2], i)
    return s, v


def same(rep, run, st, P, rule_, what):
    a, b = run.init(P), run.rd(st, P)
    rep.judge(verdict(st, eq0(a - b)) if isinstance(b, Aff) else None, rule_, what, "%s becomes %s" % (show(a), show(b)))


def lost(rep, run):
    for f, bb, why in run.losts:
        rep.undecided("path analysed to its end", f, why)


def panics(rep, run, rule_, nm):
    for f, w, span, s in run.panics:
        ex = all(exact_val(x) for x in s.ge)
        rep.judge(False if ex else None, rule_, "%s (%s in %s)" % (nm, w, f), "reachable when %s" % "; ".join(map(str, s.ge))[:300])
    rep.ok(rule_, nm)


def seq_of_data(run, st, i=1):
    """the bytes the entry's AsRef gives"""
    for root, v in list(st.store.items()):
        if isinstance(v, VSeq) and root[0] == "O" and str(root[1]).startswith("as_ref(?a%d)" % i):
            return v
    r = run.args[i]
    cands = [(k, v) for k, v in st.store.items() if isinstance(v, VSeq) and k[0] == "O" and "a%d" % i in str(k[1])]
    if len(cands) == 1:
        return cands[0][1]
    # never looked at: the same name it would have got
    nm = "as_ref(%s)" % M.short(run.eng.read(st, run.ref(i).root, run.ref(i).path)) if isinstance(run.ref(i), VRef) else None
    if nm is None:
        return None
    return run.eng.sym_seq(nm, run.eng.find_ty("[u8]"))
