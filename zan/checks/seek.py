"""C06, C07, C33: what repositioning a reader does to its state."""
from .common import *
from ..readan import ReadAnalysis
from . import rule

WHAT = ("Every outcome of the seeking calls, with the reader in any state and any target: the stored position equals the target computed "
        "with exact (unbounded) arithmetic from the call's argument, the cursor's start plus the bytes to skip equals the target, staging is "
        "empty, no source is kept, counters restart, entries and sizes are untouched; an error happens only for unrepresentable targets, is "
        "InvalidInput, and leaves every field as it was. Assumed of a built reader: header offsets start at 0 and increase (established by "
        "the rules on Builder::build).")


def layout(run, eng, st, roles, at=0):
    """a built reader: no entries => directory and end records at 0; else the first header is at 0"""
    ents = eng.as_seq(st, run.rd(st, roles.entries, at))
    n = ents.length()
    cd, eo = run.rd(st, roles.cd_offset, at), run.rd(st, roles.eocd_offset, at)
    res = []
    s = st.copy()
    if s.assume(eq0(n)) and s.assume(eq0(cd)) and s.assume(eq0(eo)):
        res.append(s)
    s = st.copy()
    if s.assume(ge0(n - 1)) and s.assume(ge0(cd - 1)) and s.assume(ge0(eo - cd - 1)):
        el = eng.seq_get(s, ents, ZERO)
        s.assume(eq0(efield(eng, s, el, roles.e_off)))
        res.append(s)
    return res


def efield(eng, st, el, path):
    v = el
    for i in path:
        v = eng.step(st, v, ("f", i))
    return v


def impossible(run, st, roles, at=0):
    """is the state at odds with strictly increasing header offsets below the directory?"""
    eng = run.eng
    st = st.copy()
    ents = eng.as_seq(st, run.rd(st, roles.entries, at))
    n = ents.length()
    idx = [ZERO]
    seen = set()
    for f in list(st.ge):
        for a in f.atoms():
            if a not in seen and "#" in str(a.op) and a.lo >= 0 and "." not in str(a.op).split("#")[-1]:
                seen.add(a)
                x = atom_aff(a)
                idx += [x, x - 1, x + 1]
    offs = []
    for i in idx:
        if st.decide(ge0(i)) is False or st.decide(ge0(n - i - 1)) is False:
            continue
        try:
            offs.append((i, efield(eng, st, eng.seq_get(st, ents, i), roles.e_off)))
        except Lost:
            pass
    cd = run.rd(st, roles.cd_offset, at)
    for i, o in offs:
        inside = st.decide(ge0(i)) is True and st.decide(ge0(n - i - 1)) is True
        if not inside:
            continue
        if not st.assume(ge0(cd - o - 1)) or st.dead:
            return True
        for j, p in offs:
            if st.decide(ge0(j)) is True and st.decide(ge0(n - j - 1)) is True and st.decide(ge0(j - i - 1)) is True:
                if not st.assume(ge0(p - o - 1)) or st.dead:
                    return True
    return False


def order(ctx):
    r = ctx.roles
    if not hasattr(r, "chunk_sequence"):
        class X:
            pass
        x = X()
        x.roles, x.prog = r, ctx.prog
        r.chunk_sequence = ReadAnalysis.chunk_order(x)
    return r.chunk_sequence


def start_of(ctx, run, st, ch, at=0):
    """archive offset at which the record under the cursor begins"""
    r, eng = ctx.roles, run.eng
    LH, ED, DD, CD, EO, FI = order(ctx)
    if ch.var == EO:
        return run.rd(st, r.eocd_offset, at)
    if ch.var == FI:
        return run.rd(st, r.total, at)
    i = ch.f[0]
    if ch.var == CD:
        return run.rd(st, r.cd_offset, at) if st.decide(eq0(i)) is True else None
    ents = eng.as_seq(st, run.rd(st, r.entries, at))
    el = eng.seq_get(st, ents, i)
    o = efield(eng, st, el, r.e_off)
    nl = eng.as_seq(st, efield(eng, st, el, r.e_name)).length()
    if ch.var == LH:
        return o
    if ch.var == ED:
        return o + nl + 58
    return o + nl + 58 + efield(eng, st, el, r.e_size)


def at_target(ctx, rep, run, st, what, target, at=0, props=None):
    """the reader's state after a successful move to `target`"""
    r, eng = ctx.roles, run.eng
    rd = lambda p: run.rd(st, p, at)
    pos = rd(r.position)
    v = verdict(st, eq0(pos - target)) if isinstance(pos, Aff) and isinstance(target, Aff) else None
    rep.judge(v, "position after a seek is the target", what, "position %s, target %s" % (show(pos), show(target)))
    if rep.prop in ("C07", "C33"):
        return
    ch = run.expand(st, rd(r.chunk))
    if not isinstance(ch, VAgg) or ch.var is None:
        rep.undecided("cursor start plus skip is the target", what, "cursor %s" % show(ch))
    else:
        sk = rd(r.skip)
        s0 = start_of(ctx, run, st, ch, at)
        if s0 is None or not isinstance(sk, Aff):
            rep.judge(False if s0 is None and exact_any(ch) else None, "cursor start plus skip is the target", what, "cursor %s, skip %s" % (show(ch), show(sk)))
        else:
            v = verdict(st, eq0(s0 + sk - target))
            rep.judge(v, "cursor start plus skip is the target", what, "cursor %s starts at %s, to skip %s, target %s" % (show(ch), show(s0), show(sk), show(target)))
            v = verdict(st, ge0(sk))
            rep.judge(v, "the record under the cursor begins at or before the target", what, "to skip %s" % show(sk))
            if ch.f:
                n = eng.as_seq(st, rd(r.entries)).length()
                v = verdict(st, ge0(n - ch.f[0] - 1))
                rep.judge(v, "cursor stands on an existing entry", what, "entry %s of %s" % (show(ch.f[0]), show(n)))
    stg = rd(r.staging)
    ln = eng.as_seq(st, stg).length()
    rep.judge(verdict(st, eq0(ln)), "nothing buffered before a seek survives it", what, "staged %s" % show(stg))
    pin = run.expand(st, rd(r.pinned))
    rep.judge((pin.var == r.pin_none) if isinstance(pin, VAgg) and pin.var is not None else (False if isinstance(pin, VSym) else None),
              "no source opened before a seek survives it", what, "source state %s" % show(pin))
    pr = rd(r.proc)
    rep.judge(verdict(st, eq0(pr)), "per-record counter restarts at a seek", what, "processed %s" % show(pr))


def frame(rep, run, st, paths, rule_, what, at=0, fname=None):
    for p in paths:
        a, b = run.init(p, at), run.rd(st, p, at)
        nm = fname(p) if fname else str(p)
        if a == b:
            rep.ok(rule_, "%s: %s" % (what, nm))
            continue
        x = run.expand(st.copy(), b)
        if isinstance(a, Aff) and isinstance(b, Aff):
            rep.judge(verdict(st, eq0(a - b)), rule_, "%s: %s" % (what, nm), "%s becomes %s" % (show(a), show(b)))
        elif isinstance(b, VAgg) and isinstance(a, VSym):
            y = run.eng.expand(st.copy(), a)
            rep.judge(True if y == b else (False if exact_any(b) else None), rule_, "%s: %s" % (what, nm), "%s becomes %s" % (show(a), show(b)))
        else:
            rep.judge(False if exact_any(b) else None, rule_, "%s: %s" % (what, nm), "%s becomes %s" % (show(a), show(b)))


def result_kind(run, st, v):
    """('ok', payload) / ('err', payload) / None of a Result value"""
    v = run.expand(st, v)
    n = variant(run.prog, v)
    if n == "Ok":
        return "ok", v.f[0] if v.f else None
    if n == "Err":
        return "err", v.f[0]
    return None, None


@rule("C06", "C07", "C33")
def seeks(ctx, rep):
    r, prog = ctx.roles, ctx.prog
    rep.explanation = (rep.explanation + " " + WHAT).strip()
    fname = lambda p: r._fname(r.reader_ty, p)
    state = [p for p, t in r.leaves]
    fixed = [p for p in state if p[:1] == r.total[:1] or p == r.entries] if r.total[:1] != r.position[:1] else [r.total, r.cd_offset, r.eocd_offset, r.cd_size, r.entries]
    n = 0
    for nm, tr in (("seek_from_start_mut", None), ("seek_from_start_pinned", None), ("start_seek", "AsyncSeek")):
        root = find(prog, "Reader", tr, nm)
        run = Run(prog, root, prep=lambda ru, eng, st: layout(ru, eng, st, r))
        rep.analysed |= run.fns
        for f, bb, why in run.losts:
            rep.undecided("path analysed to its end", f, why)
        for o in run.outs:
            st = o.st
            ways = [("", run.args[1])]
            if tr:
                pos = run.expand(st, run.args[1])
                vn = variant(prog, pos)
                if vn is None:
                    # the outcome does not depend on the way the target was given
                    ways = [(x, None) for x in ("Start", "Current", "End")]
                    k, e = result_kind(run, st, o.val)
                    if k == "err":
                        rep.judge(False, "only unrepresentable targets are refused", nm, "refused whatever the target")
                        continue
                    rep.undecided("position after a seek is the target", nm, "target kind not distinguished")
                    continue
                base = {"Start": ZERO, "Current": run.init(r.position), "End": run.init(r.total)}[vn]
                tgt = base + pos.f[0]
                k, e = result_kind(run, st, o.val)
            else:
                vn, tgt, k, e = "", run.args[1], "ok", None
            what = nm + (" (%s)" % vn if vn else "")
            n += 1
            if k == "ok":
                at_target(ctx, rep, run, st, what, tgt)
                frame(rep, run, st, fixed, "seeking leaves entries and sizes alone", what, fname=fname)
            elif k == "err":
                if rep.prop == "C33":
                    neg, big = st.decide(ge0(tgt)), st.decide(ge0(tgt - (1 << 64)))
                    v = True if neg is False or big is True else (False if exact_val(tgt) else None)
                    rep.judge(v, "only unrepresentable targets are refused", what, "target %s refused" % show(tgt))
                    rep.judge(is_invalid_input(prog, run, st, e), "refused with invalid input", what, "error %s" % show(e))
                frame(rep, run, st, state, "a refused seek leaves the reader as it was", what, fname=fname)
            else:
                rep.undecided("outcome of a seek", what, show(o.val))
        if rep.prop == "C33":
            for f, w, span, s in run.panics:
                if impossible(run, s, r):
                    rep.ok("no target makes a seek panic", "%s in %s" % (nm, f), w)
                    continue
                tags = [str(x) for x in s.ge]
                ex = all(exact_val(x) for x in s.ge) and not any("bs#" in t or "pp#" in t or "head" in t or "loop" in t for t in tags)
                rep.judge(False if ex else None, "no target makes a seek panic", "%s in %s (%s)" % (nm, f, w), "reachable when %s" % "; ".join(tags)[:400])
            rep.ok("no target makes a seek panic", nm)
    rep.floor("outcomes of seeking calls", n, 6)
    if rep.prop in ("C07", "C33"):
        # completing a seek reports the position and changes nothing
        run = Run(prog, find(prog, "Reader", "AsyncSeek", "poll_complete"))
        for o in run.outs:
            v = run.expand(o.st, o.val)
            if variant(prog, v) == "Ready":
                k, x = result_kind(run, o.st, v.f[0])
                p0 = run.rd(o.st, r.position)
                rep.judge(verdict(o.st, eq0(x - p0)) if k == "ok" and isinstance(x, Aff) else (False if k == "err" else None),
                          "seek completion reports the position", "poll_complete", show(x))
            else:
                rep.judge(False if variant(prog, v) == "Pending" else None, "seek completion reports the position", "poll_complete", show(v))
            frame(rep, run, o.st, state, "completing a seek changes nothing", "poll_complete", fname=fname)
        rep.floor("outcomes of poll_complete", len(run.outs), 1)


def is_invalid_input(prog, run, st, e):
    """is the io::Error value one of kind InvalidInput?"""
    if not isinstance(e, VSym) or not isinstance(e.origin, tuple) or e.origin[:1] != ("ioerr",):
        return None
    if e.origin[1] == "other":
        return False
    k = run.expand(st, e.origin[2][0]) if e.origin[2] else None
    n = variant(prog, k) if isinstance(k, VAgg) else None
    return None if n is None else n == "InvalidInput"
