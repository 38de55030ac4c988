"""Analysis of Reader's poll_read over every initial state its invariants allow.

The function is cut at loop heads and at its exits; every path between two cuts is a transition of
the reader, recorded with the abstract state before and after it and what happened on it."""
import hashlib
import re
from .engine import *
from .terms import *
from .roles import *
from . import models as M

GP = ("G", "pend")       # a source reported Pending with the caller's context
GS = ("G", "spos")       # absolute position in the open source
GK = ("G", "seektgt")    # target of the seek in progress
GE = ("G", "eof")        # the last read of the source gave nothing although there was room
GERR = ("G", "err")      # the last source error
GSNAP = ("G", "snap")    # the state at the last cut
GRD = ("G", "read")      # bytes obtained from the source since the last cut
GHS = ("G", "hashed")    # bytes hashed since the last cut
GSOU = ("G", "sought")   # the source was repositioned by this call
GFIN = ("G", "fin")      # the last finalized CRC since the last cut
GFNS = ("G", "finwhole") # the source had not been repositioned then
GFUT = ("G", "futdone")  # the opening future has completed


USZ_ = (1 << 64) - 1


class Snap:
    """values at a cut (opaque to the join)"""
    __slots__ = ("v", "where")

    def __init__(self, v, where):
        self.v, self.where = v, where

    def __repr__(self):
        return "snap(%s)" % (self.where,)


class Trans:
    """one transition between two cuts"""
    __slots__ = ("a", "b", "st", "kind", "val", "where", "ev", "gsrc", "fn")


def source_of(st, v):
    return v


class ReadHooks(Hooks):
    wants_writes = True
    wants_drops = True

    def __init__(self, roles, an):
        self.r, self.an = roles, an
        self.trans = {}
        nm = roles._fname(roles.entry_ty, roles.e_name)
        self.name_re = re.compile(r"\]\." + re.escape(nm) + "$")
        self.panics = []
        self.losts = []
        self.events = []
        self.crcw = []

    def len_hi(self, name, ty):
        """entry names are at most 65535 bytes (the builder refuses longer ones, see C18)"""
        m = self.name_re
        return 65535 if m and m.search(name) else None

    # ---- reading the reader's state
    def rd(self, st, p):
        return self.eng.read(st, self.root, epath(p))

    def buf(self, st):
        r, v = M.rb(self.eng, st, self.bufref)
        return v

    def take(self, st):
        r = self.r
        b = self.buf(st)
        ch = self.rd(st, r.chunk)
        pin = self.rd(st, r.pinned)
        if isinstance(ch, VSym):
            ch = self.eng.expand(st, ch)
        if isinstance(pin, VSym):
            pin = self.eng.expand(st, pin)
        stg = self.rd(st, r.staging)
        if isinstance(stg, VSym):
            stg = self.eng.as_seq(st, stg)
        crc = None
        if isinstance(ch, VAgg) and ch.f:
            try:
                crc = self.efield(st, self.eng.seq_get(st, self.rd(st, r.entries), ch.f[0]), r.e_crc)
                if isinstance(crc, VSym):
                    crc = self.eng.expand(st, crc)
            except Lost:
                crc = None
        return {"filled": b.f[0], "cap": b.f[1], "content": b.f[2], "chunk": ch, "pin": pin, "staging": stg,
                "skip": self.rd(st, r.skip), "proc": self.rd(st, r.proc), "pos": self.rd(st, r.position),
                "spos": st.store.get(GS), "seektgt": st.store.get(GK), "crc": crc}

    # ---- cuts
    def pre_loop_head(self, st, body, bb):
        if self.depth_of(st) is None:
            return None
        st = st.copy()
        self.record(st, "head", None, (body["path"], bb))
        sn = st.store.get(GSNAP)
        if sn is not None:
            c = self.canonical(st, sn.v)
            if c is not None:
                self.n_canonical += 1
                fp = self.fingerprint(c, (body["path"], bb))
                if fp in self.known:
                    c.dead = True
                else:
                    self.known.add(fp)
                return c
        st.store.pop(GSNAP, None)
        st.store.pop(GRD, None)
        st.store.pop(GHS, None)
        st.store.pop(GFIN, None)
        st.store.pop(GFNS, None)
        st.store.pop(GE, None)
        stg = self.rd(st, self.r.staging)
        if isinstance(stg, VSeq) and stg.segs and st.decide(eq0(stg.length())) is True:
            self.eng.write(st, self.root, epath(self.r.staging), VSeq(stg.elty, [], (), stg.ty))
        # values that are known to be equal to something simpler are written that way
        for p in (self.r.skip, self.r.proc):
            v = self.rd(st, p)
            if isinstance(v, Aff) and v != ZERO and st.decide(eq0(v)) is True:
                self.eng.write(st, self.root, epath(p), ZERO)
        pin = self.rd(st, self.r.pinned)
        if isinstance(pin, VSym):
            pin = self.eng.expand(st, pin)
        if isinstance(pin, VAgg) and pin.var != self.r.pin_open:
            st.store.pop(GS, None)
            st.store.pop(GK, None)
        elif st.store.get(GS) is not None:
            proc = self.rd(st, self.r.proc)
            if st.decide(eq0(st.store[GS] - proc)) is True:
                st.store[GS] = proc
        return st

    def at_loop_head(self, st, body, bb):
        if self.depth_of(st) is None:
            return None
        st = st.copy()
        self.mark(st, (body["path"], bb))
        return st

    def fingerprint(self, s, where):
        return hashlib.sha1(repr((where, s.stack, sorted((repr(k), repr(v)) for k, v in s.store.items() if v is not UNDEF),
                                  sorted(map(repr, s.ge)), sorted(map(repr, s.refine.items())), sorted(map(repr, s.lits.items())))).encode()).hexdigest()

    def canonical(self, st, a):
        """A new chunk begins: if the state satisfies the invariant, go on with the invariant's general
        state for that chunk instead (what follows is then analysed once, for all ways to get here)."""
        r, eng = self.r, self.eng
        try:
            b = self.take(st)
        except Lost:
            return None
        ca, cb = a["chunk"], b["chunk"]
        if not (isinstance(ca, VAgg) and isinstance(cb, VAgg) and isinstance(b["pin"], VAgg)) or ca == cb:
            return None
        if b["pin"].var != r.pin_none or st.decide(eq0(b["proc"])) is not True:
            return None
        ents = self.rd(st, r.entries)
        n = ents.length()
        if cb.f and st.decide(ge0(n - cb.f[0] - 1)) is not True:
            return None
        ln = b["staging"].length()
        empty = st.decide(eq0(ln))
        if empty is None or (not empty and st.decide(ge0(ln - b["skip"] - 1)) is not True):
            return None
        D = b["filled"] - self.filled0
        dl = None
        if not D.is_const:
            dl = atom_aff(Atom("out", (), 0, (1 << 63) - 1))
        s = State()
        s.n, s.trail, s.stack, s.alloc, s.gen = st.n, st.trail, st.stack, st.alloc, st.gen
        stable = lambda nm: "#" not in str(nm) and "phi:" not in str(nm) and "phx:" not in str(nm) and "[" not in str(nm) and "@" not in str(nm)
        s.refine = {k: v for k, v in st.refine.items() if stable(k) and not k.startswith(self.root[1])}
        s.lits = {k: v for k, v in st.lits.items() if stable(k) and not str(k).startswith(self.root[1])}
        core = self.core

        def aff(x):
            if all(t in core for t in x.atoms()):
                return x
            if dl is not None:
                for k in (1, -1):
                    y = x - D.scale(k)
                    if all(t in core for t in y.atoms()):
                        return y + dl.scale(k)
            raise Lost("not canonical")

        def sub(v):
            if isinstance(v, Aff):
                return aff(v)
            if isinstance(v, VAgg):
                return VAgg(v.ty, v.var, [sub(x) for x in v.f])
            if isinstance(v, VSeq):
                if v.over:
                    raise Lost("not canonical")
                segs = []
                for g in v.segs:
                    if g[0] == "lit":
                        segs.append(("lit", tuple(sub(x) for x in g[1])))
                    elif g[0] == "sym" and stable(g[1]):
                        segs.append(("sym", g[1], aff(g[2]), aff(g[3])))
                    else:
                        raise Lost("not canonical")
                return VSeq(v.elty, segs, (), v.ty)
            if isinstance(v, VRef):
                p = []
                for e in v.path:
                    p.append(("e", aff(e[1])) if e[0] == "e" else (("s", aff(e[1]), None if e[2] is None else aff(e[2])) if e[0] == "s" else e))
                return VRef(v.root, tuple(p), v.ty, v.mut)
            if isinstance(v, VSym):
                if not stable(v.name):
                    raise Lost("not canonical")
                return v
            if isinstance(v, Bool):
                d = st.decide(v)
                if d is None:
                    raise Lost("not canonical")
                return bconst(d)
            return v

        bufroot = self.bufref.root
        for root, v in st.store.items():
            if root in (GSNAP, GRD, GHS, GS, GK, GE, GSOU, GFIN, GFNS, GFUT):
                continue
            if root == self.root or root == bufroot:
                continue
            if root[0] == "G":
                s.store[root] = v
                continue
            try:
                s.store[root] = sub(v)
            except Lost:
                if root[0] == "L":
                    return None
        s.store[GSOU] = FALSE
        s.store[("G", "canon")] = TRUE
        try:
            rv = st.store[self.root]
            mk = {}
            idx = []
            if cb.f:
                i = atom_aff(Atom("idx", (), 0, USZ_))
                idx = [i]
            u8 = b["staging"].elty
            if empty:
                stg = VSeq(u8, [], (), b["staging"].ty)
                sk = ZERO if st.decide(eq0(b["skip"])) is True else atom_aff(Atom("skip", (), 0, USZ_))
            else:
                stg = VSeq(u8, [("sym", "staged", ZERO, atom_aff(Atom("staged.len", (), 1, (1 << 63) - 1)))], (), b["staging"].ty)
                sk = atom_aff(Atom("skip", (), 0, USZ_))
            special = {r.chunk: VAgg(cb.ty, cb.var, idx), r.staging: stg, r.skip: sk, r.proc: ZERO}
            base = ents.segs[0] if len(ents.segs) == 1 and ents.segs[0][0] == "sym" else None
            if base is None or not all(t in core for t in base[3].atoms()) or base[2] != ZERO:
                return None
            nm, hv = split_hv(base[1])
            crc = tuple(r.e_crc)
            el = eng.base_elem(s, nm, idx[0] if idx else ZERO, ents.elty)
            for i, x in ents.over:
                for p in eng.differing(st, eng.base_elem(st, nm, i, ents.elty), x):
                    if p[:len(crc)] != crc:
                        return None
            if any(p[:len(crc)] != crc for p, _ in hv):
                return None
            special[r.entries] = VSeq(ents.elty, [("sym", nm + "~%s=any" % fmt_hv(crc), ZERO, base[3])], (), ents.ty)
            s.store[self.root] = self.rebuild_reader(rv, (), special, sub)
            rb = st.store[bufroot]
            f = self.filled0 + (D if dl is None else dl)
            s.store[bufroot] = self.rebuild_buf(st, s, f, b["cap"])
        except Lost:
            return None
        s.assume(ge0(b["cap"] - f))
        s.assume(ge0(f - self.filled0))
        if idx:
            s.assume(ge0(n - idx[0] - 1))
        if not empty:
            s.assume(ge0(stg.length() - sk - 1))
        self.mark(s, ("chunk", cb.var))
        del s.store[GSNAP], s.store[GRD], s.store[GHS]
        return s

    def rebuild_reader(self, v, path, special, sub):
        if path in special:
            return special[path]
        if isinstance(v, VAgg) and any(p[:len(path)] == path for p in special):
            return VAgg(v.ty, v.var, [self.rebuild_reader(x, path + (i,), special, sub) for i, x in enumerate(v.f)])
        if isinstance(v, VSym) and any(p[:len(path)] == path for p in special):
            raise Lost("not canonical")
        return sub(v)

    def rebuild_buf(self, st, s, f, cap):
        r, v = M.rb(self.eng, st, self.bufref)
        if r.path:
            raise Lost("not canonical")
        u8 = v.f[2].elty
        rest = list(v.f[3:])
        rest = [VSeq(u8, []) if isinstance(x, VSeq) else x for x in rest]
        return VAgg(v.ty, v.var, [f, cap, VSeq(u8, [("top", "outbuf", f)])] + rest)

    def depth_of(self, st):
        return True

    def mark(self, st, where):
        u8 = self.eng.find_ty("u8")
        st.store[GSNAP] = Snap(self.take(st), where)
        st.store[GRD] = VSeq(u8, [])
        st.store[GHS] = VSeq(u8, [])

    def record(self, st, kind, val, where):
        sn = st.store.get(GSNAP)
        if sn is None:
            return
        t = Trans()
        t.a, t.b, t.st, t.kind, t.val, t.where = sn.v, self.take(st), st.copy(), kind, val, (sn.where, where)
        t.fn = where[0]
        self.trans[id(t)] = t

    def extra_key(self, st):
        try:
            n = self.rd(st, self.r.staging)
            n = n.length() if isinstance(n, VSeq) else None
        except Lost:
            return ()
        k = [] if n is None else [("empty", st.decide(eq0(n)))]
        if GERR in st.store:
            k.append(("err", True))
        k.append(("futdone", st.store.get(GFUT) is TRUE))
        try:
            pin = self.rd(st, self.r.pinned)
            if isinstance(pin, VSym):
                pin = self.eng.expand(st, pin)
            if isinstance(pin, VAgg) and pin.var != self.r.pin_none:
                k.append(("skip0", st.decide(eq0(self.rd(st, self.r.skip)))))
        except Lost:
            pass
        return k

    def templates(self, st):
        r = self.r
        t = {}
        try:
            b = self.buf(st)
            t["filled grows"] = ge0(b.f[0] - self.filled0)
            stg = self.rd(st, r.staging)
            skip, proc = self.rd(st, r.skip), self.rd(st, r.proc)
            t["skip<staged"] = ge0(stg.length() - skip - 1)
            t["proc=0"] = eq0(proc)
            ch = self.rd(st, r.chunk)
            if isinstance(ch, VSym):
                ch = self.eng.expand(st, ch)
            if isinstance(ch, VAgg) and len(ch.f) == 1:
                ents = self.rd(st, r.entries)
                t["index<n"] = ge0(ents.length() - ch.f[0] - 1)
                el = self.eng.seq_get(st, ents, ch.f[0])
                size = self.efield(st, el, r.e_size)
                nl = self.eng.as_seq(st, self.efield(st, el, r.e_name)).length()
                crc = self.efield(st, el, r.e_crc)
                none = [i for i, x in enumerate(self.eng.p.types[r.crc_ty]["variants"]) if not x["f"]][0]
                t["crc none"] = eq0(self.eng.discr(st, crc) - none)
                t["skip+proc<size"] = ge0(size - skip - proc - 1)
                t["skip<size"] = ge0(size - skip - 1)
                t["skip<24"] = ge0(K(23) - skip)
                t["skip<dir"] = ge0(nl + 73 - skip)
                if GS in st.store and st.store[GS] is not None:
                    t["spos=proc"] = eq0(st.store[GS] - proc)
        except (Lost, AttributeError):
            pass
        return t

    def efield(self, st, el, p):
        for i in p:
            el = self.eng.step(st, el, ("f", i))
        return el

    # ---- events
    def on_event(self, st, kind, **kw):
        e = self.eng
        u8 = e.find_ty("u8")
        self.an.counts[kind] = self.an.counts.get(kind, 0) + 1
        if kind in ("src_read", "src_seek_complete", "fut_poll"):
            oc = kw["outcome"]
            if oc == "pending":
                ok = self.has_ctx(st, kw["call"])
                st.store[GP] = bconst(ok)
            if oc == "err":
                st.store[GERR] = kw["err"]
            if kind == "fut_poll" and oc != "pending":
                st.store[GFUT] = TRUE
            if oc != "ok":
                return
        if kind == "src_read":
            if st.store.get(GS) is not None:
                st.store[GS] = st.store[GS] + kw["n"]
            if GRD in st.store:
                st.store[GRD] = M.concat(st.store[GRD], kw["seq"])
            # a source that reported its end keeps reporting it until it is repositioned
            if st.store.get(GE) is not None and st.decide(eq0(st.store[GE])) is True:
                st.assume(eq0(kw["n"]), e)
            # no bytes mean the end only if there was room for one
            try:
                _, v = M.rb(e, st, kw["buf"])
                room = M.rb_room(v) + kw["n"]
            except Lost:
                room = None
            st.store[GE] = kw["n"] if room is not None and st.decide(ge0(room - 1)) is True else atom_aff(Atom(st.fresh("noend"), (), 0, USZ_))
        elif kind == "src_start_seek":
            if kw["outcome"] == "err":
                st.store[GERR] = kw["err"]
            st.store[GSOU] = TRUE
            if kw["outcome"] == "ok":
                st.store[GK] = self.seek_target(st, kw["pos"])
        elif kind == "src_seek_complete":
            st.store.pop(GE, None)
            if st.store.get(GK) is not None:
                st.store[GS] = st.store[GK]
            st.store[GSOU] = TRUE
            # contract of sources: a completed seek reports the requested position
            if st.store.get(GK) is not None:
                st.assume(eq0(kw["pos"] - st.store[GK]), e)
        elif kind == "fut_poll":
            st.store[GS] = ZERO
            st.store[GSOU] = FALSE
        elif kind == "src_get_reader":
            st.store[GFUT] = FALSE
        elif kind == "hash_finalize":
            st.store[GFIN] = kw["value"]
            st.store[GFNS] = bconst(self.never_sought(st))
        elif kind == "hash_update":
            if GHS in st.store:
                st.store[GHS] = M.concat(st.store[GHS], kw["data"])
        self.an.on_event(self, st, kind, kw)

    def seek_target(self, st, pos):
        """SeekFrom::Start(x) -> x"""
        if isinstance(pos, VSym):
            pos = self.eng.expand(st, pos)
        if isinstance(pos, VAgg) and pos.var is not None:
            n = self.eng.p.types[pos.ty]["variants"][pos.var]["n"]
            if n == "Start" and isinstance(pos.f[0], Aff):
                return pos.f[0]
            if n == "Current" and isinstance(pos.f[0], Aff) and st.store.get(GS) is not None:
                return st.store[GS] + pos.f[0]
        return None

    def never_sought(self, st):
        """was the open source never repositioned (so that what was read is its whole beginning)?"""
        s = st.store.get(GSOU)
        d = st.decide(s) if isinstance(s, Bool) else None
        if d is not None:
            return not d
        pin = self.rd(st, self.r.pinned)
        if isinstance(pin, VSym):
            pin = self.eng.expand(st, pin)
        return isinstance(pin, VAgg) and pin.var == self.r.pin_open and self.r.not_sought(self.eng, st, pin)

    def has_ctx(self, st, call):
        """is the caller's context among the arguments?"""
        want = self.ctxref
        for a in call.args:
            v = a
            for _ in range(4):
                if isinstance(v, VRef):
                    if v.root == want.root:
                        return True
                    try:
                        v = self.eng.read(st, v.root, v.path)
                    except Lost:
                        break
                elif isinstance(v, VAgg) and len(v.f) == 1:
                    v = v.f[0]
                else:
                    break
        return False

    def on_write(self, st, root, path, old, new):
        self.an.on_write(self, st, root, path, old, new)

    def on_panic(self, st, body, what, span):
        self.panics.append((body["path"], what, span, st))

    def on_lost(self, st, body, bb, e):
        self.losts.append((body["path"], bb, str(e)))


class ReadAnalysis:
    """poll_read from every state in the invariant"""

    def __init__(self, prog, roles=None, cases=None, known=None):
        self.prog = prog
        self.roles = roles or ReaderRoles(prog)
        self.counts = {}
        self.crc_writes = []
        self.records = []
        self.allocs = []
        self.other_writes = []
        self.repolls = []
        self.root = find(prog, "Reader", "AsyncRead", "poll_read")
        self.opens = []
        self.hooks = ReadHooks(self.roles, self)
        b = prog.bodies[self.root["body"]]
        eng = self.eng = Engine(prog, self.hooks)
        h = self.hooks
        st = State()
        args = [eng.mk_sym(st, "a%d" % i, b["locals"][i + 1]) for i in range(b["argc"])]
        self.args = args
        pr = args[0]
        while isinstance(pr, VAgg):
            pr = pr.f[0]
        h.root, h.bufref, h.ctxref = pr.root, args[2], args[1]
        self.readerroot = pr.root
        h.filled0 = h.buf(st).f[0]
        self.pos0 = h.rd(st, self.roles.position)
        h.core = set(h.filled0.atoms()) | set(h.buf(st).f[1].atoms()) | {Atom("out", (), 0, (1 << 63) - 1)}
        for p in (self.roles.position, self.roles.total, self.roles.cd_offset, self.roles.eocd_offset, self.roles.cd_size):
            h.core |= set(h.rd(st, p).atoms())
        h.core |= set(eng.as_seq(st, h.rd(st, self.roles.entries)).length().atoms())
        h.n_canonical = 0
        h.known = known if known is not None else set()
        states = self.initial(eng, st)
        self.n_initial = len(states)
        if cases is not None:
            states = [states[i] for i in cases]
        try:
            self.outs = eng.run(b, args, states[0], 1, more=states[1:])
        except PathLimit as e:
            # what was recorded so far is judged; nothing is claimed about the rest
            self.outs = []
            h.losts.append((self.root["path"], "-", "analysis not completed: %s" % e))
        for o in self.outs:
            h.record(o.st, "exit", o.val, (self.root["path"], "return"))
        self.trans = [t for t in h.trans.values() if not eng.stale(t.st) or t.kind == "exit"]
        self.panics = [p for p in h.panics if not eng.stale(p[3])]

    # ---- the invariant, as a list of initial states
    def initial(self, eng, st):
        r, h = self.roles, self.hooks
        T = self.prog.types
        res = []
        ce = T[r.chunk_ty]["variants"]
        base = st
        ents = h.rd(base, r.entries)
        n = eng.as_seq(base, ents).length() if not isinstance(ents, VSeq) else ents.length()
        S = h.rd(base, r.staging).length()
        skip, proc = h.rd(base, r.skip), h.rd(base, r.proc)
        chs = h.rd(base, r.chunk)
        pins = h.rd(base, r.pinned)
        self.order = self.chunk_order()
        LH, ED, DD, CD, EO, FI = self.order
        for v in range(len(ce)):
            for pin in (r.pin_none, r.pin_future, r.pin_open):
                if pin != r.pin_none and v not in (ED, DD, CD):
                    continue
                for var in range(3 if v == ED and pin == r.pin_open else 2):
                    s = base.copy()
                    s.refine[chs.name] = v
                    s.refine[pins.name] = pin
                    h.note_variants(s) if hasattr(h, "note_variants") else None
                    ch = eng.expand(s, chs, v)
                    eng.write(s, h.root, epath(r.chunk), ch)
                    eng.write(s, h.root, epath(r.pinned), eng.expand(s, pins, pin))
                    s.store[GP] = FALSE
                    s.store[GSOU] = FALSE if pin != r.pin_open else Bool("lit", ("sought before", True))
                    if ch.f:
                        s.assume(ge0(n - ch.f[0] - 1))
                    if pin == r.pin_none:
                        s.assume(eq0(proc))
                        if var == 0:
                            s.assume(eq0(S))
                        else:
                            s.assume(ge0(S - 1))
                            s.assume(ge0(S - skip - 1))
                    else:
                        s.assume(eq0(S))
                        el = eng.seq_get(s, ents, ch.f[0])
                        size = h.efield(s, el, r.e_size)
                        nl = eng.as_seq(s, h.efield(s, el, r.e_name)).length()
                        if v == ED:
                            if var == 0:
                                s.assume(eq0(skip))
                                s.assume(ge0(size - 1))
                                if pin == r.pin_future:
                                    s.assume(eq0(proc))
                            else:
                                s.assume(ge0(skip - 1))
                                s.assume(ge0(size - skip - proc - 1))
                                if pin == r.pin_future:
                                    s.assume(eq0(proc))
                                elif var == 1:
                                    self.crc_is(eng, s, el, None)
                                    self.unsought(eng, s)
                                else:
                                    # a source is repositioned only when the CRC is known, before anything was read
                                    self.crc_is(eng, s, el, True)
                                    s.assume(eq0(proc))
                        else:
                            if var == 1:
                                continue
                            s.assume(eq0(proc))
                            s.assume(ge0(size - 1))
                            s.assume(ge0((K(23) if v == DD else nl + 73) - skip))
                            self.crc_is(eng, s, el, None)
                            if pin == r.pin_open:
                                self.unsought(eng, s)
                        if pin == r.pin_open:
                            s.store[GS] = proc if v == ED else atom_aff(Atom("spos0", (), 0, M.USZ))
                            s.store[GK] = skip
                    h.mark(s, ("entry", v, pin, var))
                    res.append(s)
        return res

    def crc_is(self, eng, s, el, known):
        crc = self.hooks.efield(s, el, self.roles.e_crc)
        vs = self.prog.types[crc.ty]["variants"]
        s.refine[crc.name] = [i for i, x in enumerate(vs) if bool(x["f"]) == bool(known)][0]

    def unsought(self, eng, s):
        """while the CRC is not known the open source was not repositioned"""
        h, r = self.hooks, self.roles
        if not r.sought:
            return
        p, (k, c) = r.sought[0]
        path = epath(r.pinned) + (("v", r.pin_open), ("f", 0)) + epath(p)
        v = eng.read(s, h.root, path)
        if k == "b":
            s.assume(bnot(v) if c else v)

    def chunk_order(self):
        """variants of the cursor in the order of the format: header, data, descriptor, directory, end, finished"""
        r = self.roles
        ce = self.prog.types[r.chunk_ty]["variants"]
        if getattr(self, "order", None):
            return self.order
        LH, EO, CD = r.chunk_first["local"], r.chunk_first["end"], r.chunk_first["dir"]
        idx = [i for i, v in enumerate(ce) if v["f"] and i not in (LH, CD)]
        fin = [i for i, v in enumerate(ce) if not v["f"] and i != EO]
        if len(idx) != 2 or len(fin) != 1:
            raise Unidentified("the cursor enum does not have the shape header/data/descriptor/directory/end/finished")
        ED, DD = idx
        return LH, ED, DD, CD, EO, fin[0]

    def on_event(self, h, st, kind, kw):
        if kind == "alloc":
            self.allocs.append((st.copy(), kw["amount"], kw["kind_"], kw["call"].fn["path"]))
        if kind in ("src_get_reader", "src_read", "src_start_seek", "src_seek_complete"):
            c = kw["call"]
            kw = dict(kw)
            if kind != "src_get_reader" and c.rpath.split("::")[-2] == "EntryReader" and len(c.args) > 1:
                kw["data"] = c.args[1]
            self.records.append((kind, st.copy(), kw, c.fn))
        elif kind == "fut_poll" and kw["outcome"] == "pending" and st.store.get(GFUT) is TRUE:
            self.repolls.append((kw["call"].fn, st.copy()))

    def crc_before(self, t):
        """what was known of the entry's CRC when the record was begun"""
        return t.a["crc"]

    def on_write(self, h, st, root, path, old, new):
        if root == self.readerroot and len(path) >= 1:
            r = self.roles
            f = [e for e in path]
            ne = len(r.entries)
            if len(f) > ne and all(f[i][0] == "f" and f[i][1] == r.entries[i] for i in range(ne)) and f[ne][0] in ("e",):
                rest = tuple(e[1] for e in f[ne + 1:] if e[0] == "f")
                if rest[:len(r.e_crc)] == tuple(r.e_crc):
                    self.crc_writes.append((f[ne][1], rest, old, new, st.copy()))
                else:
                    self.other_writes.append((f[ne][1], rest, old, new, st.copy()))
            elif tuple(path) == epath(r.pinned) and isinstance(new, VAgg) and new.var == r.pin_open:
                self.opens.append((new, st.copy()))
