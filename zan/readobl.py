"""Obligations on the transitions and outcomes of Reader::poll_read (see readan.py)."""
import re

from .engine import *
from .terms import *
from .readan import *
from . import models as M

def exact_bool(b):
    if b.k == "c":
        return True
    if b.k == "lit":
        return not INEXACT.search(str(b.a[0]))
    if b.k in ("and", "or"):
        return exact_bool(b.a[0]) and exact_bool(b.a[1])
    return exact_val(b.a)


def verdict(st, b):
    """True: holds; False: refuted, or not a consequence of what is exactly known; None: the analysis lost precision here"""
    d = st.decide(b)
    if d is not None:
        return d
    return False if exact_bool(b) else None


def split3(eng, st, seq, at):
    r = eng.seq_split(st, seq, at)
    if r is None:
        return None
    return VSeq(seq.elty, r[0]), VSeq(seq.elty, r[1])


def seq_eq(eng, st, x, y):
    """(verdict, index of the first differing byte or None)"""
    xs, ys = list(x.segs), list(y.segs)
    off = ZERO
    while xs or ys:
        if not xs or not ys:
            rest = VSeq(x.elty, xs or ys).length()
            return (True, None) if st.decide(eq0(rest)) is True else (verdict(st, eq0(rest)), off)
        a, b = xs[0], ys[0]
        if a[0] == "lit" and b[0] == "lit":
            n = min(len(a[1]), len(b[1]))
            for i in range(n):
                p, q = a[1][i], b[1][i]
                if p == q:
                    continue
                if isinstance(p, Aff) and isinstance(q, Aff):
                    v = verdict(st, eq0(p - q))
                else:
                    v = None
                if v is not True:
                    return v, off + i
            off = off + n
            for l, s in ((xs, a), (ys, b)):
                l[0] = ("lit", s[1][n:])
                if not l[0][1]:
                    l.pop(0)
            continue
        if a[0] == b[0] == "sym" or a[0] == b[0] == "top":
            if a[1] == b[1] and (a[0] == "top" or a[2] == b[2] or st._deq(a[2] - b[2]) is True):
                la, lb = a[-1], b[-1]
                if la == lb or st._deq(la - lb) is True:
                    xs.pop(0)
                    ys.pop(0)
                    off = off + la
                    continue
                if a[0] == "sym" and st.decide(ge0(la - lb)) is True:
                    xs[0] = ("sym", a[1], a[2] + lb, la - lb)
                    ys.pop(0)
                    off = off + lb
                    continue
                if a[0] == "sym" and st.decide(ge0(lb - la)) is True:
                    ys[0] = ("sym", b[1], b[2] + la, lb - la)
                    xs.pop(0)
                    off = off + la
                    continue
            elif st.decide(eq0(a[-1])) is True:
                xs.pop(0)
                continue
            elif st.decide(eq0(b[-1])) is True:
                ys.pop(0)
                continue
            return (None if "top" in (a[0], b[0]) or INEXACT.search(str(a[1])) or INEXACT.search(str(b[1])) else False), off
        # different kinds
        for l, s in ((xs, a), (ys, b)):
            if s[0] != "lit" and st.decide(eq0(s[-1])) is True:
                l.pop(0)
                break
        else:
            return (None if "top" in (a[0], b[0]) else False), off
    return True, None


def show(v, n=160):
    s = str(v)
    return s if len(s) <= n else s[:n] + "..."


def differ(st, x):
    """False when x is known not to be zero (also up to terms that are known to be zero)"""
    d = st.decide(eq0(x))
    if d is None and any(st._deq(x - n) is True or st._deq(x + n) is True for n in st.ne):
        return False
    return d


LIMIT = 1 << 20   # what counts as a constant


def bounded(st, a, name_re):
    """is a number of elements at most a constant plus the length of one name?"""
    if not isinstance(a, Aff):
        return None
    names = [x for x in a.atoms() if str(x.op).endswith(".len") and name_re.search(str(x.op)[:-4])]
    for x in [None] + names:
        b = a - atom_aff(x) if x is not None else a
        if st.decide(ge0(K(LIMIT) - b)) is True:
            return True
    if any(k > 1 and str(x.op).startswith("capacity") for x, k in a.t):
        return False        # a multiple of what is allocated already: grows with every repetition
    return False if exact_val(a) else None


class Obl:
    def __init__(self, an, want=None):
        self.an, self.r, self.h, self.eng = an, an.roles, an.hooks, an.eng
        self.out = {}
        self.want = want
        self.T = an.prog.types
        self.LH, self.ED, self.DD, self.CD, self.EO, self.FI = an.order
        self.kinds = {self.LH: "local header", self.ED: "data", self.DD: "data descriptor", self.CD: "directory header", self.EO: "end records", self.FI: "finished"}
        self.filled0 = an.hooks.filled0
        self.n = {"transitions": 0, "outcomes": 0}

    def add(self, props, rule, construct, v, detail=""):
        for p in props.split():
            if self.want is not None and p not in self.want:
                continue
            k = (p, rule, construct)
            cur = self.out.get(k)
            rank = {True: 0, None: 1, False: 2}
            if cur is None or rank[v] > rank[cur[0]]:
                self.out[k] = [v, detail if v is not True else "", 1 if cur is None else cur[2] + 1]
            else:
                cur[2] += 1

    def run(self):
        for t in self.an.trans:
            self.n["transitions"] += 1
            self.transition(t)
            if t.kind == "exit":
                self.n["outcomes"] += 1
                self.exit(t)
        for f, what, span, st in self.an.panics:
            if what.startswith("assert:overflow"):
                continue
            c = self.h.rd(st, self.r.chunk)
            props = "C11 C01 C34 C35"
            if isinstance(c, VAgg) and c.var == self.ED:
                props += " C13"
            sure = all(exact_val(x) for x in list(st.ge) + list(st.ne))
            self.add(props, "no panic is reachable from a state a read call leaves behind", "%s: %s" % (f, what), False if sure else None,
                     "reachable with cursor %s" % show(c))
        self.add("C11 C01 C34 C35 C13", "no panic is reachable from a state a read call leaves behind", "poll_read", True)
        for rec in self.an.records:
            self.event(rec)
        for w in self.an.crc_writes:
            self.crc_write(*w)
        for w in self.an.other_writes:
            self.add("C04 C11", "reading changes nothing of an entry but its CRC", self.r._fname(self.r.entry_ty, w[1]) or "entry", False, "overwritten with %s" % show(w[3]))
        for new, st in self.an.opens:
            self.opened(new, st)
        for st, amount, kind, fn in self.an.allocs:
            self.add("C15", "each allocation is bounded by a constant and one entry name", "%s in %s" % (kind, fn), bounded(st, amount, self.h.name_re),
                     "room for %s elements" % show(amount))
        for fn, st in self.an.repolls:
            self.add("C11", "a completed future is not polled again", fn, False, "the opening future is polled after it had completed")
        if self.an.counts.get("fut_poll"):
            self.add("C11", "a completed future is not polled again", "opening future", True)
        for f, bb, why in self.h.losts:
            self.add("C11 C34 C05 C12", "path analysed to its end", f, None, why)
        return self.out

    # ------------------------------------------------------------------ helpers
    def idx(self, c):
        return c.f[0] if c.f else None

    def entry(self, t, st, c):
        ents = self.h.rd(st, self.r.entries)
        return self.eng.seq_get(st, ents, c.f[0])

    def nents(self, st):
        return self.h.rd(st, self.r.entries).length()

    def spos(self, S, st=None):
        """bytes of the entry's data the open source is past"""
        c, p = S["chunk"], S["pin"]
        if c.var != self.ED or p.var != self.r.pin_open:
            return ZERO
        return S["spos"]

    def phi(self, S):
        return S["filled"] + S["staging"].length() - S["skip"]

    def same(self, st, a, b):
        if a.var != b.var:
            return False
        if not a.f:
            return True
        d = st.decide(eq0(a.f[0] - b.f[0]))
        return d is True or a == b

    def where(self, t):
        a, b = t.a["chunk"], t.b["chunk"]
        s = self.kinds[a.var]
        if not self.same(t.st, a, b):
            s += " -> " + self.kinds[b.var]
        if t.kind == "exit":
            s += ", %s" % self.outcome(t)
        return s

    def outcome(self, t):
        v = t.val
        if isinstance(v, VSym):
            v = self.eng.expand(t.st, v)
        if not isinstance(v, VAgg) or v.var is None:
            return "?"
        n = self.T[v.ty]["variants"][v.var]["n"]
        if n == "Pending":
            return "Pending"
        x = v.f[0]
        if isinstance(x, VSym):
            x = self.eng.expand(t.st, x)
        if not isinstance(x, VAgg) or x.var is None:
            return "?"
        return "Ready(%s)" % self.T[x.ty]["variants"][x.var]["n"]

    def errval(self, t):
        v = self.eng.expand(t.st, t.val)
        x = self.eng.expand(t.st, v.f[0])
        return x.f[0]

    # ------------------------------------------------------------------ rules
    def transition(self, t):
        st, A, B = t.st, t.a, t.b
        ca, cb = A["chunk"], B["chunk"]
        if not (isinstance(ca, VAgg) and isinstance(cb, VAgg) and isinstance(A["pin"], VAgg) and isinstance(B["pin"], VAgg)):
            self.add("C34 C05", "state known at cuts", str(t.where), None, "cursor %s -> %s" % (show(ca), show(cb)))
            return
        w = self.where(t)
        same = self.same(st, ca, cb)
        oc = self.outcome(t) if t.kind == "exit" else None
        if not same:
            self.order(t, w)
        # conservation of bytes
        dphi = self.phi(B) - self.phi(A)
        sa, sb = self.spos(A), self.spos(B)
        size = None
        if sa is None or (same and sb is None):
            v, want = None, "?"
        elif same:
            want = sb - sa
            v = verdict(st, eq0(dphi - want))
        else:
            size = self.size(t, ca)
            want = size - sa
            v = verdict(st, eq0(dphi - want))
        props = "C34"
        if oc and oc.startswith("Ready(Err"):
            props += " C11"
        if not same:
            props += " C01"
        self.add(props, "every byte of a record is delivered, staged or skipped exactly once", w, v,
                 "delivered + staged - to skip changes by %s, the record accounts for %s (%s)" % (show(dphi), show(want), t.where))
        self.content(t, w, same, size)
        self.hashed(t, w)
        sl = B["staging"].length()
        ok = bounded(st, sl, self.h.name_re)
        if ok is not True and isinstance(sl, Aff):
            had = A["staging"].length()     # by induction at most one group: nothing was added to it
            if isinstance(had, Aff) and st.decide(ge0(had - sl)) is True:
                ok = True
        self.add("C15", "staging holds at most one record group", w, ok, "%s bytes staged" % show(sl))
        if not same and ca.var == self.ED:
            self.through(t, w)
        if not same:
            self.add("C06 C12", "the source of an entry is closed when the reader moves on", w,
                     True if B["pin"].var == self.r.pin_none else (None if ca.var == self.LH else False), "source state kept across records")
            self.add("C11", "processed counter restarts with each record", w, True if st.decide(eq0(B["proc"])) is True else verdict(st, eq0(B["proc"])), show(B["proc"]))
        if t.kind == "head":
            self.progress(t, w, same)

    def order(self, t, w):
        st, ca, cb = t.st, t.a["chunk"], t.b["chunk"]
        LH, ED, DD, CD, EO, FI = self.an.order
        a, b = ca.var, cb.var
        i, j = self.idx(ca), self.idx(cb)
        n = self.nents(st)
        conds = None
        if (a, b) in ((LH, ED), (ED, DD)):
            conds = [eq0(j - i)]
        elif (a, b) == (DD, LH) or (a, b) == (CD, CD):
            conds = [eq0(j - i - 1), ge0(n - i - 2)]
        elif (a, b) == (DD, CD):
            conds = [eq0(j), ge0(i + 1 - n)]
        elif (a, b) == (CD, EO):
            conds = [ge0(i + 1 - n)]
        elif (a, b) == (EO, FI):
            conds = []
        if conds is None:
            self.add("C05", "records follow one another in ZIP order", w, False, "no such step in the format (entry %s -> %s)" % (i, j))
            return
        v = True
        for c in conds:
            x = verdict(st, c)
            if x is not True:
                v = x
                self.add("C05", "records follow one another in ZIP order", w, x, "needs %s; entry %s -> %s" % (c, show(i), show(j)))
        if v is True:
            self.add("C05", "records follow one another in ZIP order", w, True)

    def size(self, t, c):
        st = t.st
        if c.var == self.ED:
            return self.h.efield(st, self.entry(t, st, c), self.r.e_size)
        T, _ = self.template(t, c, st)
        return T.length()

    def template(self, t, c, st):
        """the bytes the record must have: (sequence, [(name, width or None, property)])"""
        eng, r, h = self.eng, self.r, self.h
        u8 = eng.find_ty("u8")
        f = []      # (name, bytes | VSeq, properties)

        def num(name, w, v, props):
            f.append((name, M.mkbytes(eng, v if isinstance(v, Aff) else K(v), w), props))
        if c.var == self.EO:
            n = self.nents(st)
            num("ZIP64 end record: signature", 4, 0x06064b50, "C03")
            num("ZIP64 end record: size", 8, 44, "C03")
            num("ZIP64 end record: version made by", 2, (3 << 8) | 45, "C03")
            num("ZIP64 end record: version needed", 2, 45, "C03")
            num("ZIP64 end record: disk number", 4, 0, "C03")
            num("ZIP64 end record: directory disk", 4, 0, "C03")
            num("ZIP64 end record: entries on this disk", 8, n, "C02")
            num("ZIP64 end record: entries", 8, n, "C02")
            num("ZIP64 end record: directory size", 8, h.rd(st, r.cd_size), "C02")
            num("ZIP64 end record: directory offset", 8, h.rd(st, r.cd_offset), "C02")
            num("ZIP64 locator: signature", 4, 0x07064b50, "C03")
            num("ZIP64 locator: disk", 4, 0, "C03")
            num("ZIP64 locator: offset of the ZIP64 end record", 8, h.rd(st, r.eocd_offset), "C02")
            num("ZIP64 locator: number of disks", 4, 1, "C03")
            num("end record: signature", 4, 0x06054b50, "C03")
            num("end record: disk number", 2, 0, "C03")
            num("end record: directory disk", 2, 0, "C03")
            num("end record: entries on this disk", 2, 0xffff, "C03")
            num("end record: entries", 2, 0xffff, "C03")
            num("end record: directory size", 4, 0xffffffff, "C03")
            num("end record: directory offset", 4, 0xffffffff, "C03")
            num("end record: comment length", 2, 0, "C03")
        else:
            el = self.entry(t, st, c)
            fld = lambda p: h.efield(st, el, p)
            size = fld(r.e_size)
            name = eng.as_seq(st, fld(r.e_name))
            nl = name.length()
            crc = fld(r.e_crc)
            if isinstance(crc, VSym):
                crc = eng.expand(st, crc)
            crcv = crc.f[0] if isinstance(crc, VAgg) and crc.f else None
            dt = [fld(p) for p in r.dt_order]
            if c.var == self.LH:
                k = "local header: "
                num(k + "signature", 4, 0x04034b50, "C03")
                num(k + "version needed", 2, 45, "C03")
                num(k + "flags", 2, 0x0808, "C03")
                num(k + "method", 2, 0, "C03")
                num(k + "time", 2, dt[0], "C04 C22")
                num(k + "date", 2, dt[1], "C04 C22")
                num(k + "CRC", 4, 0, "C03")
                num(k + "compressed size", 4, 0xffffffff, "C03")
                num(k + "size", 4, 0xffffffff, "C03")
                num(k + "name length", 2, nl, "C04")
                num(k + "extra length", 2, 28, "C03")
                f.append((k + "name", name, "C04"))
                k = "local header ZIP64 field: "
                num(k + "tag", 2, 1, "C03")
                num(k + "size", 2, 24, "C03")
                num(k + "uncompressed size", 8, 0, "C03")
                num(k + "compressed size", 8, 0, "C03")
                num(k + "offset", 8, fld(r.e_off), "C04 C02")
            elif c.var == self.DD:
                k = "data descriptor: "
                num(k + "signature", 4, 0x08074b50, "C03")
                f.append((k + "CRC", M.mkbytes(eng, crcv, 4) if crcv is not None else [UNDEF] * 4, "C04"))
                num(k + "compressed size", 8, size, "C04")
                num(k + "uncompressed size", 8, size, "C04")
            elif c.var == self.CD:
                k = "directory header: "
                num(k + "signature", 4, 0x02014b50, "C03")
                num(k + "version made by", 2, (3 << 8) | 45, "C03")
                num(k + "version needed", 2, 45, "C03")
                num(k + "flags", 2, 0x0800, "C03")
                num(k + "method", 2, 0, "C03")
                num(k + "time", 2, dt[0], "C04 C22")
                num(k + "date", 2, dt[1], "C04 C22")
                f.append((k + "CRC", M.mkbytes(eng, crcv, 4) if crcv is not None else [UNDEF] * 4, "C04"))
                num(k + "compressed size", 4, 0xffffffff, "C03")
                num(k + "size", 4, 0xffffffff, "C03")
                num(k + "name length", 2, nl, "C04")
                num(k + "extra length", 2, 28, "C03")
                num(k + "comment length", 2, 0, "C03")
                num(k + "disk", 2, 0, "C03")
                num(k + "internal attributes", 2, 0, "C03")
                num(k + "external attributes", 4, fld(r.e_attr), "C04 C21")
                num(k + "header offset", 4, 0xffffffff, "C03")
                f.append((k + "name", name, "C04"))
                k = "directory header ZIP64 field: "
                num(k + "tag", 2, 1, "C03")
                num(k + "size", 2, 24, "C03")
                num(k + "uncompressed size", 8, size, "C04")
                num(k + "compressed size", 8, size, "C04")
                num(k + "offset", 8, fld(r.e_off), "C04 C02")
        segs = []
        for nm, b, p in f:
            segs += list(b.segs) if isinstance(b, VSeq) else [("lit", tuple(b))]
        return VSeq(u8, segs), f

    def suffix(self, t):
        """bytes appended to the caller's buffer during the transition, (ok, prefix verdict)"""
        st, A, B = t.st, t.a, t.b
        r = split3(self.eng, st, B["content"], A["filled"])
        if r is None:
            return None, None
        pv, _ = seq_eq(self.eng, st, r[0], A["content"])
        return r[1], pv

    def content(self, t, w, same, size):
        st, A, B, eng = t.st, t.a, t.b, self.eng
        ca = A["chunk"]
        suf, pv = self.suffix(t)
        if suf is None:
            self.add("C34", "bytes already in the caller's buffer stay as they are", w, None, "cannot locate them in %s" % show(B["content"]))
            return
        if pv is False and any(s[0] == "top" for s in A["content"].segs + B["content"].segs):
            pv = None
        self.add("C34 C26", "bytes already in the caller's buffer stay as they are", w, pv, "%s became %s" % (show(A["content"]), show(B["content"])))
        u8 = eng.find_ty("u8")
        nonempty = st.decide(eq0(A["staging"].length()))
        if nonempty is not True:
            # what was staged must come out next
            d = B["filled"] - A["filled"]
            r1 = split3(eng, st, A["staging"], A["skip"])
            if r1 is None:
                self.add("C34 C06", "staged bytes come out next, in order", w, None, "cannot split %s at %s" % (show(A["staging"]), show(A["skip"])))
                return
            r2 = split3(eng, st, r1[1], d)
            if r2 is None:
                self.add("C34", "staged bytes come out next, in order", w, None, "cannot split")
                return
            v, off = seq_eq(eng, st, suf, r2[0])
            self.add("C34", "staged bytes come out next, in order", w, v, "delivers %s where %s is staged" % (show(suf), show(r2[0])))
            r3 = split3(eng, st, B["staging"], B["skip"])
            if st.decide(eq0(B["staging"].length())) is True:
                v, off = seq_eq(eng, st, VSeq(u8, []), r2[1])
                if st.decide(eq0(B["skip"])) is not True:
                    v = verdict(st, eq0(B["skip"]))
            elif r3 is None:
                v = None
            else:
                v, off = seq_eq(eng, st, r3[1], r2[1])
            self.add("C34", "staged bytes not delivered yet stay staged", w, v, "%s from %s left of %s" % (show(B["staging"]), show(B["skip"]), show(r2[1])))
            return
        if ca.var == self.ED:
            if same or True:
                g = st.store.get(GRD)
                d = B["filled"] - A["filled"]
                if g is None:
                    return
                if d == ZERO or st.decide(eq0(d)) is True:
                    return
                r = split3(eng, st, g, g.length() - d)
                if r is None:
                    self.add("C34 C26", "delivered data is what the source supplied", w, None, "cannot split %s" % show(g))
                    return
                v, off = seq_eq(eng, st, suf, r[1])
                self.add("C34", "delivered data is what the source supplied", w, v, "delivers %s, source supplied %s" % (show(suf), show(g)))
                if st.decide(eq0(B["skip"])) is not True:
                    v = verdict(st, bor(eq0(d), eq0(B["skip"])))
                    self.add("C06 C34", "nothing is skipped behind bytes already delivered", w, v, "delivered %s, still to skip %s" % (show(d), show(B["skip"])))
                else:
                    self.add("C06 C34", "nothing is skipped behind bytes already delivered", w, True)
            return
        if ca.var == self.FI or same:
            return
        # a record was emitted: what went out plus what is staged is the record, less what was skipped
        T, fields = self.template(t, ca, st)
        prod = M.concat(suf, B["staging"])
        L = T.length()
        d = L - prod.length()
        k = self.kinds[ca.var]
        vd = st.decide(ge0(d))
        if st.decide(eq0(prod.length())) is True:
            return
        e = suf.length()
        if st.decide(eq0(e)) is not True and st.decide(eq0(B["skip"])) is not True:
            self.add("C34", "nothing is skipped behind bytes already delivered", w, verdict(st, bor(eq0(e), eq0(B["skip"]))), "delivered %s, still to skip %s" % (show(e), show(B["skip"])))
        if d == ZERO:
            rest, skipped = T, ZERO
        else:
            r = split3(eng, st, T, d) if vd is True else None
            if r is None:
                # another length than the record must have
                self.add("C03", "record layout", k, False if exact_val(d) and (vd is False or d.is_const) else None,
                         "%s bytes emitted, the format has %s" % (show(prod.length()), show(L)))
                return
            rest = r[1]
        self.fields(t, k, prod, T, fields, d, rest)

    def fields(self, t, k, prod, T, fields, d, rest):
        eng, st = self.eng, t.st
        # walk the fields that were not skipped
        off = ZERO
        cur = prod
        for nm, b, props in fields:
            w = b.length() if isinstance(b, VSeq) else K(len(b))
            if not (d == ZERO) and st.decide(ge0(d - off - w)) is True and off != d:
                off = off + w
                continue
            if st.decide(ge0(off - d)) is not True:
                # record cut inside a field
                off = off + w
                r = split3(eng, st, cur, off - d)
                if r is None:
                    self.add("C03", "record layout", nm, None, "cannot locate the field")
                    return
                cur = r[1]
                continue
            off = off + w
            r = split3(eng, st, cur, w)
            if r is None:
                self.add("C03", "record layout", nm, None if any(s[0] == "top" for s in cur.segs) else False,
                         "the field is not where the format has it: %s" % show(cur))
                return
            got, cur = r
            want = b if isinstance(b, VSeq) else VSeq(got.elty, [("lit", tuple(b))])
            if any(x is UNDEF for s in want.segs if s[0] == "lit" for x in s[1]):
                self.add("C04", "field value", nm, False, "written although the entry has no CRC yet")
                continue
            v, at = seq_eq(eng, st, got, want)
            if v is not True and nm.endswith("flags"):
                # bit 3 (sizes follow the data) may be repeated in the directory
                v2, _ = seq_eq(eng, st, got, VSeq(got.elty, [("lit", (K(8), K(8)))]))
                if v2 is True:
                    v = True
            self.add(props, "field value", nm, v, "is %s, must be %s" % (show(got), show(want)))
            if props != "C03" and v is not True:
                lv = self.little_endian(got, st)
                if lv is False:
                    self.add("C03", "field value", nm, v, "not a little-endian number of the field's width: %s" % show(got))
            elif props != "C03":
                self.add("C03", "field value", nm, True)

    def little_endian(self, got, st):
        if len(got.segs) != 1 or got.segs[0][0] != "lit":
            return None
        bs = got.segs[0][1]
        src = None
        for i, b in enumerate(bs):
            if b.is_const:
                continue
            a = b.single()
            if a is None:
                return None
            if a.op == "byte":
                if a.args[1] != i or (src is not None and src != a.args[0]):
                    return False
                src = a.args[0]
            elif i != 0:
                return False
        return True

    def hashed(self, t, w):
        """bytes obtained from the source and bytes fed to the hasher since the last cut"""
        st = t.st
        g, hs = st.store.get(GRD), st.store.get(GHS)
        if g is None or hs is None:
            return
        if g.length() == ZERO and hs.length() == ZERO:
            return
        v, _ = seq_eq(self.eng, st, hs, g)
        self.add("C12", "every byte read from the source is hashed once, in order", w, v, "read %s, hashed %s" % (show(g), show(hs)))

    def through(self, t, w):
        """data -> next record with a source that was used: size and CRC were compared"""
        st, A, B = t.st, t.a, t.b
        if A["pin"].var == self.r.pin_none and t.st.store.get(GE) is None:
            # jumped over without opening: covered by the conservation rule
            return
        ca = A["chunk"]
        el = self.entry(t, st, ca)
        size = self.h.efield(st, el, self.r.e_size)
        eof = st.store.get(GE)
        self.add("C13", "data ends only where the source ended", w, verdict(st, eq0(eof)) if eof is not None else False,
                 "the last read gave %s bytes" % show(eof))
        sp = A["spos"] if A["pin"].var == self.r.pin_open else ZERO
        g = st.store.get(GRD)
        opened = A["pin"].var != self.r.pin_open
        # position reached in the source by the end
        pos = st.store.get(GS)
        if pos is None:
            v = None
        else:
            v = verdict(st, eq0(pos - size))
        self.add("C13", "data shorter or longer than announced is not passed over", w, v, "source ended at %s, announced %s" % (show(pos), show(size)))
        # CRC that was supplied
        ents0 = self.an.crc_before(t)
        crc = ents0
        if isinstance(crc, VSym):
            crc = self.eng.expand(st, crc)
        if isinstance(crc, VAgg) and not crc.f:
            return
        fins = st.store.get(GFIN)
        if isinstance(crc, VAgg) and crc.f:
            known = crc.f[0]
        elif fins is not None:
            self.add("C13", "a supplied CRC is compared when the whole data was read", w, None, "not known whether a CRC was supplied")
            return
        if fins is not None:
            v = verdict(st, eq0(fins - known))
            self.add("C13", "a supplied CRC is compared when the whole data was read", w, v, "computed %s, supplied %s" % (show(fins), show(known)))
        else:
            v = self.known_sought(t)
            self.add("C13", "a supplied CRC is compared when the whole data was read", w, v, "the data was read through and no CRC was computed")

    def crc_write(self, idx, rest, old, new, st):
        """the reader remembers a CRC: it must be that of the whole data of the entry under the cursor"""
        h, r, eng = self.h, self.r, self.eng
        rule = "a CRC is remembered only for the entry read from beginning to end"
        ch = h.rd(st, r.chunk)
        if isinstance(ch, VSym):
            ch = eng.expand(st, ch)
        k = self.kinds[ch.var] if isinstance(ch, VAgg) else "?"
        if isinstance(new, VSym):
            new = eng.expand(st, new)
        if isinstance(old, VSym):
            old = eng.expand(st, old)
        if new == old:
            self.add("C12", rule, k, True)       # stays what it was
            return
        if len(rest) > len(r.e_crc):
            x = new
        elif isinstance(new, VAgg) and new.f:
            x = new.f[0]
        elif isinstance(new, VAgg) and not new.f:
            self.add("C12", rule, k, True)       # forgetting is harmless
            return
        else:
            self.add("C12", rule, k, None, "writes %s" % show(new))
            return
        if not ch.f:
            self.add("C12", rule, k, False, "no entry under the cursor")
            return
        v = verdict(st, eq0(idx - ch.f[0]))
        if v is not True:
            self.add("C12", rule, k, v, "CRC of entry %s written for entry %s" % (show(ch.f[0]), show(idx)))
            return
        size = h.efield(st, eng.seq_get(st, h.rd(st, r.entries), idx), r.e_size)
        if isinstance(x, Aff) and st.decide(eq0(x)) is True:
            v = verdict(st, eq0(size))
            self.add("C12", rule, k, v, "CRC of nothing for %s bytes" % show(size))
            return
        if isinstance(old, VSym):
            old = eng.expand(st, old)
        if isinstance(old, VAgg) and old.f and isinstance(x, Aff) and st.decide(eq0(x - old.f[0])) is True:
            self.add("C12", rule, k, True)
            return
        fin = st.store.get(GFIN)
        if fin is None or not isinstance(x, Aff) or st.decide(eq0(fin - x)) is not True:
            self.add("C12", rule, k, None if not isinstance(x, Aff) or not exact_val(x) else False, "writes %s, which is not the CRC computed from the source (%s)" % (show(x), show(fin)))
            return
        e = st.store.get(GE)
        v = False if e is None else verdict(st, eq0(e))
        self.add("C12", rule, k + ": source read to its end", v, "the last read gave %s" % show(e))
        v = st.store.get(GFNS) is TRUE
        self.add("C12", rule, k + ": source never repositioned", v, "the source may have been repositioned")

    def opened(self, new, st):
        """a source that was just opened starts with a fresh hasher"""
        T = self.T
        n = 0

        def go(v):
            nonlocal n
            if isinstance(v, VAgg):
                if self.eng.ty_path(v.ty) == "crc32fast::Hasher":
                    n += 1
                    self.add("C12", "the CRC of a source starts from nothing", "hasher", verdict(st, eq0(v.f[0].length())), show(v))
                    return
                for x in v.f:
                    go(x)
        go(new)

    def known_sought(self, t):
        """is the source that ended known to have been repositioned?"""
        s = t.st.store.get(GSOU)
        d = t.st.decide(s) if isinstance(s, Bool) else None
        if d is not None:
            return d
        p = t.a["pin"]
        if p.var != self.r.pin_open:
            return False
        return True if self.r.is_sought(self.eng, t.st, p) else None

    def progress(self, t, w, same):
        st, A, B = t.st, t.a, t.b
        if not same:
            self.add("C35", "every round of a loop makes progress", w, True)
            return
        df = B["filled"] - A["filled"]
        ds = A["staging"].length() - B["staging"].length()
        dk = A["skip"] - B["skip"]
        dp = ZERO
        if A["spos"] is not None and B["spos"] is not None and A["pin"].var == B["pin"].var:
            dp = B["spos"] - A["spos"]
        opened = A["pin"].var != B["pin"].var
        nonneg = all(st.decide(ge0(x)) is not False for x in (df,))
        pos = any(st.decide(ge0(x - 1)) is True for x in (df, ds, dk, dp)) or opened
        if not pos and t.where[0][0] != t.where[1][0]:
            # not the same loop: entering or leaving a nested one
            pos = True
        if not pos and t.where[0] != t.where[1]:
            pos = True
        if pos:
            self.add("C35", "every round of a loop makes progress", w, True)
            return
        v = verdict(st, ge0(df + ds + dk + dp - 1))
        self.add("C35", "every round of a loop makes progress", w, v, "nothing delivered, drained, skipped or read (%s)" % (t.where,))

    # ------------------------------------------------------------------ outcomes
    def exit(self, t):
        st, A, B = t.st, t.a, t.b
        oc = self.outcome(t)
        w = self.where(t)
        pos0 = self.an.pos0
        dp, df = B["pos"] - pos0, B["filled"] - self.filled0
        self.add("C07", "position advances by the bytes delivered", w, verdict(st, eq0(dp - df)), "position advances by %s, delivered %s" % (show(dp), show(df)))
        gerr = st.store.get(GERR)
        if oc == "?":
            self.add("C08 C09 C10 C35", "outcome known", w, None, show(t.val))
            return
        if oc == "Pending" or oc == "Ready(Err)":
            self.add("C08", "nothing is delivered with Pending or an error", w, verdict(st, eq0(df)), "%s bytes in the buffer" % show(df))
        if oc == "Pending":
            gp = st.store.get(GP, FALSE)
            d = st.decide(gp)
            self.add("C09", "Pending comes from a source polled with the caller's context", w, True if d is True else False,
                     "no source was polled with the caller's context, or none was pending")
            if gerr is not None:
                self.add("C10", "a source error is returned", w, False, "error %s met, Pending returned" % show(gerr))
        elif oc == "Ready(Err)":
            e = self.errval(t)
            if gerr is not None:
                self.add("C10", "a source error is returned", w, True if self.is_err(st, e, gerr) else False, "error met %s, returned %s" % (show(gerr), show(e)))
            else:
                self.liberr(t, w, e)
        else:
            if gerr is not None:
                self.add("C10", "a source error is returned", w, False, "error %s met, success returned" % show(gerr))
            # success with nothing although there was room
            room = B["cap"] - self.filled0
            nothing = st.decide(eq0(df))
            if nothing is not False:
                c = B["chunk"]
                if isinstance(c, VAgg) and c.var == self.FI:
                    v = True
                elif st.decide(eq0(room)) is True or st.decide(eq0(df - room)) is True:
                    v = True        # no room, or the buffer was filled
                elif nothing is True or exact_val(df):
                    s2 = st.copy()
                    if nothing is None and (not s2.assume(eq0(df), self.eng) or s2.dead):
                        v = True
                    elif s2.decide(eq0(room)) is True:
                        v = True
                    else:
                        v = False
                else:
                    v = None
                self.add("C35", "success without bytes only at the end of the archive", w, v, "cursor %s, room %s" % (show(c), show(room)))
            else:
                self.add("C35", "success without bytes only at the end of the archive", w, True)
        self.invariant(t, w, oc)

    def is_err(self, st, e, gerr):
        return e == gerr

    def liberr(self, t, w, e):
        """an error of the library's own: a mismatch that exists, named with the entry and both values"""
        st, A, B, r, h = t.st, t.a, t.b, self.r, self.h
        R1, R2 = "a mismatch is reported only when there is one", "a mismatch error names the entry and both values"
        p = e
        while isinstance(p, VSym) and isinstance(p.origin, tuple) and p.origin[:1] == ("ioerr",) and p.origin[2]:
            p = p.origin[2][-1]
        if isinstance(p, VSym):
            p = self.eng.expand(st, p)
        ch = B["chunk"]
        if not (isinstance(p, VAgg) and p.var is not None and self.T[p.ty].get("local", True) and isinstance(ch, VAgg) and ch.f):
            self.add("C13", R1, w, None, "error %s" % show(e))
            return
        v = self.T[p.ty]["variants"][p.var]
        fs = {}
        for f, x in zip(v["f"], p.f):
            k = self.T[f["t"]]["k"]
            fs["expected" if "expect" in f["n"] else "actual" if "actual" in f["n"] else "name" if k != "int" else f["n"]] = x
        if set(fs) != {"expected", "actual", "name"}:
            self.add("C13", R1, w, None, "error %s" % show(p))
            return
        w = "%s, %s" % (w, v["n"])
        el = self.entry(t, st, ch)
        size, name = h.efield(st, el, r.e_size), h.efield(st, el, r.e_name)
        eof, pos, fin = st.store.get(GE), B["spos"], st.store.get(GFIN)
        wide = [f for f in v["f"] if self.T[f["t"]]["k"] == "int" and self.T[f["t"]].get("bits", self.T[f["t"]]["s"]) in (64, "u64")]
        if wide:
            exp, act = size, pos
        else:
            crc = self.an.crc_before(t)
            if isinstance(crc, VSym):
                crc = self.eng.expand(st, crc)
            if isinstance(crc, VAgg) and not crc.f:
                self.add("C13", R1, w, False, "no CRC was supplied")
                return
            exp, act = (crc.f[0] if isinstance(crc, VAgg) else None), fin
        if not isinstance(exp, Aff) or not isinstance(act, Aff):
            self.add("C13", R1, w, None, "values not known: %s, %s" % (show(exp), show(act)))
        else:
            d = differ(st, exp - act)
            self.add("C13", R1, w, True if d is False else False if d is True else (False if exact_val(exp - act) else None), "%s and %s need not differ" % (show(exp), show(act)))
            self.add("C13", R2, w + ": values", verdict(st, band(eq0(fs["expected"] - exp), eq0(fs["actual"] - act))),
                     "expected %s, actual %s; must be %s, %s" % (show(fs["expected"]), show(fs["actual"]), show(exp), show(act)))
        ended = verdict(st, eq0(eof)) if eof is not None else None
        if wide and ended is not True and isinstance(pos, Aff) and st.decide(ge0(pos - size - 1)) is True:
            ended = True
        self.add("C13", "a mismatch is reported only when the data has ended", w, ended, "the last read gave %s bytes" % show(eof))
        ns = self.eng.as_seq(st, fs["name"]) if not isinstance(fs["name"], VSeq) else fs["name"]
        x, _ = seq_eq(self.eng, st, ns, self.eng.as_seq(st, name))
        self.add("C13", R2, w + ": name", x, "names %s" % show(fs["name"]))

    def invariant(self, t, w, oc):
        """the state left behind is one of the states the analysis starts from"""
        st, B, r = t.st, t.b, self.r
        c, p = B["chunk"], B["pin"]
        props = "C11" if oc == "Ready(Err)" else "C34"
        if not isinstance(c, VAgg) or not isinstance(p, VAgg):
            self.add(props, "state left behind is a known one", w, None, "%s %s" % (show(c), show(p)))
            return
        conds = []
        if c.f:
            conds.append(("cursor in range", ge0(self.nents(st) - c.f[0] - 1)))
        empty = st.decide(eq0(B["staging"].length()))
        if p.var != r.pin_none:
            conds.append(("nothing staged while a source is open", eq0(B["staging"].length())))
            if c.var not in (self.ED, self.DD, self.CD):
                self.add(props, "state left behind is a known one", w, False, "a source is open at %s" % self.kinds[c.var])
                return
            el = self.entry(t, st, c)
            size = self.h.efield(st, el, r.e_size)
            nl = self.eng.as_seq(st, self.h.efield(st, el, r.e_name)).length()
            conds.append(("opened for a nonempty entry", ge0(size - 1)))
            if c.var == self.ED:
                if st.decide(eq0(B["skip"])) is not True:
                    conds.append(("skip ends inside the data", ge0(size - B["skip"] - B["proc"] - 1)))
                if p.var == r.pin_open and B["spos"] is not None and not self.seeking(st, B):
                    conds.append(("processed counter is the source position", eq0(B["spos"] - B["proc"])))
            else:
                conds.append(("skip ends inside the record", ge0((K(23) if c.var == self.DD else nl + 73) - B["skip"])))
                conds.append(("processed counter restarted", eq0(B["proc"])))
                crc = self.h.efield(st, el, r.e_crc)
                if isinstance(crc, VSym):
                    crc = self.eng.expand(st, crc)
                conds.append(("CRC not known yet", bconst(isinstance(crc, VAgg) and not crc.f)))
        else:
            conds.append(("processed counter restarted", eq0(B["proc"])))
            if empty is not True:
                conds.append(("skip ends inside what is staged", ge0(B["staging"].length() - B["skip"] - 1)))
        for nm, b in conds:
            d = st.decide(b)
            self.add(props, "state left behind is a known one", "%s: %s" % (w, nm), d, "%s" % show(b))
        # a finished opening future is not kept
        if p.var == r.pin_future:
            g = st.store.get(("G", "futdone"))
            self.add("C11", "a completed future is not kept", w, False if g is TRUE else True, "the opening future had completed")

    def seeking(self, st, B):
        return False

    def event(self, rec):
        kind, st, kw, fn = rec
        if isinstance(fn, dict):
            fn = fn["path"]
        h, r, eng = self.h, self.r, self.eng
        ch = h.rd(st, r.chunk)
        if isinstance(ch, VSym):
            ch = eng.expand(st, ch)
        if not isinstance(ch, VAgg):
            self.add("C14", "sources are opened only when needed", fn, None, "cursor unknown")
            return
        w = "%s (%s)" % (fn, self.kinds[ch.var])
        if kind == "src_get_reader":
            if not ch.f or ch.var not in (self.ED, self.DD, self.CD):
                self.add("C14", "sources are opened only when needed", w, False, "opened for a record that needs no data")
                return
            el = self.entry(None, st, ch)
            size = h.efield(st, el, r.e_size)
            self.add("C14", "sources are opened only for entries with data", w, verdict(st, ge0(size - 1)), "size %s" % show(size))
            skip = h.rd(st, r.skip)
            if ch.var == self.ED:
                self.add("C14", "sources are opened only when needed", w, verdict(st, ge0(size - skip - 1)), "to skip %s of %s" % (show(skip), show(size)))
            else:
                crc = h.efield(st, el, r.e_crc)
                if isinstance(crc, VSym):
                    crc = eng.expand(st, crc)
                v = True if isinstance(crc, VAgg) and not crc.f else False
                self.add("C14", "sources are opened only when needed", w, v, "the CRC is known")
                nl = eng.as_seq(st, h.efield(st, el, r.e_name)).length()
                L = K(24) if ch.var == self.DD else nl + 74
                self.add("C14", "no source is opened for a record that is skipped", w, verdict(st, ge0(L - skip - 1)), "to skip %s of %s" % (show(skip), show(L)))
        if kind in ("src_get_reader", "src_read", "src_start_seek"):
            d = kw.get("data")
            own = self.own_data(st, d, ch)
            if own is not None:
                self.add("C05 C04", "an entry's data comes from the entry's own source", w, own, "data of %s, cursor %s" % (show(d), show(ch)))

    def own_data(self, st, d, ch):
        if d is None or not ch.f or not isinstance(d, VRef):
            return None
        r = self.r
        want = epath(r.entries)
        p = d.path
        if d.root != self.h.root or p[:len(want)] != want or len(p) <= len(want):
            return None
        e = p[len(want)]
        if e[0] != "e":
            return None
        return verdict(st, eq0(e[1] - ch.f[0]))
