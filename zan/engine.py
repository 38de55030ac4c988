"""Forward dataflow over MIR with a value-numbering / affine / variant (typestate) domain.

States are partitioned by the known enum variants and monitor ghosts ("property simulation");
loops are closed by a join at the loop head in which integer locations that moved by the same
amount share one displacement (affine equalities with unit coefficients), so that relations such as
`position - filled` survive.  Calls to functions of the analysed crate (and thin generic wrappers of
core / packed_struct) are analysed in the caller's state; everything else is a model or an unknown
that may change whatever it can reach through mutable references."""
import re
import sys
import time
from .terms import *

sys.setrecursionlimit(20000)


class VAgg:
    __slots__ = ("ty", "var", "f", "_h")

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, tuple(f)
        self._h = hash((ty, var, self.f))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, VAgg) and self._h == o._h and self.ty == o.ty and self.var == o.var and self.f == o.f)

    def __repr__(self):
        return "<%s%s>" % ("" if self.var is None else "v%s " % self.var, ", ".join(map(repr, self.f)))


class VSym:
    __slots__ = ("name", "ty", "origin")

    def __init__(self, name, ty, origin=None):
        self.name, self.ty, self.origin = name, ty, origin

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, VSym) and self.name == o.name

    def __repr__(self):
        return "?" + self.name


class VRef:
    __slots__ = ("root", "path", "ty", "mut", "_h")

    def __init__(self, root, path, ty, mut):
        self.root, self.path, self.ty, self.mut = root, path, ty, mut
        self._h = hash((root, path))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, VRef) and self.root == o.root and self.path == o.path

    def __repr__(self):
        return "&%s%s" % (fmt_root(self.root), fmt_path(self.path))


class VFn:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def __hash__(self):
        return hash(("fn", self.ty))

    def __eq__(self, o):
        return isinstance(o, VFn) and o.ty == self.ty

    def __repr__(self):
        return "fn#%d" % self.ty


class VSeq:
    """segs: tuple of ('lit', (values)), ('sym', name, off, len), ('fill', value, len), ('top', name, len)
    over: tuple of (index Aff, value) element overrides"""
    __slots__ = ("elty", "segs", "over", "ty", "cap", "_h")

    def __init__(self, elty, segs, over=(), ty=None, cap=None):
        out = []
        for s in segs:
            if s[0] == "lit":
                if not s[1]:
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + s[1])
                    continue
            elif s[-1] == ZERO:
                continue
            elif s[0] == "sym" and out and out[-1][0] == "sym" and out[-1][1] == s[1] and out[-1][2] + out[-1][3] == s[2]:
                out[-1] = ("sym", s[1], out[-1][2], out[-1][3] + s[3])
                continue
            out.append(s)
        self.elty, self.segs, self.over, self.ty = elty, tuple(out), over, ty
        self.cap = cap      # lower bound of the capacity, kept for growable byte buffers only
        self._h = hash((self.segs, self.over, cap))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, VSeq) and self._h == o._h and self.segs == o.segs and self.over == o.over and self.cap == o.cap

    def length(self):
        n = ZERO
        for s in self.segs:
            n = n + (len(s[1]) if s[0] == "lit" else s[-1])
        return n

    def __repr__(self):
        return "[" + " | ".join(fmt_seg(s) for s in self.segs) + "]" + ("{%s}" % ", ".join("%r:%r" % x for x in self.over) if self.over else "")


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def fmt_seg(s):
    if s[0] == "lit":
        try:
            if all(isinstance(x, Aff) and x.is_const and 32 <= x.c < 127 for x in s[1]):
                return repr("".join(chr(x.c) for x in s[1]))
        except Exception:
            pass
        return "lit%r" % (list(s[1]),)
    if s[0] == "sym":
        return "%s[%r..+%r]" % (s[1], s[2], s[3])
    return "%s(%r;%r)" % s


def fmt_root(r):
    return "%s:%s" % (r[0], ".".join(map(str, r[1:])))


def fmt_path(p):
    return "".join("." + "".join(map(str, e)) for e in p)


DEBUG = False


_findex = {}


def fact_index(ge):
    r = _findex.get(ge)
    if r is None:
        if len(_findex) > 2000:
            _findex.clear()
        r = {}
        for f in ge:
            for at, k in f.t:
                r.setdefault((at, k > 0), []).append(f)
        _findex[ge] = r
    return r


class PathLimit(Exception):
    pass


class Lost(Exception):
    """The domain cannot represent something the rule needs."""


class State:
    __slots__ = ("store", "ge", "ne", "lits", "bnd", "refine", "excl", "n", "trail", "stack", "alloc", "dead", "_memo", "gen", "resumed")

    def __init__(self):
        self.store = {}
        self.ge = frozenset()
        self.ne = frozenset()
        self.lits = {}
        self.bnd = {}
        self.refine = {}
        self.excl = {}
        self.n = 0
        self.trail = ()
        self.stack = ()
        self.alloc = None
        self.dead = False
        self._memo = None
        self.gen = ()
        self.resumed = False

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.ge, s.ne = self.ge, self.ne
        s.lits = dict(self.lits)
        s.bnd = dict(self.bnd)
        s.refine = dict(self.refine)
        s.excl = dict(self.excl)
        s.n = self.n
        s.trail = self.trail
        s.stack = self.stack
        s.alloc = self.alloc
        s.dead = self.dead
        s._memo = self._memo
        s.gen = self.gen
        s.resumed = False
        return s

    # -- names
    def fresh(self, site):
        self.n += 1
        return "%s#%d" % (site, self.n)

    # -- arithmetic facts
    def lower(self, a):
        lo = a.c
        for at, k in a.t:
            b = self.bnd.get(at)
            alo = max(at.lo, b[0]) if b else at.lo
            ahi = min(at.hi, b[1]) if b else at.hi
            x = k * alo if k > 0 else k * ahi
            if x == -INF or x != x:
                return -INF
            lo += x
        return lo

    def upper(self, a):
        return -self.lower(-a)

    def decide(self, b):
        k = b.k
        if k == "c":
            return b.a
        if k == "lit":
            v = self.lits.get(b.a[0])
            return None if v is None else (v == b.a[1])
        if k == "ge0":
            return self._dge(b.a)
        if k in ("eq0", "ne0"):
            r = self._deq(b.a)
            return r if (k == "eq0" or r is None) else (not r)
        x, y = self.decide(b.a[0]), self.decide(b.a[1])
        if k == "and":
            if x is False or y is False:
                return False
            return True if x and y else None
        if x is True or y is True:
            return True
        return False if x is False and y is False else None

    def _pos(self, a, depth=2):
        """is a >= 0 a consequence of the facts (a = non-negative + at most `depth` facts)?"""
        if a.is_const:
            return a.c >= 0
        m = self._memo
        if m is None or m[0] is not self.ge or m[1] != len(self.bnd):
            m = self._memo = (self.ge, len(self.bnd), {}, fact_index(self.ge))
        k = (a, depth)
        r = m[2].get(k)
        if r is None:
            r = m[2][k] = self._pos0(a, depth, m[3])
        return r

    def _pos0(self, a, depth, index):
        lo = a.c
        bad = None
        for at, k in a.t:
            b = self.bnd.get(at)
            if b:
                x = k * (b[0] if b[0] > at.lo else at.lo) if k > 0 else k * (b[1] if b[1] < at.hi else at.hi)
            else:
                x = k * at.lo if k > 0 else k * at.hi
            if x == -INF or x != x:
                bad = (at, k > 0)
                lo = -INF
                break
            lo += x
        if lo >= 0:
            return True
        if depth == 0:
            return False
        n = len(a.t) + 1
        if bad:
            for f in index.get(bad, ()):
                d = a - f
                if len(d.t) <= n and self._pos(d, depth - 1):
                    return True
            return False
        for at, k in a.t:
            for f in index.get((at, k > 0), ()):
                d = a - f
                if len(d.t) <= n and self._pos(d, depth - 1):
                    return True
        return False

    def _dge(self, a):
        if self._pos(a):
            return True
        if self._pos(-a - 1):
            return False
        return None

    def _deq(self, a):
        if a.is_const:
            return a.c == 0
        if canon_eq(a) in self.ne:
            return False
        if self._pos(-a - 1) or self._pos(a - 1):
            return False
        if self._pos(a) and self._pos(-a):
            return True
        return None

    def _add_ge(self, a):
        if a.is_const:
            return a.c >= 0
        if self.upper(a) < 0:
            return False
        if len(a.t) == 1:
            at, k = a.t[0]
            lo, hi = self.bnd.get(at, (-INF, INF))
            if k > 0:
                lo = max(lo, -(a.c // k) if a.c % k == 0 else -(a.c // k))
            else:
                hi = min(hi, a.c // -k)
            if self.bnd.get(at) != (lo, hi):
                self.bnd[at] = (lo, hi)
                self._memo = None
            if max(lo, at.lo) > min(hi, at.hi):
                return False
        if a not in self.ge:
            self.ge = self.ge | {a}
        return True

    def assume(self, b, eng=None):
        """Add a condition known to hold.  Returns False when it contradicts the state."""
        d = self.decide(b)
        if d is not None and b.k not in ("and", "or"):
            if d and b.k == "eq0":
                pass
            return d
        k = b.k
        if k == "lit":
            self.lits[b.a[0]] = b.a[1]
            if eng is not None:
                for (p, q) in eng.implications.get(b.a, ()):
                    if not self.assume(q, eng):
                        return False
            return True
        if k == "ge0":
            a = b.a
            if self.ne:
                if canon_eq(a) in self.ne:
                    a = a - 1
            if not self._add_ge(a):
                return False
            return self._recheck_ne()
        if k == "eq0":
            a = b.a
            if not self._add_ge(a) or not self._add_ge(-a):
                return False
            if eng is not None:
                eng.learn_eq(self, a)
                if self.dead:
                    return False
            return self._recheck_ne()
        if k == "ne0":
            self.ne = self.ne | {b.a}
            if eng is not None:
                eng.learn_ne(self, b.a)
                if self.dead:
                    return False
            return self._recheck_ne()
        if k == "and":
            return self.assume(b.a[0], eng) and self.assume(b.a[1], eng)
        if k == "or":
            x, y = self.decide(b.a[0]), self.decide(b.a[1])
            if x is False:
                return self.assume(b.a[1], eng)
            if y is False:
                return self.assume(b.a[0], eng)
            return True
        return True

    def _recheck_ne(self):
        for a in self.ne:
            if self.lower(a) == 0:
                if not self._add_ge(a - 1):
                    return False
            elif self.upper(a) == 0:
                if not self._add_ge(-a - 1):
                    return False
            elif a in self.ge and (a - 1) not in self.ge:
                if not self._add_ge(a - 1):
                    return False
            elif -a in self.ge and (-a - 1) not in self.ge:
                if not self._add_ge(-a - 1):
                    return False
        return True


class Call:
    __slots__ = ("callee", "args", "argtys", "ret", "span", "path", "rpath", "name", "body", "fn", "depth", "site")


class Outcome:
    __slots__ = ("st", "val")

    def __init__(self, st, val):
        self.st, self.val = st, val


MAXDEPTH = 60
FNCALL = re.compile(r"ops::(function::)?(Fn|FnMut|FnOnce)(<.*>>)?::call(_mut|_once)?$")
DEADLINE = [None]   # wall-clock limit of the analyses of this run
INLINE_FOREIGN = re.compile(
    r"^(core|std)::(option|result|task|ops|cmp|convert|pin|mem|future|bool|default|clone|array::try_from)|"
    r"^packed_struct|^(std|core)::ops::try_trait|^<.* as (std|core)::(ops|convert|default|cmp|clone|future)")


class Engine:
    def __init__(self, prog, hooks=None, models=None):
        self.p = prog
        self.hooks = hooks or Hooks()
        self.hooks.eng = self
        from . import models as M
        self.models = dict(M.EXACT)
        self.rx = list(M.REGEX)
        if models:
            self.models.update(models)
        self.objty = {}
        self.implications = {}
        self.discr_sym = {}
        self.steps = 0
        self.max_steps = 3_000_000
        self.unmodelled = {}
        self.visited = set()
        self.calls_seen = {}
        self.lost = []
        self.heads_info = {}
        self.paths = 0
        self.cfg_cache = {}
        self.tyidx = None
        self.origins = {}
        self.spare_of = {}
        self.crc_terms = {}
        self.displayed = {}
        self.trims = {}
        self.trimlen = {}
        self.mapentries = {}
        self.mcache = {}

    # ---------------- types
    def ty(self, i):
        return self.p.types[i]

    def find_ty(self, s):
        if self.tyidx is None:
            self.tyidx = {}
            for i, t in enumerate(self.p.types):
                self.tyidx.setdefault(t["s"], i)
        return self.tyidx.get(s)

    def ty_path(self, i):
        t = self.p.types[i]
        return t.get("path") if t["k"] == "adt" else None

    def int_range(self, t):
        if t["signed"]:
            return -(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1
        return 0, (1 << t["bits"]) - 1

    # ---------------- symbolic values
    def mk_sym(self, st, name, ty, origin=None):
        t = self.p.types[ty]
        k = t["k"]
        if k == "int":
            lo, hi = self.int_range(t)
            return atom_aff(Atom(name, (), lo, hi))
        if k == "char":
            return atom_aff(Atom(name, (), 0, 0x10FFFF))
        if k == "bool":
            return lit(name)
        if k in ("ref", "ptr"):
            root = ("O", name)
            self.objty[root] = t["el"]
            return VRef(root, (), t["el"], t["mut"])
        if k == "tuple" and not t["els"]:
            return VAgg(ty, None, ())
        if k == "fndef":
            return VFn(ty)
        if k in ("slice", "str", "array"):
            return self.sym_seq(name, ty)
        if k == "adt":
            p = t["path"]
            if p in SEQ_ADTS:
                return self.sym_seq(name, ty)
            if p in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc") and t["args"]:
                root = ("O", name + ".box")
                self.objty[root] = t["args"][0]
                return VRef(root, (), t["args"][0], p == "std::boxed::Box")
            if p == "std::pin::Pin" and t["args"]:
                return VAgg(ty, None, (self.mk_sym(st, name, t["args"][0]),))
            if p == "tokio::io::ReadBuf":
                f = atom_aff(Atom(name + ".filled", (), 0, (1 << 63) - 1))
                c = atom_aff(Atom(name + ".cap", (), 0, (1 << 63) - 1))
                u8 = self.find_ty("u8")
                st.assume(ge0(c - f))
                return VAgg(ty, None, (f, c, VSeq(u8, [("sym", name + ".old", ZERO, f)]), VSeq(u8, [])))
        return VSym(name, ty, origin)

    def sym_seq(self, name, ty):
        t = self.p.types[ty]
        k = t["k"]
        if k == "array":
            n = t.get("len")
            if n is None:
                ln = atom_aff(Atom(name + ".len", (), 0, (1 << 63) - 1))
            else:
                ln = K(n)
            el = t["el"]
        else:
            ln = atom_aff(Atom(name + ".len", (), 0, self.hooks.len_hi(name, ty) or (1 << 63) - 1))
            if k == "slice":
                el = t["el"]
            elif k == "str" or t.get("path") in U8_SEQ:
                el = self.find_ty("u8")
            else:
                el = t["args"][0] if t.get("args") else self.find_ty("u8")
        return VSeq(el, [("sym", name, ZERO, ln)], (), ty)

    def field_types(self, ty, var):
        t = self.p.types[ty]
        k = t["k"]
        if k in ("tuple", "closure", "coroutine"):
            return t["els"]
        if k == "adt" and "variants" in t:
            vs = t["variants"]
            v = vs[var if var is not None and t["akind"] == "enum" else 0]
            return [f["t"] for f in v["f"]]
        return None

    def expand(self, st, v, var=None):
        """Structure of a symbolic value (fields named after it), if its variant is known."""
        if not isinstance(v, VSym):
            return v
        t = self.p.types[v.ty]
        k = t["k"]
        if k == "adt" and t.get("akind") == "enum":
            if "variants" not in t:
                return v
            if var is None:
                var = st.refine.get(v.name)
                if var is None:
                    if len(t["variants"]) == 1:
                        var = 0
                    else:
                        return v
            ft = self.field_types(v.ty, var)
            return VAgg(v.ty, var, [self.mk_sym(st, "%s@%d.%d" % (v.name, var, i), x) for i, x in enumerate(ft)])
        ft = self.field_types(v.ty, None)
        if ft is None:
            return v
        return VAgg(v.ty, None, [self.mk_sym(st, "%s.%s" % (v.name, self.field_name(v.ty, i)), x) for i, x in enumerate(ft)])

    def field_name(self, ty, i):
        t = self.p.types[ty]
        if t["k"] == "adt" and "variants" in t:
            return t["variants"][0]["f"][i]["n"]
        return str(i)

    def undef_fields(self, ty, var):
        ft = self.field_types(ty, var) or []
        return VAgg(ty, var, [UNDEF] * len(ft))

    # ---------------- memory
    def root_value(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] == "O" and root in self.objty:
                v = self.mk_sym(st, root[1], self.objty[root])
                st.store[root] = v
            elif root[0] == "S":
                u8 = self.find_ty("u8")
                v = VSeq(u8, [("lit", tuple(K(b) for b in root[1].encode()))], (), self.find_ty("str"))
                st.store[root] = v
            else:
                return UNDEF
        return v

    def read(self, st, root, path):
        v = self.root_value(st, root)
        for i, e in enumerate(path):
            v = self.step(st, v, e, (root, path[:i]))
        return v

    def step(self, st, v, e, where=None):
        k = e[0]
        if k == "f":
            if isinstance(v, VSym):
                w = self.expand(st, v)
                if isinstance(w, VSym):
                    # field of an opaque value
                    ft = e[2] if len(e) > 2 else None
                    if ft is None:
                        raise Lost("field of opaque %r" % v)
                    return self.mk_sym(st, "%s.%d" % (v.name, e[1]), ft)
                v = w
            if isinstance(v, VAgg):
                if e[1] < len(v.f):
                    return v.f[e[1]]
                raise Lost("field %s of %r" % (e, v))
            if isinstance(v, VRef):
                # Box / NonNull internals
                return v
            if v is UNDEF:
                return UNDEF
            if isinstance(v, VSeq) or isinstance(v, Aff):
                raise Lost("field %s of %r" % (e, v))
            raise Lost("field of %r" % (v,))
        if k == "v":
            if isinstance(v, VSym):
                return self.expand(st, v, e[1])
            if isinstance(v, VAgg) and v.var is not None and v.var != e[1]:
                raise Lost("downcast of %r to %s" % (v, e[1]))
            return v
        if k == "e":
            if isinstance(v, VSym):
                v = self.as_seq(st, v)
            if isinstance(v, VSeq):
                return self.seq_get(st, v, e[1])
            raise Lost("index of %r" % (v,))
        if k == "s":
            if isinstance(v, VSym):
                v = self.as_seq(st, v)
            if isinstance(v, VSeq):
                return self.seq_sub(st, v, e[1], e[2])
            raise Lost("slice of %r" % (v,))
        raise Lost("path elem %r" % (e,))

    def as_seq(self, st, v):
        if isinstance(v, VSeq):
            return v
        if isinstance(v, VSym):
            return VSeq(self.find_ty("u8"), [("sym", v.name, ZERO, atom_aff(Atom(v.name + ".len", (), 0, (1 << 63) - 1)))])
        raise Lost("not a sequence: %r" % (v,))

    def seq_get(self, st, v, idx):
        for i, x in v.over:
            if i == idx:
                return x
        alias = []
        for i, x in v.over:
            d = st.decide(eq0(i - idx))
            if d is True:
                return x
            if d is None:
                alias.append(x)
        if alias:
            # may be an overridden element: the fields in which they differ are not known
            el = self.seq_get(st, VSeq(v.elty, v.segs, (), v.ty), idx)
            for x in alias:
                el = self.blend(st, el, x, v.elty, st.fresh("elem?"))
            return el
        off = ZERO
        for s in v.segs:
            ln = K(len(s[1])) if s[0] == "lit" else s[-1]
            inside = st.decide(ge0(off + ln - idx - 1))
            after = st.decide(ge0(idx - off))
            if after is True and inside is True:
                r = idx - off
                if s[0] == "lit":
                    if r.is_const:
                        return s[1][r.c]
                    return self.mk_sym(st, st.fresh("elem?"), v.elty)
                if s[0] == "sym":
                    return self.base_elem(st, s[1], s[2] + r, v.elty)
                if s[0] == "fill":
                    return s[1]
                return self.mk_sym(st, "%s[%r]" % (s[1], r), v.elty)
            if inside is not False:
                if len(v.segs) == 1 and s[0] == "sym":
                    return self.base_elem(st, s[1], s[2] + idx - off, v.elty)
                return self.mk_sym(st, st.fresh("elem?"), v.elty)
            off = off + ln
        return self.mk_sym(st, st.fresh("elem?"), v.elty)

    def base_elem(self, st, name, idx, elty):
        """element of a symbolic sequence; `name~p=tag~...`: the fields at the paths p are unknowns"""
        base, hv = split_hv(name)
        el = self.mk_sym(st, "%s[%r]" % (base, idx), elty)
        for p, tag in hv:
            el = self.put(st, el, p, elty, "%s^%s^%s[%r]" % (base, fmt_hv(p), tag, idx))
        return el

    def put(self, st, v, p, ty, name):
        """v with an unknown at path p"""
        if not p:
            return self.mk_sym(st, name, ty)
        v = self.expand(st, v)
        if not isinstance(v, VAgg) or p[0] >= len(v.f):
            return self.mk_sym(st, name + "?", ty)
        ft = self.field_types(v.ty, v.var)
        f = list(v.f)
        f[p[0]] = self.put(st, f[p[0]], p[1:], ft[p[0]], name)
        return VAgg(v.ty, v.var, f)

    def differing(self, st, x, y, path=()):
        """paths of the parts in which two values of a type may differ"""
        if x is y:
            return []
        try:
            if x == y:
                return []
        except TypeError:
            return [path]
        if isinstance(x, Aff) and isinstance(y, Aff) and st._deq(x - y) is True:
            return []
        x, y = self.expand(st, x), self.expand(st, y)
        if isinstance(x, VAgg) and isinstance(y, VAgg) and x.ty == y.ty and x.var == y.var and x.var is None and len(x.f) == len(y.f) \
                and self.field_types(x.ty, x.var) is not None and len(self.field_types(x.ty, x.var)) == len(x.f):
            r = []
            for i, (a, b) in enumerate(zip(x.f, y.f)):
                r += self.differing(st, a, b, path + (i,))
            return r
        if isinstance(x, VAgg) and isinstance(y, VAgg) and x == y:
            return []
        return [path]

    def blend(self, st, x, y, ty, name):
        for p in self.differing(st, x, y):
            x = self.put(st, x, p, ty, name + fmt_hv(p))
        return x

    def seq_split(self, st, v, at):
        """(prefix of length `at`, rest) or None when the cut cannot be located"""
        pre, off = [], ZERO
        segs = list(v.segs)
        while segs:
            if at == off or st.decide(eq0(at - off)) is True:
                break
            s = segs[0]
            ln = K(len(s[1])) if s[0] == "lit" else s[-1]
            if st.decide(ge0(at - off - ln)) is True:
                pre.append(s)
                off = off + ln
                segs.pop(0)
                continue
            d = at - off
            if len(segs) > 1 and st.decide(ge0(off + ln - at)) is not True:
                return None
            if s[0] == "lit":
                if not d.is_const or d.c < 0 or d.c > len(s[1]):
                    return None
                pre.append(("lit", s[1][:d.c]))
                segs[0] = ("lit", s[1][d.c:])
            elif s[0] == "sym":
                pre.append(("sym", s[1], s[2], d))
                segs[0] = ("sym", s[1], s[2] + d, ln - d)
            elif s[0] == "fill":
                pre.append(("fill", s[1], d))
                segs[0] = ("fill", s[1], ln - d)
            else:
                pre.append(("top", s[1] + "<", d))
                segs[0] = ("top", s[1] + ">", ln - d)
            break
        else:
            if not (at == off or st.decide(eq0(at - off)) is True):
                return None
        return pre, segs

    def seq_sub(self, st, v, start, ln):
        a = self.seq_split(st, v, start)
        total = v.length()
        if ln is None:
            ln = total - start
        if a is None:
            return VSeq(v.elty, [("top", st.fresh("sub"), ln)])
        rest = VSeq(v.elty, a[1])
        over = tuple((i - start, x) for i, x in v.over)
        if start + ln == total:
            return VSeq(v.elty, a[1], over)
        b = self.seq_split(st, rest, ln)
        if b is None:
            return VSeq(v.elty, [("top", st.fresh("sub"), ln)])
        return VSeq(v.elty, b[0], over)

    def seq_splice(self, st, v, start, new):
        """replace [start, start+len(new)) by new"""
        a = self.seq_split(st, v, start)
        if a is None:
            return VSeq(v.elty, [("top", st.fresh("splice"), v.length())], (), v.ty)
        b = self.seq_split(st, VSeq(v.elty, a[1]), new.length())
        if b is None:
            return VSeq(v.elty, [("top", st.fresh("splice"), v.length())], (), v.ty)
        return VSeq(v.elty, list(a[0]) + list(new.segs) + list(b[1]), (), v.ty)

    def write(self, st, root, path, val):
        if self.hooks.wants_writes:
            try:
                old = self.read(st, root, path)
            except Lost:
                old = UNDEF
            self.hooks.on_write(st, root, path, old, val)
        if not path:
            st.store[root] = val
            return
        base = self.root_value(st, root)
        st.store[root] = self._upd(st, base, path, 0, val, root)

    def _upd(self, st, v, path, i, val, root):
        if i == len(path):
            return val
        e = path[i]
        k = e[0]
        if k == "f":
            if isinstance(v, VSym):
                v = self.expand(st, v)
            if v is UNDEF:
                raise Lost("write into undef")
            if isinstance(v, VAgg):
                f = list(v.f)
                f[e[1]] = self._upd(st, f[e[1]], path, i + 1, val, root)
                return VAgg(v.ty, v.var, f)
            raise Lost("field write into %r" % (v,))
        if k == "v":
            if isinstance(v, VSym):
                v = self.expand(st, v, e[1])
            return self._upd(st, v, path, i + 1, val, root)
        if k == "e":
            v = self.as_seq(st, v)
            return self._upd_elem(st, v, e[1], path, i, val, root)
        if k == "s":
            v = self.as_seq(st, v)
            if i + 1 == len(path):
                return self.seq_splice(st, v, e[1], val if isinstance(val, VSeq) else self.as_seq(st, val))
            n = path[i + 1]
            if n[0] == "e":
                return self._upd_elem(st, v, e[1] + n[1], path, i + 1, val, root)
            if n[0] == "s":
                np = path[:i] + (("s", e[1] + n[1], n[2] if n[2] is not None else (None if e[2] is None else e[2] - n[1])),) + path[i + 2:]
                return self._upd(st, v, np, i, val, root)
            raise Lost("write path")
        raise Lost("write path %r" % (e,))

    def _upd_elem(self, st, v, idx, path, i, val, root):
        # literal position?
        if idx.is_const and not v.over:
            off = 0
            segs = list(v.segs)
            for j, s in enumerate(segs):
                if s[0] == "lit":
                    n = len(s[1])
                elif s[0] == "fill" and s[2].is_const and s[2].c <= 4096:
                    n = s[2].c
                    segs[j] = ("lit", (s[1],) * n)
                else:
                    break
                if off <= idx.c < off + n:
                    l = list(segs[j][1])
                    l[idx.c - off] = self._upd(st, l[idx.c - off], path, i + 1, val, root)
                    segs[j] = ("lit", tuple(l))
                    return VSeq(v.elty, segs, (), v.ty)
                off += n
        cur = self.seq_get(st, v, idx)
        new = self._upd(st, cur, path, i + 1, val, root)
        over = []
        for j, x in v.over:
            d = st.decide(eq0(j - idx))
            if d is True:
                continue
            if d is None:
                x = self.blend(st, x, new, v.elty, st.fresh("havoc"))
            over.append((j, x))
        over.append((idx, new))
        return VSeq(v.elty, v.segs, tuple(over), v.ty)

    # ---------------- knowledge about enum discriminants
    def discr(self, st, v):
        if isinstance(v, VSym):
            w = self.expand(st, v)
            if isinstance(w, VSym):
                t = self.p.types[v.ty]
                if t["k"] == "adt" and "variants" in t:
                    ds = [x.get("d", i) for i, x in enumerate(t["variants"])]
                    a = Atom("discr(%s)" % v.name, (), min(ds), max(ds)) if ds else Atom("discr(%s)" % v.name)
                    self.discr_sym[a] = (v.name, v.ty)
                    return atom_aff(a)
                return atom_aff(Atom("discr(%s)" % v.name))
            v = w
        if isinstance(v, VAgg):
            t = self.p.types[v.ty]
            if v.var is None:
                return ZERO
            return K(t["variants"][v.var].get("d", v.var))
        if isinstance(v, Bool):
            raise Lost("discr of bool")
        raise Lost("discr of %r" % (v,))

    def learn_eq(self, st, a):
        if len(a.t) == 1:
            at, k = a.t[0]
            ds = self.discr_sym.get(at)
            if ds and k in (1, -1):
                val = -a.c if k == 1 else a.c
                self.set_variant(st, ds, val)

    def set_variant(self, st, ds, val):
        t = self.p.types[ds[1]]
        for i, v in enumerate(t["variants"]):
            if v.get("d", i) == val:
                if i in st.excl.get(ds[0], ()):
                    st.dead = True
                    return
                cur = st.refine.get(ds[0])
                if cur is not None and cur != i:
                    st.dead = True
                    return
                st.refine[ds[0]] = i
                self.hooks.on_refine(st, ds[0], ds[1], i)
                return
        st.dead = True

    def learn_ne(self, st, a):
        if len(a.t) == 1:
            at, k = a.t[0]
            ds = self.discr_sym.get(at)
            if ds and k in (1, -1):
                val = -a.c if k == 1 else a.c
                t = self.p.types[ds[1]]
                ex = set(st.excl.get(ds[0], ()))
                for i, v in enumerate(t["variants"]):
                    if v.get("d", i) == val:
                        ex.add(i)
                st.excl[ds[0]] = frozenset(ex)
                left = [i for i in range(len(t["variants"])) if i not in ex]
                if not left:
                    st.dead = True
                elif len(left) == 1:
                    st.refine[ds[0]] = left[0]
                    self.hooks.on_refine(st, ds[0], ds[1], left[0])

    def split(self, st, cond):
        """[(state, truth)] for a boolean"""
        d = st.decide(cond)
        if d is not None:
            return [(st, d)]
        out = []
        neg = bnot(cond)
        for b, truth in ((cond, True), (neg, False)):
            # an undecided disjunction is taken apart, so that what it says is not lost
            if b.k == "or" and st.decide(b) is None:
                alts = [b.a[0], band(bnot(b.a[0]), b.a[1])]
            else:
                alts = [b]
            for x in alts:
                s2 = st.copy()
                if s2.assume(x, self) and not s2.dead:
                    out.append((s2, truth))
        return out

    # ---------------- operands, places
    def resolve(self, st, fr, place):
        root, path = ("L", fr, place[0]), ()
        for e in place[1]:
            if e == "*":
                v = self.read(st, root, path)
                if isinstance(v, VRef):
                    root, path = v.root, v.path
                elif isinstance(v, VSym):
                    t = self.p.types[v.ty]
                    root = ("O", v.name + ".*")
                    if root not in self.objty:
                        if t["k"] in ("ref", "ptr"):
                            self.objty[root] = t["el"]
                        else:
                            raise Lost("deref of %r: %s" % (v, t["s"]))
                    path = ()
                elif isinstance(v, VAgg) and len(v.f) >= 1 and isinstance(v.f[0], VRef):
                    root, path = v.f[0].root, v.f[0].path
                else:
                    raise Lost("deref of %r" % (v,))
            elif e == "id":
                pass
            elif e[0] == "f":
                path = path + (("f", e[1], e[2]),)
            elif e[0] == "d":
                path = path + (("v", e[1]),)
            elif e[0] == "i":
                idx = self.read(st, ("L", fr, e[1]), ())
                path = self.sub_index(st, root, path, idx)
            elif e[0] == "ci":
                if e[3]:
                    ln = self.read(st, root, path).length()
                    path = self.sub_index(st, root, path, ln - e[1])
                else:
                    path = self.sub_index(st, root, path, K(e[1]))
            elif e[0] == "ss":
                ln = self.as_seq(st, self.read(st, root, path)).length()
                end = ln - e[2] if e[3] else K(e[2])
                path = path + (("s", K(e[1]), end - e[1]),)
            else:
                raise Lost("projection %r" % (e,))
        return root, path

    def sub_index(self, st, root, path, idx):
        if path and path[-1][0] == "s":
            s = path[-1]
            return path[:-1] + (("e", s[1] + idx),)
        return path + (("e", idx),)

    def norm_path(self, path):
        return path

    def operand(self, st, fr, op):
        if "copy" in op or "move" in op:
            root, path = self.resolve(st, fr, op.get("copy") or op["move"])
            return self.read(st, root, path)
        if "const" in op:
            return self.constant(st, op["const"])
        if "rtcheck" in op:
            return FALSE
        raise Lost("operand %r" % (op,))

    def constant(self, st, c):
        ty = c["t"]
        t = self.p.types[ty]
        k = t["k"]
        if c.get("fn") or k == "fndef":
            return VFn(ty)
        v = c.get("v")
        if v is not None:
            if "int" in v:
                if k == "bool":
                    return bconst(v["int"] != 0)
                if k in ("int", "char"):
                    return K(v["int"])
                if k == "adt" and t.get("akind") == "enum" and "variants" in t:
                    for i, x in enumerate(t["variants"]):
                        if x.get("d", i) == v["int"] and not x["f"]:
                            return VAgg(ty, i, ())
                if k == "adt" and "variants" in t and len(t["variants"]) == 1:
                    fs = t["variants"][0]["f"]
                    ints = [f for f in fs if self.p.types[f["t"]]["k"] == "int"]
                    if len(fs) == 1 and len(ints) == 1:
                        return VAgg(ty, None, [K(v["int"])])
            if "str" in v:
                return VRef(("S", v["str"]), (), t.get("el", ty), False)
            if "bytes" in v:
                root = ("B", tuple(v["bytes"]))
                if root not in st.store:
                    st.store[root] = VSeq(self.find_ty("u8"), [("lit", tuple(K(b) for b in v["bytes"]))])
                return VRef(root, (), t.get("el", ty), False)
            if "zst" in v:
                if k == "tuple":
                    return VAgg(ty, None, ())
                if k == "closure":
                    return VAgg(ty, None, ())
                if k == "adt" and "variants" in t and t["akind"] == "struct" and not t["variants"][0]["f"]:
                    return VAgg(ty, None, ())
            if "raw" in v:
                r = self.from_raw(v["raw"], ty)
                if r is not None:
                    return r
        if c.get("body") is not None:
            outs = self.run(self.p.bodies[c["body"]], [], st.copy(), 50)
            if len(outs) == 1:
                return outs[0].val
        if k == "tuple" and not t["els"]:
            return VAgg(ty, None, ())
        nm = c.get("path") or c.get("cparam") or "const"
        return self.mk_sym(st, "const:%s:%s" % (nm, "" if c.get("path") else t["s"]), ty, ("const", nm, (v or {}).get("int")))

    def from_raw(self, raw, ty):
        t = self.p.types[ty]
        if t["k"] == "int":
            n = int.from_bytes(bytes(raw), "little")
            return K(n)
        if t["k"] == "array" and self.p.types[t["el"]]["k"] == "int":
            w = self.p.types[t["el"]]["bits"] // 8
            vals = [K(int.from_bytes(bytes(raw[i:i + w]), "little")) for i in range(0, len(raw), w)]
            return VSeq(t["el"], [("lit", tuple(vals))], (), ty)
        return None

    # ---------------- arithmetic
    def in_range_fail(self, a, t):
        lo, hi = self.int_range(t)
        return bor(ge0(a - (hi + 1)), ge0(K(lo - 1) - a))

    def op_atom(self, op, args, lo=-INF, hi=INF):
        return atom_aff(Atom(op, tuple(args), lo, hi))

    def wrap(self, st, op, a, t):
        lo, hi = self.int_range(t)
        if st.lower(a) >= lo and st.upper(a) <= hi:
            return a
        if st.decide(ge0(K(hi) - a)) is True and st.decide(ge0(a - lo)) is True:
            return a
        return self.op_atom("wrap_" + op, (a, t["bits"]), lo, hi)

    def mul(self, st, x, y):
        if x.is_const:
            return y.scale(x.c)
        if y.is_const:
            return x.scale(y.c)
        if repr(x) > repr(y):
            x, y = y, x
        lo = 0 if st.lower(x) >= 0 and st.lower(y) >= 0 else -INF
        return self.op_atom("mul", (x, y), lo, INF)

    def binop(self, st, op, x, y, tx, fr=None):
        if isinstance(x, VRef) and isinstance(y, VRef):
            if op == "Eq":
                return TRUE if x == y else lit("ptreq(%r,%r)" % (x, y))
            if op == "Ne":
                return FALSE if x == y else lit("ptreq(%r,%r)" % (x, y), False)
            raise Lost("pointer op " + op)
        if isinstance(x, Bool) and isinstance(y, Bool):
            if op == "BitAnd":
                return band(x, y)
            if op == "BitOr":
                return bor(x, y)
            if op in ("Eq", "Ne", "BitXor"):
                same = None
                if x.k == "c":
                    same = y if x.a else bnot(y)
                elif y.k == "c":
                    same = x if y.a else bnot(x)
                elif x == y:
                    same = TRUE
                else:
                    same = bor(band(x, y), band(bnot(x), bnot(y)))
                return same if op == "Eq" else bnot(same)
            raise Lost("bool op " + op)
        if isinstance(x, Bool):
            x = self.bool_int(x)
        if isinstance(y, Bool):
            y = self.bool_int(y)
        if not (isinstance(x, Aff) and isinstance(y, Aff)):
            if op in ("Eq", "Ne"):
                l = lit("eq(%r,%r)" % (x, y), op == "Eq")
                return l
            raise Lost("binop %s on %r, %r" % (op, x, y))
        t = tx if tx and tx["k"] in ("int", "char") else {"signed": False, "bits": 64, "k": "int"}
        if t["k"] == "char":
            t = {"signed": False, "bits": 32, "k": "int"}
        if op == "Eq":
            return eq0(x - y)
        if op == "Ne":
            return ne0(x - y)
        if op == "Lt":
            return ge0(y - x - 1)
        if op == "Le":
            return ge0(y - x)
        if op == "Gt":
            return ge0(x - y - 1)
        if op == "Ge":
            return ge0(x - y)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = x + y if op[0] == "A" else x - y if op[0] == "S" else self.mul(st, x, y)
            return ("ovf", r, self.in_range_fail(r, t))
        if op in ("AddUnchecked",):
            return x + y
        if op in ("SubUnchecked",):
            return x - y
        if op in ("MulUnchecked",):
            return self.mul(st, x, y)
        if op == "Add":
            return self.wrap(st, "add", x + y, t)
        if op == "Sub":
            return self.wrap(st, "sub", x - y, t)
        if op == "Mul":
            return self.wrap(st, "mul", self.mul(st, x, y), t)
        lo, hi = self.int_range(t)
        if op in ("Div", "Rem"):
            if x.is_const and y.is_const and y.c:
                q = abs(x.c) // abs(y.c)
                if (x.c < 0) != (y.c < 0):
                    q = -q
                return K(q) if op == "Div" else K(x.c - q * y.c)
            if y.is_const and y.c > 0 and st.lower(x) >= 0:
                u = st.upper(x)
                if op == "Div":
                    return self.op_atom("div", (x, y), 0, (u // y.c) if u != INF else INF)
                return self.op_atom("rem", (x, y), 0, y.c - 1)
            return self.op_atom(op.lower(), (x, y), lo, hi)
        if op in ("Shl", "ShlUnchecked"):
            if x.is_const and y.is_const:
                return K(self.to_width((x.c << y.c), t))
            if y.is_const and st.lower(x) >= 0 and st.upper(x) != INF and (int(st.upper(x)) << y.c) <= hi:
                return x.scale(1 << y.c)
            return self.op_atom("shl", (x, y, t["bits"]), lo, hi)
        if op in ("Shr", "ShrUnchecked"):
            if x.is_const and y.is_const:
                return K(x.c >> y.c)
            if y.is_const and st.lower(x) >= 0:
                u = st.upper(x)
                return self.op_atom("div", (x, K(1 << y.c)), 0, (int(u) >> y.c) if u != INF else INF)
            return self.op_atom("shr", (x, y), lo, hi)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if x.is_const and y.is_const:
                return K(x.c & y.c if op == "BitAnd" else x.c | y.c if op == "BitOr" else x.c ^ y.c)
            if x.is_const:
                x, y = y, x
            nm = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op]
            if not y.is_const and repr(x) > repr(y):
                x, y = y, x
            if lo == 0:
                ux, uy = st.upper(x), st.upper(y)
                if nm == "and":
                    if y.is_const and ux != INF and (y.c & (y.c + 1)) == 0 and ux <= y.c:
                        return x
                    return self.op_atom(nm, (x, y), 0, min(ux, uy))
                if y == ZERO:
                    return x
                if ux != INF and uy != INF:
                    m = (1 << max(int(ux).bit_length(), int(uy).bit_length())) - 1
                    return self.op_atom(nm, (x, y), 0, m)
            return self.op_atom(nm, (x, y), lo, hi)
        if op == "Cmp":
            return self.cmp_value(st, x, y)
        raise Lost("binop " + op)

    def cmp_value(self, st, x, y):
        oty = self.find_ty("std::cmp::Ordering")
        if oty is None:
            raise Lost("Ordering type not in the dump")
        d = x - y
        if d.is_const:
            c = d.c
            return VAgg(oty, 0 if c < 0 else 1 if c == 0 else 2, ())
        nm = "cmp(%r)" % (d,)
        a = Atom("discr(%s)" % nm, (), -1, 1)
        self.discr_sym[a] = (nm, oty)
        self.cmp_syms = getattr(self, "cmp_syms", {})
        self.cmp_syms[nm] = d
        return VSym(nm, oty)

    def to_width(self, n, t):
        n &= (1 << t["bits"]) - 1
        if t["signed"] and n >> (t["bits"] - 1):
            n -= 1 << t["bits"]
        return n

    def bool_int(self, b):
        if b.k == "c":
            return K(1 if b.a else 0)
        return atom_aff(Atom("int(%r)" % b, (), 0, 1))

    def cast_int(self, st, v, tf, tt):
        if isinstance(v, Bool):
            v = self.bool_int(v)
        if not isinstance(v, Aff):
            raise Lost("int cast of %r" % (v,))
        if tt["k"] == "char":
            return v
        lo, hi = self.int_range(tt)
        if v.is_const:
            return K(self.to_width(v.c, tt))
        if st.lower(v) >= lo and st.upper(v) <= hi:
            return v
        if st.decide(ge0(K(hi) - v)) is True and st.decide(ge0(v - lo)) is True:
            return v
        if tf and tf["k"] == "int" and self.int_range(tf)[0] >= lo and self.int_range(tf)[1] <= hi:
            return v
        return self.op_atom("trunc", (v, tt["bits"], tt["signed"]), lo, hi)

    # ---------------- rvalues
    def optype(self, body, op, fr=None):
        if "const" in op:
            return self.p.types[op["const"]["t"]]
        pl = op.get("copy") or op.get("move")
        if pl is None:
            return None
        return self.place_ty(body, pl)

    def place_tyid(self, body, pl):
        ty = body["locals"][pl[0]]
        for e in pl[1]:
            t = self.p.types[ty]
            if e == "*":
                if t["k"] in ("ref", "ptr"):
                    ty = t["el"]
                elif t["k"] == "adt" and t["args"]:
                    ty = t["args"][0]
                else:
                    return None
            elif e == "id":
                continue
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = t.get("el")
            elif e[0] == "d":
                pass
            elif e[0] == "ss":
                pass
            if ty is None:
                return None
        return ty

    def place_ty(self, body, pl):
        i = self.place_tyid(body, pl)
        return None if i is None else self.p.types[i]

    def rvalue(self, st, fr, body, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            root, path = self.resolve(st, fr, r[1])
            tid = self.place_tyid(body, r[1])
            return VRef(root, path, tid, r[2] in ("mut", "raw"))
        if k == "bin":
            x = self.operand(st, fr, r[2])
            y = self.operand(st, fr, r[3])
            tx = self.optype(body, r[2])
            v = self.binop(st, r[1], x, y, tx)
            if isinstance(v, tuple) and v[0] == "ovf":
                tid = self.place_tyid(body, dest)
                return VAgg(tid, None, (v[1], v[2]))
            return v
        if k == "un":
            x = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(x, Bool):
                    return bnot(x)
                t = self.optype(body, r[2])
                lo, hi = self.int_range(t)
                if not t["signed"]:
                    return K(hi) - x
                return -x - 1
            if r[1] == "Neg":
                if isinstance(x, Aff):
                    return -x
                raise Lost("neg")
            if r[1] == "PtrMetadata":
                if isinstance(x, VRef):
                    return self.as_seq(st, self.read(st, x.root, x.path)).length()
                raise Lost("metadata of %r" % (x,))
            raise Lost("unop " + r[1])
        if k == "discr":
            root, path = self.resolve(st, fr, r[1])
            return self.discr(st, self.read(st, root, path))
        if k == "agg":
            vals = [self.operand(st, fr, o) for o in r[2]]
            kind = r[1]
            tid = self.place_tyid(body, dest)
            if kind[0] == "tuple":
                return VAgg(tid, None, vals)
            if kind[0] == "array":
                return VSeq(self.p.types[tid]["el"], [("lit", tuple(vals))], (), tid)
            if kind[0] == "adt":
                t = self.p.types[kind[1]]
                return VAgg(kind[1], kind[2] if t["akind"] == "enum" else None, vals)
            if kind[0] in ("closure", "coroutine"):
                return VAgg(kind[1], None, vals)
            if kind[0] == "rawptr":
                return vals[0]
            raise Lost("aggregate %r" % (kind,))
        if k == "cast":
            v = self.operand(st, fr, r[2])
            tt = self.p.types[r[3]]
            ck = r[1]
            if ck in ("IntToInt",):
                return self.cast_int(st, v, self.optype(body, r[2]), tt)
            if ck.startswith("PointerCoercion") or ck in ("PtrToPtr", "Subtype"):
                if isinstance(v, VRef):
                    return VRef(v.root, v.path, tt.get("el", v.ty), v.mut)
                return v
            if ck == "Transmute":
                if self.optype(body, r[2]) is tt:
                    return v
                if isinstance(v, VRef):
                    return v
                if tt["k"] == "int" and isinstance(v, Aff):
                    return self.cast_int(st, v, None, tt)
            return self.mk_sym(st, st.fresh("cast"), r[3])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            tid = self.place_tyid(body, dest)
            n = r[2]
            if n is None:
                return self.mk_sym(st, st.fresh("repeat"), tid)
            if n <= 256:
                return VSeq(self.p.types[tid]["el"], [("lit", (v,) * n)], (), tid)
            return VSeq(self.p.types[tid]["el"], [("fill", v, K(n))], (), tid)
        raise Lost("rvalue %r" % (k,))

    # ---------------- control flow
    def cfg(self, body):
        c = self.cfg_cache.get(body["id"])
        if c is not None:
            return c
        blocks = body["blocks"]
        succ = []
        for b in blocks:
            t = b["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            elif k == "yield":
                s = [t[1]]
            else:
                s = []
            succ.append(s)
        # Loop heads are the targets of back edges.  The edge out of a suspension point is not followed
        # when looking for them: a future that completes at once must not join the states of separate
        # rounds of an enclosing loop.  What resumes after a suspension is joined where it resumes, so
        # every cycle still passes a join.
        def dfs(roots, edges):
            heads, color, post = set(), {}, []
            for r0 in roots:
                if r0 in color:
                    continue
                stack = [(r0, iter(edges[r0]))]
                color[r0] = 1
                while stack:
                    n, it = stack[-1]
                    for m in it:
                        if color.get(m) is None:
                            color[m] = 1
                            stack.append((m, iter(edges[m])))
                            break
                        elif color[m] == 1:
                            heads.add(m)
                    else:
                        color[n] = 2
                        post.append(n)
                        stack.pop()
            return heads, post
        _, post = dfs([0], succ)
        resumes = [b["t"][1] for b in blocks if b["t"][0] == "yield"]
        cut = [[] if b["t"][0] == "yield" else s for b, s in zip(blocks, succ)]
        heads, _ = dfs([0] + resumes, cut)
        rpo = {n: len(post) - i for i, n in enumerate(post)}
        # liveness of locals (backward), address-taken locals are always live
        use = []
        addr = set()

        def pl_uses(p, s):
            s.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    s.add(e[1])

        def op_uses(o, s):
            if isinstance(o, dict):
                p = o.get("copy") or o.get("move")
                if p:
                    pl_uses(p, s)
        gens, kills = [], []
        for b in blocks:
            g, kl = set(), set()

            def u(ps):
                for x in ps:
                    if x not in kl:
                        g.add(x)
            for s in b["s"]:
                if s[0] == "=":
                    us = set()
                    r = s[2]
                    if r[0] == "ref":
                        pl_uses(r[1], us)
                        if "*" not in r[1][1]:
                            addr.add(r[1][0])
                    elif r[0] == "discr":
                        pl_uses(r[1], us)
                    else:
                        for x in r[1:]:
                            if isinstance(x, dict):
                                op_uses(x, us)
                            elif isinstance(x, list):
                                for y in x:
                                    op_uses(y, us)
                    if s[1][1]:
                        pl_uses(s[1], us)
                    u(us)
                    if not s[1][1]:
                        kl.add(s[1][0])
                elif s[0] == "setd":
                    us = set()
                    pl_uses(s[1], us)
                    u(us)
                elif s[0] == "dead":
                    kl.add(s[1])
            t = b["t"]
            us = set()
            if t[0] in ("switch", "assert"):
                op_uses(t[1], us)
            elif t[0] == "call":
                for a in t[2]:
                    op_uses(a, us)
                if "indirect" in t[1]:
                    op_uses(t[1]["indirect"], us)
                if t[3][1]:
                    pl_uses(t[3], us)
            elif t[0] == "return":
                us.add(0)
            u(us)
            if t[0] == "call" and not t[3][1]:
                pass
            gens.append(g)
            kills.append(kl)
        live = [set() for _ in blocks]
        ch = True
        while ch:
            ch = False
            for i in range(len(blocks) - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                t = blocks[i]["t"]
                if t[0] == "call" and not t[3][1]:
                    o = o - {t[3][0]}
                n = gens[i] | (o - kills[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        c = (rpo, heads, live, addr)
        self.cfg_cache[body["id"]] = c
        return c

    def run(self, body, args, st, depth, more=()):
        """Analyse a function body from the given state: list of Outcomes (normal returns)."""
        if depth > MAXDEPTH:
            raise Lost("call depth")
        self.visited.add(body["id"])
        fr = depth
        # clear leftovers of an earlier frame at this depth
        for r in [r for r in st.store if r[0] == "L" and r[1] >= fr]:
            del st.store[r]
        argc = body["argc"]
        if len(args) != argc:
            # closure call convention: spread a trailing tuple
            if len(args) == 2 and isinstance(args[1], VAgg) and args[1].var is None and len(args[1].f) == argc - 1:
                args = [args[0]] + list(args[1].f)
            elif len(args) != argc:
                raise Lost("arity of %s: %d vs %d" % (body["path"], len(args), argc))
        starts = [st] + list(more)
        gen0 = st.gen
        for x in starts:
            for i, a in enumerate(args):
                x.store[("L", fr, i + 1)] = a
            x.stack = x.stack + ((body["path"]),)
            x.gen = ()
        rpo, heads, live, addr = self.cfg(body)
        outs = []
        hd = {}
        work = [(0, x) for x in starts]
        dirty = {}
        arrival = 0
        while work or dirty:
            if not work:
                # every path up to the next loop head is explored before a changed head is visited:
                # innermost loop first, then in order of arrival
                k = max(dirty, key=lambda k: (rpo[dirty[k][0]], -dirty[k][2]))
                bb, s, _ = dirty.pop(k)
                s = self.hooks.at_loop_head(s, body, bb) or s
            else:
                bb, s = work.pop()
                if s.dead or self.stale(s):
                    continue
                if bb in heads or s.resumed:
                    s.resumed = False
                    # forget dead locals of this frame
                    for r in [r for r in s.store if r[0] == "L" and r[1] == fr and r[2] not in live[bb] and r[2] not in addr]:
                        del s.store[r]
                    s = self.hooks.pre_loop_head(s, body, bb) or s
                    if s.dead:
                        continue
                    info, ns = self.at_head(body, bb, s, hd, fr, live[bb] | addr)
                    if ns is not None:
                        arrival += 1
                        old = dirty.get(id(info))
                        dirty[id(info)] = (bb, ns, old[2] if old else arrival)
                    continue
            try:
                if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
                    raise Lost("time budget of the analysis used up")
                nxt = self.block(body, bb, s, fr, depth)
            except Lost as e:
                self.lost.append((body["path"], bb, str(e), s.stack))
                self.hooks.on_lost(s, body, bb, e)
                continue
            for x in nxt:
                if x[0] == "ret":
                    self.paths += 1
                    s2, v = x[1], x[2]
                    for r in [r for r in s2.store if r[0] == "L" and r[1] >= fr]:
                        del s2.store[r]
                    s2.stack = s2.stack[:-1]
                    outs.append(Outcome(s2, v))
                else:
                    work.append((x[1], x[2]))
        outs = [o for o in outs if not self.stale(o.st)]
        for o in outs:
            o.st.gen = gen0
        if len(outs) > 1:
            outs = self.merge_outcomes(outs)
        return outs

    def stale(self, s):
        """descends from a loop-head state that has been generalised since"""
        return any(h.rounds != r for h, r in s.gen)

    def merge_outcomes(self, outs):
        """Drop outcomes identical in value, store and knowledge (the domain's equality join)."""
        seen = {}
        res = []
        for o in outs:
            key = (hash_val(o.val), frozenset((k, v) for k, v in o.st.store.items() if v is not UNDEF), o.st.ge, o.st.ne,
                   frozenset(o.st.lits.items()), frozenset(o.st.refine.items()), o.st.n)
            if key in seen:
                continue
            seen[key] = o
            res.append(o)
        return res

    def block(self, body, bb, st, fr, depth):
        b = body["blocks"][bb]
        for s in b["s"]:
            self.steps += 1
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, body, s[2], s[1])
                root, path = self.resolve(st, fr, s[1])
                if not path and root[0] == "L":
                    st.store[root] = v
                    continue
                if path and root[0] == "L" and root not in st.store:
                    # piecewise initialisation of an aggregate local
                    ty = body["locals"][s[1][0]]
                    st.store[root] = self.undef_fields(ty, None)
                self.write(st, root, path, v)
            elif k == "dead":
                st.store.pop(("L", fr, s[1]), None)
            elif k == "setd":
                root, path = self.resolve(st, fr, s[1])
                v = self.read(st, root, path)
                ty = self.place_tyid(body, s[1])
                f = v.f if isinstance(v, VAgg) else [UNDEF] * len(self.field_types(ty, s[2]) or [])
                self.write(st, root, path, VAgg(ty, s[2], f))
        if self.steps > self.max_steps:
            raise PathLimit("step budget")
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [("go", t[1], st)]
        if k == "return":
            v = st.store.get(("L", fr, 0))
            if v is None:
                v = self.unit(body["locals"][0])
            return [("ret", st, v)]
        if k == "drop":
            self.do_drop(st, fr, body, t)
            return [("go", t[2], st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            return self.switch(st, v, t, b["sp"])
        if k == "assert":
            c = self.operand(st, fr, t[1])
            want = c if t[2] else bnot(c)
            d = st.decide(want)
            self.hooks.on_assert(st, body, t[3], t[5], want, d)
            if d is False:
                self.hooks.on_panic(st, body, "assert:" + t[3], t[5])
                return []
            if d is None:
                s2 = st.copy()
                if s2.assume(bnot(want), self) and not s2.dead:
                    self.hooks.on_panic(s2, body, "assert:" + t[3], t[5])
                if not st.assume(want, self):
                    return []
            return [("go", t[4], st)]
        if k == "call":
            return self.do_call(body, bb, st, fr, depth, t)
        if k == "yield":
            # suspension point of an async body: resumed later with nothing changed
            root, path = self.resolve(st, fr, t[2])
            ty = self.place_tyid(body, t[2])
            self.hooks.on_yield(st, body, b["sp"])
            self.write(st, root, path, self.mk_sym(st, st.fresh("resume"), ty))
            st.resumed = True
            return [("go", t[1], st)]
        if k in ("unreachable", "unwind", "unsupported"):
            return []
        raise Lost("terminator " + k)

    def unit(self, ty):
        return VAgg(ty, None, ())

    def do_drop(self, st, fr, body, t):
        if self.hooks.wants_drops:
            try:
                root, path = self.resolve(st, fr, t[1])
                v = self.read(st, root, path)
                self.hooks.on_drop(st, body, root, path, v)
            except Lost:
                pass

    def switch(self, st, v, t, span):
        out = []
        if isinstance(v, Bool):
            m = dict((x[0], x[1]) for x in t[2])
            for s2, truth in self.split(st, v):
                if len(s2.trail) < 200:
                    s2.trail = s2.trail + ((span, repr(v)[:160], truth),) if s2.decide(v) is not None and v.k != "c" else s2.trail
                out.append(("go", m.get(1 if truth else 0, t[3]), s2))
            return out
        if isinstance(v, Aff):
            cur = st
            for val, tgt in t[2]:
                val = self.signed_switch(val, t[4])
                s2 = cur.copy()
                c = eq0(v - val)
                if s2.assume(c, self) and not s2.dead:
                    self.cmp_learn(s2, v, val)
                    if not s2.dead:
                        if not v.is_const:
                            s2.trail = s2.trail + ((span, "%r == %s" % (v, val), True),)
                        out.append(("go", tgt, s2))
                cur = cur.copy()
                if not cur.assume(bnot(c), self) or cur.dead:
                    return out
            self.cmp_learn(cur, v, None)
            if not cur.dead:
                out.append(("go", t[3], cur))
            return out
        raise Lost("switch on %r" % (v,))

    def cmp_learn(self, st, v, val):
        """an Ordering value was resolved: learn the comparison it stands for"""
        if not v.t or len(v.t) != 1:
            return
        ds = self.discr_sym.get(v.t[0][0])
        if not ds or ds[0] not in getattr(self, "cmp_syms", {}):
            return
        r = st.refine.get(ds[0])
        if r is None:
            return
        d = self.cmp_syms[ds[0]]
        c = ge0(-d - 1) if r == 0 else eq0(d) if r == 1 else ge0(d - 1)
        if not st.assume(c, self):
            st.dead = True

    def signed_switch(self, val, tid):
        t = self.p.types[tid]
        if t["k"] == "int" and t["signed"] and val >> (t["bits"] - 1):
            return val - (1 << t["bits"])
        return val

    # ---------------- calls
    def do_call(self, body, bb, st, fr, depth, t):
        c = Call()
        c.callee = t[1]
        c.args = [self.operand(st, fr, a) for a in t[2]]
        c.argtys = t[6]
        c.span = t[5]
        c.depth = depth + 1
        c.fn = body
        c.site = "%s:%d" % (body["path"].split("::")[-1], bb)
        c.ret = self.place_tyid(body, t[3])
        if c.ret is None:
            c.ret = t[1].get("ret")
        if "indirect" in t[1]:
            c.path = c.rpath = c.name = "<indirect>"
            c.body = None
            f = self.operand(st, fr, t[1]["indirect"])
            outs = self.call_value(st, c, f, c.args)
        else:
            c.path = t[1]["path"]
            c.rpath = t[1].get("rpath") or c.path
            c.name = t[1]["name"]
            c.body = t[1].get("body")
            outs = self.call(st, c)
        res = []
        if t[4] is None:
            return res
        for s2, v in outs:
            if s2 is None or s2.dead:
                continue
            root, path = self.resolve(s2, fr, t[3])
            if not path and root[0] == "L":
                s2.store[root] = v
            else:
                self.write(s2, root, path, v)
            res.append(("go", t[4], s2))
        return res

    def call(self, st, c):
        self.calls_seen[c.rpath] = self.calls_seen.get(c.rpath, 0) + 1
        h = self.hooks.on_call(st, c)
        if h is not None:
            return h
        mk = (c.rpath, c.path, c.body)
        if mk in self.mcache:
            m = self.mcache[mk]
        else:
            m = self.mcache[mk] = self.find_model(c)
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
        if "ctor" in c.callee:
            t = self.p.types[c.callee["ctor"]]
            at = c.ret
            ak = self.p.types[at].get("akind")
            return [(st, VAgg(at, t["variant"] if ak == "enum" else None, c.args))]
        if c.body is not None:
            b = self.p.bodies[c.body]
            if b["local"] and b["argc"] == 2 and self.p.types[b["locals"][1]]["k"] == "coroutine":
                from .models import pin_ref
                r = pin_ref(self, st, c.args[0])
                return self.run_coroutine(st, c, self.read(st, r.root, r.path), c.body)
            if b["local"] or INLINE_FOREIGN.search(c.rpath) or INLINE_FOREIGN.search(c.path) or b["krate"] == "packed_struct":
                if c.depth < MAXDEPTH - 2 and sum(1 for x in st.stack if x == b["path"]) < 4:
                    args = c.args
                    if len(args) == 2 and FNCALL.search(c.path) and isinstance(args[1], VAgg) and args[1].var is None and "{closure#" in b["path"]:
                        args = [args[0]] + list(args[1].f)   # the arguments of a closure come as a tuple
                    return [(o.st, o.val) for o in self.run(b, args, st, c.depth)]
        return self.extern(st, c)

    def find_model(self, c):
        m = self.models.get(c.rpath) or self.models.get(c.path)
        if m is None and (c.body is None or not self.p.bodies[c.body]["local"]):
            for rx, fn in self.rx:
                if rx.search(c.rpath):
                    return fn
            if c.path != c.rpath and (c.body is None or not INLINE_FOREIGN.search(c.rpath)):
                for rx, fn in self.rx:
                    if rx.search(c.path):
                        return fn
        return m

    def run_coroutine(self, st, c, cor, body):
        """An awaited local async body, run to completion (suspension points change nothing)."""
        b = self.p.bodies[body]
        resume = self.mk_sym(st, st.fresh("resume"), b["locals"][2])
        return [(o.st, VAgg(c.ret, 0, (o.val,))) for o in self.run(b, [cor, resume], st, c.depth)]

    def extern(self, st, c, note=True):
        """A function we know nothing about: may change whatever it reaches through mutable references."""
        if c.callee.get("path", "").startswith("core::panicking") or (c.ret is not None and self.p.types[c.ret]["k"] == "never"):
            self.hooks.on_panic(st, c.fn, "call:" + c.rpath, c.span)
            return []
        if note:
            self.unmodelled[c.rpath] = self.unmodelled.get(c.rpath, 0) + 1
        self.hooks.on_extern(st, c)
        for a in c.args:
            self.havoc(st, a, c.site)
        return [(st, self.mk_sym(st, st.fresh(c.site + ":" + c.name), c.ret, ("call", c.rpath, tuple(c.args))))]

    def havoc(self, st, v, site, seen=None):
        seen = seen if seen is not None else set()
        if isinstance(v, VRef):
            if v.mut and (v.root, v.path) not in seen:
                seen.add((v.root, v.path))
                try:
                    cur = self.read(st, v.root, v.path)
                except Lost:
                    return
                ty = self.val_ty(cur, v.ty)
                if isinstance(cur, VSeq):
                    self.write(st, v.root, v.path, VSeq(cur.elty, [("top", st.fresh("havoc"), self.mk_len(st))], (), cur.ty) if not (v.path and v.path[-1][0] == "s") else VSeq(cur.elty, [("top", st.fresh("havoc"), cur.length())], (), cur.ty))
                elif ty is not None:
                    self.havoc(st, cur, site, seen)
                    self.write(st, v.root, v.path, self.mk_sym(st, st.fresh("havoc:" + site), ty))
        elif isinstance(v, VAgg):
            for x in v.f:
                self.havoc(st, x, site, seen)

    def mk_len(self, st):
        return atom_aff(Atom(st.fresh("len"), (), 0, (1 << 63) - 1))

    def val_ty(self, v, default):
        if isinstance(v, (VAgg, VSym)):
            return v.ty
        return default

    def call_value(self, st, c, f, args):
        """Call a closure / function value with a list of arguments."""
        if isinstance(f, VRef):
            inner = self.read(st, f.root, f.path)
            if isinstance(inner, (VAgg, VFn, VRef)):
                t = self.p.types[inner.ty] if not isinstance(inner, VRef) else None
                if isinstance(inner, VAgg) and t["k"] == "closure":
                    return self._call_closure(st, c, inner, f, args)
                return self.call_value(st, c, inner, args)
            return self._call_unknown(st, c, inner, args)
        if isinstance(f, VFn):
            t = self.p.types[f.ty]
            c2 = Call()
            c2.callee = {"path": t["path"], "rpath": t.get("rpath", t["path"]), "name": t["path"].split("::")[-1], "targs": []}
            if t.get("ctor"):
                at = c.ret
                ak = self.p.types[at].get("akind")
                if self.p.types[at].get("path") == t["adt"]:
                    return [(st, VAgg(at, t["variant"] if ak == "enum" else None, args))]
                for i, x in enumerate(self.p.types):
                    if x["k"] == "adt" and x["path"] == t["adt"] and x.get("akind"):
                        return [(st, VAgg(i, t["variant"] if x["akind"] == "enum" else None, args))]
                raise Lost("ctor " + t["s"])
            c2.path, c2.rpath, c2.name = t["path"], t.get("rpath", t["path"]), c2.callee["name"]
            c2.body = t.get("body")
            c2.args = list(args)
            c2.argtys = []
            c2.ret = c.ret
            if c2.body is not None:
                c2.ret = self.p.bodies[c2.body]["locals"][0]
            c2.span, c2.depth, c2.fn, c2.site = c.span, c.depth + 1, c.fn, c.site
            return self.call(st, c2)
        if isinstance(f, VAgg) and self.p.types[f.ty]["k"] == "closure":
            return self._call_closure(st, c, f, None, args)
        return self._call_unknown(st, c, f, args)

    def _call_closure(self, st, c, clo, ref, args):
        t = self.p.types[clo.ty]
        if t.get("body") is None:
            return self._call_unknown(st, c, clo, args)
        b = self.p.bodies[t["body"]]
        self_t = self.p.types[b["locals"][1]]
        if self_t["k"] == "ref":
            if ref is None:
                root = ("K", st.fresh("clo"))
                st.store[root] = clo
                ref = VRef(root, (), clo.ty, True)
            a0 = ref
        else:
            a0 = clo
        return [(o.st, o.val) for o in self.run(b, [a0] + list(args), st, c.depth + 1)]

    def _call_unknown(self, st, c, f, args):
        self.hooks.on_unknown_call(st, c, f, args)
        for a in args:
            self.havoc(st, a, c.site)
        return [(st, self.mk_sym(st, st.fresh(c.site + ":dyn"), c.ret, ("dyn", repr(f), tuple(args))))]

    # ---------------- loop heads
    def partition_key(self, st, fr, live):
        key = []
        for root in sorted(st.store, key=repr):
            if root[0] == "L" and root[1] == fr and root[2] not in live:
                continue
            if root[0] in ("S", "B"):
                continue
            self._vkey(st, st.store[root], (root,), key, 0)
        for n, v in self.hooks.extra_key(st):
            key.append(((("G", "key", n),), v))
        return tuple(key)

    def _vkey(self, st, v, where, key, d):
        if isinstance(v, VSym):
            v = self.expand(st, v) if self.p.types[v.ty].get("akind") == "enum" else v
        if isinstance(v, VAgg):
            if v.var is not None:
                key.append((where, v.var))
            for i, x in enumerate(v.f):
                if isinstance(x, (VAgg, VSym, Bool)) and d < 8:
                    self._vkey(st, x, where + (i,), key, d + 1)
        elif isinstance(v, Bool) and where[0][0] == "G":
            d = st.decide(v)
            key.append((where, d))
        elif isinstance(v, Bool):
            dd = st.decide(v)
            if dd is not None:
                key.append((where, dd))

    def at_head(self, body, bb, s, hd, fr, live):
        key = self.partition_key(s, fr, live)
        info = self.find_head(hd.setdefault(bb, []), key)
        if info is None:
            h = self.new_head(key, s)
            hd[bb].append(h)
            s.gen = ((h, 0),)
            return h, s
        changed, h = info.absorb(self, s, (body["path"], bb, fr))
        if not changed:
            return info, None
        self.heads_info[(body["path"], bb)] = self.heads_info.get((body["path"], bb), 0) + 1
        if info.rounds > 300:
            raise PathLimit("loop head does not stabilise in %s bb%d" % (body["path"], bb))
        h = h.copy()
        h.gen = ((info, info.rounds),)
        return info, h

    def new_head(self, key, s):
        self.nheads = getattr(self, "nheads", 0) + 1
        h = HeadInfo(s.copy())
        h.key = dict(key)
        h.uid = self.nheads
        h.templ = {n for n, b in self.hooks.templates(s).items() if s.decide(b) is True}
        return h

    def find_head(self, heads, key):
        """A join point that is at least as general as the key: it knows nothing about a variant the
        arriving state knows, or the same."""
        k = dict(key)
        for h in heads:
            if all(k.get(w) == v for w, v in h.key.items()) and \
                    all(w in h.key for w in k if w[0][0] == "G"):
                return h
        return None


def split_hv(name):
    p = name.split("~")
    return p[0], [(tuple(int(i) for i in x.split("=")[0].split(".") if i), x.split("=")[1]) for x in p[1:]]


def fmt_hv(p):
    return ".".join(str(i) for i in p)


def add_hv(name, paths, tag):
    base, hv = split_hv(name)
    d = dict(hv)
    for p in paths:
        d[p] = tag
    # a path below another one is covered by it
    d = {p: t for p, t in d.items() if not any(q != p and p[:len(q)] == q for q in d)}
    return base + "".join("~%s=%s" % (fmt_hv(p), t) for p, t in sorted(d.items()))


def hash_val(v):
    try:
        return hash(v), repr(v)
    except TypeError:
        return repr(v)


class HeadInfo:
    """Join of the states reaching one loop head with one partition key: the affine hull (over the
    integers) of the numeric locations, unknowns for what does not fit, facts that hold in all."""

    def __init__(self, e):
        self.E = e
        self.idx = {}     # leaf -> number
        self.order = []   # number -> leaf
        self.taint = set()   # leaves that moved by an amount known only approximately
        self.basis = {}   # pivot number -> {number: int}: displacement lattice in echelon form
        self.opaque = {}  # leaf -> True: replaced by an unknown
        self.mono = {}    # leaf -> (never below entry, never above entry)
        self.ge = e.ge
        self.ne = e.ne
        self.lits = dict(e.lits)
        self.bnd = dict(e.bnd)
        self.refine = dict(e.refine)
        self.excl = dict(e.excl)
        self.roots = set(e.store)
        self.rounds = 0
        self.H = e

    def insert(self, v):
        """add a displacement vector; True if the lattice grew"""
        grew = False
        basis = self.basis
        v = {k: x for k, x in v.items() if x}
        while v:
            p = min(v)
            b = basis.get(p)
            if b is None:
                basis[p] = v
                return True
            if v[p] % b[p] == 0:
                q = v[p] // b[p]
                v = lin(1, v, -q, b)
                continue
            g, x, y = egcd(b[p], v[p])
            nb = lin(x, b, y, v)
            v = lin(v[p] // g, b, -(b[p] // g), v)
            basis[p] = nb
            grew = True
        return grew

    def absorb(self, eng, s, where):
        diffs = {}
        newop = set()
        for root in [x for x in self.E.store if x in self.roots]:
            if root not in s.store:
                if root[0] in ("O", "S", "B"):
                    eng.root_value(s, root)
                if root not in s.store:
                    self.roots.discard(root)
                    continue
            self.walk(eng, s, self.E.store[root], s.store[root], (root,), diffs, newop)
        changed = False
        vecs = {}
        for leaf, d in diffs.items():
            n = self.idx.get(leaf)
            if n is None:
                if d == ZERO:
                    continue
                n = self.idx[leaf] = len(self.order)
                self.order.append(leaf)
            if leaf not in self.taint and d.t and not exact_val(d):
                self.taint.add(leaf)
                changed = True
            if d.c:
                vecs.setdefault(None, {})[n] = d.c
            for a, k in d.t:
                vecs.setdefault(a, {})[n] = k
        for v in vecs.values():
            if self.insert(v):
                changed = True
        for leaf, d in diffs.items():
            if leaf not in self.idx:
                continue
            lo, hi = self.mono.get(leaf, (True, True))
            if d != ZERO:
                if lo and not s._pos(d):
                    lo = False
                if hi and not s._pos(-d):
                    hi = False
            if self.mono.get(leaf) != (lo, hi):
                self.mono[leaf] = (lo, hi)
                changed = True
        for o in newop:
            if o not in self.opaque:
                self.opaque[o] = True
                changed = True
        nr = len(self.roots)
        if nr != getattr(self, "nroots", len(self.E.store)):
            changed = True
        self.nroots = nr
        ge = frozenset(a for a in self.ge if a in s.ge or s._pos(a))
        ne = frozenset(a for a in self.ne if a in s.ne or s._deq(a) is False)
        lits = {k: v for k, v in self.lits.items() if s.lits.get(k) == v}
        refine = {k: v for k, v in self.refine.items() if s.refine.get(k) == v}
        excl = {k: v & s.excl.get(k, frozenset()) for k, v in self.excl.items() if k in s.excl or k in s.refine}
        bnd = {}
        for k, (lo, hi) in self.bnd.items():
            b = s.bnd.get(k)
            if b:
                # widening: a bound that moves is dropped
                x = (lo if b[0] >= lo else -INF, hi if b[1] <= hi else INF)
                if x != (-INF, INF):
                    bnd[k] = x
        tv = eng.hooks.templates(s) if self.templ else {}
        templ = {n for n in self.templ if n in tv and s.decide(tv[n]) is True}
        if templ != self.templ:
            changed = True
            self.templ = templ
        if (ge, ne, lits, refine, bnd) != (self.ge, self.ne, self.lits, self.refine, self.bnd):
            changed = True
        if DEBUG and changed and self.rounds > 30:
            print("ROUND", self.rounds, where, "newop", newop, "roots", nr, "ge-", self.ge - ge, "ne-", self.ne - ne)
        self.ge, self.ne, self.lits, self.refine, self.excl, self.bnd = ge, ne, lits, refine, excl, bnd
        if not changed:
            return False, None
        self.rounds += 1
        self.H = self.build(eng, where)
        return True, self.H

    def walk(self, eng, s, e, v, leaf, diffs, newop):
        if e is v:
            return
        if isinstance(e, Aff) and isinstance(v, Aff):
            d = v - e
            if d != ZERO and s._deq(d) is True:
                d = ZERO
            diffs[leaf] = d
            return
        if isinstance(e, VSeq) and isinstance(v, VSeq):
            if e == v:
                return
            self.walk(eng, s, e.length(), v.length(), leaf + ("len",), diffs, newop)
            if leaf in self.opaque:
                return
            if len(e.segs) == len(v.segs) and all(a[0] == b[0] and (a[1] == b[1] or a[0] == "sym" and split_hv(a[1])[0] == split_hv(b[1])[0])
                                                  for a, b in zip(e.segs, v.segs)):
                for a, b in zip(e.segs, v.segs):
                    if a[1] != b[1]:
                        for p, _ in set(split_hv(a[1])[1]) ^ set(split_hv(b[1])[1]):
                            newop.add(leaf + ("hv", p))
                for i, (a, b) in enumerate(zip(e.segs, v.segs)):
                    if a[0] == "sym":
                        self.walk(eng, s, a[2], b[2], leaf + ("o", i), diffs, newop)
                    if a[0] != "lit":
                        self.walk(eng, s, a[-1], b[-1], leaf + ("n", i), diffs, newop)
            else:
                newop.add(leaf)
                return
            if e.over or v.over:
                eo, vo = dict(e.over), dict(v.over)
                eb, vb = VSeq(e.elty, e.segs, (), e.ty), VSeq(v.elty, v.segs, (), v.ty)
                for i in eo:
                    if leaf + ("drop", i) in self.opaque:
                        continue
                    if i in vo:
                        self.walk(eng, s, eo[i], vo[i], leaf + ("e", i), diffs, newop)
                    else:
                        # overridden in one of the states only: unknown in the fields that differ from the rest
                        newop.add(leaf + ("drop", i))
                        for p in eng.differing(self.E, eng.seq_get(self.E, eb, i), eo[i]):
                            newop.add(leaf + ("hv", p))
                        lp = leaf + ("e", i)
                        for l in list(self.idx) + list(self.opaque):
                            if l[:len(lp)] == lp:
                                newop.add(leaf + ("hv", tuple(x for x in l[len(lp):] if isinstance(x, int))[:1]))
                for i in vo:
                    if i not in eo or leaf + ("drop", i) in self.opaque or leaf + ("drop", i) in newop:
                        for p in eng.differing(s, eng.seq_get(s, vb, i), vo[i]):
                            newop.add(leaf + ("hv", p))
            return
        if leaf in self.opaque:
            return
        if isinstance(e, VSym):
            e = eng.expand(self.E, e)
        if isinstance(v, VSym):
            v2 = eng.expand(s, v)
            if not (isinstance(e, VSym) and e == v):
                v = v2
        if isinstance(e, VSym) and isinstance(v, VSym):
            if e != v:
                newop.add(leaf)
            return
        if isinstance(e, VAgg) and isinstance(v, VAgg) and e.ty == v.ty and e.var == v.var and len(e.f) == len(v.f):
            for i, (x, y) in enumerate(zip(e.f, v.f)):
                self.walk(eng, s, x, y, leaf + (i,), diffs, newop)
            return
        if isinstance(e, Bool) and isinstance(v, Bool):
            if e != v:
                a, b = self.E.decide(e), s.decide(v)
                if not (a is not None and a == b):
                    newop.add(leaf)
            return
        if e is UNDEF and v is UNDEF:
            return
        if isinstance(e, VRef) and isinstance(v, VRef) and e == v:
            return
        if isinstance(e, VFn) and e == v:
            return
        newop.add(leaf)

    def build(self, eng, where):
        h = self.E.copy()
        h.ge, h.ne, h.lits, h.refine, h.excl, h.bnd = self.ge, self.ne, dict(self.lits), dict(self.refine), dict(self.excl), dict(self.bnd)
        self.tag = "%s.bb%d@%d" % (where[0].split("::")[-1], where[1], self.uid)
        # displacement of every leaf as a combination of the lattice coordinates
        self.disp = {}
        for p, v in self.basis.items():
            # a displacement by an amount that is itself not known exactly is marked as such
            kind = "phx" if any(self.order[n] in self.taint for n in v) else "phi"
            a = atom_aff(Atom("%s:%s:%s" % (kind, self.tag, fmt_leaf(self.order[p]))))
            for n, k in v.items():
                leaf = self.order[n]
                self.disp[leaf] = self.disp.get(leaf, ZERO) + a.scale(k)
        for root in list(h.store):
            if root not in self.roots:
                del h.store[root]
                continue
            ty = None
            if root[0] == "O":
                ty = eng.objty.get(root)
            h.store[root] = self.rebuild(eng, h, self.E.store[root], (root,), ty)
        for leaf, d in self.disp.items():
            lo, hi = self.mono.get(leaf, (False, False))
            if lo:
                h._add_ge(d)
            if hi:
                h._add_ge(-d)
        h._recheck_ne()
        if self.templ:
            for n, b in eng.hooks.templates(h).items():
                if n in self.templ:
                    h.assume(b, eng)
        return h

    def phi(self, e, leaf, h, ty, eng):
        d = self.disp.get(leaf)
        if d is None:
            return e
        r = e + d
        if ty is not None and eng.p.types[ty]["k"] == "int":
            lo, hi = eng.int_range(eng.p.types[ty])
            h._add_ge(r - lo)
            h._add_ge(K(hi) - r)
        return r

    def rebuild(self, eng, h, e, leaf, ty):
        if leaf in self.opaque:
            nm = "phx:%s:%s" % (self.tag, fmt_leaf(leaf))
            if isinstance(e, VSeq):
                ln = self.phi(e.length(), leaf + ("len",), h, None, eng)
                h._add_ge(ln)
                return VSeq(e.elty, [("top", nm, ln)], (), e.ty)
            if isinstance(e, Bool):
                return lit(nm)
            t = eng.val_ty(e, ty)
            if isinstance(e, VRef):
                root = ("O", nm)
                eng.objty[root] = e.ty
                return VRef(root, (), e.ty, e.mut)
            if t is None:
                if isinstance(e, Aff):
                    return atom_aff(Atom(nm))
                return UNDEF
            return eng.mk_sym(h, nm, t)
        if isinstance(e, Aff):
            return self.phi(e, leaf, h, ty, eng)
        if isinstance(e, VSym):
            e2 = eng.expand(self.E, e)
            if isinstance(e2, VSym):
                return e
            r = self.rebuild(eng, h, e2, leaf, ty)
            return e if r == e2 and h.refine.get(e.name) == self.E.refine.get(e.name) else r
        if isinstance(e, VAgg):
            ft = eng.field_types(e.ty, e.var) or [None] * len(e.f)
            rb = eng.ty_path(e.ty) == "tokio::io::ReadBuf"
            if rb:
                u = eng.find_ty("usize")
                ft = [u, u, None, None]
            elif len(ft) != len(e.f):
                ft = [None] * len(e.f)
            r = VAgg(e.ty, e.var, [self.rebuild(eng, h, x, leaf + (i,), ft[i]) for i, x in enumerate(e.f)])
            if rb:
                h._add_ge(r.f[1] - r.f[0])
            return r
        if isinstance(e, VSeq):
            segs = []
            for i, a in enumerate(e.segs):
                if a[0] == "lit":
                    segs.append(a)
                    continue
                n = self.phi(a[-1], leaf + ("n", i), h, None, eng)
                if n is not a[-1]:
                    h._add_ge(n)
                if a[0] == "sym":
                    segs.append(("sym", a[1], self.phi(a[2], leaf + ("o", i), h, None, eng), n))
                else:
                    segs.append((a[0], a[1], n))
            over = []
            hv = [l[-1] for l in self.opaque if len(l) == len(leaf) + 2 and l[:len(leaf)] == leaf and l[len(leaf)] == "hv"]
            for i, x in e.over:
                if leaf + ("drop", i) in self.opaque:
                    continue
                over.append((i, self.rebuild(eng, h, x, leaf + ("e", i), e.elty)))
            if hv:
                # fields written in some iteration: not known for any element
                segs = [(("sym", add_hv(s[1], hv, self.tag), s[2], s[3]) if s[0] == "sym" else
                         s if s[0] != "lit" and s[0] != "fill" else ("top", "phx:%s:%s" % (self.tag, fmt_leaf(leaf)), K(len(s[1])) if s[0] == "lit" else s[2]))
                        for s in segs]
            return VSeq(e.elty, segs, tuple(over), e.ty)
        return e


def lin(a, x, b, y):
    r = {k: a * v for k, v in x.items()}
    for k, v in y.items():
        r[k] = r.get(k, 0) + b * v
    return {k: v for k, v in r.items() if v}


def egcd(a, b):
    x0, y0, x1, y1 = 1, 0, 0, 1
    while b:
        q = a // b
        a, b = b, a - q * b
        x0, x1 = x1, x0 - q * x1
        y0, y1 = y1, y0 - q * y1
    return (a, x0, y0) if a > 0 else (-a, -x0, -y0)


def fmt_leaf(leaf):
    return fmt_root(leaf[0]) + "." + ".".join(map(str, leaf[1:]))


class Hooks:
    wants_writes = False
    wants_drops = False
    eng = None

    def on_call(self, st, c):
        return None

    def len_hi(self, name, ty):
        """known bound of the length of an input sequence"""
        return None

    def on_write(self, st, root, path, old, new):
        pass

    def on_drop(self, st, body, root, path, v):
        pass

    def on_refine(self, st, name, ty, var):
        pass

    def on_assert(self, st, body, kind, span, cond, decided):
        pass

    def on_panic(self, st, body, what, span):
        pass

    def on_extern(self, st, c):
        pass

    def on_unknown_call(self, st, c, f, args):
        pass

    def map_item_value(self, st, item):
        """the (key, value) pair a map yields"""
        return None

    def on_yield(self, st, body, span):
        pass

    def on_lost(self, st, body, bb, e):
        pass

    def pre_loop_head(self, st, body, bb):
        """a state arrives at a loop head, before it is joined with the others"""
        return None

    def at_loop_head(self, st, body, bb):
        return None

    def extra_key(self, st):
        """further predicates that keep states apart at loop heads: [(name, value)]"""
        return ()

    def templates(self, st):
        """candidate loop invariants: {name: condition in terms of this state}"""
        return {}

    # events raised by models
    def on_event(self, st, kind, **info):
        pass


U8_SEQ = {"std::string::String", "bytes::BytesMut", "bytes::Bytes", "std::ffi::OsString", "std::path::PathBuf", "std::ffi::OsStr", "std::path::Path"}
SEQ_ADTS = {"std::vec::Vec", "std::string::String", "std::collections::VecDeque"}
