"""Models of functions outside the analysed crate (tokio, std collections, crc32fast, ...): what they
do to the abstract state.  A model returns [(state, value)], or None to fall back to the default."""
import re
from .terms import *
from .engine import VAgg, VSym, VRef, VFn, VSeq, UNDEF, Lost, HeadInfo, Call

EXACT = {}
REGEX = []
USZ = (1 << 64) - 1
ISZ = (1 << 63) - 1


def exact(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def rx(pat):
    def d(f):
        REGEX.append((re.compile(pat), f))
        return f
    return d


# ---------------------------------------------------------------- helpers
def deref(eng, st, v, n=8):
    while isinstance(v, VRef) and n:
        v = eng.read(st, v.root, v.path)
        n -= 1
    return v


def deref1(eng, st, v):
    return eng.read(st, v.root, v.path) if isinstance(v, VRef) else v


def pin_ref(eng, st, v):
    """the reference inside Pin<&mut T> / &mut T"""
    while not isinstance(v, VRef):
        if isinstance(v, VSym):
            v = eng.expand(st, v)
        if isinstance(v, VAgg) and v.f:
            v = v.f[0]
        else:
            raise Lost("pin of %r" % (v,))
    return v


def targ(eng, ty, i):
    return eng.p.types[ty]["args"][i]


def variant_fields(eng, ty, var):
    return eng.field_types(ty, var)


def some(eng, ty, v):
    return VAgg(ty, 1, (v,))


def none(eng, ty):
    return VAgg(ty, 0, ())


def ok(eng, ty, v):
    return VAgg(ty, 0, (v,))


def err(eng, ty, v):
    return VAgg(ty, 1, (v,))


def ready(eng, ty, v):
    return VAgg(ty, 0, (v,))


def pending(eng, ty):
    return VAgg(ty, 1, ())


def unit(eng):
    i = eng.find_ty("()")
    return VAgg(i, None, ())


_intern = {}


def short(x):
    r = repr(x)
    if len(r) <= 90:
        return r
    k = _intern.setdefault(r, len(_intern))
    return "t%d" % k


def canon(eng, st, v, d=6):
    """value used as an argument of an uninterpreted function: references are followed"""
    if isinstance(v, VRef) and d:
        try:
            return canon(eng, st, eng.read(st, v.root, v.path), d - 1)
        except Lost:
            return v
    return v


def uf_name(eng, st, fname, args):
    return "%s(%s)" % (fname, ", ".join(short(canon(eng, st, a)) for a in args))


def uf(eng, st, c, fname, args=None, ty=None):
    args = c.args if args is None else args
    nm = uf_name(eng, st, fname, args)
    ty = c.ret if ty is None else ty
    origin = ("uf", fname, tuple(canon(eng, st, a) for a in args))
    v = eng.mk_sym(st, nm, ty, origin)
    eng.origins[nm] = origin
    return v


def pure(fname):
    def f(eng, st, c):
        return [(st, uf(eng, st, c, fname))]
    return f


def need(eng, st, c, cond, what):
    """precondition of a panicking operation; returns False when the path ends"""
    d = st.decide(cond)
    eng.hooks.on_assert(st, c.fn, what, c.span, cond, d)
    if d is True:
        return True
    if d is False:
        eng.hooks.on_panic(st, c.fn, what, c.span)
        return False
    s2 = st.copy()
    if s2.assume(bnot(cond), eng) and not s2.dead:
        eng.hooks.on_panic(s2, c.fn, what, c.span)
    return st.assume(cond, eng)


def seqof(eng, st, v):
    v = deref(eng, st, v)
    if isinstance(v, VSym):
        w = eng.expand(st, v)
        if isinstance(w, VAgg) and len(w.f) == 1:
            return seqof(eng, st, w.f[0])
    return eng.as_seq(st, v)


def seq_ref(eng, st, v):
    """reference to the sequence itself (through && and Box)"""
    while isinstance(v, VRef):
        x = eng.read(st, v.root, v.path)
        if isinstance(x, VRef):
            v = x
            continue
        return v
    raise Lost("not a reference: %r" % (v,))


def concat(a, b, ty=None):
    over = a.over
    if b.over:
        n = a.length()
        over = over + tuple((i + n, x) for i, x in b.over)
    return VSeq(a.elty, a.segs + b.segs, over, a.ty if ty is None else ty)


def with_ty(s, ty):
    return VSeq(s.elty, s.segs, s.over, ty)


def evt(eng, st, kind, **kw):
    eng.hooks.on_event(st, kind, **kw)


def mkbytes(eng, v, n):
    out = []
    for i in range(n):
        out.append(byte(v, i))
    return out


def byte(v, i):
    if v.is_const:
        return K((v.c >> (8 * i)) & 255)
    a = v.single()
    if a is not None and a.op == "trunc":
        w = a.args[1]
        if 8 * i + 8 <= w:
            return byte(a.args[0], i)
    if a is not None and 0 <= a.lo and a.hi < (1 << (8 * i)):
        return ZERO
    if i == 0 and a is not None and a.lo >= 0 and a.hi <= 255:
        return v
    return atom_aff(Atom("byte", (v, i), 0, 255))


# ---------------------------------------------------------------- identity-like
def ident(eng, st, c):
    return [(st, c.args[0])]


for n in ("std::future::get_context",):
    @exact(n)
    def _m(eng, st, c):
        a = c.args[0]
        if isinstance(a, VRef):
            return [(st, a)]
        root = ("O", "async-context")
        eng.objty[root] = eng.p.types[c.ret]["el"]
        return [(st, VRef(root, (), eng.p.types[c.ret]["el"], True))]

EXACT["std::hint::must_use"] = ident
EXACT["<F as std::future::IntoFuture>::into_future"] = ident
EXACT["std::hint::black_box"] = ident


@rx(r"^(<T as std::convert::(Into|From)<.*>::(into|from)|std::convert::Into::into|std::convert::From::from)$")
def _into(eng, st, c):
    if c.callee.get("body") is not None or (c.body is not None):
        b = eng.p.bodies[c.body]
        return [(o.st, o.val) for o in eng.run(b, c.args, st, c.depth)]
    v = c.args[0]
    if isinstance(v, (VAgg, VSym)) and v.ty == c.ret:
        return [(st, v)]
    evt(eng, st, "convert", call=c, arg=v)
    return [(st, uf(eng, st, c, "into"))]


@rx(r"^<std::sync::Arc<\[T\]> as std::convert::From<|^<std::boxed::Box<.*> as std::convert::From<|^<std::sync::Arc<.*> as std::convert::From<|^<std::rc::Rc<.*> as std::convert::From<")
def _arc_from(eng, st, c):
    v = deref(eng, st, c.args[0])
    t = eng.p.types[c.ret]
    if isinstance(v, VSeq):
        root = ("K", st.fresh("arc"))
        st.store[root] = v
        return [(st, VRef(root, (), t["args"][0], False))]
    return [(st, uf(eng, st, c, "arc_from"))]


@rx(r"^(std::rc::Rc|std::sync::Arc|std::boxed::Box)::<T(, A)?>::(new|pin|from)$")
def _box_new(eng, st, c):
    t = eng.p.types[c.ret]
    root = ("K", st.fresh("box"))
    st.store[root] = c.args[0]
    pinned = t["path"] == "std::pin::Pin"
    inner = t["args"][0]
    if pinned:
        inner = eng.p.types[inner]["args"][0]
    r = VRef(root, (), inner, True)
    if pinned:
        return [(st, VAgg(c.ret, None, (r,)))]
    return [(st, r)]


@rx(r"^(<std::(sync::Arc|rc::Rc)<.*> as std::clone::Clone>::clone|std::(sync::Arc|rc::Rc)::<T.*>::clone)$")
def _arc_clone(eng, st, c):
    return [(st, deref1(eng, st, c.args[0]))]


@rx(r"^(<std::(sync::Arc|rc::Rc|boxed::Box)<.*> as (std|core)::(ops::Deref(Mut)?|convert::AsRef<.*>|convert::AsMut<.*>|borrow::Borrow<.*>)>::\w+)$")
def _arc_deref(eng, st, c):
    v = deref1(eng, st, c.args[0])
    if isinstance(v, VRef):
        return [(st, v)]
    return None


@rx(r"^std::convert::AsRef::as_ref$|^std::ops::Deref::deref$|^std::borrow::Borrow::borrow$")
def _asref(eng, st, c):
    v = deref1(eng, st, c.args[0])
    nm = uf_name(eng, st, c.name, [c.args[0]])
    el = eng.p.types[c.ret].get("el")
    root = ("O", nm)
    eng.objty[root] = el
    return [(st, VRef(root, (), el, False))]


@rx(r"^(<.* as std::clone::Clone>::clone|std::clone::Clone::clone|<.* as std::borrow::ToOwned>::to_owned|std::borrow::ToOwned::to_owned|alloc::slice::<impl \[T\]>::to_vec|std::slice::<impl \[T\]>::to_vec|<str as std::string::ToString>::to_string|<std::string::String as std::convert::From<&str>>::from|<.* as std::string::SpecToString>::spec_to_string|std::path::Path::to_path_buf)$")
def _clone(eng, st, c):
    if c.body is not None and eng.p.bodies[c.body]["local"]:
        return None
    if c.rpath.startswith("<std::option::Option") and c.body is not None:
        return None
    v = deref1(eng, st, c.args[0])
    evt(eng, st, "clone", call=c, value=v)
    if isinstance(v, VSeq):
        if owning(eng, c.ret):
            evt(eng, st, "alloc", call=c, amount=v.length(), kind_="copy")
        v = with_ty(v, c.ret)
        if is_bytesmut(eng, c.ret):
            v = VSeq(v.elty, v.segs, v.over, v.ty, v.length())
        return [(st, v)]
    return [(st, v)]


@rx(r"^<.* as std::default::Default>::default$|^std::default::Default::default$")
def _default(eng, st, c):
    t = eng.p.types[c.ret]
    if t["k"] == "int":
        return [(st, ZERO)]
    if t["k"] == "bool":
        return [(st, FALSE)]
    if t["k"] == "adt" and (t["path"] in ("std::vec::Vec", "std::string::String") or is_bytesmut(eng, c.ret)):
        return _vec_new(eng, st, c)
    if t["k"] == "adt" and t["path"] == "std::option::Option":
        return [(st, none(eng, c.ret))]
    if c.body is not None and eng.p.bodies[c.body]["local"]:
        return None
    return None if c.body is not None else [(st, uf(eng, st, c, "default:" + t["s"], []))]


@rx(r"^(std|core)::mem::(replace|take|swap)$")
def _mem(eng, st, c):
    if c.name == "replace":
        r = c.args[0]
        old = eng.read(st, r.root, r.path)
        eng.write(st, r.root, r.path, c.args[1])
        return [(st, old)]
    if c.name == "swap":
        a, b = c.args
        x, y = eng.read(st, a.root, a.path), eng.read(st, b.root, b.path)
        eng.write(st, a.root, a.path, y)
        eng.write(st, b.root, b.path, x)
        return [(st, unit(eng))]
    r = c.args[0]
    old = eng.read(st, r.root, r.path)
    t = eng.p.types[c.ret]
    if isinstance(old, VSeq):
        new = VSeq(old.elty, [], (), old.ty)
    elif t["k"] == "int":
        new = ZERO
    elif t["k"] == "bool":
        new = FALSE
    elif t["k"] == "adt" and t["path"] == "std::option::Option":
        new = none(eng, c.ret)
    elif t["k"] == "adt" and c.ret is not None:
        # Default of a local type: find its default body
        b = None
        for x in eng.p.bodies.values():
            if x["path"].endswith("as std::default::Default>::default") and x["locals"][0] == c.ret:
                b = x
                break
        if b is None:
            return None
        outs = eng.run(b, [], st, c.depth)
        res = []
        for o in outs:
            eng.write(o.st, r.root, r.path, o.val)
            res.append((o.st, old))
        return res
    else:
        return None
    eng.write(st, r.root, r.path, new)
    return [(st, old)]


@rx(r"^(std|core)::mem::(drop|forget)$")
def _drop(eng, st, c):
    evt(eng, st, "mem_" + c.name, call=c, value=c.args[0])
    return [(st, unit(eng))]


@rx(r"^(std|core)::mem::size_of(_val)?$")
def _sizeof(eng, st, c):
    t = c.callee.get("targs")
    if t:
        x = eng.p.types[t[0]]
        n = type_size(eng, t[0])
        if n is not None:
            return [(st, K(n))]
    return [(st, uf(eng, st, c, "size_of:" + str(t)))]


def type_size(eng, i):
    t = eng.p.types[i]
    if t["k"] == "int":
        return t["bits"] // 8
    if t["k"] == "array" and t.get("len") is not None:
        n = type_size(eng, t["el"])
        return None if n is None else n * t["len"]
    return None


@exact("std::intrinsics::discriminant_value")
def _discr(eng, st, c):
    v = deref(eng, st, c.args[0])
    return [(st, eng.discr(st, v))]


# ---------------------------------------------------------------- Option/Result with closures are inlined core MIR
@rx(r"^std::option::Option::<T>::(as_deref|as_deref_mut)$")
def _as_deref(eng, st, c):
    r = c.args[0]
    v = deref1(eng, st, r)
    if isinstance(v, VSym):
        v2 = eng.expand(st, v)
        if isinstance(v2, VSym):
            a = eng.discr(st, v)
            out = []
            for s2, truth in eng.split(st, eq0(a - 1)):
                w = eng.expand(s2, v)
                out += _as_deref2(eng, s2, c, r, w)
            return out
        v = v2
    return _as_deref2(eng, st, c, r, v)


def _as_deref2(eng, st, c, r, v):
    if v.var == 0:
        return [(st, none(eng, c.ret))]
    el = eng.p.types[targ(eng, c.ret, 0)]["el"]
    inner = v.f[0]
    if isinstance(inner, VRef):
        return [(st, some(eng, c.ret, inner))]
    return [(st, some(eng, c.ret, VRef(r.root, r.path + (("v", 1), ("f", 0, None)), el, True)))]


# ---------------------------------------------------------------- integers
INTRX = re.compile(r"core::num::<impl (\w+)>::(\w+)$")


def int_t(eng, name):
    for t in eng.p.types:
        if t["k"] == "int" and t["s"] == name:
            return t
    bits = 64 if name.endswith("size") else int(name[1:])
    return {"k": "int", "bits": bits, "signed": name[0] == "i", "s": name}


@rx(r"^core::num::<impl \w+>::\w+$")
def _intop(eng, st, c):
    m = INTRX.search(c.rpath) or INTRX.search(c.path)
    if not m:
        return None
    t = int_t(eng, m.group(1))
    op = m.group(2)
    lo, hi = eng.int_range(t)
    a = c.args
    a = [deref(eng, st, x) for x in a]
    if not all(isinstance(x, (Aff, Bool)) for x in a):
        return None

    def arith(o):
        if o.startswith("add"):
            return a[0] + a[1]
        if o.startswith("sub"):
            return a[0] - a[1]
        if o.startswith("mul"):
            return eng.mul(st, a[0], a[1])
        return None
    mm = re.match(r"(checked|saturating|wrapping|overflowing|strict|unchecked|carrying|borrowing)_(add|sub|mul)(_signed|_unsigned|_signed_diff)?$", op)
    if mm and mm.group(1) in ("checked", "saturating", "wrapping", "overflowing", "unchecked", "strict"):
        r = arith(mm.group(2))
        fail = eng.in_range_fail(r, t)
        k = mm.group(1)
        if k == "checked":
            out = []
            for s2, bad in eng.split(st, fail):
                if not bad:
                    out.append((s2, some(eng, c.ret, r)))
                    continue
                for s3, over in eng.split(s2, ge0(r - hi - 1)):
                    if over or (s3.assume(ge0(-r + lo - 1), eng) and not s3.dead):
                        out.append((s3, none(eng, c.ret)))
            return out
        if k == "saturating":
            evt(eng, st, "saturating", call=c)
            out = []
            for s2, bad in eng.split(st, fail):
                if not bad:
                    out.append((s2, r))
                else:
                    for s3, over in eng.split(s2, ge0(r - hi - 1)):
                        out.append((s3, K(hi) if over else K(lo)))
            return out
        if k == "wrapping":
            evt(eng, st, "wrapping", call=c, value=r, fail=fail)
            return [(st, eng.wrap(st, mm.group(2), r, t))]
        if k == "overflowing":
            evt(eng, st, "wrapping", call=c, value=r, fail=fail)
            return [(st, VAgg(c.ret, None, (eng.wrap(st, mm.group(2), r, t), fail)))]
        if k == "strict":
            if not need(eng, st, c, bnot(fail), "overflow:" + op):
                return []
            return [(st, r)]
        return [(st, r)]
    if op in ("checked_div", "checked_rem"):
        out = []
        for s2, z in eng.split(st, eq0(a[1])):
            out.append((s2, none(eng, c.ret) if z else some(eng, c.ret, eng.binop(s2, "Div" if op.endswith("div") else "Rem", a[0], a[1], t))))
        return out
    if op in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        n = t["bits"] // 8
        bs = mkbytes(eng, a[0], n)
        if op == "to_be_bytes":
            bs = bs[::-1]
        return [(st, VSeq(eng.find_ty("u8"), [("lit", tuple(bs))], (), c.ret))]
    if op in ("to_le", "from_le"):
        return [(st, a[0])]
    if op == "abs_diff":
        out = []
        for s2, g in eng.split(st, ge0(a[0] - a[1])):
            out.append((s2, a[0] - a[1] if g else a[1] - a[0]))
        return out
    if op in ("min_value", "max_value"):
        return [(st, K(lo if op[:3] == "min" else hi))]
    if op in ("is_positive", "is_negative"):
        return [(st, ge0(a[0] - 1) if op == "is_positive" else ge0(-a[0] - 1))]
    if op == "unsigned_abs":
        out = []
        for s2, neg in eng.split(st, ge0(-a[0] - 1)):
            out.append((s2, -a[0] if neg else a[0]))
        return out
    if op in ("checked_shl", "checked_shr", "pow", "checked_pow", "rotate_left", "count_ones", "leading_zeros", "trailing_zeros", "swap_bytes", "isqrt", "ilog2", "div_ceil", "next_multiple_of", "rem_euclid", "div_euclid", "is_power_of_two", "next_power_of_two", "checked_neg", "wrapping_neg", "wrapping_shl", "wrapping_shr", "midpoint", "checked_ilog2"):
        if op in ("rem_euclid", "div_euclid") and a[1].is_const and a[1].c > 0 and st.lower(a[0]) >= 0:
            return [(st, eng.binop(st, "Rem" if op[0] == "r" else "Div", a[0], a[1], t))]
        if op == "pow" and a[0].is_const and a[1].is_const:
            return [(st, K(a[0].c ** a[1].c))]
        return [(st, uf(eng, st, c, op))]
    return None


@rx(r"(std|core)::convert::num::.*TryFrom<(\w+)> for (\w+)>::try_from$")
def _try_from(eng, st, c):
    m = re.search(r"TryFrom<(\w+)> for (\w+)>::try_from$", c.rpath) or re.search(r"TryFrom<(\w+)> for (\w+)>::try_from$", c.path)
    t = int_t(eng, m.group(2))
    lo, hi = eng.int_range(t)
    v = c.args[0]
    if isinstance(v, Bool):
        v = eng.bool_int(v)
    if not isinstance(v, Aff):
        return None
    out = []
    fits = band(ge0(v - lo), ge0(K(hi) - v))
    for s2, good in eng.split(st, fits):
        if good:
            out.append((s2, ok(eng, c.ret, v)))
        else:
            e = eng.mk_sym(s2, "TryFromIntError", variant_fields(eng, c.ret, 1)[0])
            out.append((s2, err(eng, c.ret, e)))
    return out


@rx(r"(std|core)::convert::num::.*<impl std::convert::From<(\w+)> for (\w+)>::from$")
def _int_from(eng, st, c):
    v = c.args[0]
    if isinstance(v, Bool):
        v = eng.bool_int(v)
    return [(st, v)] if isinstance(v, Aff) else None


@rx(r"^(std|core)::cmp::(impls::<impl (std|core)::cmp::Ord for \w+>::(min|max)|(min|max)|Ord::(min|max|clamp)|impls::<impl (std|core)::cmp::Ord for \w+>::clamp)$")
def _minmax(eng, st, c):
    a = c.args
    if not all(isinstance(x, Aff) for x in a):
        return None
    if c.name == "clamp":
        out = []
        for s2, below in eng.split(st, ge0(a[1] - a[0] - 1)):
            if below:
                out.append((s2, a[1]))
                continue
            for s3, above in eng.split(s2, ge0(a[0] - a[2] - 1)):
                out.append((s3, a[2] if above else a[0]))
        return out
    out = []
    for s2, le in eng.split(st, ge0(a[1] - a[0])):
        if c.name == "min":
            out.append((s2, a[0] if le else a[1]))
        else:
            out.append((s2, a[1] if le else a[0]))
    return out


@rx(r"^<.* as std::cmp::Ord>::(min|max|clamp)$")
def _minmax2(eng, st, c):
    return _minmax(eng, st, c)


@rx(r"(impl (std|core)::cmp::(PartialOrd|Ord)(<\w+>)? for (u|i)(8|16|32|64|128|size)>::(lt|le|gt|ge|cmp|partial_cmp))$")
def _intcmp(eng, st, c):
    a, b = deref(eng, st, c.args[0]), deref(eng, st, c.args[1])
    if not (isinstance(a, Aff) and isinstance(b, Aff)):
        return None
    d = {"lt": ge0(b - a - 1), "le": ge0(b - a), "gt": ge0(a - b - 1), "ge": ge0(a - b)}
    if c.name in d:
        return [(st, d[c.name])]
    o = eng.cmp_value(st, a, b)
    return [(st, o if c.name == "cmp" else some(eng, c.ret, o))]


@rx(r"(impl (std|core)::cmp::PartialEq(<.*>)? for (u|i)(8|16|32|64|128|size)>::(eq|ne))$")
def _inteq(eng, st, c):
    a, b = deref(eng, st, c.args[0]), deref(eng, st, c.args[1])
    if not (isinstance(a, Aff) and isinstance(b, Aff)):
        return None
    return [(st, eq0(a - b) if c.name == "eq" else ne0(a - b))]


def range_bounds(eng, st, v):
    """(start Aff|None, end Aff|None, inclusive)"""
    if isinstance(v, VSym):
        v = eng.expand(st, v)
    t = eng.p.types[v.ty]
    p = t["path"].split("::")[-1]
    if p == "Range":
        return v.f[0], v.f[1], False
    if p == "RangeFrom":
        return v.f[0], None, False
    if p == "RangeTo":
        return None, v.f[0], False
    if p == "RangeToInclusive":
        return None, v.f[0], True
    if p == "RangeInclusive":
        return v.f[0], v.f[1], True
    if p == "RangeFull":
        return None, None, False
    raise Lost("range " + p)


@rx(r"^std::ops::(Range|RangeInclusive|RangeFrom|RangeTo|RangeToInclusive)(::<Idx>)?::(contains|is_empty)$|^<std::ops::Range\w*<.*> as std::ops::RangeBounds<.*>>::contains$")
def _contains(eng, st, c):
    lo, hi, inc = range_bounds(eng, st, deref(eng, st, c.args[0]))
    if c.name == "is_empty":
        return [(st, ge0(lo - hi) if not inc else ge0(lo - hi - 1))]
    x = deref(eng, st, c.args[1])
    lo = deref(eng, st, lo) if lo is not None else None
    hi = deref(eng, st, hi) if hi is not None else None
    if not isinstance(x, Aff):
        return None
    b = TRUE
    if lo is not None:
        b = band(b, ge0(x - lo))
    if hi is not None:
        b = band(b, ge0(hi - x) if inc else ge0(hi - x - 1))
    return [(st, b)]


@exact("std::ops::RangeInclusive::<Idx>::new")
def _ri_new(eng, st, c):
    return [(st, VAgg(c.ret, None, (c.args[0], c.args[1], FALSE)))]


@rx(r"^std::ops::RangeInclusive::<Idx>::(start|end)$")
def _ri_get(eng, st, c):
    r = c.args[0]
    return [(st, VRef(r.root, r.path + (("f", 0 if c.name == "start" else 1, None),), eng.p.types[c.ret]["el"], False))]


@rx(r"^std::ops::RangeInclusive::<Idx>::into_inner$")
def _ri_into(eng, st, c):
    v = c.args[0]
    if isinstance(v, VSym):
        v = eng.expand(st, v)
    return [(st, VAgg(c.ret, None, (v.f[0], v.f[1])))]


def owning(eng, ty):
    """does making a value of this type allocate room for its elements?"""
    t = eng.p.types[ty]
    if t["k"] == "adt" and t.get("path") == "std::boxed::Box":
        return eng.p.types[t["args"][0]]["k"] in ("slice", "str")
    return t["k"] == "adt" and t.get("path", "") in ("std::vec::Vec", "std::string::String", "std::path::PathBuf", "std::ffi::OsString", "bytes::BytesMut", "std::collections::VecDeque")


# ---------------------------------------------------------------- sequences
def fresh_seq_ty(eng, ty):
    t = eng.p.types[ty]
    if t["k"] == "adt" and t["path"] in ("std::vec::Vec", "std::collections::VecDeque"):
        return t["args"][0]
    return eng.find_ty("u8")


@rx(r"^(std::vec::Vec::<T>|std::collections::VecDeque::<T>|std::string::String|bytes::BytesMut|bytes::Bytes)::(new|with_capacity)$")
def _vec_new(eng, st, c):
    if c.name == "with_capacity":
        evt(eng, st, "alloc", call=c, amount=c.args[0], kind_="with_capacity")
    cap = None
    if is_bytesmut(eng, c.ret):
        cap = c.args[0] if c.name == "with_capacity" else ZERO
        cap = cap if isinstance(cap, Aff) else None
    v = VSeq(fresh_seq_ty(eng, c.ret), [], (), c.ret, cap)
    return [(st, v)]


def is_bytesmut(eng, ty):
    return ty is not None and eng.p.types[ty].get("path", "").endswith("bytes::BytesMut")


@rx(r"^(std::vec::from_elem)$")
def _from_elem(eng, st, c):
    evt(eng, st, "alloc", call=c, amount=c.args[1], kind_="vec!")
    return [(st, VSeq(fresh_seq_ty(eng, c.ret), [("fill", c.args[0], c.args[1])], (), c.ret))]


@rx(r"(std::vec::Vec::<T, A>|std::collections::VecDeque::<T, A>|std::string::String|core::slice::<impl \[T\]>|core::str::<impl str>|bytes::Bytes(Mut)?|std::ffi::OsStr)::len$|^<bytes::Bytes(Mut)? as bytes::Buf>::remaining$|^bytes::Buf::remaining$")
def _len(eng, st, c):
    return [(st, seqof(eng, st, c.args[0]).length())]


@rx(r"(std::vec::Vec::<T, A>|std::collections::VecDeque::<T, A>|std::string::String|core::slice::<impl \[T\]>|core::str::<impl str>|bytes::Bytes(Mut)?)::is_empty$")
def _is_empty(eng, st, c):
    return [(st, eq0(seqof(eng, st, c.args[0]).length()))]


@rx(r"^(std::vec::Vec::<T, A>|std::string::String|bytes::Bytes(Mut)?)::(as_slice|as_mut_slice|as_str|as_mut_str|as_bytes|as_ref|as_mut|borrow|deref|deref_mut)$|^core::str::<impl str>::(as_bytes|as_ref)$|^std::ffi::OsStr::as_encoded_bytes$|^std::path::(Path|PathBuf)::(as_os_str|as_path|as_mut_os_str)$|^<std::path::PathBuf as std::(ops::Deref|convert::AsRef<.*>|borrow::Borrow<.*>)>::\w+$|^<(std::vec::Vec<T, A>|std::string::String|bytes::Bytes(Mut)?|str|\[T\]|\[T; N\]) as (std|core)::(ops::Deref(Mut)?|convert::As(Ref|Mut)<.*>|borrow::Borrow(Mut)?<.*>)>::\w+$|^<str as std::convert::AsRef<.*>>::as_ref$|^<std::path::Path as std::convert::AsRef<.*>>::as_ref$|^<.*Bytes.* as std::convert::AsRef<\[u8\]>>::as_ref$|^core::array::<impl \[T; N\]>::as_slice$|^<std::ffi::OsStr as .*AsRef<.*>>::as_ref$|^core::array::<impl std::convert::AsRef<\[T\]> for \[T; N\]>::as_ref$|^core::str::traits::.*$XX")
def _as_ref(eng, st, c):
    r = c.args[0]
    if isinstance(r, VRef):
        v = eng.read(st, r.root, r.path)
        if isinstance(v, VRef):
            r = v
        return [(st, VRef(r.root, r.path, eng.p.types[c.ret]["el"], r.mut))]
    return None


@rx(r"^<&.* as std::convert::AsRef<.*>>::as_ref$")
def _asref_ref(eng, st, c):
    return None


@rx(r"^(std::string::String::into_bytes|std::vec::Vec::<T, A>::into_boxed_slice|std::string::String::into_boxed_str|bytes::BytesMut::freeze|<std::(vec::Vec|collections::VecDeque)<.*> as std::convert::From<.*>>::from|<std::vec::Vec<.*> as std::convert::From<std::collections::VecDeque.*>>::from|<bytes::Bytes(Mut)? as std::convert::From<.*>>::from|bytes::Bytes::copy_from_slice|std::slice::<impl \[T\]>::into_vec|alloc::slice::<impl \[T\]>::into_vec|bytes::Bytes::from_static)$")
def _into_seq(eng, st, c):
    v = deref(eng, st, c.args[0])
    if isinstance(v, VSeq):
        if isinstance(c.args[0], VRef) and c.name in ("from", "copy_from_slice"):
            evt(eng, st, "alloc", call=c, amount=v.length(), kind_="copy")
        t = eng.p.types[c.ret]
        if t["k"] == "adt" and t["path"] == "std::boxed::Box":
            root = ("K", st.fresh("box"))
            st.store[root] = v
            return [(st, VRef(root, (), t["args"][0], True))]
        return [(st, with_ty(v, c.ret))]
    return None


@rx(r"^(std::vec::Vec::<T, A>|std::string::String|bytes::BytesMut)::(clear)$|^bytes::Bytes::clear$")
def _clear(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    eng.write(st, r.root, r.path, VSeq(v.elty, [], (), v.ty, v.cap))
    return [(st, unit(eng))]


@rx(r"^(std::vec::Vec::<T, A>|std::string::String|bytes::BytesMut)::(reserve|reserve_exact|shrink_to_fit|shrink_to)$")
def _reserve(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    if c.name.startswith("reserve"):
        evt(eng, st, "alloc", call=c, amount=c.args[1], kind_="reserve")
        st.store[("X", "spare", r.root, r.path)] = c.args[1]
        v = seqof(eng, st, r)
        if is_bytesmut(eng, v.ty) and isinstance(c.args[1], Aff):
            eng.write(st, r.root, r.path, VSeq(v.elty, v.segs, v.over, v.ty, v.length() + c.args[1]))
    else:
        st.store.pop(("X", "spare", r.root, r.path), None)
    return [(st, unit(eng))]


@rx(r"^(std::vec::Vec::<T, A>|bytes::BytesMut)::spare_capacity_mut$")
def _spare(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    el = eng.p.types[c.ret]["el"]
    nm = st.fresh("spare")
    root = ("K", nm)
    n = atom_aff(Atom(nm + ".len", (), 0, ISZ))
    g = st.store.get(("X", "spare", r.root, r.path))
    if isinstance(g, Aff):
        st.assume(ge0(n - g), eng)
    st.store[root] = VSeq(eng.p.types[el]["el"], [("sym", nm, ZERO, n)], (), el)
    eng.spare_of[nm] = (r.root, r.path)
    return [(st, VRef(root, (), el, True))]


@rx(r"^(std::vec::Vec::<T, A>|std::string::String|bytes::BytesMut|bytes::Bytes)::capacity$")
def _capacity(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    if v.cap is not None and v.cap.is_const and v.cap.c == 0 and not v.segs:
        return [(st, ZERO)]
    nm = uf_name(eng, st, "capacity" if v.cap is not None else "capacity-unknown", [v]) + "@" + short((r.root, r.path))
    a = atom_aff(Atom(nm, (), 0, ISZ))
    st.assume(ge0(a - v.length()), eng)
    if v.cap is not None:
        st.assume(ge0(a - v.cap), eng)
    return [(st, a)]


def drop_spare(st, r):
    st.store.pop(("X", "spare", r.root, r.path), None)


@rx(r"^(std::vec::Vec::<T, A>|bytes::BytesMut)::resize$")
def _resize(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    n, x = c.args[1], c.args[2]
    drop_spare(st, r)
    ln = v.length()
    out = []
    for s2, grow in eng.split(st, ge0(n - ln)):
        if grow:
            evt(eng, s2, "alloc", call=c, amount=n - ln, kind_="resize")
            nv = concat(v, VSeq(v.elty, [("fill", x, n - ln)]))
        else:
            nv = with_ty(eng.seq_sub(s2, v, ZERO, n), v.ty)
        eng.write(s2, r.root, r.path, nv)
        evt(eng, s2, "seq_change", ref=r, old=v, new=nv, call=c)
        out.append((s2, unit(eng)))
    return out


@rx(r"^(std::vec::Vec::<T, A>|std::string::String|bytes::BytesMut|bytes::Bytes)::truncate$")
def _truncate(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    n = c.args[1]
    ln = v.length()
    out = []
    for s2, cut in eng.split(st, ge0(ln - n - 1)):
        if cut:
            eng.write(s2, r.root, r.path, with_ty(eng.seq_sub(s2, v, ZERO, n), v.ty))
        out.append((s2, unit(eng)))
    return out


def copied_items(eng, st, x):
    """the sequence an iterator over plain bytes runs through, when that is evident"""
    while isinstance(x, VAgg) and re.search(r"(^|::)(Copied|Cloned)$", eng.ty_path(x.ty) or "") and len(x.f) == 1:
        x = x.f[0]
    if isinstance(x, VAgg) and re.search(r"(^|::)slice::Iter$", eng.ty_path(x.ty) or ""):
        x = seqof(eng, st, x.f[0])
    return x


@rx(r"^(std::vec::Vec::<T, A>|bytes::BytesMut)::extend_from_slice$|^std::string::String::push_str$|^<bytes::BytesMut as bytes::BufMut>::put_slice$|^bytes::BufMut::put_slice$|^<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend$|^<std::vec::Vec<u8> as std::io::Write>::write_all$|^<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend$|^<std::string::String as std::iter::Extend<.*>>::extend$")
def _extend(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    x = deref(eng, st, c.args[1])
    x = copied_items(eng, st, x)
    if not isinstance(x, VSeq):
        if isinstance(x, VSym) and eng.p.types[x.ty]["k"] == "slice":
            x = eng.as_seq(st, x)
        else:
            n = atom_aff(Atom(st.fresh("ext.len"), (), 0, ISZ))
            x = VSeq(v.elty, [("top", st.fresh("ext"), n)])
    drop_spare(st, r)
    evt(eng, st, "alloc", call=c, amount=x.length(), kind_="extend")
    nv = concat(v, x)
    eng.write(st, r.root, r.path, nv)
    evt(eng, st, "seq_change", ref=r, old=v, new=nv, call=c)
    if eng.p.types[c.ret]["k"] == "adt":
        return [(st, ok(eng, c.ret, unit(eng)))]
    return [(st, unit(eng))]


@rx(r"^<std::string::String as std::ops::Add(Assign)?<&(.* )?str>>::add(_assign)?$")
def _str_add(eng, st, c):
    x = deref(eng, st, c.args[1])
    if isinstance(x, VSym):
        x = eng.as_seq(st, x)
    if not isinstance(x, VSeq):
        return None
    if c.name == "add_assign":
        r = seq_ref(eng, st, c.args[0])
        eng.write(st, r.root, r.path, concat(seqof(eng, st, r), x))
        return [(st, unit(eng))]
    v = c.args[0]
    if isinstance(v, VSym):
        v = eng.as_seq(st, v)
    if not isinstance(v, VSeq):
        return None
    return [(st, concat(v, x))]


@rx(r"^(std::vec::Vec::<T, A>|std::string::String)::push$|^std::vec::Vec::<T, A>::push_mut$|^std::collections::VecDeque::<T, A>::push_back$")
def _push(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    x = c.args[1]
    drop_spare(st, r)
    if c.rpath.startswith("std::string") and isinstance(x, Aff) and not (x.is_const and x.c < 128):
        seg = VSeq(v.elty, [("sym", "utf8(%r)" % x, ZERO, atom_aff(Atom("utf8len(%r)" % x, (), 1, 4)))])
    else:
        seg = VSeq(v.elty, [("lit", (x,))])
    nv = concat(v, seg)
    evt(eng, st, "vec_push", call=c, ref=r, value=x)
    eng.write(st, r.root, r.path, nv)
    return [(st, unit(eng))]


@rx(r"^(std::vec::Vec::<T, A>|std::string::String)::pop$|^std::collections::VecDeque::<T, A>::pop_back$")
def _pop(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    ln = v.length()
    evt(eng, st, "vec_pop", call=c, ref=r)
    if v.segs and v.segs[-1][0] == "lit" and not v.over:
        x = v.segs[-1][1][-1]
        nv = VSeq(v.elty, v.segs[:-1] + (("lit", v.segs[-1][1][:-1]),), (), v.ty)
        eng.write(st, r.root, r.path, nv)
        evt(eng, st, "vec_popped", ref=r, value=x)
        return [(st, some(eng, c.ret, x))]
    out = []
    for s2, empty in eng.split(st, eq0(ln)):
        if empty:
            evt(eng, s2, "vec_empty", ref=r)
            out.append((s2, none(eng, c.ret)))
        else:
            x = eng.seq_get(s2, v, ln - 1) if len(v.segs) == 1 and v.segs[0][0] == "sym" else eng.mk_sym(s2, s2.fresh("pop"), targ(eng, c.ret, 0))
            s2.assume(ge0(ln - 1), eng)
            evt(eng, s2, "vec_popped", ref=r, value=x)
            nv = with_ty(eng.seq_sub(s2, v, ZERO, ln - 1), v.ty)
            eng.write(s2, r.root, r.path, nv)
            out.append((s2, some(eng, c.ret, x)))
    return out


@rx(r"^std::collections::VecDeque::<T, A>::pop_front$")
def _pop_front(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    ln = v.length()
    evt(eng, st, "vec_pop", call=c, ref=r)
    if v.segs and v.segs[0][0] == "lit" and not v.over:
        x = v.segs[0][1][0]
        rest = (("lit", v.segs[0][1][1:]),) if len(v.segs[0][1]) > 1 else ()
        eng.write(st, r.root, r.path, VSeq(v.elty, rest + tuple(v.segs[1:]), (), v.ty))
        evt(eng, st, "vec_popped", ref=r, value=x)
        return [(st, some(eng, c.ret, x))]
    out = []
    for s2, empty in eng.split(st, eq0(ln)):
        if empty:
            evt(eng, s2, "vec_empty", ref=r)
            out.append((s2, none(eng, c.ret)))
        else:
            s2.assume(ge0(ln - 1), eng)
            x = eng.seq_get(s2, v, ZERO) if len(v.segs) == 1 and v.segs[0][0] == "sym" else eng.mk_sym(s2, s2.fresh("pop"), targ(eng, c.ret, 0))
            eng.write(s2, r.root, r.path, with_ty(eng.seq_sub(s2, v, ONE, ln - 1), v.ty))
            evt(eng, s2, "vec_popped", ref=r, value=x)
            out.append((s2, some(eng, c.ret, x)))
    return out


@rx(r"^std::vec::Vec::<T, A>::(insert|remove|swap_remove|drain|append|retain|dedup|set_len|split_off|sort\w*)$|^core::slice::<impl \[T\]>::(sort\w*|swap|reverse|fill|rotate_left|rotate_right|copy_within)$|^std::string::String::(insert|insert_str|remove|drain|retain)$|^std::slice::<impl \[T\]>::sort\w*$")
def _vec_other(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    evt(eng, st, "vec_mutate", call=c, ref=r)
    if c.name == "drain":
        rb = range_bounds(eng, st, c.args[1])
        start = rb[0] if rb[0] is not None else ZERO
        end = rb[1] if rb[1] is not None else v.length()
        if rb[2]:
            end = end + 1
        if not need(eng, st, c, band(ge0(v.length() - end), ge0(end - start)), "slice range"):
            return []
        pre = eng.seq_sub(st, v, ZERO, start)
        post = eng.seq_sub(st, v, end, None)
        eng.write(st, r.root, r.path, with_ty(concat(pre, post), v.ty))
        return [(st, eng.mk_sym(st, st.fresh("drain"), c.ret))]
    if c.name == "split_off":
        if not need(eng, st, c, ge0(v.length() - c.args[1]), "split_off"):
            return []
        tail = eng.seq_sub(st, v, c.args[1], None)
        eng.write(st, r.root, r.path, with_ty(eng.seq_sub(st, v, ZERO, c.args[1]), v.ty))
        return [(st, with_ty(tail, c.ret))]
    if c.name == "append":
        o = seq_ref(eng, st, c.args[1])
        ov = seqof(eng, st, o)
        eng.write(st, r.root, r.path, with_ty(concat(v, ov), v.ty))
        eng.write(st, o.root, o.path, VSeq(ov.elty, [], (), ov.ty))
        return [(st, unit(eng))]
    n = eng.mk_len(st) if c.name not in ("sort", "swap", "reverse", "fill", "copy_within") and "sort" not in c.name else v.length()
    eng.write(st, r.root, r.path, VSeq(v.elty, [("top", st.fresh(c.name), n)], (), v.ty))
    if c.name in ("remove", "swap_remove"):
        return [(st, eng.mk_sym(st, st.fresh("removed"), c.ret))]
    return [(st, eng.mk_sym(st, st.fresh(c.name), c.ret))]


def index_op(eng, st, c, checked):
    """slice/vec indexing; checked: get() (Option) vs panicking"""
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    ln = v.length()
    i = c.args[1]
    el = eng.p.types[c.ret]
    if isinstance(i, Aff):
        cond = ge0(ln - i - 1)
        path = eng.sub_index(st, r.root, r.path, i)
    else:
        lo, hi, inc = range_bounds(eng, st, i)
        start = lo if lo is not None else ZERO
        end = hi if hi is not None else ln
        if inc:
            end = end + 1
        cond = band(ge0(end - start), ge0(ln - end))
        if start == ZERO and end == ln:
            path = r.path
        else:
            path = add_slice(r.path, start, end - start)
    return r, path, cond


def add_slice(path, start, n):
    if path and path[-1][0] == "s":
        s = path[-1]
        return path[:-1] + (("s", s[1] + start, n),)
    return path + (("s", start, n),)


@rx(r"(<std::(vec::Vec<T, A>|string::String) as std::ops::Index(Mut)?<.*>>::index(_mut)?|core::slice::index::<impl std::ops::Index(Mut)?<.*> for \[T\]>::index(_mut)?|std::array::<impl std::ops::Index(Mut)?<.*> for \[T; N\]>::index(_mut)?|core::str::traits::<impl std::ops::Index(Mut)?<.*> for str>::index(_mut)?)$")
def _index(eng, st, c):
    r, path, cond = index_op(eng, st, c, False)
    if not need(eng, st, c, cond, "index"):
        return []
    return [(st, VRef(r.root, path, eng.p.types[c.ret]["el"], r.mut))]


@rx(r"^core::slice::<impl \[T\]>::(get|get_mut)$|^core::str::<impl str>::(get|get_mut)$")
def _get(eng, st, c):
    r, path, cond = index_op(eng, st, c, True)
    out = []
    el = eng.p.types[targ(eng, c.ret, 0)]["el"]
    for s2, inb in eng.split(st, cond):
        out.append((s2, some(eng, c.ret, VRef(r.root, path, el, r.mut)) if inb else none(eng, c.ret)))
    return out


@rx(r"^core::slice::<impl \[T\]>::get_unchecked(_mut)?$")
def _getu(eng, st, c):
    r, path, cond = index_op(eng, st, c, False)
    st.assume(cond, eng)
    return [(st, VRef(r.root, path, eng.p.types[c.ret]["el"], r.mut))]


@rx(r"^core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$")
def _first(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    ln = v.length()
    out = []
    el = eng.p.types[targ(eng, c.ret, 0)]["el"]
    for s2, empty in eng.split(st, eq0(ln)):
        if empty:
            out.append((s2, none(eng, c.ret)))
        else:
            i = ZERO if c.name.startswith("first") else ln - 1
            out.append((s2, some(eng, c.ret, VRef(r.root, eng.sub_index(s2, r.root, r.path, i), el, r.mut))))
    return out


@rx(r"^core::slice::<impl \[T\]>::(split_at|split_at_mut)$")
def _split_at(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    n = c.args[1]
    if not need(eng, st, c, ge0(v.length() - n), "split_at"):
        return []
    el = r.ty
    a = VRef(r.root, add_slice(r.path, ZERO, n), el, r.mut)
    b = VRef(r.root, add_slice(r.path, n, v.length() - n), el, r.mut)
    return [(st, VAgg(c.ret, None, (a, b)))]


@rx(r"^core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$")
def _copy(eng, st, c):
    d = seq_ref(eng, st, c.args[0])
    dv = seqof(eng, st, d)
    s = seqof(eng, st, c.args[1])
    if not need(eng, st, c, eq0(dv.length() - s.length()), "copy_from_slice length"):
        return []
    if d.path and d.path[-1][0] == "s" or dv.over or not d.path:
        eng.write(st, d.root, d.path, with_ty(s, dv.ty))
    else:
        eng.write(st, d.root, d.path, with_ty(s, dv.ty))
    return [(st, unit(eng))]


@rx(r"^core::slice::<impl \[T\]>::iter(_mut)?$|^std::vec::Vec::<T, A>::iter(_mut)?$|^<&'a (mut )?(std::vec::Vec<T, A>|\[T\]) as std::iter::IntoIterator>::into_iter$|^core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$|^<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$")
def _iter(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    return [(st, VAgg(c.ret, None, (r, ZERO, seqof(eng, st, r).length())))]


@rx(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$")
def _iter_next(eng, st, c):
    p = c.args[0]
    it = eng.read(st, p.root, p.path)
    if not (isinstance(it, VAgg) and len(it.f) == 3 and isinstance(it.f[1], Aff)):
        return None
    r, i, n = it.f
    out = []
    el = eng.p.types[targ(eng, c.ret, 0)]["el"]
    for s2, more in eng.split(st, ge0(n - i - 1)):
        if more:
            if c.name == "next":
                eng.write(s2, p.root, p.path, VAgg(it.ty, None, (r, i + 1, n)))
                j = i
            else:
                eng.write(s2, p.root, p.path, VAgg(it.ty, None, (r, i, n - 1)))
                j = n - 1
            out.append((s2, some(eng, c.ret, VRef(r.root, eng.sub_index(s2, r.root, r.path, j), el, r.mut))))
        else:
            out.append((s2, none(eng, c.ret)))
    return out


@rx(r"^<std::ops::Range<.*> as std::iter::Iterator>::next$|^(std|core)::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$")
def _range_next(eng, st, c):
    p = c.args[0]
    it = eng.read(st, p.root, p.path)
    if isinstance(it, VSym):
        it = eng.expand(st, it)
    a, b = it.f[0], it.f[1]
    out = []
    for s2, more in eng.split(st, ge0(b - a - 1)):
        if more:
            eng.write(s2, p.root, p.path, VAgg(it.ty, None, (a + 1, b)))
            out.append((s2, some(eng, c.ret, a)))
        else:
            out.append((s2, none(eng, c.ret)))
    return out


@rx(r"^<.* as std::iter::IntoIterator>::into_iter$")
def _into_iter(eng, st, c):
    v = c.args[0]
    if isinstance(v, (VAgg, VSym)) and v.ty == c.ret:
        return [(st, v)]
    return None


# ---------------------------------------------------------------- binary searches (sorted slices)
def call_f(eng, st, c, f, args, ret):
    c2 = Call()
    c2.callee, c2.path, c2.rpath, c2.name, c2.body = {"path": "closure"}, "closure", "closure", "closure", None
    c2.args, c2.argtys, c2.ret = args, [], ret
    c2.span, c2.depth, c2.fn, c2.site = c.span, c.depth + 1, c.fn, c.site
    return eng.call_value(st, c2, f, args)


@rx(r"^core::slice::<impl \[T\]>::binary_search(_by_key|_by)?$")
def _bsearch(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    ln = v.length()
    u = eng.find_ty("usize")
    evt(eng, st, "bsearch", call=c, ref=r)
    by_key = c.name == "binary_search_by_key"
    by = c.name == "binary_search_by"
    key = None if by else deref(eng, st, c.args[1])
    f = c.args[2] if by_key else c.args[1] if by else None
    eln = v.elty

    def keyof(s, i):
        """[(state, relation aff: f(elem i) - key)]"""
        ref = VRef(r.root, eng.sub_index(s, r.root, r.path, i), eln, False)
        if by_key:
            outs = call_f(eng, s, c, f, [ref], eng.find_ty("u64"))
            return [(s2, deref(eng, s2, k) - key) for s2, k in outs if isinstance(deref(eng, s2, k), Aff)]
        if by:
            outs = call_f(eng, s, c, f, [ref], eng.find_ty("std::cmp::Ordering"))
            res = []
            for s2, o in outs:
                if isinstance(o, VSym) and o.name in getattr(eng, "cmp_syms", {}):
                    res.append((s2, eng.cmp_syms[o.name]))
                elif isinstance(o, VAgg):
                    res.append((s2, K(o.var - 1)))
                else:
                    raise Lost("binary_search_by closure")
            return res
        return [(s, deref(eng, s, eng.seq_get(s, v, i)) - key)]
    out = []
    nm = st.fresh(c.site + ":bs")
    i = atom_aff(Atom(nm, (), 0, ISZ))
    # Ok(i)
    s = st.copy()
    if s.assume(ge0(ln - i - 1), eng):
        for s2, d in keyof(s, i):
            if s2.assume(eq0(d), eng) and not s2.dead:
                out.append((s2, ok(eng, c.ret, i)))
    # Err(0)
    for s2, empty in eng.split(st.copy(), eq0(ln)):
        if empty:
            out.append((s2, err(eng, c.ret, ZERO)))
        else:
            for s3, d in keyof(s2, ZERO):
                if s3.assume(ge0(d - 1), eng) and not s3.dead:
                    out.append((s3, err(eng, c.ret, ZERO)))
    # Err(i), i >= 1
    s = st.copy()
    if s.assume(ge0(i - 1), eng) and s.assume(ge0(ln - i), eng):
        for s2, d in keyof(s, i - 1):
            if s2.assume(ge0(-d - 1), eng) and not s2.dead:
                for s3, end in eng.split(s2, eq0(ln - i)):
                    if end:
                        out.append((s3, err(eng, c.ret, i)))
                    else:
                        s3.assume(ge0(ln - i - 1), eng)
                        for s4, d2 in keyof(s3, i):
                            if s4.assume(ge0(d2 - 1), eng) and not s4.dead:
                                out.append((s4, err(eng, c.ret, i)))
    return out


@rx(r"^core::slice::<impl \[T\]>::partition_point$")
def _ppoint(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    ln = v.length()
    evt(eng, st, "bsearch", call=c, ref=r)
    bt = eng.find_ty("bool")

    def pred(s, i, want):
        ref = VRef(r.root, eng.sub_index(s, r.root, r.path, i), v.elty, False)
        res = []
        for s2, b in call_f(eng, s, c, c.args[1], [ref], bt):
            if s2.assume(b if want else bnot(b), eng) and not s2.dead:
                res.append(s2)
        return res
    nm = st.fresh(c.site + ":pp")
    i = atom_aff(Atom(nm, (), 0, ISZ))
    out = []
    for s, empty in eng.split(st.copy(), eq0(ln)):
        if empty:
            out.append((s, ZERO))
        else:
            out += [(x, ZERO) for x in pred(s, ZERO, False)]
    s = st.copy()
    if s.assume(ge0(i - 1), eng) and s.assume(ge0(ln - i), eng):
        for s2 in pred(s, i - 1, True):
            for s3, end in eng.split(s2, eq0(ln - i)):
                if end:
                    out.append((s3, i))
                else:
                    s3.assume(ge0(ln - i - 1), eng)
                    out += [(x, i) for x in pred(s3, i, False)]
    return out


# ---------------------------------------------------------------- tokio ReadBuf: (filled, cap, content, scratch)
RB = "tokio::io::ReadBuf"
F_CONTENT = ("f", 2, None)
F_SCRATCH = ("f", 3, None)


def rb(eng, st, ref):
    r = ref
    v = eng.read(st, r.root, r.path)
    while isinstance(v, VRef):
        r = v
        v = eng.read(st, r.root, r.path)
    if isinstance(v, VSym):
        v = eng.mk_sym(st, v.name, v.ty)
        eng.write(st, r.root, r.path, v)
    if not (isinstance(v, VAgg) and len(v.f) == 4):
        raise Lost("not a ReadBuf: %r" % (v,))
    return r, v


def rb_room(v):
    return v.f[1] - v.f[0]


def rb_set(eng, st, r, v, filled=None, content=None, scratch=None):
    n = VAgg(v.ty, None, (v.f[0] if filled is None else filled, v.f[1], v.f[2] if content is None else content, v.f[3] if scratch is None else scratch))
    eng.write(st, r.root, r.path, n)
    return n


def rb_append(eng, st, r, v, seq, how):
    n = rb_set(eng, st, r, v, v.f[0] + seq.length(), concat(v.f[2], seq), VSeq(v.f[2].elty, []))
    evt(eng, st, "rb_append", ref=r, seq=seq, how=how)
    return n


@rx(r"^tokio::io::ReadBuf::<'a>::(remaining|filled|filled_mut|capacity|clear|initialized)$")
def _rb_simple(eng, st, c):
    r, v = rb(eng, st, c.args[0])
    n = c.name
    if n == "remaining":
        return [(st, rb_room(v))]
    if n == "capacity":
        return [(st, v.f[1])]
    if n in ("filled", "filled_mut"):
        return [(st, VRef(r.root, r.path + (F_CONTENT,), eng.p.types[c.ret]["el"], n == "filled_mut"))]
    if n == "clear":
        rb_set(eng, st, r, v, ZERO, VSeq(v.f[2].elty, []), VSeq(v.f[2].elty, []))
        evt(eng, st, "rb_clear", ref=r, old=v)
        return [(st, unit(eng))]
    return None


@rx(r"^tokio::io::ReadBuf::<'a>::put_slice$|^<tokio::io::ReadBuf<.*> as bytes::BufMut>::put_slice$")
def _rb_put(eng, st, c):
    r, v = rb(eng, st, c.args[0])
    s = seqof(eng, st, c.args[1])
    if not need(eng, st, c, ge0(rb_room(v) - s.length()), "ReadBuf::put_slice room"):
        return []
    rb_append(eng, st, r, v, s, "put_slice")
    return [(st, unit(eng))]


@rx(r"^tokio::io::ReadBuf::<'a>::(initialize_unfilled_to|initialize_unfilled|unfilled_mut|inner_mut)$")
def _rb_unfilled(eng, st, c):
    r, v = rb(eng, st, c.args[0])
    if c.name == "inner_mut":
        return None
    n = rb_room(v)
    if c.name == "initialize_unfilled_to":
        n = c.args[1]
        if not need(eng, st, c, ge0(rb_room(v) - n), "ReadBuf::initialize_unfilled_to room"):
            return []
    u8 = v.f[2].elty
    sc = VSeq(u8, [("fill", ZERO, n)]) if c.name != "unfilled_mut" else VSeq(u8, [("top", st.fresh("unfilled"), n)])
    rb_set(eng, st, r, v, scratch=sc)
    return [(st, VRef(r.root, r.path + (F_SCRATCH,), eng.p.types[c.ret]["el"], True))]


@rx(r"^tokio::io::ReadBuf::<'a>::assume_init$")
def _rb_assume(eng, st, c):
    return [(st, unit(eng))]


@rx(r"^tokio::io::ReadBuf::<'a>::(advance|set_filled)$")
def _rb_advance(eng, st, c):
    r, v = rb(eng, st, c.args[0])
    n = c.args[1] if c.name == "advance" else c.args[1] - v.f[0]
    if c.name == "set_filled" and st.decide(ge0(n)) is not True:
        # shrinking: keeps a prefix
        out = []
        for s2, grow in eng.split(st, ge0(n)):
            if grow:
                out += _adv(eng, s2, c, r, v, n)
            else:
                rb_set(eng, s2, r, v, c.args[1], eng.seq_sub(s2, v.f[2], ZERO, c.args[1]), VSeq(v.f[2].elty, []))
                out.append((s2, unit(eng)))
        return out
    return _adv(eng, st, c, r, v, n)


def _adv(eng, st, c, r, v, n):
    sc = v.f[3]
    d = st.decide(ge0(sc.length() - n))
    if d is True:
        add = eng.seq_sub(st, sc, ZERO, n)
    else:
        if not need(eng, st, c, ge0(rb_room(v) - n), "ReadBuf::advance"):
            return []
        add = VSeq(v.f[2].elty, [("top", st.fresh("advance"), n)])
    rb_append(eng, st, r, v, add, "advance")
    return [(st, unit(eng))]


@rx(r"^tokio::io::ReadBuf::<'a>::take$")
def _rb_take(eng, st, c):
    r, v = rb(eng, st, c.args[0])
    n = c.args[1]
    out = []
    room = rb_room(v)
    for s2, fits in eng.split(st, ge0(room - n)):
        u8 = v.f[2].elty
        cap = n if fits else room
        out.append((s2, VAgg(c.ret, None, (ZERO, cap, VSeq(u8, []), VSeq(u8, [])))))
    return out


@rx(r"^tokio::io::ReadBuf::<'a>::(uninit|new)$")
def _rb_new(eng, st, c):
    s = seqof(eng, st, c.args[0])
    u8 = eng.find_ty("u8")
    return [(st, VAgg(c.ret, None, (ZERO, s.length(), VSeq(u8, []), VSeq(u8, []))))]


@exact("reader::get_read_buf!")
def _x(eng, st, c):
    return None


# ---------------------------------------------------------------- entry sources
def src_id(eng, st, selfv):
    r = pin_ref(eng, st, selfv)
    return (r.root, r.path)


def read_outcomes(eng, st, c, selfv, bufref, label):
    """AsyncRead-like poll: Pending / Ready(Err) / Ready(Ok) with 0..=room bytes appended"""
    rr, v = rb(eng, st, bufref)
    out = []
    s = st.copy()
    evt(eng, s, "src_read", outcome="pending", call=c, self_=selfv, buf=rr, n=ZERO, label=label)
    out.append((s, pending(eng, c.ret)))
    rt = targ(eng, c.ret, 0)
    s = st.copy()
    e = eng.mk_sym(s, s.fresh("srcerr:read"), variant_fields(eng, rt, 1)[0], ("srcerr", "read"))
    evt(eng, s, "src_read", outcome="err", call=c, self_=selfv, buf=rr, n=ZERO, label=label, err=e)
    out.append((s, ready(eng, c.ret, err(eng, rt, e))))
    s = st
    nm = s.fresh("src")
    n = atom_aff(Atom(nm + ".n", (), 0, ISZ))
    if s.assume(ge0(rb_room(v) - n), eng):
        seq = VSeq(v.f[2].elty, [("sym", nm, ZERO, n)])
        rb_append(eng, s, rr, v, seq, "src")
        evt(eng, s, "src_read", outcome="ok", call=c, self_=selfv, buf=rr, n=n, label=label, seq=seq)
        out.append((s, ready(eng, c.ret, ok(eng, rt, unit(eng)))))
    return out


@rx(r"^entry_data::EntryReader::poll_read$")
def _er_read(eng, st, c):
    return read_outcomes(eng, st, c, c.args[0], c.args[3], "EntryReader")


@rx(r"^tokio::io::AsyncRead::poll_read$|^<(tokio::fs::File|std::io::Cursor<T>) as tokio::io::AsyncRead>::poll_read$")
def _ar_read(eng, st, c):
    return read_outcomes(eng, st, c, c.args[0], c.args[2], c.rpath)


def start_seek_outcomes(eng, st, c, pos, label):
    out = []
    s = st.copy()
    e = eng.mk_sym(s, s.fresh("srcerr:start_seek"), variant_fields(eng, c.ret, 1)[0], ("srcerr", "start_seek"))
    evt(eng, s, "src_start_seek", outcome="err", call=c, self_=c.args[0], pos=pos, label=label, err=e)
    out.append((s, err(eng, c.ret, e)))
    evt(eng, st, "src_start_seek", outcome="ok", call=c, self_=c.args[0], pos=pos, label=label)
    out.append((st, ok(eng, c.ret, unit(eng))))
    return out


@rx(r"^entry_data::EntryReader::start_seek$")
def _er_sseek(eng, st, c):
    return start_seek_outcomes(eng, st, c, c.args[2], "EntryReader")


@rx(r"^tokio::io::AsyncSeek::start_seek$|^<(tokio::fs::File|std::io::Cursor<T>) as tokio::io::AsyncSeek>::start_seek$")
def _as_sseek(eng, st, c):
    return start_seek_outcomes(eng, st, c, c.args[1], c.rpath)


@rx(r"^entry_data::EntryReader::poll_seek_complete$|^tokio::io::AsyncSeek::poll_complete$|^<(tokio::fs::File|std::io::Cursor<T>) as tokio::io::AsyncSeek>::poll_complete$")
def _seek_complete(eng, st, c):
    rt = targ(eng, c.ret, 0)
    label = "EntryReader" if "EntryReader" in c.rpath else c.rpath
    out = []
    s = st.copy()
    evt(eng, s, "src_seek_complete", outcome="pending", call=c, self_=c.args[0], label=label)
    out.append((s, pending(eng, c.ret)))
    s = st.copy()
    e = eng.mk_sym(s, s.fresh("srcerr:seek"), variant_fields(eng, rt, 1)[0], ("srcerr", "seek"))
    evt(eng, s, "src_seek_complete", outcome="err", call=c, self_=c.args[0], label=label, err=e)
    out.append((s, ready(eng, c.ret, err(eng, rt, e))))
    p = atom_aff(Atom(st.fresh("seekpos"), (), 0, USZ))
    evt(eng, st, "src_seek_complete", outcome="ok", call=c, self_=c.args[0], label=label, pos=p)
    out.append((st, ready(eng, c.ret, ok(eng, rt, p))))
    return out


@rx(r"^entry_data::EntryData::get_reader$")
def _get_reader(eng, st, c):
    v = eng.mk_sym(st, st.fresh("future"), c.ret, ("future", canon(eng, st, c.args[0])))
    evt(eng, st, "src_get_reader", call=c, data=c.args[0], future=v)
    return [(st, v)]


@rx(r"^entry_data::EntryData::size$")
def _data_size(eng, st, c):
    evt(eng, st, "src_size", call=c, data=c.args[0])
    return [(st, uf(eng, st, c, "data_size"))]


@rx(r"^(std|core)::future::Future::poll$|^futures_core::Future::poll$|^<.*Pin<.*> as (std|core|futures_core)::(future::)?Future>::poll$|^<.*Box<.*> as (std|core|futures_core)::(future::)?Future>::poll$")
def _fut_poll(eng, st, c):
    try:
        r = pin_ref(eng, st, c.args[0])
        tgt = eng.read(st, r.root, r.path)
        while isinstance(tgt, (VRef,)) or (isinstance(tgt, VAgg) and eng.ty_path(tgt.ty) == "std::pin::Pin"):
            r = pin_ref(eng, st, tgt)
            tgt = eng.read(st, r.root, r.path)
    except Lost:
        r, tgt = None, None
    if isinstance(tgt, VAgg) and eng.p.types[tgt.ty]["k"] == "coroutine" and eng.p.types[tgt.ty].get("body") is not None and eng.p.bodies[eng.p.types[tgt.ty]["body"]]["local"]:
        return eng.run_coroutine(st, c, tgt, eng.p.types[tgt.ty]["body"])
    return fut_outcomes(eng, st, c, r, tgt)


def fut_outcomes(eng, st, c, r, tgt):
    out = []
    pt = eng.p.types[c.ret]
    inner = pt["args"][0]
    it = eng.p.types[inner]
    s = st.copy()
    evt(eng, s, "fut_poll", outcome="pending", call=c, ref=r, fut=tgt)
    out.append((s, pending(eng, c.ret)))
    if it["k"] == "adt" and it["path"] == "std::result::Result":
        s = st.copy()
        e = eng.mk_sym(s, s.fresh("srcerr:open"), variant_fields(eng, inner, 1)[0], ("srcerr", "open"))
        evt(eng, s, "fut_poll", outcome="err", call=c, ref=r, fut=tgt, err=e)
        out.append((s, ready(eng, c.ret, err(eng, inner, e))))
        v = eng.mk_sym(st, st.fresh("opened"), variant_fields(eng, inner, 0)[0], ("result-of", tgt))
        evt(eng, st, "fut_poll", outcome="ok", call=c, ref=r, fut=tgt, value=v)
        out.append((st, ready(eng, c.ret, ok(eng, inner, v))))
    else:
        v = eng.mk_sym(st, st.fresh("polled"), inner, ("result-of", tgt))
        evt(eng, st, "fut_poll", outcome="ok", call=c, ref=r, fut=tgt, value=v)
        out.append((st, ready(eng, c.ret, v)))
    return out


@exact("std::future::ready")
def _future_ready(eng, st, c):
    return [(st, VAgg(c.ret, None, (some_any(eng, c, c.args[0]),)))]


def some_any(eng, c, v):
    ft = eng.field_types(c.ret, None)
    if ft:
        return VAgg(ft[0], 1, (v,))
    return v


# ---------------------------------------------------------------- packed_struct leaf packers
def first_int(eng, st, v):
    v = deref(eng, st, v)
    for _ in range(6):
        if isinstance(v, Aff):
            return v
        if isinstance(v, VSym):
            v = eng.expand(st, v)
        if isinstance(v, VAgg):
            v = deref(eng, st, v.f[0])
            continue
        break
    raise Lost("no integer in %r" % (v,))


@rx(r"^<packed_struct::types::(Lsb|Msb)Integer<.*> as packed_struct::PackedStruct>::pack$")
def _lsb_pack(eng, st, c):
    v = first_int(eng, st, c.args[0])
    at = targ(eng, c.ret, 0)
    n = eng.p.types[at].get("len")
    if n is None:
        return None
    bs = mkbytes(eng, v, n)
    if "::MsbInteger" in c.rpath or "::MsbInteger" in c.path:
        bs = bs[::-1]
    return [(st, ok(eng, c.ret, VSeq(eng.find_ty("u8"), [("lit", tuple(bs))], (), at)))]


@rx(r"^packed_struct::types_basic::<impl packed_struct::PackedStruct for (bool|u8|i8)>::pack$")
def _bool_pack(eng, st, c):
    v = deref(eng, st, c.args[0])
    if isinstance(v, Bool):
        v = eng.bool_int(v)
    at = targ(eng, c.ret, 0)
    return [(st, ok(eng, c.ret, VSeq(eng.find_ty("u8"), [("lit", (v,))], (), at)))]


@rx(r"^packed_struct::types::bits::ByteArray::len$|^<.* as packed_struct::types::bits::ByteArray>::len$|^packed_struct::types_(array|bits).*::len$|ByteArray for .*::len$")
def _ba_len(eng, st, c):
    t = c.callee.get("targs") or []
    for x in t:
        if eng.p.types[x]["k"] == "array" and eng.p.types[x].get("len") is not None:
            return [(st, K(eng.p.types[x]["len"]))]
    return None


@rx(r"(ByteArray>?::|ByteArray for .*::)as_bytes_slice$|(ByteArray>?::|ByteArray for .*::)as_mut_bytes_slice$")
def _ba_slice(eng, st, c):
    r = c.args[0]
    return [(st, VRef(r.root, r.path, eng.p.types[c.ret]["el"], r.mut))]


# ---------------------------------------------------------------- crc32fast
def hasher(eng, st, ref):
    r = pin_ref(eng, st, ref)
    v = eng.read(st, r.root, r.path)
    while isinstance(v, VRef):
        r = v
        v = eng.read(st, r.root, r.path)
    return r, hval(eng, st, v)


def hval(eng, st, v):
    u8 = eng.find_ty("u8")
    if isinstance(v, VSym):
        n = atom_aff(Atom(v.name + ".fedlen", (), 0, USZ))
        return VAgg(v.ty, None, (VSeq(u8, [("sym", v.name + ".fed", ZERO, n)]),))
    if isinstance(v, VAgg) and len(v.f) == 1 and isinstance(v.f[0], VSeq):
        return v
    raise Lost("hasher %r" % (v,))


@rx(r"^crc32fast::Hasher::(new|new_with_initial|new_with_initial_len)$|^<crc32fast::Hasher as std::default::Default>::default$")
def _h_new(eng, st, c):
    u8 = eng.find_ty("u8")
    if c.args:
        return [(st, eng.mk_sym(st, st.fresh("hasher"), c.ret))]
    return [(st, VAgg(c.ret, None, (VSeq(u8, []),)))]


@rx(r"^crc32fast::Hasher::(update|reset|combine)$")
def _h_update(eng, st, c):
    r, v = hasher(eng, st, c.args[0])
    u8 = eng.find_ty("u8")
    if c.name == "reset":
        nv = VSeq(u8, [])
        evt(eng, st, "hash_reset", call=c, ref=r)
    elif c.name == "combine":
        nv = VSeq(u8, [("top", st.fresh("crc"), eng.mk_len(st))])
        evt(eng, st, "hash_update", call=c, ref=r, data=nv)
    else:
        d = seqof(eng, st, c.args[1])
        evt(eng, st, "hash_update", call=c, ref=r, data=d)
        nv = concat(v.f[0], VSeq(u8, d.segs, d.over))
    eng.write(st, r.root, r.path, VAgg(v.ty, None, (nv,)))
    return [(st, unit(eng))]


def crc_of(eng, seq):
    if seq.length() == ZERO:
        return ZERO
    return atom_aff(Atom("crc32", (short(seq),), 0, (1 << 32) - 1))


@rx(r"^crc32fast::Hasher::finalize$")
def _h_fin(eng, st, c):
    v = hval(eng, st, c.args[0])
    r = crc_of(eng, v.f[0])
    if r.t:
        eng.crc_terms[r.single()] = v.f[0]
    evt(eng, st, "hash_finalize", call=c, fed=v.f[0], value=r)
    return [(st, r)]


@exact("crc32fast::hash")
def _h_hash(eng, st, c):
    s = seqof(eng, st, c.args[0])
    evt(eng, st, "hash_oneshot", call=c, data=s)
    r = crc_of(eng, VSeq(eng.find_ty("u8"), s.segs, s.over))
    if r.t:
        eng.crc_terms[r.single()] = s
    return [(st, r)]


# ---------------------------------------------------------------- errors, formatting
@rx(r"(<impl std::io::Error>|std::io::Error)::(new|other|from_raw_os_error|from)$|^<std::io::Error as std::convert::From<std::io::ErrorKind>>::from$")
def _io_error(eng, st, c):
    args = tuple(canon(eng, st, a) for a in c.args)
    nm = "ioerr:%s(%s)" % (c.name, ", ".join(short(a) for a in args))
    v = VSym(nm, c.ret, ("ioerr", c.name, args))
    eng.origins[nm] = v.origin
    evt(eng, st, "io_error", call=c, args=args, value=v)
    return [(st, v)]


@rx(r"^std::io::Error::(kind|raw_os_error|get_ref|to_string)$")
def _ioerr_q(eng, st, c):
    return [(st, uf(eng, st, c, "ioerr_" + c.name))]


@rx(r"^core::fmt::rt::Argument::<'_>::new_\w+$")
def _fmt_arg(eng, st, c):
    return [(st, VAgg(c.ret, None, (c.args[0], K(1 if c.name == "new_display" else 0))))]


@rx(r"^std::fmt::Arguments::<'a>::(from_str|from_str_nonconst)$")
def _args_str(eng, st, c):
    return [(st, VAgg(c.ret, None, (c.args[0], UNDEF)))]


@rx(r"^std::fmt::Arguments::<'a>::new$")
def _args_new(eng, st, c):
    return [(st, VAgg(c.ret, None, (c.args[0], c.args[1])))]


def show_value(eng, st, v, display):
    v = deref(eng, st, v)
    if isinstance(v, VSym) and eng.ty_path(v.ty) == "std::borrow::Cow":
        v = eng.read(st, ("O", "deref(%s)" % v.name), ()) if ("O", "deref(%s)" % v.name) in eng.objty else v
    if isinstance(v, VSeq) and display:
        return VSeq(eng.find_ty("u8"), v.segs, v.over)
    nm = "%s(%s)" % ("display" if display else "debug", short(v))
    eng.displayed[nm] = v
    if isinstance(v, Aff) and v.is_const and display:
        return VSeq(eng.find_ty("u8"), [("lit", tuple(K(ord(ch)) for ch in str(v.c)))])
    return VSeq(eng.find_ty("u8"), [("sym", nm, ZERO, atom_aff(Atom(nm + ".len", (), 0, ISZ)))])


def fmt_pieces(eng, st, v):
    """string value of a fmt::Arguments"""
    u8 = eng.find_ty("u8")
    if v.f[1] is UNDEF:
        return seqof(eng, st, v.f[0])
    tpl = seqof(eng, st, v.f[0])
    args = seqof(eng, st, v.f[1])
    if not (len(tpl.segs) == 1 and tpl.segs[0][0] == "lit"):
        raise Lost("format template")
    b = [x.c for x in tpl.segs[0][1]]
    out = VSeq(u8, [])
    i, ai = 0, 0
    while i < len(b):
        n = b[i]
        if n == 0:
            break
        if n < 0x80:
            out = concat(out, VSeq(u8, [("lit", tuple(K(x) for x in b[i + 1:i + 1 + n]))]))
            i += 1 + n
        elif n == 0xC0:
            a = eng.seq_get(st, args, K(ai))
            ai += 1
            if isinstance(a, VAgg):
                out = concat(out, show_value(eng, st, a.f[0], a.f[1] == ONE))
            else:
                raise Lost("format argument")
            i += 1
        elif n > 0xC0 and n & 8 and not n & 7 and i + 2 < len(b):
            # explicit argument position, no formatting options
            idx = b[i + 1] | (b[i + 2] << 8)
            a = eng.seq_get(st, args, K(idx))
            if isinstance(a, VAgg):
                out = concat(out, show_value(eng, st, a.f[0], a.f[1] == ONE))
            else:
                raise Lost("format argument")
            ai = idx + 1
            i += 3
        else:
            raise Lost("format template byte %d" % n)
    return out


@rx(r"^(std|alloc)::fmt::format$")
def _format(eng, st, c):
    try:
        s = fmt_pieces(eng, st, c.args[0])
        return [(st, with_ty(s, c.ret))]
    except Lost:
        return [(st, eng.mk_sym(st, st.fresh("format"), c.ret))]


@rx(r"^<.* as std::string::ToString>::to_string$|^std::string::ToString::to_string$")
def _to_string(eng, st, c):
    s = show_value(eng, st, c.args[0], True)
    return [(st, with_ty(s, c.ret))]


@rx(r"^<std::string::String as std::fmt::Write>::write_fmt$|^std::fmt::Write::write_fmt$")
def _write_fmt(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    try:
        s = fmt_pieces(eng, st, c.args[1])
    except Lost:
        s = VSeq(v.elty, [("top", st.fresh("format"), eng.mk_len(st))])
    eng.write(st, r.root, r.path, with_ty(concat(v, s), v.ty))
    return [(st, ok(eng, c.ret, unit(eng)))]


@rx(r"^assert2::.*")
def _assert2(eng, st, c):
    return [(st, eng.mk_sym(st, st.fresh("assert2"), c.ret))]


@rx(r"^std::fmt::Formatter::<'a>::|^<.* as std::fmt::(Debug|Display)>::fmt$|^core::fmt::builders::")
def _fmtter(eng, st, c):
    return [(st, eng.mk_sym(st, st.fresh("fmt"), c.ret))]


# ---------------------------------------------------------------- str
def str_lit(v):
    if isinstance(v, VSeq) and len(v.segs) <= 1 and not v.over:
        if not v.segs:
            return ""
        if v.segs[0][0] == "lit" and all(isinstance(x, Aff) and x.is_const for x in v.segs[0][1]):
            return bytes(x.c for x in v.segs[0][1]).decode("utf8", "replace")
    return None


def pattern(eng, st, v):
    v = deref(eng, st, v)
    if isinstance(v, Aff) and v.is_const:
        return chr(v.c)
    if isinstance(v, VSeq):
        return str_lit(v)
    return None


@rx(r"^core::str::<impl str>::(trim_end_matches|trim_start_matches|trim_matches|trim|trim_end|trim_start)$")
def _trim(eng, st, c):
    s = seqof(eng, st, c.args[0])
    p = pattern(eng, st, c.args[1]) if len(c.args) > 1 else " "
    k = str_lit(s)
    el = eng.p.types[c.ret]["el"]
    u8 = eng.find_ty("u8")
    if p is not None and k is not None and len(c.args) > 1:
        t = k
        if c.name in ("trim_end_matches", "trim_matches"):
            while p and t.endswith(p):
                t = t[:-len(p)]
        if c.name in ("trim_start_matches", "trim_matches"):
            while p and t.startswith(p):
                t = t[len(p):]
        return [(st, VRef(("S", t), (), el, False))]
    nm = "%s(%s, %r)" % (c.name, short(s), p)
    n = atom_aff(Atom(nm + ".len", (), 0, ISZ))
    st.assume(ge0(s.length() - n), eng)
    eng.trims[nm] = (c.name, s, p)
    r = c.args[0]
    while isinstance(r, VRef):
        x = eng.read(st, r.root, r.path)
        if isinstance(x, VRef):
            r = x
        else:
            break
    if c.name in ("trim_end_matches", "trim_end") and isinstance(r, VRef):
        # a prefix of the argument
        eng.trimlen[nm + ".len"] = nm
        return [(st, VRef(r.root, add_slice(r.path, ZERO, n), el, False))]
    root = ("O", nm)
    st.store[root] = VSeq(u8, [("sym", nm, ZERO, n)], (), el)
    return [(st, VRef(root, (), el, False))]


@rx(r"^core::str::<impl str>::(strip_suffix|strip_prefix)$|^core::slice::<impl \[T\]>::(strip_suffix|strip_prefix)$")
def _strip(eng, st, c):
    s = seqof(eng, st, c.args[0])
    p = pattern(eng, st, c.args[1])
    nm = "%s(%s, %r)" % (c.name, short(s), p)
    if p is None:
        return [(st, uf(eng, st, c, c.name))]
    k = str_lit(s)
    el = eng.p.types[targ(eng, c.ret, 0)]["el"]
    if k is not None:
        if (c.name == "strip_suffix" and k.endswith(p)) or (c.name == "strip_prefix" and k.startswith(p)):
            t = k[:len(k) - len(p)] if c.name == "strip_suffix" else k[len(p):]
            return [(st, some(eng, c.ret, VRef(("S", t), (), el, False)))]
        return [(st, none(eng, c.ret))]
    out = []
    l = lit("%s(%s, %r)" % ("ends_with" if c.name == "strip_suffix" else "starts_with", short(s), p))
    r = seq_ref(eng, st, c.args[0])
    for s2, t in eng.split(st, l):
        if t:
            m = s.length() - len(p)
            if not s2.assume(ge0(m), eng):
                continue
            path = add_slice(r.path, ZERO if c.name == "strip_suffix" else K(len(p)), m)
            out.append((s2, some(eng, c.ret, VRef(r.root, path, el, False))))
        else:
            out.append((s2, none(eng, c.ret)))
    return out


@rx(r"^core::str::<impl str>::(ends_with|starts_with|contains|eq_ignore_ascii_case)$|^core::slice::<impl \[T\]>::(ends_with|starts_with|contains)$")
def _str_pred(eng, st, c):
    s = seqof(eng, st, c.args[0])
    p = pattern(eng, st, c.args[1])
    k = str_lit(s)
    if p is not None and k is not None:
        b = {"ends_with": k.endswith(p), "starts_with": k.startswith(p), "contains": p in k, "eq_ignore_ascii_case": k.lower() == p.lower()}[c.name]
        return [(st, bconst(b))]
    if p is not None and c.name == "ends_with" and s.segs and s.segs[-1][0] == "lit":
        t = s.segs[-1][1]
        if len(t) >= len(p) and all(isinstance(x, Aff) and x.is_const for x in t):
            return [(st, bconst(bytes(x.c for x in t).decode("latin1").endswith(p)))]
    if p is not None and c.name == "ends_with" and s.segs and s.segs[-1][0] == "sym":
        nm = s.segs[-1][1]
        if nm in eng.trims and eng.trims[nm][2] == p and eng.trims[nm][0] in ("trim_end_matches", "trim_matches"):
            return [(st, FALSE)]
    return [(st, lit("%s(%s, %r)" % (c.name, short(s), p)))]


@rx(r"core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$|^<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$|core::slice::cmp::<impl std::cmp::PartialEq<.*> for \[.*\]>::(eq|ne)$|^<std::vec::Vec<.*> as std::cmp::PartialEq<.*>>::(eq|ne)$|impl std::cmp::PartialEq<.*> for (std::string::String|str|&'?\w* ?str)>::(eq|ne)$")
def _str_eq(eng, st, c):
    a, b = seqof(eng, st, c.args[0]), seqof(eng, st, c.args[1])
    x, y = str_lit(a), str_lit(b)
    if x is not None and y is not None:
        r = bconst(x == y)
    elif a.segs == b.segs and a.over == b.over:
        r = TRUE
    elif y == "":
        r = eq0(a.length())
    elif x == "":
        r = eq0(b.length())
    elif st.decide(eq0(a.length() - b.length())) is False:
        r = FALSE
    else:
        r = lit("eq(%s, %s)" % tuple(sorted((short(a), short(b)))))
    return [(st, r if c.name == "eq" else bnot(r))]


@rx(r"^core::str::<impl str>::(bytes|chars|char_indices|split|rsplit|lines|parse|find|rfind|to_lowercase|to_uppercase|to_ascii_lowercase|repeat|replace|split_once|rsplit_once|is_char_boundary|chars|as_ptr)$")
def _str_other(eng, st, c):
    if c.name == "is_char_boundary":
        return [(st, lit(uf_name(eng, st, "is_char_boundary", c.args)))]
    return [(st, uf(eng, st, c, "str_" + c.name))]


@rx(r"^<std::borrow::Cow<'_, B> as std::ops::Deref>::deref$|^<std::borrow::Cow<.*> as std::convert::AsRef<.*>>::as_ref$")
def _cow(eng, st, c):
    v = deref1(eng, st, c.args[0])
    el = eng.p.types[c.ret]["el"]
    if isinstance(v, VSym):
        root = ("O", "deref(%s)" % v.name)
        eng.objty[root] = el
        return [(st, VRef(root, (), el, False))]
    return None


@rx(r"^std::borrow::Cow::<'_, B>::into_owned$|^<std::string::String as std::convert::From<std::borrow::Cow<.*>>>::from$")
def _cow_owned(eng, st, c):
    v = c.args[0]
    if isinstance(v, VSym):
        root = ("O", "deref(%s)" % v.name)
        if root not in eng.objty:
            eng.objty[root] = eng.find_ty("str")
        s = eng.as_seq(st, eng.root_value(st, root))
        return [(st, with_ty(s, c.ret))]
    return None


# ---------------------------------------------------------------- paths / metadata
@rx(r"^std::path::(Path|PathBuf)::(strip_prefix|to_string_lossy|file_name|parent|join|extension|to_str|display|starts_with|is_absolute|components|with_extension)$")
def _path(eng, st, c):
    evt(eng, st, "path_op", call=c)
    return [(st, uf(eng, st, c, c.name))]


@rx(r"^std::fs::(Metadata|FileType)::(is_dir|is_symlink|is_file|len|permissions|modified|file_type|accessed|created)$|^<std::fs::(Metadata|Permissions|FileType) as .*>::\w+$|^<std::fs::Permissions as .*PermissionsExt>::mode$|^std::fs::Permissions::readonly$")
def _metadata(eng, st, c):
    v = canon(eng, st, c.args[0])
    if isinstance(v, VSym) and eng.origins.get(v.name, (0, 0))[1] == "file_type" and c.name in ("is_dir", "is_symlink", "is_file"):
        v = eng.origins[v.name][2][0]
    nm = "%s(%s)" % (c.name, short(v))
    if c.name in ("is_dir", "is_symlink", "is_file"):
        kinds = ("is_dir", "is_symlink", "is_file")
        for k in kinds:
            for j in kinds:
                if k != j:
                    key = ("%s(%s)" % (k, short(v)), True)
                    imp = (None, lit("%s(%s)" % (j, short(v)), False))
                    if imp not in eng.implications.setdefault(key, []):
                        eng.implications[key].append(imp)
        return [(st, lit(nm))]
    eng.origins[nm] = ("uf", c.name, (v,))
    return [(st, eng.mk_sym(st, nm, c.ret, ("uf", c.name, (v,))))]


@rx(r"^tokio::fs::.*\{closure#0\}$")
def _tokio_fs(eng, st, c):
    try:
        r = pin_ref(eng, st, c.args[0])
        fut = eng.read(st, r.root, r.path)
    except Lost:
        fut = None
    inner = eng.p.types[c.ret]["args"][0]
    it = eng.p.types[inner]
    fn = c.rpath.split("::{closure")[0]
    out = []
    src = getattr(fut, "origin", None)
    args = src[2] if src else ()
    nm = "%s(%s)#%d" % (fn, ", ".join(short(canon(eng, st, a)) for a in args), st.n)
    st.n += 1
    if it["k"] == "adt" and it["path"] == "std::result::Result":
        s = st.copy()
        e = eng.mk_sym(s, "err:" + nm, variant_fields(eng, inner, 1)[0], ("srcerr", fn))
        evt(eng, s, "fs_call", outcome="err", fn=fn, args=args, err=e, call=c)
        out.append((s, ready(eng, c.ret, err(eng, inner, e))))
        v = eng.mk_sym(st, "ok:" + nm, variant_fields(eng, inner, 0)[0], ("fs", fn, args))
        eng.origins["ok:" + nm] = ("fs", fn, args)
        evt(eng, st, "fs_call", outcome="ok", fn=fn, args=args, value=v, call=c)
        out.append((st, ready(eng, c.ret, ok(eng, inner, v))))
    else:
        v = eng.mk_sym(st, "ok:" + nm, inner, ("fs", fn, args))
        evt(eng, st, "fs_call", outcome="ok", fn=fn, args=args, value=v, call=c)
        out.append((st, ready(eng, c.ret, v)))
    return out


@rx(r"^tokio::fs::(\w+)$|^tokio::fs::(DirEntry|ReadDir|File|OpenOptions)::\w+$|^std::fs::(read_dir|metadata|symlink_metadata|read_link|read|File::open)$")
def _tokio_fs_start(eng, st, c):
    args = tuple(canon(eng, st, a) for a in c.args)
    t = eng.p.types[c.ret]
    nm = uf_name(eng, st, c.rpath, c.args)
    if t["k"] == "coroutine":
        v = VSym(nm + "#%d" % st.n, c.ret, ("call", c.rpath, args))
    else:
        v = eng.mk_sym(st, nm, c.ret, ("uf", c.rpath, args))
        eng.origins[nm] = ("uf", c.rpath, args)
    evt(eng, st, "fs_start", fn=c.rpath, args=args, call=c, value=v)
    return [(st, v)]


@rx(r"^std::path::Path::(is_dir|is_file|is_symlink|exists)$")
def _path_stat(eng, st, c):
    args = tuple(canon(eng, st, a) for a in c.args)
    v = lit(uf_name(eng, st, "Path::" + c.name, c.args) + "#%d" % st.n)
    st.n += 1
    evt(eng, st, "fs_start", fn=c.rpath, args=args, call=c, value=v)
    return [(st, v)]


@rx(r"^std::path::PathBuf::(into_os_string|into_boxed_path)$|^std::ffi::OsString::(into_encoded_bytes|into_boxed_os_str|into_string)$|^<std::ffi::OsString as .*::into_vec$|^<std::ffi::OsStr as .*OsStrExt>::as_bytes$|^std::ffi::OsStr::(to_string_lossy|to_os_string|to_str)$")
def _os_conv(eng, st, c):
    return [(st, uf(eng, st, c, c.name))]


@exact("std::io::Cursor::<T>::new")
def _cursor_new(eng, st, c):
    return [(st, VAgg(c.ret, None, (c.args[0], ZERO)))]


# ---------------------------------------------------------------- maps
MAPRX = r"(indexmap::(map::)?IndexMap|std::collections::(HashMap|BTreeMap|hash_map::HashMap))(::)?<.*>::"


@rx(r"^indexmap::IndexMap::<K, V>::(new|with_capacity)$")
def _map_new(eng, st, c):
    return [(st, eng.mk_sym(st, "emptymap", c.ret, ("emptymap",)))]


def map_ref(eng, st, v):
    r = v
    x = eng.read(st, r.root, r.path)
    while isinstance(x, VRef):
        r = x
        x = eng.read(st, r.root, r.path)
    return r, x


@rx(r"^indexmap::IndexMap::<K, V, S>::(entry|entry_ref)$")
def _map_entry(eng, st, c):
    r, m = map_ref(eng, st, c.args[0])
    key = c.args[1]
    present = lit("has_key(%s, %s)" % (short(m), short(key)))
    out = []
    ft0 = variant_fields(eng, c.ret, 0)
    names = [v["n"] for v in eng.p.types[c.ret]["variants"]]
    for s2, p in eng.split(st, present):
        kind = "Occupied" if p else "Vacant"
        vi = names.index(kind)
        ety = variant_fields(eng, c.ret, vi)[0]
        nm = s2.fresh("mapentry" + kind)
        v = VSym(nm, ety, ("mapentry", kind, r, key))
        eng.mapentries[nm] = (kind, r, key)
        evt(eng, s2, "map_entry", kind_=kind, ref=r, key=key, call=c)
        out.append((s2, VAgg(c.ret, vi, (v,))))
    return out


@rx(r"^indexmap::map::(Vacant|Occupied)Entry::<'a, K, V>::(insert|key|into_key|get|get_mut|into_mut|index|remove|swap_remove|shift_remove|insert_entry)$|^indexmap::map::entry::(Vacant|Occupied)Entry::.*::\w+$")
def _map_entry_op(eng, st, c):
    v = deref(eng, st, c.args[0])
    me = eng.mapentries.get(getattr(v, "name", None))
    if me is None:
        return None
    kind, r, key = me
    if c.name in ("key", "into_key"):
        if c.name == "into_key":
            return [(st, key)]
        root = ("K", st.fresh("key"))
        st.store[root] = key
        return [(st, VRef(root, (), eng.p.types[c.ret]["el"], False))]
    if c.name == "insert":
        val = c.args[1]
        root = ("K", st.fresh("inserted"))
        evt(eng, st, "map_insert", ref=r, key=key, value=val, kind_=kind, call=c, slot=root)
        m = eng.read(st, r.root, r.path)
        eng.write(st, r.root, r.path, VSym("insert(%s, %s)" % (short(m), short(key)), m.ty, ("insert", m, key)))
        if kind == "Vacant":
            st.store[root] = val
            return [(st, VRef(root, (), eng.p.types[c.ret]["el"], True))]
        return [(st, eng.mk_sym(st, st.fresh("replaced"), c.ret))]
    if c.name == "index":
        return [(st, uf(eng, st, c, "map_index"))]
    evt(eng, st, "map_other", ref=r, call=c)
    if c.name in ("remove", "swap_remove", "shift_remove"):
        eng.write(st, r.root, r.path, eng.mk_sym(st, st.fresh("map"), eng.read(st, r.root, r.path).ty))
    return [(st, eng.mk_sym(st, st.fresh("mapval"), c.ret))]


@rx(r"^indexmap::IndexMap::<K, V, S>::(len|is_empty|contains_key|get|get_mut|get_index|get_index_of|get_full|first|last|iter|values|keys|iter_mut|values_mut|insert|insert_full|swap_remove|shift_remove|clear|pop|get_index_mut|reserve|retain|sort_keys|shift_insert|insert_sorted|reverse|truncate|drain)$|^indexmap::IndexMap::<.*>::\w+$")
def _map_other(eng, st, c):
    n = c.name
    r, m = map_ref(eng, st, c.args[0]) if isinstance(c.args[0], VRef) else (None, c.args[0])
    if n == "len":
        return [(st, atom_aff(Atom("maplen(%s)" % short(m), (), 0, ISZ)))]
    if n == "is_empty":
        return [(st, eq0(atom_aff(Atom("maplen(%s)" % short(m), (), 0, ISZ))))]
    if n == "contains_key":
        return [(st, lit("has_key(%s, %s)" % (short(m), short(canon(eng, st, c.args[1])))))]
    if n in ("insert", "insert_full", "shift_insert", "insert_sorted", "insert_before", "insert_unique_unchecked"):
        key, val = (c.args[1], c.args[2]) if n not in ("shift_insert", "insert_before") else (c.args[2], c.args[3])
        pres = st.decide(lit("has_key(%s, %s)" % (short(m), short(key))))
        evt(eng, st, "map_insert", ref=r, key=key, value=val, kind_="Vacant" if pres is False else "Any", call=c, slot=("O", "mapval(%s)" % short(key)))
        eng.write(st, r.root, r.path, VSym("insert(%s, %s)" % (short(m), short(key)), m.ty, ("insert", m, key)))
        root = ("O", "mapval(%s)" % short(key))
        st.store[root] = val
        eng.objty[root] = eng.val_ty(val, None)
        if n == "insert_full":
            u = eng.find_ty("usize")
            o = none(eng, eng.field_types(c.ret, None)[1]) if pres is False else eng.mk_sym(st, st.fresh("old"), eng.field_types(c.ret, None)[1])
            return [(st, VAgg(c.ret, None, (atom_aff(Atom(st.fresh("idx"), (), 0, ISZ)), o)))]
        if pres is False and eng.ty_path(c.ret) == "std::option::Option":
            return [(st, none(eng, c.ret))]
        return [(st, eng.mk_sym(st, st.fresh("old"), c.ret))]
    if n in ("get", "get_mut") and isinstance(m, VSym) and m.origin and m.origin[0] == "insert" and short(m.origin[2]) == short(canon(eng, st, c.args[1])):
        root = ("O", "mapval(%s)" % short(m.origin[2]))
        if root in st.store:
            return [(st, some(eng, c.ret, VRef(root, (), eng.p.types[targ(eng, c.ret, 0)]["el"], True)))]
    if n in ("get", "get_index", "get_index_of", "get_full", "first", "last", "iter", "values", "keys"):
        return [(st, uf(eng, st, c, "map_" + n))]
    evt(eng, st, "map_other", ref=r, call=c)
    if n in ("reserve", "get_mut", "get_index_mut", "iter_mut", "values_mut", "first_mut", "last_mut"):
        return [(st, eng.mk_sym(st, st.fresh("map_" + n), c.ret))]
    if r is not None:
        eng.write(st, r.root, r.path, eng.mk_sym(st, st.fresh("map"), m.ty))
    return [(st, eng.mk_sym(st, st.fresh("map_" + n), c.ret))]


@rx(r"^indexmap::map::iter::<impl std::iter::IntoIterator for (&'a (mut )?)?indexmap::IndexMap<K, V, S>>::into_iter$")
def _map_into_iter(eng, st, c):
    m = canon(eng, st, c.args[0])
    evt(eng, st, "map_iter", call=c, map=m)
    return [(st, VAgg(c.ret, None, (m, ZERO, FALSE)))]


@rx(r"^<indexmap::map::IntoIter<K, V> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$")
def _map_next(eng, st, c):
    p = c.args[0]
    it = eng.read(st, p.root, p.path)
    if not (isinstance(it, VAgg) and len(it.f) == 3):
        return None
    m, k, rev = it.f
    ln = atom_aff(Atom("maplen(%s)" % short(m), (), 0, ISZ))
    out = []
    tup = targ(eng, c.ret, 0)
    for s2, more in eng.split(st, ge0(ln - k - 1)):
        if more:
            idx = k if c.name == "next" else ln - 1 - k
            nm = "item(%s)[%r]" % (short(m), idx)
            v = eng.mk_sym(s2, nm, tup, ("mapitem", m, idx))
            v = eng.expand(s2, v)
            v = eng.hooks.map_item_value(s2, v) or v
            eng.write(s2, p.root, p.path, VAgg(it.ty, None, (m, k + 1, rev)))
            evt(eng, s2, "map_item", call=c, map=m, index=k, item=v, dir=c.name)
            out.append((s2, some(eng, c.ret, v)))
        else:
            evt(eng, s2, "map_end", call=c, map=m, index=k)
            out.append((s2, none(eng, c.ret)))
    return out


# ---------------------------------------------------------------- generic iterator adapters
def loop_model(eng, st, c, tag, step):
    """Fixpoint of a repeated step: step(state) -> [(state, done: bool, value)]; returns the done ones."""
    hd = []
    work = [st]
    outs = []
    dirty = {}
    gen0, st.gen = st.gen, ()
    while work or dirty:
        if work:
            s = work.pop()
            if s.dead or eng.stale(s):
                continue
            key = []
            for root in sorted(s.store, key=repr):
                if root[0] in ("S", "B"):
                    continue
                eng._vkey(s, s.store[root], (root,), key, 0)
            for n, v in eng.hooks.extra_key(s):
                key.append(((("G", "key", n),), v))
            key = tuple(key)
            info = eng.find_head(hd, key)
            if info is None:
                info = eng.new_head(key, s)
                hd.append(info)
                h = s
            else:
                changed, h = info.absorb(eng, s, (tag, 0, c.depth))
                if not changed:
                    continue
                if info.rounds > 300:
                    raise Lost("iterator loop does not stabilise")
                h = h.copy()
            h.gen = ((info, info.rounds),)
            dirty[id(info)] = h
            continue
        s = dirty.pop(next(iter(dirty)))
        for s2, done, val in step(s):
            if s2.dead:
                continue
            if done:
                outs.append((s2, val))
            else:
                work.append(s2)
    res = []
    for s2, v in outs:
        if not eng.stale(s2):
            s2.gen = gen0
            res.append((s2, v))
    return res


@rx(r"^(<.* as )?std::iter::Iterator>?::(map|enumerate|rev|filter|filter_map|zip|chain|take|skip|peekable|copied|cloned|inspect|by_ref|scan|flat_map|step_by|take_while|skip_while|map_while|fuse)$")
def _iter_adapt(eng, st, c):
    if c.name == "by_ref":
        return [(st, c.args[0])]
    return [(st, VAgg(c.ret, None, ("adapt", c.name) and tuple(c.args)))]


def iter_next(eng, st, c, ref, ity):
    """next() of an iterator value stored at ref -> [(state, item|None)]"""
    it = eng.read(st, ref.root, ref.path)
    t = eng.p.types[it.ty] if isinstance(it, (VAgg, VSym)) else None
    if t is None:
        raise Lost("iterator %r" % (it,))
    p = t.get("path", "")
    name = p.split("::")[-1]
    if name == "Map" and isinstance(it, VAgg) and len(it.f) == 2:
        out = []
        sub = VRef(ref.root, ref.path + (("f", 0, None),), it.f[0].ty, True)
        for s2, x in iter_next(eng, st, c, sub, it.f[0].ty):
            if x is None:
                out.append((s2, None))
            else:
                fref = VRef(ref.root, ref.path + (("f", 1, None),), None, True)
                f = eng.read(s2, fref.root, fref.path)
                rt = closure_ret(eng, f)
                for s3, y in call_f(eng, s2, c, fref if isinstance(f, VAgg) else f, [x], rt):
                    out.append((s3, y))
        return out
    if name == "Enumerate" and isinstance(it, VAgg):
        if len(it.f) == 1:
            it = VAgg(it.ty, None, (it.f[0], ZERO))
            eng.write(st, ref.root, ref.path, it)
        out = []
        sub = VRef(ref.root, ref.path + (("f", 0, None),), it.f[0].ty, True)
        for s2, x in iter_next(eng, st, c, sub, it.f[0].ty):
            if x is None:
                out.append((s2, None))
                continue
            cur = eng.read(s2, ref.root, ref.path + (("f", 1, None),))
            eng.write(s2, ref.root, ref.path + (("f", 1, None),), cur + 1)
            tt = None
            for i, ty in enumerate(eng.p.types):
                if ty["k"] == "tuple" and len(ty["els"]) == 2 and eng.p.types[ty["els"][0]]["s"] == "usize" and ty["els"][1] == eng.val_ty(x, -2):
                    tt = i
                    break
            out.append((s2, VAgg(tt if tt is not None else eng.find_ty("()"), None, (cur, x))))
        return out
    # base iterators
    for pat, fn in ((r"IntoIter$", _map_next), (r"slice::Iter(Mut)?$", _iter_next), (r"ops::Range$", _range_next)):
        if re.search(pat, p):
            opt = option_of(eng, it, p)
            c2 = Call()
            c2.callee, c2.path, c2.rpath, c2.name, c2.body = {}, "next", "next", "next", None
            c2.args, c2.argtys, c2.ret = [ref], [], opt
            c2.span, c2.depth, c2.fn, c2.site = c.span, c.depth + 1, c.fn, c.site
            r = fn(eng, st, c2)
            if r is None:
                break
            return [(s2, v.f[0] if v.var == 1 else None) for s2, v in r]
    raise Lost("iterator " + p)


def option_ty(eng, el):
    """the type Option<el>, made up when the program never names it"""
    tpl = None
    for i, ty in enumerate(eng.p.types):
        if ty["k"] == "adt" and ty["path"] == "std::option::Option" and ty["args"]:
            if ty["args"][0] == el:
                return i
            tpl = tpl or ty
    if tpl is None:
        raise Lost("no Option type")
    import copy
    t = copy.deepcopy(tpl)
    old = tpl["args"][0]
    t["args"] = [el] + list(tpl["args"][1:])
    t["s"] = "std::option::Option<%s>" % eng.p.types[el]["s"]
    for v in t["variants"]:
        for f in v["f"]:
            if f["t"] == old:
                f["t"] = el
    eng.p.types.append(t)
    return len(eng.p.types) - 1


def tuple_ty(eng, els):
    for i, ty in enumerate(eng.p.types):
        if ty["k"] == "tuple" and ty["els"] == list(els):
            return i
    eng.p.types.append({"k": "tuple", "els": list(els), "s": "(%s)" % ", ".join(eng.p.types[e]["s"] for e in els)})
    return len(eng.p.types) - 1


def option_of(eng, it, p):
    t = eng.p.types[it.ty]
    if p.endswith("map::IntoIter"):
        return option_ty(eng, tuple_ty(eng, [t["args"][0], t["args"][1]]))
    elif "slice::Iter" in p:
        for i, ty in enumerate(eng.p.types):
            if ty["k"] == "adt" and ty["path"] == "std::option::Option" and ty["args"]:
                a = eng.p.types[ty["args"][0]]
                if a["k"] == "ref" and a["el"] == it.f[0].ty or (a["k"] == "ref" and eng.p.types[it.f[0].ty].get("el") == a["el"]):
                    return i
    elif p.endswith("ops::Range"):
        for i, ty in enumerate(eng.p.types):
            if ty["k"] == "adt" and ty["path"] == "std::option::Option" and ty["args"] == t["args"]:
                return i
    raise Lost("no Option type for " + p)


def closure_ret(eng, f):
    if isinstance(f, VAgg):
        b = eng.p.types[f.ty].get("body")
        if b is not None:
            return eng.p.bodies[b]["locals"][0]
    if isinstance(f, VFn):
        b = eng.p.types[f.ty].get("body")
        if b is not None:
            return eng.p.bodies[b]["locals"][0]
    raise Lost("closure return type of %r" % (f,))


@rx(r"^<.*(Map<|Enumerate<).* as std::iter::Iterator>::next$")
def _adapt_next(eng, st, c):
    return [(s2, none(eng, c.ret) if x is None else some(eng, c.ret, x)) for s2, x in iter_next(eng, st, c, c.args[0], None)]


@rx(r"^(<.* as )?std::iter::Iterator>?::(collect|for_each|fold|count|sum|last|try_for_each|try_fold)$")
def _iter_consume(eng, st, c):
    if c.name not in ("collect", "for_each", "fold"):
        return None
    root = ("K", st.fresh("iter"))
    st.store[root] = c.args[0]
    ref = VRef(root, (), c.args[0].ty, True)
    if c.name == "collect":
        t = eng.p.types[c.ret]
        if t.get("path") != "std::vec::Vec":
            return None
        acc = ("K", st.fresh("collect"))
        st.store[acc] = VSeq(t["args"][0], [], (), c.ret)
        aref = VRef(acc, (), c.ret, True)

        def step(s):
            out = []
            for s2, x in iter_next(eng, s, c, ref, None):
                if x is None:
                    out.append((s2, True, s2.store[acc]))
                else:
                    evt(eng, s2, "vec_push", call=c, ref=aref, value=x)
                    s2.store[acc] = concat(s2.store[acc], VSeq(t["args"][0], [("lit", (x,))]))
                    out.append((s2, False, None))
            return out
        return loop_model(eng, st, c, "collect", step)
    if c.name == "for_each":
        fr = ("K", st.fresh("fe"))
        st.store[fr] = c.args[1]
        fref = VRef(fr, (), None, True) if isinstance(c.args[1], VAgg) else c.args[1]

        def step(s):
            out = []
            for s2, x in iter_next(eng, s, c, ref, None):
                if x is None:
                    out.append((s2, True, unit(eng)))
                else:
                    for s3, _ in call_f(eng, s2, c, fref, [x], eng.find_ty("()")):
                        out.append((s3, False, None))
            return out
        return loop_model(eng, st, c, "for_each", step)
    acc = ("K", st.fresh("fold"))
    st.store[acc] = c.args[1]
    fr = ("K", st.fresh("foldf"))
    st.store[fr] = c.args[2]
    fref = VRef(fr, (), None, True) if isinstance(c.args[2], VAgg) else c.args[2]

    def step(s):
        out = []
        for s2, x in iter_next(eng, s, c, ref, None):
            if x is None:
                out.append((s2, True, s2.store[acc]))
            else:
                for s3, v in call_f(eng, s2, c, fref, [s2.store[acc], x], c.ret):
                    s3.store[acc] = v
                    out.append((s3, False, None))
        return out
    return loop_model(eng, st, c, "fold", step)


# ---------------------------------------------------------------- calls of boxed closures
@rx(r"^std::ops::(Fn|FnMut|FnOnce)::(call|call_mut|call_once)$|^<.* as std::ops::(Fn|FnMut|FnOnce)<.*>>::call\w*$")
def _fn_call(eng, st, c):
    f = c.args[0]
    args = c.args[1].f if isinstance(c.args[1], VAgg) else [c.args[1]]
    v = f
    while isinstance(v, VRef):
        v = eng.read(st, v.root, v.path)
    if isinstance(v, VSym) and not isinstance(f, VAgg):
        evt(eng, st, "dyn_call", call=c, f=v, args=args)
        return [(st, uf(eng, st, c, "call:" + v.name, list(args)))]
    return eng.call_value(st, c, f, list(args))


# ---------------------------------------------------------------- bytes, streams
@rx(r"^bytes::Bytes::(slice)$|^bytes::(Bytes|BytesMut)::(split_to|split_off|split)$|^<bytes::Bytes(Mut)? as bytes::Buf>::advance$|^bytes::Buf::advance$")
def _bytes(eng, st, c):
    r = seq_ref(eng, st, c.args[0])
    v = seqof(eng, st, r)
    ln = v.length()
    if c.name == "slice":
        lo, hi, inc = range_bounds(eng, st, c.args[1])
        start = lo if lo is not None else ZERO
        end = hi if hi is not None else ln
        if inc:
            end = end + 1
        if not need(eng, st, c, band(ge0(end - start), ge0(ln - end)), "Bytes::slice"):
            return []
        return [(st, with_ty(eng.seq_sub(st, v, start, end - start), c.ret))]
    n = c.args[1] if len(c.args) > 1 else ln
    if not need(eng, st, c, ge0(ln - n), "Bytes::" + c.name):
        return []
    a, b = eng.seq_sub(st, v, ZERO, n), eng.seq_sub(st, v, n, ln - n)
    if c.name == "advance":
        eng.write(st, r.root, r.path, with_ty(b, v.ty))
        return [(st, unit(eng))]
    keep, give = (b, a) if c.name in ("split_to", "split") else (a, b)
    keep = VSeq(keep.elty, keep.segs, keep.over, v.ty, v.cap - a.length() if v.cap is not None and keep is b else None)
    eng.write(st, r.root, r.path, keep)
    return [(st, with_ty(give, c.ret))]


@rx(r"^tokio_util::io::poll_read_buf$|^tokio_util::util::poll_buf::poll_read_buf$|tokio_util.*poll_read_buf$")
def _prb(eng, st, c):
    """tokio_util's contract: appends what one poll_read produced; Ok(0) if the buffer has no room or EOF"""
    rt = targ(eng, c.ret, 0)
    r = seq_ref(eng, st, c.args[2])
    v = seqof(eng, st, r)
    out = []
    s = st.copy()
    evt(eng, s, "reader_read", outcome="pending", call=c, buf=r)
    out.append((s, pending(eng, c.ret)))
    s = st.copy()
    e = eng.mk_sym(s, s.fresh("srcerr:reader"), variant_fields(eng, rt, 1)[0], ("srcerr", "reader"))
    evt(eng, s, "reader_read", outcome="err", call=c, buf=r, err=e)
    out.append((s, ready(eng, c.ret, err(eng, rt, e))))
    nm = st.fresh("chunk")
    n = atom_aff(Atom(nm + ".n", (), 0, ISZ))
    seq = VSeq(eng.find_ty("u8"), [("sym", nm, ZERO, n)])
    w = concat(v, seq)
    eng.write(st, r.root, r.path, VSeq(w.elty, w.segs, w.over, w.ty, v.cap))
    evt(eng, st, "reader_read", outcome="ok", call=c, buf=r, n=n, seq=seq)
    out.append((st, ready(eng, c.ret, ok(eng, rt, n))))
    return out


# ---------------------------------------------------------------- oneshot
@exact("tokio::sync::oneshot::channel")
def _oneshot(eng, st, c):
    ft = eng.field_types(c.ret, None)
    nm = st.fresh("oneshot")
    return [(st, VAgg(c.ret, None, (VSym(nm + ".tx", ft[0], ("tx", nm)), VSym(nm + ".rx", ft[1], ("rx", nm)))))]


@rx(r"^tokio::sync::oneshot::Sender::<T>::(send|is_closed|closed|poll_closed)$")
def _send(eng, st, c):
    if c.name == "send":
        evt(eng, st, "send", call=c, tx=c.args[0], value=c.args[1])
        return [(st, eng.mk_sym(st, st.fresh("sendresult"), c.ret))]
    return [(st, eng.mk_sym(st, st.fresh(c.name), c.ret))]


# ---------------------------------------------------------------- actix
STATUS = {"Ok": 200, "PartialContent": 206, "BadRequest": 400, "RangeNotSatisfiable": 416, "InternalServerError": 500, "NotFound": 404, "NoContent": 204, "Created": 201, "Accepted": 202, "NotModified": 304, "PreconditionFailed": 412}


def status_of(eng, v):
    if isinstance(v, Aff):
        return v
    if isinstance(v, VSym) and v.origin and v.origin[0] == "const":
        if len(v.origin) > 2 and v.origin[2] is not None:
            return K(v.origin[2])
    if isinstance(v, VAgg) and v.f:
        return status_of(eng, v.f[0])
    return atom_aff(Atom("status(%s)" % short(v), (), 0, 999))


def mk_builder(eng, ty, status, hdrs=()):
    return VAgg(ty, None, (status, VAgg(eng.find_ty("()"), None, hdrs)))


@rx(r"^actix_web::response::http_codes::<impl actix_web::HttpResponse>::(\w+)$|^actix_web::HttpResponse::build$|^actix_web::HttpResponseBuilder::new$|^actix_web::response::http_codes::.*::(\w+)$")
def _resp_new(eng, st, c):
    if c.name in ("build", "new"):
        s = status_of(eng, c.args[0])
    else:
        if c.name not in STATUS:
            return None
        s = K(STATUS[c.name])
    return [(st, mk_builder(eng, c.ret, s))]


@rx(r"^actix_web::HttpResponseBuilder::(status|insert_header|append_header|content_type|no_chunking|force_close|keep_alive|reason|finish|body|streaming|json|take|message_body)$")
def _resp(eng, st, c):
    r = c.args[0]
    v = eng.read(st, r.root, r.path)
    while isinstance(v, VRef):
        r = v
        v = eng.read(st, r.root, r.path)
    if not (isinstance(v, VAgg) and len(v.f) == 2):
        return None
    stt, h = v.f
    n = c.name
    if n == "status":
        eng.write(st, r.root, r.path, VAgg(v.ty, None, (status_of(eng, c.args[1]), h)))
        return [(st, c.args[0])]
    if n in ("insert_header", "append_header"):
        kv = c.args[1]
        if isinstance(kv, VSym):
            kv = eng.expand(st, kv)
        k = header_name(eng, st, kv.f[0]) if isinstance(kv, VAgg) and len(kv.f) == 2 else "?"
        val = kv.f[1] if isinstance(kv, VAgg) and len(kv.f) == 2 else kv
        val = deref(eng, st, val)
        pairs = h.f
        if n == "insert_header":
            pairs = tuple(p for p in pairs if p[0] != k)
        pairs = pairs + ((k, val),)
        eng.write(st, r.root, r.path, VAgg(v.ty, None, (stt, VAgg(h.ty, None, pairs))))
        return [(st, c.args[0])]
    if n == "content_type":
        pairs = tuple(p for p in h.f if p[0] != "content-type") + (("content-type", deref(eng, st, c.args[1])),)
        eng.write(st, r.root, r.path, VAgg(v.ty, None, (stt, VAgg(h.ty, None, pairs))))
        return [(st, c.args[0])]
    if n in ("finish", "body", "streaming", "message_body", "json"):
        body = c.args[1] if n != "finish" else None
        evt(eng, st, "response", status=stt, headers=dict(h.f), body=body, call=c, how=n)
        return [(st, eng.mk_sym(st, st.fresh("response"), c.ret))]
    return [(st, c.args[0])]


def header_name(eng, st, k):
    k = deref(eng, st, k)
    if isinstance(k, VSym):
        return k.name.split("const:")[-1].split(":")[-2].lower().replace("_", "-") if "const:" in k.name else k.name
    s = str_lit(k) if isinstance(k, VSeq) else None
    return s.lower() if s else repr(k)


@rx(r"^(actix_web::HttpRequest::(headers|method|head|uri|path)|actix_web::http::header::HeaderMap::(get|contains_key)|actix_web::http::header::HeaderValue::(to_str|as_bytes|len)|http_range_header::parse_range_header|http_range_header::ParsedRanges::validate|http_range_header::.*)$")
def _http(eng, st, c):
    evt(eng, st, "http", call=c)
    return [(st, uf(eng, st, c, c.rpath))]


# ---------------------------------------------------------------- chrono
@rx(r"^<chrono::.* as chrono::(Datelike|Timelike)>::(\w+)$|^chrono::(Datelike|Timelike)::\w+$|^chrono::DateTime::<Tz>::\w+$|^<chrono::DateTime<.*> as std::convert::From<.*>>::from$|^chrono::Naive\w+::\w+$")
def _chrono(eng, st, c):
    return [(st, uf(eng, st, c, c.name))]


# ---------------------------------------------------------------- misc std
@rx(r"^std::task::Context::<'_>::(waker|from_waker)$|^std::task::Waker::(wake_by_ref|wake|clone|will_wake)$|^<std::task::Waker as std::clone::Clone>::clone$")
def _waker(eng, st, c):
    evt(eng, st, "waker", call=c)
    return [(st, eng.mk_sym(st, st.fresh(c.name), c.ret))]


@rx(r"^(alloc|std)::(alloc::exchange_malloc|boxed::box_new|boxed::box_assume_init_into_vec_unsafe)$|^std::boxed::box_assume_init_into_vec_unsafe$")
def _box_vec(eng, st, c):
    v = deref(eng, st, c.args[0]) if c.args else None
    if isinstance(v, VSeq):
        return [(st, with_ty(v, c.ret))]
    if isinstance(v, VAgg):
        for _ in range(4):
            if isinstance(v, VAgg) and v.f:
                v = deref(eng, st, v.f[-1])
            if isinstance(v, VSeq):
                return [(st, with_ty(v, c.ret))]
    return [(st, eng.mk_sym(st, st.fresh("vec"), c.ret))]


@rx(r"^std::boxed::Box::<T>::new_uninit$")
def _box_uninit(eng, st, c):
    root = ("K", st.fresh("boxu"))
    t = targ(eng, c.ret, 0)
    # MaybeUninit { uninit: (), value: ManuallyDrop { value } }
    st.store[root] = VAgg(t, None, (UNDEF, VAgg(t, None, (UNDEF,))))
    return [(st, VRef(root, (), t, True))]
