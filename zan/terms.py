import re
"""Value terms of the abstract domain: affine integer expressions over named atoms, boolean
conditions over them, and a bit-provenance view.  Purely structural; there is no solver."""

from math import gcd

INF = float("inf")


class Atom:
    __slots__ = ("id", "op", "args", "lo", "hi", "_h")
    table = {}
    count = 0

    def __new__(cls, op, args=(), lo=-INF, hi=INF):
        key = (op, args)
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.op, a.args, a.lo, a.hi = op, args, lo, hi
            a.id = Atom.count
            Atom.count += 1
            a._h = hash(key)
            cls.table[key] = a
        else:
            # the same atom may be requested with tighter type knowledge
            if lo > a.lo:
                a.lo = lo
            if hi < a.hi:
                a.hi = hi
        return a

    def __hash__(self):
        return self._h

    def __repr__(self):
        if not self.args:
            return str(self.op)
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class Aff:
    """const + sum(coef * atom), over the mathematical integers."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t  # tuple of (atom, coef) sorted by atom id
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Aff) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Aff(self.c + o, self.t)
        if not o.t:
            return Aff(self.c + o.c, self.t)
        if not self.t:
            return Aff(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return Aff(self.c + o.c, tuple(sorted(d.items(), key=lambda x: x[0].id)))

    def __neg__(self):
        return Aff(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Aff(self.c - o, self.t)
        return self + (-o)

    def __mul__(self, k):
        return self.scale(k) if isinstance(k, int) else NotImplemented

    __rmul__ = __mul__

    def scale(self, k):
        if k == 0:
            return Aff(0)
        return Aff(self.c * k, tuple((a, c * k) for a, c in self.t))

    @property
    def is_const(self):
        return not self.t

    def atoms(self):
        return [a for a, _ in self.t]

    def single(self):
        """the atom if this is exactly one atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = []
        for a, k in self.t:
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + repr(a))
        r = " + ".join(s).replace("+ -", "- ")
        if self.c:
            r += " %s %d" % ("+" if self.c > 0 else "-", abs(self.c))
        return r


def K(n):
    return Aff(n)


def atom_aff(a):
    return Aff(0, ((a, 1),))


ZERO, ONE = Aff(0), Aff(1)


# ---- booleans -----------------------------------------------------------------------------------
class Bool:
    """kinds: 'c' const, 'ge0' aff, 'eq0' aff, 'ne0' aff, 'lit' (atom name, polarity),
    'and' (x, y), 'or' (x, y)"""
    __slots__ = ("k", "a", "_h")

    def __init__(self, k, a):
        self.k, self.a = k, a
        self._h = hash((k, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Bool) and self.k == o.k and self.a == o.a

    def __repr__(self):
        if self.k == "c":
            return str(self.a)
        if self.k == "ge0":
            return "(%r >= 0)" % (self.a,)
        if self.k == "eq0":
            return "(%r == 0)" % (self.a,)
        if self.k == "ne0":
            return "(%r != 0)" % (self.a,)
        if self.k == "lit":
            return ("" if self.a[1] else "!") + str(self.a[0])
        return "(%r %s %r)" % (self.a[0], self.k, self.a[1])


TRUE, FALSE = Bool("c", True), Bool("c", False)


def bconst(b):
    return TRUE if b else FALSE


def canon_eq(a):
    """sign-canonical form of an affine expression used in (dis)equalities"""
    if a.t and a.t[0][1] < 0:
        return -a
    if not a.t and a.c < 0:
        return -a
    return a


def ge0(a):
    if a.is_const:
        return bconst(a.c >= 0)
    return Bool("ge0", a)


def eq0(a):
    if a.is_const:
        return bconst(a.c == 0)
    return Bool("eq0", canon_eq(a))


def ne0(a):
    if a.is_const:
        return bconst(a.c != 0)
    return Bool("ne0", canon_eq(a))


def lit(name, pol=True):
    return Bool("lit", (name, pol))


def bnot(b):
    k = b.k
    if k == "c":
        return bconst(not b.a)
    if k == "ge0":
        return ge0(-b.a - 1)
    if k == "eq0":
        return Bool("ne0", b.a)
    if k == "ne0":
        return Bool("eq0", b.a)
    if k == "lit":
        return Bool("lit", (b.a[0], not b.a[1]))
    if k == "and":
        return bor(bnot(b.a[0]), bnot(b.a[1]))
    return band(bnot(b.a[0]), bnot(b.a[1]))


def band(x, y):
    if x.k == "c":
        return y if x.a else FALSE
    if y.k == "c":
        return x if y.a else FALSE
    if x == y:
        return x
    return Bool("and", (x, y))


def bor(x, y):
    if x.k == "c":
        return TRUE if x.a else y
    if y.k == "c":
        return TRUE if y.a else x
    if x == y:
        return x
    return Bool("or", (x, y))


# ---- bit provenance -----------------------------------------------------------------------------
def bits_of(t, width, ub):
    """Bit-level view of an integer term: list (LSB first) of 0, 1, (atom, bit) or None (unknown).
    `ub(aff)` gives a known upper bound (or INF) and must only be called for non-negative terms."""
    if t.is_const:
        v = t.c & ((1 << width) - 1)
        return [(v >> i) & 1 for i in range(width)]
    if len(t.t) == 1 and t.c == 0 and t.t[0][1] == 1:
        a = t.t[0][0]
        op = a.op
        if op in ("and", "or", "xor"):
            x, y = bits_of(a.args[0], width, ub), bits_of(a.args[1], width, ub)
            return [_bitop(op, p, q) for p, q in zip(x, y)]
        if op == "shl" and a.args[1].is_const:
            k = a.args[1].c
            w = a.args[2]
            x = bits_of(a.args[0], width, ub)
            r = ([0] * k + x)[:width]
            return [b if i < w else 0 for i, b in enumerate(r)]
        if op == "shr" and a.args[1].is_const:
            k = a.args[1].c
            x = bits_of(a.args[0], width + k, ub)
            return x[k:k + width]
        if op == "trunc":
            w = a.args[1]
            x = bits_of(a.args[0], max(width, w), ub)
            return [b if i < w else 0 for i, b in enumerate(x[:width])]
        if op == "div" and a.args[1].is_const and a.args[1].c > 0 and a.args[1].c & (a.args[1].c - 1) == 0:
            k = a.args[1].c.bit_length() - 1
            x = bits_of(a.args[0], width + k, ub)
            return x[k:k + width]
        if op == "rem" and a.args[1].is_const and a.args[1].c > 0 and a.args[1].c & (a.args[1].c - 1) == 0:
            k = a.args[1].c.bit_length() - 1
            x = bits_of(a.args[0], width, ub)
            return [b if i < k else 0 for i, b in enumerate(x)]
        hi = ub(t)
        n = width
        if hi != INF and hi >= 0:
            n = int(hi).bit_length()
        return [(a, i) if i < n else 0 for i in range(width)]
    # a common power of two is a shift
    g = abs(t.c)
    for _, k in t.t:
        g = gcd(g, abs(k))
    g &= -g
    if g > 1:
        s = g.bit_length() - 1
        return ([0] * s + bits_of(Aff(t.c // g, tuple((a, k // g) for a, k in t.t)), width, ub))[:width]
    # sum of disjoint fields
    parts = []
    if t.c:
        if t.c < 0:
            # x - c: if the single-atom difference is bounded keep it as an opaque field
            hi = ub(t)
            n = width if hi == INF else max(int(hi), 0).bit_length()
            return [(t, i) if i < n else 0 for i in range(width)]
        parts.append(bits_of(Aff(t.c), width, ub))
    for a, k in t.t:
        if k <= 0 or k & (k - 1):
            hi = ub(t)
            n = width if hi == INF else max(int(hi), 0).bit_length()
            return [(t, i) if i < n else 0 for i in range(width)]
        s = k.bit_length() - 1
        parts.append(([0] * s + bits_of(atom_aff(a), width, ub))[:width])
    out = [0] * width
    for p in parts:
        for i, b in enumerate(p):
            if b == 0:
                continue
            if out[i] != 0:
                hi = ub(t)
                n = width if hi == INF else max(int(hi), 0).bit_length()
                return [(t, i) if i < n else 0 for i in range(width)]
            out[i] = b
    return out


def _bitop(op, p, q):
    if op == "and":
        if p == 0 or q == 0:
            return 0
        if p == 1:
            return q
        if q == 1:
            return p
        return p if p == q else None
    if op == "or":
        if p == 1 or q == 1:
            return 1
        if p == 0:
            return q
        if q == 0:
            return p
        return p if p == q else None
    if p == 0:
        return q
    if q == 0:
        return p
    if p in (0, 1) and q in (0, 1):
        return p ^ q
    return 0 if p == q and p is not None else None


# atoms that stand for something the analysis could not follow
INEXACT = re.compile(r"havoc|phx|elem\?|top\b|\bsub#|splice|unknown|\bunk#|cast|\bpop#|\bext(\.len)?#|\?$")


def exact_atom(a):
    if INEXACT.search(str(a.op)):
        return False
    return all(exact_val(x) for x in a.args)


def exact_val(x):
    if isinstance(x, Aff):
        return all(exact_atom(a) for a in x.atoms())
    return True
