"""C20, C21, C22: metadata setters of an entry, seen through what Builder::build makes of them."""
import re

from .common import *
from .builder import BuildHooks, add_run, get, roles_of, result_kind
from ..base import CheckFailed, Report, Unidentified, extract
from ..roles import flat_fields
from ..terms import bits_of
from . import rule

WHAT = ("Abstract interpretation of every metadata setter on an entry with arbitrary contents and arbitrary arguments, composed with "
        "Builder::build on the resulting entry value. Attribute words and timestamps are compared bit by bit as symbolic bit vectors "
        "(each bit 0, 1 or one bit of one argument); which fields a setter writes is read off the outcome states.")
TYPES = {"file": 0o100000, "directory": 0o040000, "symlink": 0o120000}
DEFAULTS = {"file": 0o644, "directory": 0o755, "symlink": 0o777}
RO = {"file": 0o444, "directory": 0o555, "symlink": 0o777}
LIMITS = ((1980, 2107), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59))
UNITS = ("year", "month", "day", "hour", "minute", "second")
DATES = ("datetime_fields", "datetime_fields_or_default", "datetime_system", "datetime_system_or_default", "datetime", "datetime_or_default")
GROUPS = {"crc": ("crc32",), "type": ("file", "directory", "symlink"), "permissions": ("unix_permissions", "permissions", "readonly"), "date-time": DATES}


class Setters:
    def __init__(self, ctx):
        self.ctx, self.prog, self.br = ctx, ctx.prog, roles_of(ctx)
        T = self.prog.types
        self.roots = {}
        path = T[self.br.entry_ty]["path"]
        for r in self.prog.roots:
            if r.get("self_ty") is not None and not r.get("trait") and r.get("pub") and T[r["self_ty"]].get("path") == path and r.get("body") is not None:
                self.roots[r["name"]] = r
        self.runs = {}
        self.losts, self.fns = [], set()
        run = add_run(ctx)
        self.fresh = []
        for o in run.outs:
            k, x = result_kind(run, o.st, o.val)
            if k == "ok":
                for i in o.st.store.get(("G", "ins")) or ():
                    if i[0] == "map_insert":
                        v = i[2]
                        v = run.eng.expand(o.st, v) if isinstance(v, VSym) else v
                        self.fresh.append((run, o.st, v))
        if not self.fresh and not run.losts:
            raise Unidentified("the value of a newly added entry was not found")

    def apply(self, name, e=None, facts=None):
        """outcomes of a setter on entry e (None: an arbitrary entry), on the path that made it"""
        key = (name, str(e), fact_key(facts))
        if key not in self.runs:
            if name not in self.roots:
                raise CheckFailed("no public setter BuilderEntry::%s" % name)

            def prep(run, eng, st):
                if e is not None:
                    r = run.ref()
                    eng.write(st, r.root, r.path, e)
                carry(st, facts)
                return [st]
            ru = Run(self.prog, self.roots[name], None, prep)
            self.losts += ru.losts
            self.fns |= ru.fns
            self.runs[key] = ru
        return self.runs[key]

    def value(self, ru, st):
        r = ru.ref()
        v = ru.eng.read(st, r.root, r.path)
        return ru.eng.expand(st, v) if isinstance(v, VSym) else v

    def built(self, e, facts=None):
        """what Builder::build makes of entry value e on the path that made it: [(state, engine, reader entry)]"""
        key = ("built", str(e), fact_key(facts))
        if key not in self.runs:
            h = BuildHooks(self.ctx, item=e)

            def prep(run, eng, st):
                carry(st, facts)
                return [st]
            ru = Run(self.prog, find(self.prog, "Builder", None, "build"), h, prep)
            self.losts += ru.losts
            self.fns |= ru.fns
            self.runs[key] = [(s, ru.eng, v) for s, v, kw in h.pushes if not ru.eng.stale(s)]
        return self.runs[key]


def fact_key(st):
    if st is None:
        return ""
    return "|".join([" ".join(sorted(map(str, st.ge))), " ".join(sorted(map(str, st.ne))), str(sorted((str(k), v) for k, v in st.refine.items())), str(sorted((str(k), str(v)) for k, v in st.excl.items()))])


def carry(st, src):
    """what is known on the path that made a value is known where it is used"""
    if src is None:
        return
    st.ge |= src.ge
    st.ne |= src.ne
    for a, b in ((st.lits, src.lits), (st.bnd, src.bnd), (st.refine, src.refine), (st.excl, src.excl)):
        for k, v in b.items():
            a.setdefault(k, v)
    st.n = max(st.n, src.n)


def equal_bits(st):
    """bits known to be equal to other bits: {(atom, i): bit}"""
    res = {}
    for g in st.ge:
        if -g in st.ge and g.c == 0 and len(g.t) == 2 and {k for _, k in g.t} == {1, -1}:
            x, y = [bits_of(atom_aff(a), 64, st.upper) for a, _ in g.t]
            for p, q in zip(x, y):
                p, q = root_bit(res, p), root_bit(res, q)
                if p == q or None in (p, q):
                    continue
                if isinstance(p, tuple):
                    res[p] = q
                elif isinstance(q, tuple):
                    res[q] = p
    return res


def root_bit(eq, b):
    n = 0
    while isinstance(b, tuple) and b in eq and n < 100:
        b, n = eq[b], n + 1
    return b


def setters(ctx):
    if not hasattr(ctx, "_setters"):
        ctx._setters = Setters(ctx)
    return ctx._setters


def begin(ctx, rep):
    S = setters(ctx)
    if WHAT not in rep.explanation:
        rep.explanation = (rep.explanation + " " + WHAT).strip()
    return S


def end(S, rep):
    rep.analysed |= S.fns
    for f, bb, why in S.losts:
        rep.undecided("path analysed to its end", f, why)


def leaf_changes(S, ru, o):
    """fields of the entry whose value differs from the one before the call"""
    res = {}
    for p, t in S.br.e_leaves:
        a, b = ru.init(p), ru.rd(o.st, p)
        if a != b:
            res[p] = b
    return res


def name_of(S, p):
    n, ty = [], S.br.entry_ty
    for i in p:
        f = S.prog.types[ty]["variants"][0]["f"][i]
        n.append(f["n"])
        ty = f["t"]
    return ".".join(n)


# ------------------------------------------------------------------ C20
@rule("C20")
def own_attribute(ctx, rep):
    S = begin(ctx, rep)
    touched = {}
    conv = [p for p, t in S.br.e_leaves if "dyn" in S.prog.types[t]["s"]]
    for g, names in GROUPS.items():
        touched[g] = {}
        for n in names:
            if n not in S.roots and n in ("datetime", "datetime_or_default"):
                continue
            ru = S.apply(n)
            rep.count("outcomes", len(ru.outs))
            for o in ru.outs:
                for p, v in leaf_changes(S, ru, o).items():
                    touched[g].setdefault(p, []).append((n, v))
            for f, w, span, s in ru.panics:
                rep.judge(False if all(exact_val(y) for y in s.ge) else None, "setting metadata never panics", "%s (%s)" % (n, w), "; ".join(map(str, s.ge))[:300])
            if not ru.losts:
                rep.floor("outcomes of BuilderEntry::%s" % n, len(ru.outs), 1)
    for g, ps in touched.items():
        rep.judge(True if ps else (None if S.losts else False), "a setter stores its attribute", g, "no field is changed")
        for p, l in ps.items():
            fn = name_of(S, p)
            for n, v in l:
                if p == S.br.e_data or p in conv:
                    rep.judge(False if exact_any(v) else None, "setters leave data and time converter alone", "%s: %s" % (n, fn), "becomes %s" % show(v))
            for h in GROUPS:
                if h != g and p in touched[h]:
                    both = sorted({n for n, _ in l} | {n for n, _ in touched[h][p]})
                    mine = {n for n, v in l}
                    rep.bad("a setter changes no attribute but its own", "%s (%s)" % (fn, " / ".join(sorted((g, h)))), "written by %s" % ", ".join(both))
        rep.ok("setters leave data and time converter alone", g)
        rep.ok("a setter changes no attribute but its own", g)
    # the CRC given is the CRC recorded
    ru = S.apply("crc32")
    a = ru.args[1]
    n = 0
    for o in ru.outs:
        for st, eng, v in S.built(S.value(ru, o.st)):
            c = get(v, ctx.roles.e_crc)
            c = eng.expand(st, c) if isinstance(c, VSym) else c
            n += 1
            ok = isinstance(c, VAgg) and len(c.f) == 1 and c.f[0] == a
            rep.judge(True if ok else (False if exact_any(c) else None), "the CRC given is recorded", "crc32", "recorded %s, given %s" % (show(c), show(a)))
    # nothing else sets a CRC
    for r_, st0, e in S.fresh:
        for st, eng, v in S.built(e):
            c = get(v, ctx.roles.e_crc)
            c = eng.expand(st, c) if isinstance(c, VSym) else c
            rep.judge(True if isinstance(c, VAgg) and not c.f else (False if exact_any(c) else None), "an entry without a supplied CRC has none", "add_entry", show(c))
    if not S.losts:
        rep.floor("recorded CRCs", n, 1)
    # filesystem metadata: exactly type, permissions and, where known, the time
    ru = S.apply("metadata")
    ty, pm, dt = (set(touched[g]) for g in ("type", "permissions", "date-time"))
    seen = set()
    for o in ru.outs:
        st = o.st
        ch = leaf_changes(S, ru, o)
        for p, v in ch.items():
            if p not in ty | pm | dt:
                rep.judge(False if exact_any(v) else None, "filesystem metadata sets type, permissions and time only", "metadata: %s" % name_of(S, p), "becomes %s" % show(v))
        is_dir = lit(st, "is_dir")
        is_sym = lit(st, "is_symlink")
        is_file = lit(st, "is_file")
        want = "directory" if is_dir else "symlink" if is_sym else "file" if (is_dir is False and is_sym is False) or is_file else None
        got = type_of(S, ru, st, ty)
        if got is None:
            rep.undecided("filesystem metadata sets the object's type", "metadata", "type stored: unknown")
        else:
            rep.judge(got == want, "filesystem metadata sets the object's type", "metadata: %s" % got,
                      "set to %s when is_dir=%s is_symlink=%s is_file=%s" % (got, is_dir, is_sym, is_file))
            seen.add(got)
        # the time, exactly where it is known
        mod = [v for k, v in st.refine.items() if str(k).startswith("modified(")]
        known = [S.prog.types[t]["variants"] for t in ()]
        dset = [p for p in ch if p in dt]
        if mod:
            rep.judge(True if mod[0] == 0 or not dset else False, "an unavailable modification time changes nothing", "metadata", "date-time changed although the time is not available")
    e = S.apply("metadata")
    for o in e.outs:
        mod = [v for k, v in o.st.refine.items() if str(k).startswith("modified(")]
        rep.judge(True if mod else (None if e.losts else False), "filesystem metadata sets the modification time", "metadata", "the modification time is not asked for")
        tn = tset(S, e, o, dt)
        if mod and mod[0] == 0:
            x = system_expect(S, e, o)
            rep.judge(x, "filesystem metadata sets the modification time", "metadata: value", "stored %s" % tn)
    # whatever was set before, the last setter of an attribute decides
    sub = Report(rep.prop, rep.tier)
    attributes(ctx, sub)
    timestamps(ctx, sub)
    rep.adopt(sub, {"permissions as documented": "a permission setter decides whatever was set before",
                    "the default replaces values out of range": "a defaulting date-time setter decides whatever was set before"})
    if not S.losts:
        for k in TYPES:
            rep.judge(k in seen, "filesystem metadata sets the object's type", "metadata: %s" % k, "never set")
    end(S, rep)


def tset(S, ru, o, dt):
    return ", ".join(show(ru.rd(o.st, p)) for p in dt)


def lit(st, what):
    v = {b for n, b in st.lits.items() if re.match(r"\W*%s\(" % what, str(n)) and "a1" in str(n)}
    return v.pop() if len(v) == 1 else None


def type_of(S, ru, st, leaves):
    """which of the type setters would have left these fields?"""
    cur = {p: ru.rd(st, p) for p in leaves}
    hits = []
    for k in TYPES:
        r2 = S.apply(k)
        for o in r2.outs:
            v2 = {p: r2.rd(o.st, p) for p in leaves}
            if all(same_value(cur[p], v2[p], r2.init(p)) for p in leaves):
                hits.append(k)
    return hits[0] if len(hits) == 1 else None


def same_value(a, b, init):
    return a == b or str(a) == str(b)


# ------------------------------------------------------------------ C21
def attr_bits(S, e, facts=None):
    res = []
    for st, eng, v in S.built(e, facts):
        a = get(v, S.ctx.roles.e_attr)
        res.append((st, a, bits_of(a, 32, st.upper) if isinstance(a, Aff) else None))
    return res


def compare(rep, got, want, rule_, where, note):
    for st, a, b in got:
        if b is None:
            rep.undecided(rule_, where, show(a))
            continue
        diff = [i for i in range(32) if b[i] != want[i]]
        if diff:
            eq = equal_bits(st)
            diff = [i for i in diff if b[i] is None or root_bit(eq, b[i]) != root_bit(eq, want[i])]
        if not diff:
            rep.ok(rule_, where)
            continue
        unknown = any(b[i] is None for i in diff) or not exact_val(a)
        rep.judge(None if unknown else False, rule_, where, "bits %s of %s differ from %s" % (diff, show(a), note))


def const_bits(t, p):
    x = ((t | p) << 16)
    return [(x >> i) & 1 for i in range(32)]


@rule("C21")
def attributes(ctx, rep):
    S = begin(ctx, rep)
    n = 0
    for r_, st0, e in S.fresh:
        compare(rep, attr_bits(S, e), const_bits(TYPES["file"], DEFAULTS["file"]), "a new entry is a file with mode 644", "add_entry", "0o100644")
    for k, tb in TYPES.items():
        for r_, st0, e in S.fresh[:1]:
            for o in S.apply(k, e).outs:
                typed = S.value(S.apply(k, e), o.st)
                compare(rep, attr_bits(S, typed, o.st), const_bits(tb, DEFAULTS[k]), "default permissions by type", k, "0o%o" % (tb | DEFAULTS[k]))
                n += 1
        # on top of any permissions set before, with the type set before or after
        any_e = [(S.value(S.apply(k), o.st), o.st) for o in S.apply(k).outs]
        for setter in ("unix_permissions", "permissions", "readonly"):
            for before in (True, False):
                if before:
                    pairs = [(S.apply(setter, e, f), o) for e, f in any_e for o in S.apply(setter, e, f).outs]
                else:
                    pairs = []
                    for o in S.apply(setter).outs:
                        e2 = S.value(S.apply(setter), o.st)
                        pairs += [(S.apply(k, e2, o.st), o2, S.apply(setter), o) for o2 in S.apply(k, e2, o.st).outs]
                for pr in pairs:
                    ru, o = pr[0], pr[1]
                    src, so = (ru, o) if before else (pr[2], pr[3])
                    e = S.value(ru, o.st)
                    where = "%s on a %s%s" % (setter, k, "" if before else " (type set later)")
                    if setter == "readonly":
                        ro = readonly_of(src, so.st)
                        if ro is None:
                            rep.undecided("permissions as documented", where, "which value of the argument leads here is not known")
                            continue
                        want = const_bits(tb, (RO if ro else DEFAULTS)[k])
                        note = "0o%o" % (tb | (RO if ro else DEFAULTS)[k])
                        where += ", %s" % ro
                    else:
                        base = const_bits(tb, 0)
                        if k == "symlink":
                            want, note = const_bits(tb, 0o777), "0o120777"
                        else:
                            m = mode_of(src, so.st, setter)
                            if m is None:
                                rep.undecided("permissions as documented", where, "mode not identified")
                                continue
                            mb = bits_of(m, 32, so.st.upper)
                            want = base[:16] + mb[:9] + base[25:]
                            note = "0o%o | low nine bits of %s" % (tb, show(m))
                    compare(rep, attr_bits(S, e, o.st), want, "permissions as documented", where, note)
                    n += 1
    if not S.losts:
        rep.floor("combinations of type and permissions", n, 20)
    end(S, rep)


@rule("C21")
def attributes_elsewhere(ctx, rep):
    """on platforms without unix modes: what the platform's permissions do there"""
    if not hasattr(ctx, "_nonunix"):
        from . import Ctx
        ctx._nonunix = Ctx(ctx.tier, extract(family="nonunix"))
    S = setters(ctx._nonunix)
    n = 0
    for k, tb in TYPES.items():
        any_e = [(S.value(S.apply(k), o.st), o.st) for o in S.apply(k).outs]
        for e, f in any_e:
            ru = S.apply("permissions", e, f)
            for o in ru.outs:
                ro = readonly_flag(o.st)
                where = "permissions on a %s, non-unix" % k
                if ro is None:
                    # the outcome does not depend on the read-only flag: right only if both would give the same
                    same = RO[k] == DEFAULTS[k]
                    if not same:
                        rep.undecided("permissions as documented", where, "the read-only flag is not looked at or not recognised")
                        continue
                    ro = True
                want = (RO if ro else DEFAULTS)[k]
                compare(rep, attr_bits(S, S.value(ru, o.st), o.st), const_bits(tb, want), "permissions as documented", where + (", read-only" if ro else ", writable"), "0o%o" % (tb | want))
                n += 1
    for f, bb, why in S.losts:
        rep.undecided("path analysed to its end", f, why)
    if not S.losts:
        rep.floor("outcomes of permissions() on non-unix platforms", n, 4)


def readonly_flag(st):
    for k, v in st.lits.items():
        if "readonly" in str(k).lower():
            return v if isinstance(v, bool) else None
    for x in st.ge:
        if "readonly(" in str(x):
            for a in x.atoms():
                if "readonly(" in str(a.op):
                    d = st.decide(eq0(atom_aff(a)))
                    return None if d is None else not d
    return None


def readonly_of(ru, st):
    a = ru.args[1]
    if isinstance(a, Bool):
        return st.decide(a)
    return None


def mode_of(ru, st, setter):
    a = ru.args[1]
    if setter == "unix_permissions":
        return a if isinstance(a, Aff) else None
    # the mode of the permissions handed in, as the platform's accessor gives it
    seen = set()
    for p, t in setters_leaves(ru, st):
        for x in atoms_in(p):
            if re.match(r"mode\(", str(x.op)) and "a1" in str(x.op):
                seen.add(x)
    if not seen:
        # not stored on this path: it may have been looked at
        for v in list(st.ge) + list(st.ne) + [y for o in ru.outs for y, _ in setters_leaves(ru, o.st)]:
            for x in atoms_in(v):
                if re.match(r"mode\(", str(x.op)) and "a1" in str(x.op):
                    seen.add(x)
    return atom_aff(seen.pop()) if len(seen) == 1 else None


def setters_leaves(ru, st):
    r = ru.ref()
    return [(ru.eng.read(st, r.root, r.path), None)]


def atoms_in(v, d=8):
    if d < 0:
        return
    if isinstance(v, Aff):
        for a in v.atoms():
            yield a
            for x in a.args:
                if isinstance(x, Aff):
                    yield from atoms_in(x, d - 1)
    elif isinstance(v, VAgg):
        for x in v.f:
            yield from atoms_in(x, d - 1)


# ------------------------------------------------------------------ C22
def fields_of(S, ru, o, name):
    """the six numbers a date-time setter is given, as terms; None: no converter; else the reason"""
    if name.startswith("datetime_fields"):
        a = ru.args[1:7]
        return list(a) if all(isinstance(x, Aff) for x in a) else "arguments"
    atoms = {}
    pool = [x for g in list(o.st.ge) + list(getattr(o.st, "ne", ())) for x in deep_atoms(g)]
    r = ru.ref()
    pool += list(deep(ru.eng.read(o.st, r.root, r.path)))
    for x in pool:
        s = str(x.op)
        if name in ("datetime", "datetime_or_default"):
            m = re.match(r"(year|month|day|hour|minute|second)\((.*)\)$", s)
            if m:
                atoms.setdefault(UNITS.index(m.group(1)), set()).add(x)
        else:
            m = re.match(r"call:.*\)\.([0-5])$", s)
            if m:
                atoms.setdefault(int(m.group(1)), set()).add(x)
    if any(len(v) > 1 for v in atoms.values()):
        return "several values of one unit"
    return [atom_aff(next(iter(atoms[i]))) if i in atoms else None for i in range(6)]


def deep_atoms(a):
    for x in a.atoms():
        yield x
        for y in x.args:
            if isinstance(y, Aff):
                yield from deep_atoms(y)


def deep(v, d=8):
    if d < 0:
        return
    if isinstance(v, Aff):
        yield from deep_atoms(v)
    elif isinstance(v, VAgg):
        for x in v.f:
            yield from deep(x, d - 1)


def in_range(st, fs):
    """True: all limits implied; False: contradicted; None: neither"""
    conds = [c for f, (lo, hi) in zip(fs, LIMITS) if f is not None for c in (ge0(f - lo), ge0(K(hi) - f))]
    if all(f is not None for f in fs) and all(st.decide(c) is True for c in conds):
        return True
    s = st.copy()
    for c in conds:
        if not s.assume(c) or s.dead:
            return False
    return None


def stamp(S, e, facts=None):
    r = S.ctx.roles

    def at(st, eng, v, p):
        for i in p:
            v = eng.step(st, v, ("f", i))
        return v
    return [(st, eng, at(st, eng, v, r.dt_order[0]), at(st, eng, v, r.dt_order[1])) for st, eng, v in S.built(e, facts)]


def judge_stamp(rep, S, st0, e, fs, rule_, where):
    """is the recorded timestamp the DOS packing of the six numbers (None: the default)?"""
    for st, eng, t, d in stamp(S, e, st0):
        if not isinstance(t, Aff) or not isinstance(d, Aff):
            rep.undecided(rule_, where, "%s %s" % (show(t), show(d)))
            continue
        if fs is None:
            rep.judge(verdict(st, band(eq0(t), eq0(d - 0x21))), rule_, where, "time %s, date %s instead of the default 1980-01-01T00:00:00" % (show(t), show(d)))
            continue
        Y, Mo, D, h, mi, s = fs
        B = lambda x, w: bits_of(x, w, st0.upper)
        sb = B(s, 16)
        wt = sb[1:6] + B(mi, 6) + B(h, 5)
        wd = B(D, 5) + B(Mo, 4) + B(Y - 1980, 7)
        for nm, got, want in (("time", t, wt), ("date", d, wd)):
            gb = bits_of(got, 16, st0.upper)
            eq = equal_bits(st)
            if gb == want or None not in gb and [root_bit(eq, b) for b in gb] == [root_bit(eq, b) for b in want]:
                rep.ok(rule_, "%s: %s" % (where, nm))
                continue
            lin = (D + Mo * 32 + (Y - 1980) * 512) if nm == "date" else None
            if lin is not None and st0.decide(eq0(got - lin)) is True:
                rep.ok(rule_, "%s: %s" % (where, nm))
                continue
            if nm == "time" and isinstance(got, Aff):
                rest = got - h * 2048 - mi * 32
                if [b for b in bits_of(rest, 16, st0.upper)][:5] == sb[1:6] and len(rest.t) == 1:
                    rep.ok(rule_, "%s: %s" % (where, nm))
                    continue
            bad = exact_val(got) and None not in gb
            rep.judge(False if bad else None, rule_, "%s: %s" % (where, nm), "stored %s" % show(got))


@rule("C22")
def timestamps(ctx, rep):
    S = begin(ctx, rep)
    for r_, st0, e in S.fresh:
        judge_stamp(rep, S, st0, e, None, "an entry without a date-time has 1980-01-01", "add_entry")
    for name in DATES:
        if name not in S.roots:
            continue
        ru = S.apply(name)
        n_in = n_out = 0
        for o in ru.outs:
            fs = fields_of(S, ru, o, name)
            if isinstance(fs, str):
                rep.undecided("accepted exactly in the documented range", name, fs)
                continue
            none = option_none(ru, o)
            inr = in_range(o.st, fs)
            changed = leaf_changes(S, ru, o)
            exact = all(exact_val(x) for x in o.st.ge)
            noconv = "system" in name and all(f is None for f in fs)
            if inr is None and not noconv:
                # neither inside nor outside: the function does not tell them apart here
                ev = "; ".join(map(str, o.st.ge))[:300]
                rep.judge(False if exact else None, "accepted exactly in the documented range", name, "one outcome for values inside and outside the range: %s" % ev)
                continue
            rep.ok("accepted exactly in the documented range", name)
            if name.endswith("or_default"):
                e = S.value(ru, o.st)
                judge_stamp(rep, S, o.st, e, fs if inr else None, "stored as packed DOS date and time" if inr else "the default replaces values out of range", name)
            else:
                if none is None:
                    rep.undecided("accepted exactly in the documented range", name, "result %s" % show(o.val))
                    continue
                rep.judge(none == (not inr), "accepted exactly in the documented range", name + ": result",
                          "%s for values %s the range" % ("None" if none else "Some", "inside" if inr else "outside"))
                if not inr:
                    rep.judge(True if not changed else (False if all(exact_any(v) for v in changed.values()) else None), "a refused date-time changes nothing", name,
                              ", ".join("%s becomes %s" % (name_of(S, p), show(v)) for p, v in changed.items()))
                else:
                    judge_stamp(rep, S, o.st, S.value(ru, o.st), fs, "stored as packed DOS date and time", name)
            n_in += inr is True
            n_out += inr is not True
        if not ru.losts:
            rep.floor("accepting outcomes of %s" % name, n_in, 1)
            rep.floor("refusing outcomes of %s" % name, n_out, 1)
    converters(ctx, rep, S)
    end(S, rep)


def option_none(ru, o):
    v = ru.expand(o.st, o.val)
    if isinstance(v, VAgg) and v.var is not None:
        return not v.f
    return None


def system_expect(S, ru, o):
    """does this outcome of metadata() store the converted modification time, or the default?"""
    fs = fields_of(S, ru, o, "datetime_system")
    if isinstance(fs, str):
        return None
    inr = in_range(o.st, fs)
    if inr is None and any(f is not None for f in fs):
        return None

    class R:
        res = []

        def judge(s, v, *a):
            s.res.append(v)

        def ok(s, *a):
            s.res.append(True)

        def undecided(s, *a):
            s.res.append(None)
    r = R()
    r.res = []
    judge_stamp(r, S, o.st, S.value(ru, o.st), fs if inr else None, "", "")
    return False if False in r.res else None if None in r.res or not r.res else True


def converters(ctx, rep, S):
    """the time-zone converter hands its parts over in order; a new entry gets the builder's converter"""
    prog = ctx.prog
    n = 0
    for i, b in enumerate(prog.bodies) if not isinstance(prog.bodies, dict) else prog.bodies.items():
        if prog.types[b["locals"][0]]["s"] != "(i32, u32, u32, u32, u32, u32)" or "{closure" not in b["path"] or "::test" in b["path"]:
            continue
        if not b["path"].startswith("builder::"):
            continue
        n += 1
        root = {"body": i, "output": b["locals"][0], "name": b["path"], "self_ty": None}
        ru = Run(prog, root)
        S.losts += ru.losts
        S.fns |= ru.fns
        for o in ru.outs:
            v = ru.expand(o.st, o.val)
            parts = [str(x.single().op) if isinstance(x, Aff) and x.single() is not None else str(x) for x in (v.f if isinstance(v, VAgg) else ())]
            ms = [re.match(r"%s\((.*)\)$" % u, p) for u, p in zip(UNITS, parts)]
            good = len(ms) == 6 and all(ms) and len({m.group(1) for m in ms}) == 1
            units = [re.match(r"(\w+)\(", p) for p in parts]
            known = len(units) == 6 and all(units)
            rep.judge(True if good else (False if known else None), "a time zone's local time is taken apart into its own parts", "system_timezone_converter", ", ".join(parts)[:300])
            if good:
                x = ms[0].group(1)
                rep.judge(False if "naive_utc" in x and "naive_local" not in x else True, "local time, not UTC, is stored", "system_timezone_converter", x)
    if "system_time_timezone" in {r["name"] for r in prog.roots}:
        rep.floor("converters of the library", n, 1)
    br = S.br
    conv = [p for p, t in br.e_leaves if "dyn" in prog.types[t]["s"]]
    bconv = [p for p, t in br.leaves if "dyn" in prog.types[t]["s"]]
    if len(conv) == 1 and len(bconv) == 1:
        for run, st, e in S.fresh:
            c = get(e, conv[0])
            c = run.eng.expand(st, c) if isinstance(c, VSym) else c
            b = run.expand(st, run.init(bconv[0]))
            if isinstance(c, VAgg) and isinstance(b, VAgg) and c.var is not None and b.var is not None:
                ok = c.var == b.var and (not c.f or c.f == b.f or br.fname(bconv[0]) in str(c))
                rep.judge(True if ok else (False if exact_any(c) else None), "a new entry uses the builder's converter", "add_entry", "%s, builder has %s" % (show(c), show(b)))
            else:
                rep.undecided("a new entry uses the builder's converter", "add_entry", "%s, builder has %s" % (show(c), show(b)))
