"""Where the reader keeps what: found by what public operations do with the fields, not by the
private names of the fields."""
from .engine import *
from .terms import *
from .base import CheckFailed, Unidentified


def find(prog, self_=None, trait=None, name=None, body=True, required=True):
    """the item `name` of the type whose last path segment is `self_` (optionally of a trait)"""
    res = []
    for r in prog.roots:
        if name is not None and r["name"] != name:
            continue
        if body and r.get("body") is None:
            continue
        t = r.get("trait")
        if trait is None:
            if t is not None or r.get("in_trait"):
                continue
        elif trait != "*" and (t is None or t.split("::")[-1] != trait):
            continue
        if self_ is not None:
            if r.get("self_ty") is None:
                continue
            ty = prog.types[r["self_ty"]]
            if ty.get("path", ty["s"]).split("::")[-1] != self_:
                continue
        elif r.get("self_ty") is not None:
            continue
        res.append(r)
    if required and not res:
        raise CheckFailed("public item %s%s::%s not found" % (self_, " as " + trait if trait else "", name))
    return res[0] if len(res) == 1 else (res[0] if res else None)


def run_root(prog, root, hooks=None, st=None, args=None, prep=None, models=None):
    b = prog.bodies[root["body"]]
    eng = Engine(prog, hooks, models)
    st = st or State()
    if args is None:
        args = [eng.mk_sym(st, "a%d" % i, b["locals"][i + 1]) for i in range(b["argc"])]
    if prep:
        prep(eng, st, args)
    outs = eng.run(b, args, st, 1)
    return eng, args, outs


def flat_fields(prog, ty, path=(), depth=0, out=None):
    """leaf places of a struct, descending into structs of the analysed crate: [(path, type)]"""
    out = [] if out is None else out
    t = prog.types[ty]
    if t["k"] == "adt" and t.get("akind") == "struct" and t.get("local") and depth < 6 and "variants" in t:
        for i, f in enumerate(t["variants"][0]["f"]):
            flat_fields(prog, f["t"], path + (i,), depth + 1, out)
    elif t["k"] == "tuple" and t["els"] and depth < 6:
        for i, e in enumerate(t["els"]):
            flat_fields(prog, e, path + (i,), depth + 1, out)
    else:
        out.append((path, ty))
    return out


def T_self(prog, root):
    return root["self_ty"]


def epath(path):
    return tuple(("f", i) for i in path)


def deps(x, names, d=8):
    """the arguments a number was computed from"""
    r = set()
    if d < 0:
        return r
    for a in x.atoms():
        if a in names:
            r.add(names[a])
        for y in a.args:
            if isinstance(y, Aff):
                r |= deps(y, names, d - 1)
    return r


def find_values(eng, st, v, ty, d=6):
    """values of one type inside another"""
    if d < 0:
        return []
    if isinstance(v, VAgg):
        if v.ty == ty:
            return [v]
        return [w for x in v.f for w in find_values(eng, st, x, ty, d - 1)]
    return []


class ReaderRoles:
    """paths (tuples of field numbers) inside Reader and inside its entry type"""

    def __init__(self, prog):
        self.prog = prog
        self.why = {}
        r = find(prog, "Reader", None, "tell")
        self.reader_ty = r["self_ty"]
        leaves = flat_fields(prog, self.reader_ty)
        self.leaves = leaves
        T = prog.types
        u64 = [p for p, t in leaves if T[t]["k"] == "int"]
        # entries: a vector of a crate type that is generic in the entry data
        ent = [(p, t) for p, t in leaves if T[t].get("path") in ("std::vec::Vec", "std::boxed::Box", "std::sync::Arc") and self._elem(t) is not None
               and T[self._elem(t)].get("local")]
        if len(ent) != 1:
            raise Unidentified("entry list of the reader not identified (%d candidates)" % len(ent))
        self.entries = ent[0][0]
        self.entry_ty = self._elem(ent[0][1])
        st = [p for p, t in leaves if T[t].get("path") == "std::vec::Vec" and T[T[t]["args"][0]]["s"] == "u8"]
        self.staging = st[0] if len(st) == 1 else None
        enums = [(p, t) for p, t in leaves if T[t]["k"] == "adt" and T[t].get("akind") == "enum" and T[t].get("local")]
        self.pinned = self.chunk = None
        for p, t in enums:
            fts = [f["t"] for v in T[t]["variants"] for f in v["f"]]
            if any(T[x]["k"] != "int" for x in fts):
                self.pinned = p
                self.pinned_ty = t
            elif any(T[x]["k"] == "int" for x in fts):
                self.chunk = p
                self.chunk_ty = t
        if self.chunk is None or self.pinned is None:
            raise Unidentified("cursor / source state of the reader not identified")
        # entry fields
        self.ent_fields(prog)
        # position and total size: what tell() and size() return
        self.position = self._returned("tell", u64)
        self.total = self._returned("size", u64)
        # seek: which locations are written and with what
        self.seek_roles(u64)
        self.pinned_roles()
        self.wrapper_roles()
        self.dt_roles()

    def _elem(self, t):
        T = self.prog.types
        a = T[t].get("args") or []
        if not a:
            return None
        e = a[0]
        if T[e]["k"] == "slice":
            e = T[e]["el"]
        return e if T[e]["k"] == "adt" and T[e].get("akind") == "struct" and e != t else None

    def _returned(self, name, cands):
        r = find(self.prog, "Reader", None, name)
        eng, args, outs = run_root(self.prog, r)
        res = None
        for o in outs:
            hit = [p for p in cands if eng.read(o.st, args[0].root, epath(p)) == o.val]
            if len(hit) != 1 or (res is not None and hit[0] != res):
                raise Unidentified("Reader::%s does not return one stored number" % name)
            res = hit[0]
        return res

    def ent_fields(self, prog):
        T = prog.types
        f = flat_fields(prog, self.entry_ty)
        self.e_name = [p for p, t in f if T[t].get("path") in ("std::string::String", "std::boxed::Box", "std::sync::Arc")]
        self.e_name = self.e_name[0] if self.e_name else None
        self.e_data = [p for p, t in f if T[t]["k"] == "param"]
        self.e_data = self.e_data[0] if self.e_data else None
        opt = [p for p, t in f if T[t].get("path") == "std::option::Option" and T[T[t]["args"][0]]["s"] == "u32"]
        self.e_crc = opt[0] if opt else None
        self.crc_ty = dict(f)[self.e_crc] if opt else None
        self.e_u32 = [p for p, t in f if T[t]["s"] == "u32"]
        self.e_u64 = [p for p, t in f if T[t]["s"] == "u64"]
        self.e_dt = None
        self.e_attr = self.e_u32[0] if len(self.e_u32) == 1 else None
        self.e_off = self.e_size = None
        # the date-time is a struct of the crate: flat_fields descended into it
        t = T[self.entry_ty]
        for i, fl in enumerate(t["variants"][0]["f"]):
            x = T[fl["t"]]
            if x["k"] == "adt" and x.get("local") and x.get("akind") == "struct":
                self.e_dt = (i,)
                self.dt_ty = fl["t"]
        if None in (self.e_name, self.e_data, self.e_crc, self.e_attr, self.e_dt) or len(self.e_u64) != 2:
            raise Unidentified("fields of the reader's entry type not identified")

    def seek_roles(self, u64):
        prog = self.prog
        r = find(prog, "Reader", None, "seek_from_start_mut")
        eng, args, outs = run_root(prog, r)
        self.seek = (eng, args, outs)
        tgt = args[1]
        root = args[0].root
        rd = lambda o, p: eng.read(o.st, root, epath(p))
        skip = {}
        written = set()
        bases = {}
        for o in outs:
            for p in u64:
                v = rd(o, p)
                v0 = self._init(eng, args, p)
                if v != v0:
                    written.add(p)
                if p not in (self.position, self.total) and isinstance(v, Aff) and v != v0:
                    d = tgt - v
                    if v.is_const:
                        continue
                    if any(a == tgt.single() for a, _ in v.t):
                        skip[p] = skip.get(p, 0) + 1
                        bases.setdefault(p, []).append((o, d))
        self.skip = max(skip, key=skip.get) if skip else None
        if self.skip is None:
            raise Unidentified("no location keeps the bytes to skip after a seek")
        rest = [p for p in u64 if p not in (self.position, self.total, self.skip)]
        # offsets and sizes: locations whose value seek compares with / subtracts from the target
        self.cd_offset = self.eocd_offset = None
        offs = []
        self.seek_base = bases[self.skip]
        self.chunk_first = {}
        for o, d in self.seek_base:
            a = d.single()
            ch = rd(o, self.chunk)
            if isinstance(ch, VSym):
                ch = eng.expand(o.st, ch)
            if a is None or not isinstance(ch, VAgg):
                continue
            hit = [p for p in rest if self._init(eng, args, p) == d]
            if hit:
                offs.append((hit[0], ch.var, len(ch.f)))
            else:
                for p in self.e_u64:
                    # the element's field named after the entry list
                    nm = repr(a)
                    if nm.endswith("." + self._fname(self.entry_ty, p)):
                        self.e_off = p
                        self.chunk_first["local"] = ch.var
        for p, var, nf in offs:
            if nf == 0:
                self.eocd_offset = p
                self.chunk_first["end"] = var
            else:
                self.cd_offset = p
                self.chunk_first["dir"] = var
        if self.e_off is not None:
            self.e_size = [p for p in self.e_u64 if p != self.e_off][0]
        mutable = [p for p in rest if p in written and p not in (self.cd_offset, self.eocd_offset)]
        other = [p for p in rest if p not in (self.cd_offset, self.eocd_offset)]
        # same struct as position => part of the read state; same struct as the total => a size
        proc = [p for p in other if p[:-1] == self.position[:-1]]
        siz = [p for p in other if p[:-1] == self.total[:-1] and p not in proc]
        self.proc = proc[0] if len(proc) == 1 else (mutable[0] if len(mutable) == 1 else None)
        self.cd_size = siz[0] if len(siz) == 1 else None
        if None in (self.cd_offset, self.eocd_offset, self.e_off, self.proc, self.cd_size):
            raise Unidentified("roles of the reader's numbers not identified: %r" % {k: getattr(self, k) for k in ("cd_offset", "eocd_offset", "e_off", "proc", "cd_size")})

    def _fname(self, ty, path):
        n = []
        for i in path:
            n.append(self.prog.types[ty]["variants"][0]["f"][i]["n"])
            ty = self.prog.types[ty]["variants"][0]["f"][i]["t"]
        return ".".join(n)

    def _init(self, eng, args, p):
        """the value a location had at entry (a symbolic name)"""
        st = State()
        return eng.read(st, args[0].root, epath(p))

    def pinned_roles(self):
        """variants of the source state: nothing / opening future / open source"""
        T = self.prog.types
        self.pin_none = self.pin_future = self.pin_open = None
        for i, v in enumerate(T[self.pinned_ty]["variants"]):
            if not v["f"]:
                self.pin_none = i
                continue
            s = T[v["f"][0]["t"]]["s"]
            if T[v["f"][0]["t"]]["k"] != "adt" or "Future" in s and not T[v["f"][0]["t"]].get("local"):
                self.pin_future = i if "Future" in s else self.pin_future
            if T[v["f"][0]["t"]].get("local"):
                self.pin_open = i
        # (which variants exist is all that is needed; names are not used)

    def wrapper_roles(self):
        """what in the open source's state says that it was repositioned: leaves that have one and the
        same value on every path of the wrapper on which the inner source was told to seek"""
        prog, T = self.prog, self.prog.types
        self.wrapper_ty = T[self.pinned_ty]["variants"][self.pin_open]["f"][0]["t"]
        self.sought = []
        name = T[self.wrapper_ty].get("path", "").split("::")[-1]
        root = find(prog, name, "EntryReader", "start_seek", required=False)
        self.wrapper_name = name
        if root is None:
            return
        leaves = flat_fields(prog, T_self(prog, root))

        class H(Hooks):
            def on_event(h, st, kind, **kw):
                if kind == "src_start_seek":
                    st.store[("G", "seen")] = TRUE
        eng, args, outs = run_root(prog, root, H())
        pr = args[0]
        while isinstance(pr, VAgg):
            pr = pr.f[0]
        seen = [o for o in outs if o.st.store.get(("G", "seen")) is TRUE]
        self.sought_outs = len(seen)
        for p, t in leaves:
            if T[t]["k"] not in ("bool",) and T[t].get("akind") != "enum":
                continue
            vals = set()
            for o in seen:
                v = eng.read(o.st, pr.root, epath(p))
                if isinstance(v, VSym):
                    v = eng.expand(o.st, v)
                if isinstance(v, Bool):
                    vals.add(("b", o.st.decide(v)))
                elif isinstance(v, VAgg):
                    vals.add(("v", v.var))
                else:
                    vals.add(None)
            if len(vals) == 1 and next(iter(vals)) is not None and next(iter(vals))[1] is not None:
                self.sought.append((p, next(iter(vals))))

    def not_sought(self, eng, st, pinval):
        """does the state of the open source say that it was not repositioned?"""
        for p, (k, c) in self.sought:
            try:
                v = pinval.f[0]
                for i in p:
                    v = eng.step(st, v, ("f", i))
            except Lost:
                continue
            if isinstance(v, VSym):
                v = eng.expand(st, v)
            if k == "b" and isinstance(v, Bool) and st.decide(v) is (not c):
                return True
            if k == "v" and isinstance(v, VAgg) and v.var != c:
                return True
        return False

    def is_sought(self, eng, st, pinval):
        """does the state of the open source say that it was repositioned?"""
        for p, (k, c) in self.sought:
            try:
                v = pinval.f[0]
                for i in p:
                    v = eng.step(st, v, ("f", i))
            except Lost:
                continue
            if isinstance(v, VSym):
                v = eng.expand(st, v)
            if k == "b" and isinstance(v, Bool) and st.decide(v) is c:
                return True
            if k == "v" and isinstance(v, VAgg) and v.var == c:
                return True
        return False

    def dt_roles(self):
        """which part of the stored date-time is the time and which the date: what they are computed from"""
        root = find(self.prog, "BuilderEntry", None, "datetime_fields")
        eng, args, outs = run_root(self.prog, root)
        leaves = flat_fields(self.prog, self.dt_ty)
        bt = root["self_ty"]
        names = {}
        for i, a in enumerate(args[1:]):
            for t in a.atoms():
                names[t] = i
        hit = {}
        for o in outs:
            v = eng.read(o.st, args[0].root, ())
            for w in find_values(eng, o.st, v, self.dt_ty):
                for p, t in leaves:
                    x = w
                    for i in p:
                        x = x.f[i] if isinstance(x, VAgg) else None
                    if isinstance(x, Aff):
                        hit.setdefault(p, set()).update(deps(x, names))
        time = [p for p, d in hit.items() if d and d <= {3, 4, 5}]
        date = [p for p, d in hit.items() if d and d <= {0, 1, 2}]
        if len(time) != 1 or len(date) != 1:
            raise Unidentified("parts of the stored date-time not identified: %r" % hit)
        self.dt_order = [self.e_dt + time[0], self.e_dt + date[0]]

    def describe(self):
        return {k: self._fname(self.reader_ty, getattr(self, k)) for k in
                ("position", "total", "skip", "proc", "staging", "chunk", "entries", "pinned", "cd_offset", "eocd_offset", "cd_size")}
