"""Effects: what the functions of the crate can reach (C15, C16, C17)."""
import re

from ..base import CheckFailed
from ..readobl import LIMIT, show
from ..terms import Aff, K, ge0
from . import rule
from .common import Run, exact_any
from .web import ReadHooks, WRun, short_fn, stream_makers, wroles

STD = ("core", "alloc", "std")

# work handed to a thread on which blocking is allowed
OFFLOAD = re.compile(r"(^|::)(spawn_blocking|spawn_blocking_on|unblock|std::thread::spawn|std::thread::Builder::spawn|thread::scoped::.*::spawn|actix_web::web::block)$"
                     r"|^std::thread::(spawn|Builder::spawn)|^tokio::task::spawn_blocking|^actix_web::web::block$")

# operations that keep the calling thread waiting
BLOCKING = re.compile(
    r"^std::fs::(?!Metadata\b|Permissions\b|FileType\b|OpenOptions::(?!open$)|DirBuilder::(?!create$)|DirEntry::(path|file_name)$|FileTimes\b|File::options$|TryLockError)"
    r"|^<(&(mut )?)?std::fs::(File|ReadDir) as std::(io|iter|os)"
    r"|^<std::sync::Arc<std::fs::File> as std::io"
    r"|^std::path::Path::(exists|try_exists|metadata|symlink_metadata|is_file|is_dir|is_symlink|canonicalize|read_link|read_dir)$"
    r"|^std::process::(Command::(output|status|spawn)|Child::)"
    r"|^std::net::(TcpStream|TcpListener|UdpSocket)::(connect|connect_timeout|accept|bind|recv|recv_from|send|send_to|peek)|^<.* as std::net::ToSocketAddrs>::"
    r"|^std::thread::(sleep|sleep_ms|sleep_until|park|park_timeout|scope|JoinHandle::.*join)"
    r"|^std::thread::.*JoinHandle.*::join$|^std::thread::ScopedJoinHandle.*::join$"
    r"|^std::sync::(\w+::)*(Mutex|ReentrantLock)::<.*>::lock$|^std::sync::(\w+::)*RwLock::<.*>::(read|write)$|^std::sync::(\w+::)*Condvar::wait|^std::sync::(\w+::)*Barrier::wait"
    r"|^std::sync::(\w+::)*(mpsc|mpmc)::(\w+::)*(Receiver|Iter|IntoIter)(::)?<.*>(::| as std::iter::Iterator>::)(recv|recv_timeout|recv_deadline|iter|into_iter|next)$"
    r"|^std::io::(stdin|Stdin::|StdinLock)|^<(&)?std::io::Stdin"
    r"|(^|::)(block_on|blocking_recv|blocking_send|blocking_recv_many|blocking_lock|blocking_read|blocking_write|blocking_lock_owned|blocking_read_owned|blocking_write_owned|block_in_place|block_on_stream)$"
    r"|^(parking_lot|lock_api)::.*::(lock|read|write|wait)$|^crossbeam_channel::.*::(recv|recv_timeout)$|^(pollster|futures_executor)::")
# the same operations through a trait of the standard library, by receiver
BLOCKING_TRAIT = re.compile(r"^std::io::(Read|Write|Seek|BufRead)$")
BLOCKING_RECV = re.compile(r"(?<![\w:])std::(fs::File|net::(TcpStream|UdpSocket)|io::Stdin|io::StdinLock|process::Child\w+|os::unix::net::UnixStream)\b")

# inputs other than the entries and the sources
AMBIENT = re.compile(
    r"^std::time::(SystemTime|Instant)::(now|elapsed)$|^tokio::time::|^chrono::(Utc|Local|offset::\w+::\w+|offset::Local|offset::Utc)::(now|today)|^time::.*::now_(utc|local)$"
    r"|^<chrono::(offset::)?(local::)?Local as |^chrono::Local::"
    r"|^std::env::|^std::process::(id|Command)|^std::thread::(current|available_parallelism|Thread::(id|name))"
    r"|^(rand|rand_core|fastrand|getrandom|oorandom|uuid)::|^<.* as rand(_core)?::|^std::random::"
    r"|^std::(hash|collections::hash_map|hash::random)::(\w+::)*RandomState::|^<std::(hash|collections::hash_map|hash::random)::(\w+::)*RandomState as std::hash::BuildHasher>"
    r"|^std::ptr::(const_ptr|mut_ptr)::.*::(addr|expose_provenance|expose_addr)$|^std::ptr::NonNull::<T>::addr$|^core::fmt::rt::Argument::<'_>::new_pointer$|^<(\*|&).* as std::fmt::Pointer>"
    r"|^std::thread::(local::)?LocalKey::")
# iteration in an order that differs from run to run
UNORDERED_RECV = re.compile(r"^(&(mut )?)?std::collections::(hash_map::|hash_set::|hash::map::|hash::set::)?(HashMap|HashSet)<|^std::collections::(hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|ValuesMut|IntoValues|Drain|ExtractIf)\b")
UNORDERED = re.compile(r"^std::collections::(\w+::)*(HashMap|HashSet)::<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|intersection|difference)$")

WHOLE = re.compile(r"(^|::)(read_to_end|read_to_string|fs::read|copy_to_bytes|read_to_end_internal|BufReader::.*with_capacity|try_collect|to_bytes|to_bytes_limited)$")


class Graph:
    def __init__(self, prog):
        self.p = prog
        self.nodes = {}       # path -> bodies
        for b in prog.bodies.values():
            if b["local"]:
                self.nodes.setdefault(b["path"], []).append(b)
        self.impls = {}       # (trait, name) -> paths
        for r in prog.roots:
            if r.get("trait") and r.get("body") is not None:
                self.impls.setdefault((r["trait"], r["name"]), set()).add(r["path"])
        self.calls = {}       # path -> [(callee, name shown, receiver types, sure)]
        self.edges = {}       # path -> {target: sure}
        self.offloaded = set()
        self.casts = {}
        self.statics = {}
        self._param = {}
        for path, bs in self.nodes.items():
            for b in bs:
                self.scan(path, b)

    # -------------------------------------------------------------- one body
    def edge(self, path, target, sure):
        e = self.edges.setdefault(path, {})
        e[target] = e.get(target, False) or sure

    def call(self, path, c, sure):
        names = {c.get("path"), c.get("rpath")} - {None}
        recv = [self.p.tys(t) for t in c.get("targs", [])[:1]]
        self.calls.setdefault(path, []).append((names, c.get("trait"), recv, sure))
        for k in ("rpath", "path"):
            if c.get(k) in self.nodes:
                self.edge(path, c[k], sure)
                return
        if c.get("body") is not None:      # code of another crate, made for this call: what it calls may be ours
            self.edge_foreign(path, c["body"], sure, 6)
        if c.get("trait"):
            for t in self.impls.get((c["trait"], c["name"]), ()):
                self.edge(path, t, sure)

    def edge_foreign(self, path, bid, sure, depth):
        b = self.p.bodies.get(bid)
        if b is None or depth == 0:
            return
        if b["local"]:
            self.edge(path, b["path"], sure)
            return
        if b["krate"] not in STD:
            return              # other crates' functions are judged by name

    def callable_of(self, t):
        """path of the function a closure or function item type stands for, or None"""
        x = self.p.types[t]
        if x["k"] in ("closure", "coroutine"):
            return x["path"], None
        if x["k"] == "fndef":
            return None, x
        return None

    def scan(self, path, b):
        for bl in b["blocks"]:
            if bl["cl"]:
                continue
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] == "agg" and r[1][0] in ("closure", "coroutine"):
                    x = self.p.types[r[1][1]]
                    how = "run" if r[1][0] == "coroutine" else (self.flow(b, s[1], set()) if not s[1][1] else "stored")
                    self.mention(path, x["path"], how)
                elif r[0] == "cast" and re.search("ExposeProvenance|PointerExpose", str(r[1])):
                    self.casts.setdefault(path, set()).add(str(r[1]))
                elif r[0] == "tls":
                    self.statics.setdefault(path, set()).add(str(r[1]))
                for o in operands(r):
                    self.constant(path, b, o, s[1])
            t = bl["t"]
            if t[0] == "call":
                c = t[1]
                if "path" in c or "rpath" in c:
                    self.call(path, c, True)
                for i, o in enumerate(t[2]):
                    k = o.get("const") if isinstance(o, dict) else None
                    if k is None:
                        continue
                    if k.get("static"):
                        self.statics.setdefault(path, set()).add(k["static"])
                    if k.get("fn") or self.p.types[k["t"]]["k"] == "closure":
                        self.fn_value(path, k["t"], self.at_call(c, i, set()))

    def constant(self, path, b, o, dst):
        k = o.get("const") if isinstance(o, dict) else None
        if k is None:
            return
        if k.get("static"):
            self.statics.setdefault(path, set()).add(k["static"])
        if k.get("fn") or self.p.types[k["t"]]["k"] == "closure":
            self.fn_value(path, k["t"], self.flow(b, dst, set()) if not dst[1] else "stored")

    def fn_value(self, path, t, how):
        x = self.p.types[t]
        if x["k"] == "closure":
            self.mention(path, x["path"], how)
        elif x["k"] == "fndef" and not x.get("ctor"):
            for n in (x.get("rpath"), x["path"]):
                if n in self.nodes:
                    return self.mention(path, n, how)
            if how == "away":
                self.offloaded.add((path, x["path"]))
            else:
                self.calls.setdefault(path, []).append(({x["path"], x.get("rpath")} - {None}, None, [], how == "run"))

    def mention(self, path, target, how):
        if how == "away":
            self.offloaded.add((path, target))
        else:
            self.edge(path, target, how == "run")

    # -------------------------------------------------------------- where a callable goes
    def flow(self, b, place, seen):
        """'away' if the value in the place is only ever handed to another thread, 'run' if it may run here, 'stored' if not known"""
        key = (b["id"], place[0], str(place[1]))
        if key in seen:
            return "away"
        seen = seen | {key}
        res = []
        loc, pre = place[0], [e for e in place[1] if e != "id"]

        def at(pl):
            """does an operand's place denote the value?"""
            ps = [e for e in pl[1] if e != "id"]
            return pl[0] == loc and [x for x in ps if x != "*"][:len([x for x in pre if x != "*"])] == [x for x in pre if x != "*"]

        for bl in b["blocks"]:
            if bl["cl"]:
                continue
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] == "ref" and at(r[1]):
                    res.append(self.flow(b, s[1], seen) if not s[1][1] else "stored")
                for i, o in enumerate(operands(r)):
                    pl = o.get("copy") or o.get("move") if isinstance(o, dict) else None
                    if pl is None or not at(pl):
                        continue
                    if r[0] in ("use", "cast"):
                        res.append("stored" if s[1][1] or s[1][0] == 0 else self.flow(b, s[1], seen))
                    elif r[0] == "agg" and r[1][0] in ("closure", "coroutine"):
                        x = self.p.types[r[1][1]]
                        inner = self.p.bodies.get(x.get("body"))
                        how = self.captured(inner, i, seen) if inner is not None else "stored"
                        # a closure that owns it may itself go away
                        if how != "away" and r[1][0] == "closure" and not s[1][1]:
                            how = self.flow(b, s[1], seen)
                        res.append(how)
                    else:
                        res.append("stored")
            t = bl["t"]
            if t[0] == "call":
                for i, o in enumerate(t[2]):
                    pl = o.get("copy") or o.get("move") if isinstance(o, dict) else None
                    if pl is not None and at(pl):
                        res.append(self.at_call(t[1], i, seen))
                f = t[1].get("indirect")
                if isinstance(f, dict):
                    pl = f.get("copy") or f.get("move")
                    if pl is not None and at(pl):
                        res.append("run")
        return worst(res)

    def captured(self, inner, i, seen):
        """how a coroutine or closure uses the i-th value it captured"""
        return self.flow(inner, [1, [["f", i, self.capty(inner, i)]]], seen)

    def capty(self, inner, i):
        for bl in inner["blocks"]:
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                for pl in places(s[2]):
                    for e in pl[1]:
                        if pl[0] == 1 and isinstance(e, list) and e[0] == "f":
                            if e[1] == i:
                                return e[2]
                            break
        return -1

    def at_call(self, c, i, seen):
        names = [n for n in (c.get("rpath"), c.get("path")) if n]
        if any(OFFLOAD.search(n) for n in names):
            return "away"
        for n in names:
            if n in self.nodes:
                res = [self.flow(b, [i + 1, []], seen) for b in self.nodes[n]]
                return worst(res)
        if c.get("rkrate", c.get("krate")) in STD:
            if re.search(r"::(new|pin|from|into|clone)$", names[0]) and re.search("Box|Rc|Arc", " ".join(names)):
                return "stored"
            return "run"
        return "stored"

    # -------------------------------------------------------------- reachability
    def reach(self, root):
        """{function: (from, sure)} reachable from a function"""
        best = {root: (None, True)}
        todo = [root]
        while todo:
            x = todo.pop()
            for t, sure in self.edges.get(x, {}).items():
                s = best[x][1] and sure
                if t not in best or (s and not best[t][1]):
                    best[t] = (x, s)
                    todo.append(t)
        return best

    def chain(self, best, x):
        out = []
        while x is not None and len(out) < 12:
            out.append(short_fn(x))
            x = best[x][0]
        return " <- ".join(out)

    def findings(self, root, test, extra=None):
        """calls reachable from a function for which the test holds: [(sure, function, callee, chain)]"""
        best = self.reach(root)
        out = []
        for x, (_, sure) in best.items():
            for names, trait, recv, s in self.calls.get(x, ()):
                hit = test(names, trait, recv)
                if hit:
                    out.append((sure and s, x, hit, self.chain(best, x)))
            if extra:
                for hit in extra(x):
                    out.append((sure, x, hit, self.chain(best, x)))
        return best, out


def worst(res):
    if not res:
        return "away"       # made and dropped
    return "run" if "run" in res else ("stored" if "stored" in res else "away")


def operands(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[2]
    return []


def places(r):
    for o in operands(r):
        if isinstance(o, dict):
            pl = o.get("copy") or o.get("move")
            if pl:
                yield pl
    if r[0] in ("ref", "discr") and isinstance(r[1], list):
        yield r[1]


def graph(ctx):
    if not hasattr(ctx, "_graph"):
        ctx._graph = Graph(ctx.prog)
    return ctx._graph


POLLING = ("Future", "AsyncRead", "AsyncSeek", "AsyncBufRead", "Stream", "MessageBody", "EntryData", "EntryReader", "Responder", "Drop", "PinnedDrop", "Iterator")


def tail(r):
    return (r.get("trait") or "").split("::")[-1]


def async_roots(ctx):
    """functions that run on an executor's thread: {path: what}"""
    g, out = graph(ctx), {}
    for r in ctx.prog.roots:
        if r.get("body") is not None and tail(r) in POLLING:
            out[r["path"]] = "%s::%s" % (tail(r), r["name"])
    for t in ctx.prog.types:
        if t["k"] == "coroutine" and t["path"] in g.nodes:
            out[t["path"]] = "async"
    return out


def blocking(names, trait, recv):
    for n in names:
        if BLOCKING.search(n):
            return n
    if trait and BLOCKING_TRAIT.search(trait) and recv and BLOCKING_RECV.search(recv[0]):
        return "%s of %s" % (sorted(names)[0], recv[0])
    return None


def ambient(names, trait, recv):
    for n in names:
        if AMBIENT.search(n) or UNORDERED.search(n):
            return n
    if trait and re.search(r"^std::iter::(IntoIterator|Iterator)$", trait) and recv and UNORDERED_RECV.search(recv[0]):
        return "%s of %s" % (sorted(names)[0], recv[0])
    return None


def label(path):
    m = re.match(r"^<(.*) as (.*)>::(\w+)(.*)$", path)
    if m:
        return "%s: %s::%s%s" % (m.group(1).split("::")[-1] if "<" not in m.group(1) else re.sub(r"\b\w+::", "", m.group(1)), m.group(2).split("<")[0].split("::")[-1], m.group(3), m.group(4))
    return re.sub(r"<impl [^>]*>(>)*::", "", re.sub(r"^\w+::", "", path))


@rule("C16")
def no_blocking(ctx, rep):
    g, roots = graph(ctx), async_roots(ctx)
    rep.explanation = ("Call graph over the type-checked MIR of the crate (direct and resolved calls, trait calls to every implementation in the crate, closures and function "
                       "items wherever they are made, except those whose every use ends in a hand-over to another thread). From every poll function, asynchronous function, future, source "
                       "operation and destructor no operation that makes the thread wait is reachable: std::fs, path queries, processes, sockets, sleeping, parking, joining, locks, channels, block_on.")
    seen = set()
    for p, what in sorted(roots.items()):
        best, hits = g.findings(p, blocking)
        seen |= set(best)
        bad = [h for h in hits if h[0]]
        if bad:
            s, x, hit, chain = bad[0]
            rep.bad("nothing that blocks is reachable", label(p), "%s calls %s (%s)" % (x, hit, chain))
        elif hits:
            rep.undecided("nothing that blocks is reachable", label(p), "%s is made in %s; where it runs is not known" % (hits[0][2], hits[0][1]))
        else:
            rep.ok("nothing that blocks is reachable", label(p), "%s; %d functions reachable" % (what, len(best)))
    rep.analysed |= seen
    rep.info["call_sites_judged"] = sum(len(g.calls.get(x, ())) for x in seen)
    rep.info["callees_outside_the_crate"] = len({n for x in seen for c in g.calls.get(x, ()) for n in c[0] if n not in g.nodes})
    rep.info["handed_to_another_thread"] = sorted("%s in %s" % (b, a) for a, b in g.offloaded)[:50]
    need(rep, roots)


def need(rep, roots):
    """public entry points that must have been found"""
    kinds = set(roots.values())
    for k in ("AsyncRead::poll_read", "AsyncSeek::start_seek", "AsyncSeek::poll_complete", "Stream::poll_next", "MessageBody::poll_next", "EntryData::get_reader", "EntryReader::poll_read", "async"):
        rep.floor("functions analysed: " + k, 1 if k in kinds else 0, 1)
    rep.floor("polled or asynchronous functions", len(roots), 12)


NOT_OUTPUT = ("Debug", "Display", "Error", "Drop", "PinnedDrop")


@rule("C17")
def deterministic(ctx, rep):
    g = graph(ctx)
    rep.explanation = ("The same call graph, from every public function and trait operation except formatting: no clock, random number, environment variable, process or thread identity, address "
                       "of an object, randomly seeded hash or unordered iteration, thread-local or mutable global is reachable, so nothing but the arguments can influence what is built and read.")
    roots = {}
    for r in ctx.prog.roots:
        if r.get("body") is None or tail(r) in NOT_OUTPUT:
            continue
        if r.get("pub") or r.get("trait"):
            roots[r["path"]] = r["name"]
    roots.update({p: w for p, w in async_roots(ctx).items() if w.split("::")[0] not in NOT_OUTPUT})

    def extra(x):
        out = ["an address turned into a number (%s)" % c for c in g.casts.get(x, ())]
        out += ["the mutable global %s" % s for s in g.statics.get(x, ())]
        return out

    seen = set()
    for p in sorted(roots):
        best, hits = g.findings(p, ambient, extra)
        seen |= set(best)
        bad = [h for h in hits if h[0]]
        if bad:
            s, x, hit, chain = bad[0]
            rep.bad("nothing but the arguments is an input", label(p), "%s uses %s (%s)" % (x, hit, chain))
        elif hits:
            # whether a stored closure runs during reading does not matter: it was made from here
            rep.undecided("nothing but the arguments is an input", label(p), "%s in %s" % (hits[0][2], hits[0][1]))
        else:
            rep.ok("nothing but the arguments is an input", label(p), "%d functions reachable" % len(best))
    rep.analysed |= seen
    rep.info["call_sites_judged"] = sum(len(g.calls.get(x, ())) for x in seen)
    need(rep, async_roots(ctx))
    names = {r["name"] for r in ctx.prog.roots if r["path"] in roots}
    for k in ("add_entry", "build", "metadata", "datetime_system", "unix_permissions"):
        rep.floor("public functions analysed: " + k, 1 if k in names else 0, 1)


# ---------------------------------------------------------------- C15
def whole(names, trait, recv):
    for n in names:
        if WHOLE.search(n):
            return n
    return None


@rule("C15")
def allocations(ctx, rep):
    rep.explanation = ("Abstract interpretation of every polled function outside Reader::poll_read: each allocation (with_capacity, reserve, resize, extending, copying into an owned sequence) "
                       "asks for at most a constant or the length of a path; and no operation that reads a whole source into memory is reachable from them.")
    prog, g = ctx.prog, graph(ctx)
    wr = wroles(ctx)
    n = 0
    runs = []
    for r in prog.roots:
        if r.get("body") is None or tail(r) not in ("Future", "AsyncRead", "AsyncSeek", "Stream", "MessageBody", "EntryData", "EntryReader"):
            continue
        if r.get("self_ty") == wr.reader_ty and r["name"] == "poll_read":
            continue        # analysed with the invariant of the reader
        if tail(r) == "Stream":
            run = WRun(prog, r, ReadHooks(wr))
        elif tail(r) == "MessageBody" and r["name"] == "poll_next":
            run = wr.web().poll_run
        else:
            run = Run(prog, r)
        runs.append((r, run))
    for r in stream_makers(prog, wr):
        if tail(r) != "Clone":      # a copy of the reader is not reading
            runs.append((r, WRun(prog, r, ReadHooks(wr))))
    for r, run in runs:
        nm = label(r["path"])
        rep.analysed |= run.fns
        for f, bb, why in run.losts:
            rep.undecided("path analysed to its end", nm, why)
        for kind, st, kw in run.h.events:
            if kind != "alloc":
                continue
            n += 1
            a = kw["amount"]
            v = None
            if isinstance(a, Aff):
                v = True if st.decide(ge0(K(LIMIT) - a)) is True else (False if exact_any(a) and not re.search(r"capacity\(|\bcap0", show(a)) else None)
            rep.judge(v, "each allocation is bounded by a constant", "%s: %s" % (nm, kw["kind_"]), "room for %s elements" % show(a))
        rep.ok("each allocation is bounded by a constant", nm)
    rep.info["allocations_outside_poll_read"] = n
    for p, what in sorted(async_roots(ctx).items()):
        if what.split("::")[0] in ("Drop", "PinnedDrop", "Responder"):
            continue
        best, hits = g.findings(p, whole)
        bad = [h for h in hits if h[0]]
        if bad:
            rep.bad("no source is read into memory as a whole", label(p), "%s calls %s (%s)" % (bad[0][1], bad[0][2], bad[0][3]))
        else:
            rep.ok("no source is read into memory as a whole", label(p))
