"""Shared by the rules: a run of one function, with what the analysis met on the way."""
from ..engine import *
from ..roles import epath, find
from ..terms import *
from .. import models as M
from ..models import ISZ
from ..readobl import INEXACT, exact_val, show, verdict


def exact_any(v, d=8):
    """is a value known exactly (no unknown results of calls, joins or conversions inside)?"""
    if d < 0:
        return False
    if isinstance(v, Aff):
        return exact_val(v)
    if isinstance(v, Bool):
        return v.k == "c"
    if isinstance(v, VAgg):
        return all(exact_any(x, d - 1) for x in v.f)
    if isinstance(v, VSym):
        return not INEXACT.search(str(v.name))
    if isinstance(v, VSeq):
        return all(s[0] == "lit" and all(exact_any(x, d - 1) for x in s[1]) or (s[0] == "sym" and not INEXACT.search(str(s[1])))
                   for s in v.segs)
    if isinstance(v, VRef):
        return True
    return False


class RunHooks(Hooks):
    def __init__(self):
        self.panics, self.losts, self.events, self.externs, self.unknown = [], [], [], [], []

    def on_panic(self, st, body, what, span):
        self.panics.append((body["path"], what, span, st.copy()))

    def on_lost(self, st, body, bb, e):
        self.losts.append((body["path"], bb, str(e)))

    def on_event(self, st, kind, **kw):
        self.events.append((kind, st, kw))


class Run:
    """outcomes of one function analysed on its own"""

    def __init__(self, prog, root, hooks=None, prep=None):
        self.prog, self.root = prog, root
        self.h = hooks or RunHooks()
        b = prog.bodies[root["body"]]
        eng = self.eng = Engine(prog, self.h)
        st = State()
        self.args = [eng.mk_sym(st, "a%d" % i, b["locals"][i + 1]) for i in range(b["argc"])]
        states = (prep(self, eng, st) if prep else None) or [st]
        self.states = states
        self.outs = eng.run(b, self.args, states[0], 1, more=states[1:])
        self.losts = self.h.losts
        self.panics = self.h.panics
        self.fns = {prog.bodies[x]["path"] for x in eng.visited}

    def ref(self, i=0):
        """the place the i-th argument (a reference, possibly pinned) points to"""
        pr = self.args[i]
        while isinstance(pr, VAgg) and len(pr.f) == 1:
            pr = pr.f[0]
        return pr

    def rd(self, st, path, i=0):
        r = self.ref(i)
        return self.eng.read(st, r.root, tuple(r.path) + epath(path))

    def init(self, path, i=0):
        r = self.ref(i)
        return self.eng.read(State(), r.root, tuple(r.path) + epath(path))

    def expand(self, st, v):
        return self.eng.expand(st, v) if isinstance(v, VSym) else v


def variant(prog, v):
    return prog.types[v.ty]["variants"][v.var]["n"] if isinstance(v, VAgg) and v.var is not None else None


def span_free(what):
    return what
