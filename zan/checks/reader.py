"""Properties decided on the transitions of Reader::poll_read."""
import re

from ..readan import ReadAnalysis
from ..readobl import Obl
from ..roles import flat_fields
from .common import *
from . import rule

# rule instances confirmed by hand on the original tree; fewer found = the analysis lost its anchors
FLOORS = {"C01": 5, "C02": 3, "C03": 40, "C04": 12, "C05": 6, "C06": 5, "C07": 8, "C08": 4, "C09": 2, "C10": 3, "C11": 20,
          "C12": 15, "C13": 3, "C14": 6, "C15": 6, "C21": 1, "C22": 4, "C26": 8, "C34": 60, "C35": 10}
WHAT = ("Abstract interpretation of the MIR of Reader::poll_read and everything it calls, as a fixpoint over the states of an inductive "
        "invariant: for every kind of record the cursor can stand at, every state of the entry's source (none, opening, open) and every "
        "relation of staged to skipped bytes, with all lengths, sizes, buffer rooms and source outcomes unknown. Numbers are kept as affine "
        "forms with ranges and memory as symbolic byte sequences; loops are cut at their heads and the head states joined by their shape. "
        "Every transition between cuts and every outcome of the call is an instance of the rules listed.")


def analysis(ctx):
    if ctx._reader is None:
        r = ctx.roles
        known, obl, tot, info = set(), [], {}, {"transitions": 0, "outcomes": 0, "initial_states": 0, "source_events": 0, "paths_given_up": 0}
        fns = set()
        n = ReadAnalysis(ctx.prog, roles=r, cases=[0], known=set()).n_initial
        for c in range(n):
            a = ReadAnalysis(ctx.prog, roles=r, cases=[c], known=known)
            o = Obl(a)
            for k, (v, d, m) in o.run().items():
                cur = tot.get(k)
                rank = {True: 0, None: 1, False: 2}
                if cur is None or rank[v] > rank[cur[0]]:
                    tot[k] = [v, d, m + (cur[2] if cur else 0)]
                else:
                    cur[2] += m
            info["initial_states"] += 1
            info["transitions"] += o.n["transitions"]
            info["outcomes"] += o.n["outcomes"]
            info["source_events"] += len(a.records)
            info["paths_given_up"] += len(a.hooks.losts)
            fns |= {ctx.prog.bodies[b]['path'] for b in a.eng.visited}
        ctx._reader = (tot, info, fns)
    return ctx._reader


def feed(ctx, rep, prop):
    tot, info, fns = analysis(ctx)
    n = 0
    lost = info["paths_given_up"]
    for (p, rule_, construct), (v, d, m) in tot.items():
        if p != prop:
            continue
        n += 1
        rep.judge(v, rule_, construct, d)
    rep.info.update(info)
    rep.info["roles"] = ctx.roles.describe()
    rep.analysed |= fns
    rep.explanation = (rep.explanation + " " + WHAT).strip()
    need = FLOORS[prop]
    if lost and n < need:
        rep.undecided("floor", "rule instances on poll_read", "%d of %d found, but %d path(s) could not be analysed" % (n, need, lost))
    else:
        rep.floor("rule instances on Reader::poll_read", n, need)


def _mk(p):
    def f(ctx, rep):
        feed(ctx, rep, p)
    f.__name__ = "reader_" + p
    rule(p)(f)


for _p in FLOORS:
    _mk(_p)


# ------------------------------------------------------------------ the seek inside an entry's source
GQ = ("G", "seek_outstanding")


class SeekHooks(RunHooks):
    """typestate of the source: a seek is outstanding between start_seek and the end of poll_complete"""

    def __init__(self):
        super().__init__()
        self.completes, self.starts = [], []

    def on_event(self, st, kind, **kw):
        if kind == "src_start_seek":
            self.starts.append(st.copy())
            st.store[GQ] = bconst(kw["outcome"] == "ok")
        elif kind == "src_seek_complete":
            self.completes.append(st.copy())
            if kw["outcome"] != "pending":
                st.store[GQ] = FALSE
            st.store[("G", "done")] = bconst(kw["outcome"] != "pending")


@rule("C11", "C06")
def source_seek(ctx, rep):
    """the flag by which the wrapper of a source remembers that a seek is outstanding is right on every way out"""
    prog, r, T = ctx.prog, ctx.roles, ctx.prog.types
    wt = r.wrapper_ty
    wname = T[wt].get("path", "").split("::")[-1]
    leaves = [(p, t) for p, t in flat_fields(prog, wt) if (T[t]["k"] == "bool" or T[t].get("akind") == "enum")]
    for root in prog.roots:
        if root.get("self_ty") is None or T[root["self_ty"]].get("path") != T[wt].get("path") or root.get("body") is None or root.get("trait") or root.get("in_trait"):
            continue
        b = prog.bodies[root["body"]]
        if not b["argc"] or not re.search(r"&('\S+ )?mut ", T[b["locals"][1]]["s"]):
            continue
        res = {}
        for p, t in leaves:
            cands = [("b", True), ("b", False)] if T[t]["k"] == "bool" else [("v", i) for i in range(len(T[t]["variants"]))]
            told = [x for q, x in r.sought if q == p]
            for k, c in cands:
                if told and (k, c) not in told:
                    continue      # has this value whenever the source was told to seek
                def prep(run, eng, st, p=p, k=k, c=c):
                    out = []
                    for q in (True, False):
                        s = st.copy()
                        v = run.rd(s, p)
                        if k == "b":
                            if not s.assume(v if c == q else bnot(v), eng):
                                continue
                            s.store[GQ] = bconst(q)
                            out.append(s)
                        else:
                            n = len(T[v.ty]["variants"])
                            for i in range(n):
                                if (i == c) == q:
                                    s2 = s.copy()
                                    s2.refine[v.name] = i
                                    s2.store[GQ] = bconst(q)
                                    out.append(s2)
                    return out
                run = Run(prog, root, SeekHooks(), prep)
                if not run.h.completes or not run.h.starts:
                    break
                if run.losts:
                    rep.undecided("path analysed to its end", run.losts[0][0], run.losts[0][2])
                    return
                rep.analysed |= run.fns
                bad = []
                good = done_ok = 0
                for o in run.outs:
                    v = run.rd(o.st, p)
                    q = o.st.store.get(GQ)
                    q = o.st.decide(q) if isinstance(q, Bool) else None
                    if isinstance(v, VSym):
                        v = run.expand(o.st, v)
                    f = o.st.decide(v) if isinstance(v, Bool) else None if not isinstance(v, VAgg) else (v.var == c)
                    if f is not None and isinstance(v, Bool):
                        f = f is c
                    if f is None or q is None:
                        bad.append((None, o))
                    elif f != q:
                        bad.append((False, o))
                    else:
                        good += 1
                        d = o.st.store.get(("G", "done"))
                        done_ok += d is TRUE and result_ready_ok(run, o)
                over = [s for s in run.h.completes if s.store.get(GQ) is not TRUE]
                twice = [s for s in run.h.starts if s.store.get(GQ) is not FALSE]
                res[(p, k, c)] = (len(bad), bad, over, twice, good, done_ok)
        if not res:
            continue
        name = "%s::%s" % (wname, root["name"])
        best = min(res, key=lambda x: (res[x][0] + len(res[x][2]) + len(res[x][3]), str(x)))
        nbad, bad, over, twice, good, done_ok = res[best]
        RULE = "a seek of the source that ended, also with an error, is not remembered as outstanding"
        if not nbad and not over and not twice:
            rep.ok(RULE, name)
        elif not done_ok or any(v is None for v, _ in bad) or not good:
            # no flag of the wrapper follows the seek: it may be kept elsewhere
            rep.undecided(RULE, name, "no field of %s follows the outstanding seek" % wname)
        else:
            rep.bad(RULE, name, "%d of %d ways out leave the field saying otherwise; %d completion(s) of a seek not started, %d start(s) over an outstanding seek"
                    % (nbad, nbad + good, len(over), len(twice)))


def result_ready_ok(run, o):
    v = run.expand(o.st, o.val)
    if isinstance(v, VAgg) and run.eng.ty_path(v.ty) == "std::task::Poll" and v.f:
        v = run.expand(o.st, v.f[0])
        return isinstance(v, VAgg) and v.var == 0
    return False
