"""Loaded program: bodies, types, roots (from the extractor's JSON)."""
import json


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.roots = d["roots"]
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self._analysed = {}

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]

    def find_roots(self, pred):
        return [r for r in self.roots if pred(r)]

    def root_body(self, r):
        return self.bodies.get(r.get("body")) if r.get("body") is not None else None


def fmt_place(p, b=None, prog=None):
    names = {}
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*":
            s = "(*%s)" % s
        elif e == "id":
            pass
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "d":
            s = "(%s as v%d)" % (s, e[1])
        else:
            s += str(e)
    return s


def fmt_op(o, prog):
    if "copy" in o:
        return fmt_place(o["copy"])
    if "move" in o:
        return "move " + fmt_place(o["move"])
    if "const" in o:
        c = o["const"]
        v = c.get("v")
        if c.get("fn"):
            return "fn:" + prog.tys(c["t"])
        return "const(%s %s%s: %s)" % (c.get("path", ""), c.get("cparam", ""), json.dumps(v) if v else "?", prog.tys(c["t"])[:60])
    return str(o)


def show(prog, b, out=print):
    out("fn %s  [%s] id=%d argc=%d %s" % (b["path"], b["inst"], b["id"], b["argc"], b["span"]))
    for i, t in enumerate(b["locals"]):
        out("  _%d: %s" % (i, prog.tys(t)))
    for n, p in b["names"]:
        out("  debug %s = %s" % (n, fmt_place(p)))
    for i, bl in enumerate(b["blocks"]):
        if bl["cl"]:
            continue
        out(" bb%d:" % i)
        for s in bl["s"]:
            if s[0] == "=":
                r = s[2]
                rs = r[0] + " " + ", ".join(fmt_op(x, prog) if isinstance(x, dict) else (fmt_place(x) if (r[0] in ("ref", "discr") and k == 0) else
                     ("[" + ", ".join(fmt_op(y, prog) if isinstance(y, dict) else str(y) for y in x) + "]" if isinstance(x, list) else str(x))) for k, x in enumerate(r[1:]))
                if r[0] == "agg" and r[1][0] in ("adt", "closure"):
                    rs += "  <" + prog.tys(r[1][1]) + ">"
                out("    %s = %s" % (fmt_place(s[1]), rs))
            elif s[0] in ("live", "dead"):
                continue
            else:
                out("    %s" % (s,))
        t = bl["t"]
        if t[0] == "call":
            c = t[1]
            nm = (c.get("rpath") or c.get("path") or "indirect " + fmt_op(c.get("indirect"), prog))
            out("    %s = CALL %s(%s) -> bb%s  %s" % (fmt_place(t[3]), nm, ", ".join(fmt_op(a, prog) for a in t[2]), t[4], "#%s" % c.get("body", "-")))
        elif t[0] == "switch":
            out("    SWITCH %s %s else %s" % (fmt_op(t[1], prog), t[2], t[3]))
        elif t[0] == "assert":
            out("    ASSERT %s == %s (%s) -> bb%d" % (fmt_op(t[1], prog), t[2], t[3], t[4]))
        elif t[0] == "drop":
            out("    DROP %s -> bb%d" % (fmt_place(t[1]), t[2]))
        else:
            out("    %s" % (t,))


if __name__ == "__main__":
    import sys
    p = Program(sys.argv[1])
    for b in p.bodies.values():
        if any(b["path"].endswith(a) or a in b["path"] for a in sys.argv[2:]):
            show(p, b)
