"""One module per group of properties; every rule is a function (ctx, rep) registered for a property."""
import traceback

from ..base import CheckFailed, Report, Unidentified, extract
from ..roles import ReaderRoles

RULES = {}


def rule(*props):
    def dec(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return dec


class Ctx:
    """what the rules of one run share"""

    def __init__(self, tier, prog=None):
        self.tier = tier
        self._prog = prog
        self._roles = None
        self._reader = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = extract()
        return self._prog

    @property
    def roles(self):
        if self._roles is None:
            self._roles = ReaderRoles(self.prog)
        return self._roles


from . import reader, seek, builder, setters, memory, web, copies, compilation, effects, files  # noqa: E402,F401


def run(prop, tier, prog=None, ctx=None):
    rep = Report(prop, tier)
    ctx = ctx or Ctx(tier, prog)
    for f in RULES[prop]:
        try:
            f(ctx, rep)
        except Unidentified as e:
            rep.undecided("anchors", "%s: %s" % (f.__name__, e), "a part of the code was not recognised; nothing is claimed about it")
        except CheckFailed as e:
            rep.bad("anchors", getattr(e, "key", f.__name__), "the analysis could not be carried out: %s" % e)
        except Exception as e:  # a crash of the analysis decides nothing
            rep.undecided("analysis", f.__name__, "internal error: %s" % traceback.format_exc()[-1500:])
    if not rep.ob:
        rep.bad("anchors", "no obligation was decided", "the analysis decided nothing about this property on this tree")
    return rep
