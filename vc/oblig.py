"""Obligations and their outcomes."""
import time, traceback
from .exec import *
from .env import *

PROVED, FAILED, UNDECIDED = "proved", "failed", "undecided"


class Ob:
    def __init__(self, name, status, detail="", backend="", fn=""):
        self.name, self.status, self.detail, self.backend, self.fn = name, status, detail, backend, fn


class Proof:
    """Collects obligations of one property."""

    def __init__(self, prog):
        self.prog = prog
        self.obs = []
        self.contracts = set()
        self.models = set()
        self.functions = set()
        self.notes = set()
        self.group = ""

    def add(self, name, ok, detail="", backend="ring"):
        self.obs.append(Ob(self.group + name, PROVED if ok is True else FAILED, "" if ok is True else detail, backend))
        return ok is True

    def undecided(self, name, why):
        self.obs.append(Ob(self.group + name, UNDECIDED, why))

    def section(self, name, fn, *args):
        """Run a group of obligations; what is out of reach is undecided, never passed."""
        old = self.group
        self.group = old + name + ": "
        n = len(self.obs)
        try:
            fn(self, *args)
            if len(self.obs) == n:
                self.add("vacuity: obligations were generated", False, "no obligation was generated")
        except Unsupported as e:
            self.undecided("outside the verifier's reach", str(e)[:600])
        except (Fork, Panic) as e:
            self.undecided("outside the verifier's reach", "unexpected %s %s" % (type(e).__name__, e))
        except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError, RecursionError) as e:
            self.undecided("outside the verifier's reach", "internal: %s" % " / ".join(traceback.format_exc().split("\n")[-9:]))
        finally:
            self.group = old

    def executor(self, contracts=None, abstract_field=False, **opts):
        ex = Executor(self.prog, MODELS, contracts or {}, abstract_field, opts)
        self._exs = getattr(self, "_exs", [])
        self._exs.append(ex)
        return ex

    def finish(self):
        for ex in getattr(self, "_exs", []):
            self.contracts |= ex.used_contracts
            self.models |= ex.used_models
            self.functions |= ex.inlined

    def holds(self, name, st, goal, detail=""):
        """goal follows from the path condition of st"""
        z0 = STATS["z3_calls"]
        r = st.pc.entails(goal)
        return self.add(name, r is True, "%s\n  path: %s\n  goal: %s" % (detail, show_pc(st.pc), goal if goal in (True, False) else show(goal)),
                        "z3" if STATS["z3_calls"] > z0 else "ring")


def show(f, n=600):
    if f is True or f is False:
        return str(f)
    if f[0] in ("eq", "le"):
        s = "%r %s 0" % (f[1], "=" if f[0] == "eq" else "<=")
    elif f[0] == "cong":
        s = "%r = 0 mod %s" % (f[1], small(f[2]))
    elif f[0] == "not":
        s = "not(%s)" % show(f[1], n)
    elif f[0] in ("and", "or"):
        s = (" %s " % f[0]).join("(%s)" % show(x, n) for x in f[1:])
    else:
        s = str(f)
    return s[:n]


def show_pc(pc):
    return "; ".join(show(f, 300) for f in pc.lits[-12:])
