"""python3 -m analysis.run C05 [C06 ...] | all"""
import importlib
import os
import pkgutil
import sys
import traceback
from . import facts, checks
from .report import Report, AnchorMissing
from .absint import Undecided


class Ctx:
    def __init__(self, prog, tier):
        self.prog = prog
        self.tier = tier
        self._memo = {}

    def memo(self, k, f):
        if k not in self._memo:
            self._memo[k] = f()
        return self._memo[k]

    def step(self):
        from .line import Step
        return self.memo("step", lambda: Step(self.prog))


def registry():
    out = {}
    for m in pkgutil.iter_modules(checks.__path__):
        mod = importlib.import_module("analysis.checks." + m.name)
        for pid, f in getattr(mod, "CHECKS", {}).items():
            out[pid] = f
    return out


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    reg = registry()
    ids = sorted(reg) if argv == ["all"] else argv
    for i in ids:
        if i not in reg:
            print("unknown check", i)
            return 2
    try:
        prog = facts.prepare()
    except facts.BuildError as e:
        print("ERROR: cannot analyse the tree:", e)
        return 2
    rc = 0
    ctx = Ctx(prog, tier)
    for pid in ids:
        r = Report(pid)
        try:
            reg[pid](ctx, r)
            rc = max(rc, r.finish(tier, seed))
        except AnchorMissing as e:
            if r.bad:
                rc = max(rc, r.finish(tier, seed))
                if rc == 1:
                    continue
            print("ERROR property=%s: the code this check is about was not found: %s" % (pid, e))
            rc = max(rc, 2)
        except Undecided as e:
            if not r.ok_n and not r.bad:
                print("ERROR property=%s: analysis gave up: %s" % (pid, e))
                rc = max(rc, 2)
                continue
            r.undecided("rest", "", e)
            rc = max(rc, r.finish(tier, seed))
        except Exception:
            traceback.print_exc()
            rc = max(rc, 2)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
