"""python3 tools/outs.py FNREGEX [opaque-regex] : compact outcome table of one function."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from analysis.mir import Prog
from analysis.absint import Engine, State, show, sym, mk, T
from analysis.single import analyse

p = Prog(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "build", "facts.json"))
fs = p.find(sys.argv[1])
W = int(os.environ.get("W", "200"))
ox = sys.argv[2] if len(sys.argv) > 2 else None
for f in fs:
    print("==", f.key, f.loc(), [p.tystr(f.locals[i + 1]) for i in range(f.argc)])
    try:
        A = analyse(p, f, (lambda n, c: bool(re.search(ox, n))) if ox else None)
    except Exception as e:
        print("   !!", type(e).__name__, e)
        continue
    print("   unmodelled", sorted(A.eng.unmodelled)[:10])
    for o in A.outs:
        print(" --", o.kind, show(o.ret)[:W], o.where or "", o.msg or "")
        for k, v in o.facts.items():
            s = (k[0] + " " + show(k[1]) if isinstance(k, tuple) else show(k))
            print("    F", s[:W], "=", set(v) if isinstance(v, frozenset) else v)
        for c, v in A.posts(o).items():
            print("    POST", c, show(v)[:W])
        for e in o.ev:
            if hasattr(e, "loop"):
                print("    LOOP", e.loop.header)
                for ph, i in e.loop.init.items():
                    print("       init", show(ph), show(i)[:W])
                for b in e.loop.body:
                    print("       body", {(k[0] + show(k[1]) if isinstance(k, tuple) else show(k))[:80]: v for k, v in b["facts"].items()})
                    for ph, n in b["next"].items():
                        if n is not None:
                            print("           ", show(ph), ":=", show(n)[:W])
                    for x in b["ev"]:
                        print("            EV", repr(x)[:W])
            else:
                print("    EV", repr(e)[:W])
