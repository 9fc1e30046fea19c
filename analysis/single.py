"""Outcomes of one function from arbitrary arguments."""
from .absint import Engine, State, mk, sym


class Single:
    def __init__(self, prog, fn, eng, outs, args, cells):
        self.prog, self.fn, self.eng, self.outs, self.args, self.cells = prog, fn, eng, outs, args, cells

    def posts(self, o):
        """Changed pointees of &mut arguments."""
        r = {}
        for c in self.cells:
            v = o.st.mem.get(("h", c))
            if v is not None and v is not sym(c):
                r[c] = v
        return r


def arg_name(fn, i):
    for n in fn.names:
        try:
            if n[1] == i + 1 or (isinstance(n[1], list) and n[1] == [i + 1]):
                return n[0]
        except Exception:
            pass
    return "arg%d" % i


def analyse(prog, fn, opaque=None, hooks=(), args=None, state=None, max_states=3000, budget=200000):
    st = state or State()
    cells = []
    vals = []
    for i in range(fn.argc):
        t = prog.types[fn.locals[i + 1]]
        nm = "a%d" % i
        if args is not None and i in args:
            vals.append(args[i])
            continue
        if t["k"] == "ref" and t.get("mut"):
            st.mem[("h", nm)] = sym(nm)
            cells.append(nm)
            vals.append(mk("ref", ("h", nm), ()))
        else:
            vals.append(sym(nm))
    e = Engine(prog, opaque=opaque, max_states=max_states, budget=budget)
    e.hooks = list(hooks)
    outs = e.run(fn, vals, st)
    return Single(prog, fn, e, outs, vals, cells)
