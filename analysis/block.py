"""Engine::process_block with the per-line step opaque: how the first state is
made, how lines are chained, what happens at the end of the input."""
from .absint import Engine, State, mk, sym, proj, show, walk
from .line import find_step, line_opaque, arg_types
from .mir import strip_generics


class Block:
    def __init__(self, prog):
        self.prog = prog
        self.fn, self.step = find_step(prog)
        base = line_opaque(prog)

        def opq(name, callee):
            return callee.get("key") == self.step.key or base(name, callee)
        self.stepname = strip_generics(self.step.path)
        st = State()
        args = []
        for i in range(self.fn.argc):
            t = prog.types[self.fn.locals[i + 1]]
            nm = "engine" if "Engine" in t["s"] else "names" if "NameCache" in t["s"] else "block"
            if t["k"] == "ref" and t.get("mut"):
                st.mem[("h", nm)] = sym(nm)
                args.append(mk("ref", ("h", nm), ()))
            else:
                args.append(sym(nm))
        self.eng = Engine(prog, opaque=opq, max_states=2000)
        self.outs = self.eng.run(self.fn, args, st)
        at = arg_types(prog, self.step)
        self.i_state = next(i for i, t in enumerate(at) if "ParserState" in t)
        self.i_input = next(i for i, t in enumerate(at) if "BlockSpan" in t)
        self.initial = None
        for L in self.eng.loops:
            for ph, init in L.init.items():
                for b in L.body:
                    for e in b["ev"]:
                        if not hasattr(e, "loop") and e.name == self.stepname and e.args[self.i_state] is ph:
                            self.initial = init
        if self.initial is None:
            # widened field by field
            for L in self.eng.loops:
                for b in L.body:
                    for e in b["ev"]:
                        if not hasattr(e, "loop") and e.name == self.stepname:
                            from .absint import subst
                            self.initial = subst(e.args[self.i_state], L.init)

    def step_evs(self, evl):
        return [e for e in evl if not hasattr(e, "loop") and e.name == self.stepname]
