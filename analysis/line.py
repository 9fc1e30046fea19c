"""The transfer of one makefile line: process_block's loop with the per-line
step and its handlers inlined, the individual line parsers kept opaque."""
import re
from .absint import Engine, State, Undecided, mk, sym, show, app, walk, proj
from .mir import strip_generics
from .report import AnchorMissing

SPAN = "evaluated::block_span::BlockSpan"


def iresult_out(prog, fn):
    """Output type string O of a fn returning IResult<BlockSpan, O, ..>, else None."""
    t = prog.types[fn.locals[0]]
    if t.get("path") != "std::result::Result" or "nom::Err<" not in t["s"]:
        return None
    ok = prog.types[t["args"][0]]
    if ok["k"] != "tuple" or len(ok.get("args", [])) != 2:
        return None
    a, b = ok["args"]
    if "BlockSpan" not in prog.types[a]["s"]:
        return None
    return re.sub(r"'\w+,? ?|<'\w+>", "", prog.types[b]["s"]).replace("<>", "")


# what the individual parsers produce, by output type
LEAF = {
    "()": "comment",
    "ast::AstNode": "ast",
    "parsers::variable::DefineLine": "define",
    "std::sync::Arc<evaluated::Block>": "line",
    "parsers::conditional::Conditional": "conditional",
    "parsers::variable::VariableAction": "variable",
    "parsers::directives::Action": "directive",
    "parsers::targets::Action": "target",
}


def arg_types(prog, f):
    return [prog.tystr(f.locals[i + 1]) for i in range(f.argc)]


def parser_kind(prog, f):
    o = iresult_out(prog, f)
    if o is None:
        return None
    a = arg_types(prog, f)
    if any("ParserState" in x or "ParseErrorKind" in x for x in a):
        return None
    k = LEAF.get(o)
    if k == "ast" and f.argc == 2 and "char" in a and any("BlockSpan" in x for x in a):
        return "recipe"
    return k


def line_opaque(prog, extra=()):
    memo = {}

    def opq(name, callee):
        key = callee.get("key") or ""
        if key in memo:
            return memo[key]
        f = prog.fns.get(key)
        r = False
        if f is not None and f.local:
            if f.path.startswith(("evaluated::", "<evaluated::")):
                r = True
            elif parser_kind(prog, f):
                r = True
            elif f.selfty == "ast::AstNode" and f.path.split("::")[-1] in ("eval", "eval_internal"):
                r = True
            elif f.selfty in ("Database", "NameCache"):
                r = True
            elif f.selfty == "Engine" and f.path.split("::")[-1] in ("read_makefile", "process_block"):
                r = True
            elif returns_file_list(prog, f):
                r = True
            elif f.path.endswith("collapsing_concat") or "lift_collapsed" in f.path:
                r = True
            elif any(re.search(x, f.path) for x in extra):
                r = True
        memo[key] = r
        return r
    return opq


def returns_file_list(prog, f):
    return prog.tystr(f.locals[0]) == "std::vec::Vec<std::sync::Arc<evaluated::Block>>" and \
        any("BlockSpan" in a for a in arg_types(prog, f))


class Fields:
    """Where ParserState keeps what, found by field type."""

    def __init__(self, prog, state_path):
        a = prog.adts.get(state_path)
        if a is None:
            raise AnchorMissing("parser state type %s" % state_path)
        self.fields = a["variants"][0]["fields"]
        ts = [prog.tystr(f["t"]) for f in self.fields]

        def pick(pred, what):
            c = [i for i, t in enumerate(ts) if pred(t)]
            if len(c) != 1:
                raise AnchorMissing("%s field of the parser state (%d candidates)" % (what, len(c)))
            return c[0]
        self.conds = pick(lambda t: t.startswith("std::vec::Vec<"), "conditional stack")
        self.ignoring = pick(lambda t: t == "bool", "ignoring")
        self.rule = pick(lambda t: "option::Option<" in t and "ProtoRule" in t, "open rule")
        self.define = pick(lambda t: "option::Option<" in t and "DefineState" in t, "open define")
        self.n = len(ts)


def find_step(prog):
    """The per-line step: what process_block calls with the parser state and the remaining text."""
    pb = prog.one(r"^Engine::process_block$")
    if pb is None:
        raise AnchorMissing("Engine::process_block")
    # the nearest function below process_block that takes the state and the text and gives the rest of the text
    seen, level, cands = {pb.key}, [pb], []
    while level and not cands:
        nxt = []
        for g in level:
            for b, c, t in g.calls():
                f = prog.fns.get((c or {}).get("key") or "")
                if f is None or not f.local or f.key in seen:
                    continue
                seen.add(f.key)
                nxt.append(f)
                a = arg_types(prog, f)
                if any("ParserState" in x and x.startswith("&") for x in a) and any("BlockSpan" in x for x in a) and iresult_out(prog, f) is not None:
                    cands.append(f)
        level = nxt
    if len(cands) != 1:
        raise AnchorMissing("per-line step called by process_block (%d candidates)" % len(cands))
    return pb, cands[0]


class Step:
    """All outcomes of one line from an arbitrary parser state."""

    def __init__(self, prog):
        self.prog = prog
        self.pb, self.fn = find_step(prog)
        at = [prog.types[self.fn.locals[i + 1]] for i in range(self.fn.argc)]
        st = State()
        args = []
        self.state_path = None
        for t in at:
            s = t["s"]
            if "ParserState" in s:
                nm = "state"
                self.state_path = prog.types[t["inner"]].get("path") if t.get("inner") is not None else None
            elif "NameCache" in s:
                nm = "names"
            elif "Engine" in s:
                nm = "engine"
            elif "BlockSpan" in s:
                nm = "input"
            else:
                raise AnchorMissing("argument %s of the per-line step" % s)
            if t["k"] == "ref" and t.get("mut"):
                st.mem[("h", nm)] = sym(nm)
                args.append(mk("ref", ("h", nm), ()))
            else:
                args.append(sym(nm))
        self.F = Fields(prog, self.state_path or "parsers::ParserState")
        self.eng = Engine(prog, opaque=line_opaque(prog), max_states=4000)
        self.outs = self.eng.run(self.fn, args, st)
        self.pre = {k: proj(sym("state"), (None, getattr(self.F, k)))
                    for k in ("conds", "ignoring", "rule", "define")}

    def post(self, o, what):
        return proj(o.st.mem[("h", "state")], (None, getattr(self.F, what)))

    def cell(self, o, nm):
        return o.st.mem[("h", nm)]

    def kind_of(self, t):
        """Parser kind of an opaque call term."""
        if t.op != "app" or not isinstance(t.a[0], str):
            return None
        return self.kinds().get(t.a[0])

    def kinds(self):
        if not hasattr(self, "_kinds"):
            self._kinds = {}
            for f in self.prog.local.values():
                k = parser_kind(self.prog, f)
                if k:
                    self._kinds[strip_generics(f.path)] = k
        return self._kinds

    def parsed(self, o):
        """kind -> "Ok"/"Err", and the call term, for the parsers whose result the path inspects."""
        r = {}
        for k, v in o.facts.items():
            if isinstance(k, tuple) and k[0] == "disc":
                kd = self.kind_of(k[1])
                if kd and len(v) == 1:
                    r[kd] = ("Ok" if v == frozenset([0]) else "Err", k[1])
        return r
