"""C18: every line is read as exactly one thing."""
import re
from ..absint import show, mk, sym, app, walk, proj, T, STR, TRUE, FALSE, Outcome, Undecided
from ..report import AnchorMissing
from ..mir import strip_generics
from ..grammar import runf, fresh, ok, nm
from ..line import find_step, Fields, arg_types
from ..models import NONE, SOME
from ..shape import shape, chunk, WORD, BLANKS, CH, OK, unseam, CLASSES
from ..nodes import Nodes
from .refs import leaves, lshow, sshow, norm, REF

ACTIONS = {"conditional": "parsers::conditional::Conditional", "assignment": "parsers::variable::VariableAction",
           "directive": "parsers::directives::Action", "rule": "parsers::targets::Action"}


def base(t):
    """a type without references and generics"""
    import re
    return re.sub(r"<.*", "", re.sub(r"^&(mut )?('\w+ )?(mut )?", "", t))


class Step:
    """The per-line step on the text of a line."""

    def __init__(self, prog):
        self.prog = prog
        self.pb, self.f = find_step(prog)
        self.F = Fields(prog, "parsers::ParserState")
        self.sf = [x["n"] for x in prog.adts["parsers::ParserState"]["variants"][0]["fields"]]
        self.N = Nodes(prog)
        eng = prog.adts.get("Engine")
        if eng is None:
            raise AnchorMissing("Engine")
        self.ef = eng["variants"][0]["fields"]
        self.what = {v: k for k, v in ACTIONS.items()}
        for v in ACTIONS.values():
            if v not in prog.adts:
                raise AnchorMissing(v)
        # handlers: methods of the parser state given an action; the innermost of those handing it on
        hs = {}
        for f in prog.local.values():
            if "{" in f.path:
                continue
            a = [base(x) for x in arg_types(prog, f)]
            k = next((self.what[x] for x in a if x in self.what), None)
            if k and any("ParserState" in x for x in a):
                hs[f.key] = k
        self.handlers = {k: v for k, v in hs.items() if not any((c or {}).get("key") in hs and (c or {}).get("key") != k
                                                                for b, c, t in prog.fns[k].calls())}
        if set(self.handlers.values()) != set(ACTIONS):
            raise AnchorMissing("handlers of %s" % sorted(set(ACTIONS) - set(self.handlers.values())))
        self.records = set()
        for f in prog.local.values():
            a = arg_types(prog, f)
            if "{" not in f.path and any(nm(x) == "ProtoRule" and not x.startswith("&") for x in a) and \
                    any(nm(x) in ("Engine", "Database") for x in a):
                self.records.add(f.key)
        if not self.records:
            raise AnchorMissing("what records a ProtoRule")
        self.hnames = {strip_generics(prog.fns[k].path) for k in self.handlers}
        self.rnames = {strip_generics(prog.fns[k].path) for k in self.records}

    def state(self, rule, ignoring):
        v = [None] * self.F.n
        v[self.F.conds] = sym("conds")
        v[self.F.ignoring] = ignoring
        v[self.F.rule] = rule
        v[self.F.define] = NONE()
        return mk("adt", "parsers::ParserState", 0, "ParserState", tuple(self.sf), tuple(v))

    def engine(self, char="\t"):
        return mk("adt", "Engine", 0, "Engine", tuple(x["n"] for x in self.ef), tuple(
            CH(char) if self.prog.tystr(x["t"]) == "char" else sym("E." + x["n"]) for x in self.ef))

    def opaque(self, name, cal):
        k = cal.get("key")
        f = self.prog.fns.get(k or "")
        return f is not None and f.local and (k in self.handlers or k in self.records or f.selfty == "Database")

    def run(self, sh, rule=None, ignoring=FALSE, refs=(), char="\t"):
        N = self.N
        refs = dict(refs)

        def value(l):
            if isinstance(l, T):
                return l
            if l[0] == "VariableReference":
                n = "".join(sshow(value(q)) for q in l[1])
                if n in refs:
                    return refs[n]
            raise Undecided("evaluation of %s" % lshow((l,)))

        def hook(e, fn, b, name, callee, vals, st, dty):
            if name.endswith("AstNode::eval") and len(vals) == 3:
                r = shape(*[value(l) for l in leaves(N.flat(e.deref_val(st, vals[0])))])
                s = st.copy()
                old = s.mem.get(("h", "EVALS"))
                s.mem[("h", "EVALS")] = mk("list", *((old.a if old else ()) + (r,)))
                return [Outcome("ret", mk("sblock", r, app("sens", r)), s)]
            if name.endswith("env::current_dir"):
                return [Outcome("ret", OK(sym("cwd")), st.copy())]
            return None
        st = fresh()
        st.mem[("h", "S")] = self.state(rule or NONE(), ignoring)
        st.mem[("h", "E")] = self.engine(char)
        return runf(self.prog, self.f, {"BlockSpan": sh}, self.opaque, state=st, hooks=[hook])


    def action(self, t):
        """an action as (kind, what it says), locations left out"""
        kind = self.what[t.a[0]]
        nodes = [n for n in top_nodes(t)]
        text = [leaves(self.N.flat(n)) for n in nodes]
        if kind == "conditional":
            vs = []
            while True:
                vs.append(t.a[2])
                x = [y for y in walk(t) if y is not t and y.op == "adt" and y.a[0] == ACTIONS[kind]]
                if not x:
                    break
                t = x[0]
            return kind, tuple(vs), tuple(text)
        if kind == "directive":
            return kind, t.a[2], tuple(strip(x) for x in text)
        if kind == "assignment":
            flags = tuple(sorted(n for x in walk(t) if x.op == "adt" and x.a[0].endswith("Modifiers")
                                 for n, y in zip(x.a[3], x.a[4]) if y == TRUE))
            name = [sshow(shape(x.a[-1])) for x in walk(t) if x.op == "app" and x.a[0] == "symbol"][:1]
            fl = [x.a[2] for x in walk(t) if x.op == "adt" and x.a[0].endswith("Flavor")]
            if not fl:
                fl = [x.a[2] for x in walk(t) if x.op == "adt" and x.a[0].endswith("::Action")]
            v = []
            for n in nodes:
                for l in self.N.flat(n):
                    v.append(unseam(l[1].a[0]) if l[0] == "done" and l[1].op == "sblock" else leaves([l])[0])
            done = any(l[0] == "done" for n in nodes for l in self.N.flat(n))
            return kind, name[0] if name else "?", flags, fl[0] if fl else "?", "done" if done else "text", norm(v)
        fs = dict(zip(t.a[3], t.a[4]))
        if "targets" not in fs:
            return kind, t.a[2], tuple(sshow(unseam(x.a[0])) for x in walk(t) if x.op == "sblock")
        two = [tuple(sshow(unseam(x.a[0])) for x in fs[k].a if x.op == "sblock") for k in ("targets", "deps")]
        dbl = [x == TRUE for x in t.a[4] if x.op == "bool"]
        return kind, two[0], two[1], dbl[0] if dbl else None, text[0] if text else None


def top_nodes(t):
    if t.op == "adt" and t.a[0] == "ast::AstNode":
        yield t
    elif t.op == "adt":
        for x in t.a[4]:
            yield from top_nodes(x)
    elif t.op in ("list", "tuple"):
        for x in t.a:
            yield from top_nodes(x)


def strip(ls):
    """leaves without leading blanks"""
    ls = list(ls)
    while ls and isinstance(ls[0], T):
        ps = list(ls[0].a) if ls[0].op == "shape" else [ls[0]]
        while ps:
            if ps[0].op == "str":
                r = ps[0].a[0].lstrip(" \t")
                if r:
                    ps[0] = STR(r)
                    break
            elif not (ps[0].op == "chunk" and CLASSES[ps[0].a[0]].ws):
                break
            ps.pop(0)
        if ps:
            ls[0] = shape(*ps)
            break
        ls.pop(0)
    return norm(ls)


A, B, C, D, X, Y, R, E = (chunk(n, WORD) for n in ("a", "b", "c", "d", "x", "y", "r", "e"))
BL = chunk("blank", BLANKS)
REFS = {"<r>": shape(chunk("u", WORD)), "<e>": shape()}
U = chunk("u", WORD)


def asg(name, flavor, value, *flags, done=False):
    return "assignment", sshow(shape(name)), tuple(sorted(flags)), flavor, "done" if done else "text", norm(value)


def rule(t, d, cmd=None, dbl=False):
    return "rule", tuple(sshow(shape(x)) for x in t), tuple(sshow(shape(x)) for x in d), dbl, None if cmd is None else norm(cmd)


def cond(*x):
    """variants, then arguments"""
    return "conditional", tuple(y for y in x if isinstance(y, str)), tuple(norm(y) for y in x if not isinstance(y, str))


def drv(v, *a):
    return "directive", v, (norm(a),)


KEYWORDS = {"export": "Export", "unexport": "Unexport", "vpath": "VPath", "include": "Include", "sinclude": "SoftInclude",
            "-include": "SoftInclude", "load": "Load", "-load": "SoftLoad"}


def contents(g, t):
    """(text of a line, what it is), with g between words where blanks may stand, which reads as t"""
    o = [
        # assignments
        ([A, g, "=", g, B], asg(A, "Recursive", (B,))), ([A, "=", B, g, C], asg(A, "Recursive", (B, t, C))),
        ([A, g, "=", B, "$(", R, ")", C], asg(A, "Recursive", (B, REF(R), C))), ([A, "="], asg(A, "Recursive", ())),
        ([A, g, ":=", g, B, "$(", R, ")"], asg(A, "Simple", (B, U), done=True)),
        ([A, g, "::=", B], asg(A, "Simple", (B,), done=True)),
        ([A, g, "?=", g, B], asg(A, "Conditional", (B,))), ([A, g, "!=", g, B], asg(A, "Shell", (B,))),
        ([A, g, "+=", g, B], asg(A, "Append", (B,))), ([A, "$(", R, ")", g, "=", B], asg(shape(A, U), "Recursive", (B,))),
        ([A, g, "=", B, ":", C], asg(A, "Recursive", (B, ":", C))), ([A, "=", B, g, ":=", g, C], asg(A, "Recursive", (B, t, ":=", t, C))),
        ([A, "=", "ifeq (", B, ",", C, ")"], asg(A, "Recursive", ("ifeq (", B, ",", C, ")"))),
        (["export", g, A, g, "=", B], asg(A, "Recursive", (B,), "export")),
        (["override", g, A, "=", B], asg(A, "Recursive", (B,), "mod_override")),
        (["private", g, A, "=", B], asg(A, "Recursive", (B,), "private")),
        (["export", g, "override", g, A, "=", B], asg(A, "Recursive", (B,), "export", "mod_override")),
        (["define", g, A], asg(A, "Recursive", (), "define")), (["define", g, A, g, ":="], asg(A, "Simple", (), "define", done=None)),
        (["override", g, "define", g, A], asg(A, "Recursive", (), "define", "mod_override")),
        (["include", g, "=", g, A], asg("include", "Recursive", (A,))), (["export", g, "=", g, A], asg("export", "Recursive", (A,))),
        (["load", "=", A], asg("load", "Recursive", (A,))), (["exported", "=", A], asg("exported", "Recursive", (A,))),
        (["defined", g, "=", A], asg("defined", "Recursive", (A,))),
        (["elsewhere", "=", A], asg("elsewhere", "Recursive", (A,))), (["endiffy", "=", A], asg("endiffy", "Recursive", (A,))),
        (["ifeqs", "=", A], asg("ifeqs", "Recursive", (A,))),
        # rules
        ([A, ":", g, B], rule([A], [B])), ([A, g, B, g, ":", g, C, g, D], rule([A, B], [C, D])), ([A, "::", g, B], rule([A], [B], dbl=True)),
        ([A, ":", B, ";", C, " = ", D], rule([A], [B], (C, " = ", D))), ([A, ":", g, "$(", R, ")"], rule([A], [U])),
        ([A, ":", g, "$(", E, ")"], rule([A], [])),
        ([A, ":"], rule([A], [])), (["include", ":", g, A], rule(["include"], [A])), (["export", ":", A], rule(["export"], [A])),
        (["endif", ":", g, A], rule(["endif"], [A])), (["else", ":", g, A], rule(["else"], [A])),
        (["includes", g, A, ":"], rule(["includes", A], [])), (["define", ":", A], rule(["define"], [A])),
        ([A, ":", g, "endif"], rule([A], ["endif"])), ([A, g, "else", ":"], rule([A, "else"], [])),
        # conditionals
        (["ifeq", g, "(", A, ",", g, B, ")"], cond("IfEq", (A,), (B,))), (["ifeq(", A, ",", B, ")"], cond("IfEq", (A,), (B,))),
        (["ifneq", g, "\"", A, "\"", g, "'", B, "'"], cond("IfNEq", (A,), (B,))),
        (["ifneq", g, "'", A, "' \"", B, "\""], cond("IfNEq", (A,), (B,))), (["ifeq", g, "(,)"], cond("IfEq", (), ())),
        (["ifeq", g, "($(", R, "),", B, ")"], cond("IfEq", (REF(R),), (B,))),
        (["else"], cond("Else")), (["endif"], cond("EndIf")), (["ifdef", g, A], cond("IfDef", (A,))),
        (["ifndef", g, A], cond("IfNDef", (A,))), (["else", g, "ifeq", g, "(", A, ",", B, ")"], cond("Else", "IfEq", (A,), (B,))),
        # neither
        ([A], "error"), ([A, g, B], "error"), (["$(", R, ")"], "error"), (["endif", g, A], "error"), (["else", g, A], "error"),
        (["ifeqs", g, A], "error"), (["included", g, A], "error"),
        ([";", A], "error"), (["$(", E, ")"], "empty"),
    ]
    for k, v in KEYWORDS.items():
        o.append(([k, g, A, t, B], drv(v, A, t, B)))
        o.append(([k.upper(), g, A], drv(v, A)))
        o.append(([k[:3] + k[3:].upper(), g, "$(", R, ")"], drv(v, REF(R))))
        o.append(([k], drv(v)))
        o.append(([k + "x", g, A], "error"))
    return o


ENDS = [([], [], "eof"), (["\n"], [], "newline"), (["\n", X, ":", Y, "\n\t", X], [X, ":", Y, "\n\t", X], "next"),
        (["\r\n", X], [X], "crlf"), (["#", X, "=", Y, "\n", X], ["#", X, "=", Y, "\n", X], "comment"),
        (["\n\n", X], ["\n", X], "blank")]
GAPS = [(" ", " "), (BL, BL), (" \\\n  ", " "), ("\\\n\t", " ")]
NL = "\n"
MARK = ">"


def recipes():
    """(text, command, rest) of lines following a rule, starting with the command character"""
    nx = [X, ": ", Y]
    return [
        (["\t", A], (A,), []), (["\t", A, NL] + nx, (A,), nx), (["\t", A, "\r\n"] + nx, (A,), nx),
        (["\t", A, " = ", B, NL] + nx, (A, " = ", B), nx), (["\t", A, ": ", B, NL] + nx, (A, ": ", B), nx),
        (["\tifeq (", A, ",", B, ")", NL] + nx, ("ifeq (", A, ",", B, ")"), nx), (["\tendif", NL] + nx, ("endif",), nx),
        (["\telse", NL] + nx, ("else",), nx), (["\tinclude ", A, NL] + nx, ("include ", A), nx),
        (["\tdefine ", A, NL] + nx, ("define ", A), nx), (["\t", A, " $(", R, ") $$", B, NL] + nx, (A, " ", REF(R), " $", B), nx),
        (["\t\t", A, NL] + nx, ("\t", A), nx), (["\t  ", A, BL, NL] + nx, ("  ", A, BL), nx), (["\t", A, "; ", B, NL], (A, "; ", B), []),
        (["\t@-", A, NL], ("@-", A), []), (["\t", NL] + nx, (), nx), (["\t\r\n"] + nx, (), nx), (["\t"], (), []),
        (["\t", A, NL, NL] + nx, (A,), [NL] + nx), (["\t", A, NL, "\t", B, NL] + nx, (A,), ["\t", B, NL] + nx),
        (["\t", A, " #", B, NL] + nx, (A, " "), ["#", B, NL] + nx),
        (["\t", A, "\\\n\t", B, NL] + nx, (A, "\\\n", B), nx), (["\t", A, " \\\n", B, NL] + nx, (A, " \\\n", B), nx),
        (["\t", A, "\\\n\t\t", B, "\\\n", C, NL] + nx, (A, "\\\n\t", B, "\\\n", C), nx),
        (["\t", A, "\\\\\n"] + nx, (A, "\\\\"), nx), (["\t", A, "\\\\\\\n", B, NL] + nx, (A, "\\\\\\\n", B), nx),
        (["\t", A, "\\\n", B, " #", C, NL] + nx, (A, "\\\n", B, " "), ["#", C, NL] + nx),
        (["\t", A, "\\\r\n\t", B, "\r\n"] + nx, (A, "\\\n", B), nx),
    ]


def comments():
    nx = [X, ": ", Y]
    return [(["#", A, NL] + nx, nx), (["# ", A, " = ", B], []), ([BL, "#", A, NL] + nx, nx), (["#", A, "\\\n", B, NL] + nx, nx),
            (["#", A, "#", B, NL] + nx, nx), (["#", A, "#", B, "\\\n", C, NL] + nx, nx), (["#", NL] + nx, nx), (["#"], []),
            (["#", A, "\\\\\n"] + nx, nx), (["#", A, "\r\n"] + nx, nx), (["\t#", A, NL] + nx, nx), (["#\\\n#", A, NL] + nx, nx),
            (["# $(", A, NL] + nx, nx), ([], []), ([NL] + nx, nx), (["\r\n"] + nx, nx), (["  ", NL] + nx, nx), ([" \\\n  ", NL] + nx, nx),
            (["  "], [])]


def c18(ctx, Rp):
    prog = ctx.prog
    S = Step(prog)
    deep = ctx.tier == "thorough"
    where = "%s %s" % (S.f.path, S.f.loc())
    Rp.rule("reads", "a line is one thing, told by its text: an assignment, a directive, a rule, a conditional or an error; it reaches "
                     "the one handler for that, with exactly its text, and the following lines are left for later")
    Rp.rule("recipe", "after a rule a line starting with the command character is a command of it, text and continued lines unchanged, "
                      "whatever it looks like; without a rule it is none")
    Rp.rule("nothing", "comments and blank lines do nothing and leave the open rule open")
    Rp.rule("skipped", "in an untaken branch only conditionals are read, nothing is expanded")
    Rp.rule("outcome", "the line fails exactly if its handler fails, with its error")
    items = []
    seen = set()

    def put(label, text, want, rest, rl, ign, pre=(), char="\t"):
        s = (sshow(shape(*(list(pre) + list(text)))), rl, ign, char)
        if s not in seen:
            seen.add(s)
            items.append((label, list(pre) + list(text), want, rest, rl, ign, char))
    n = 0
    for gi, (g, t) in enumerate(GAPS):
        for ci, (text, want) in enumerate(contents(g, t)):
            for ei, (end, rest, en) in enumerate(ENDS):
                for rl in (False, True):
                    for ign in (False, True):
                        n += 1
                        if not deep and (n * 2654435761 % 4294967296) * 100 // 4294967296 >= 12 and not \
                                (gi == 1 and ei == 2 and not ign):
                            continue
                        pre = [(), ("  ",), ("\t",) if not rl else (" ",)][n % 3]
                        w = want
                        if ign and want[0] != "conditional" and not (want == "error" and text[0] in ("endif", "else")):
                            w = "nothing"
                        put("skipped" if ign else "reads", text + list(end), w, rest, rl, ign, pre)
    for text, cmd, rest in recipes():
        put("recipe", text, ("command", norm(cmd)), rest, True, False)
        put("skipped", text, "nothing", rest, True, True)
        # the same with another command character, which is whatever the engine says
        other = [re.sub("\n\t", "\n" + MARK, x) if isinstance(x, str) else x for x in text]
        other[0] = MARK + other[0][1:]
        left = [re.sub("\n\t", "\n" + MARK, x) if isinstance(x, str) else x for x in rest]
        if left and isinstance(left[0], str) and left[0][:1] == "\t":
            left[0] = MARK + left[0][1:]
        for k in range(1, len(other)):
            if isinstance(other[k], str) and other[k][:1] == "\t" and isinstance(other[k - 1], str) and other[k - 1].endswith("\n"):
                other[k] = MARK + other[k][1:]
        put("recipe", other, ("command", norm(cmd)), left, True, False, char=MARK)
        put("skipped", other, "nothing", left, True, True, char=MARK)
    nx = [X, ": ", Y]
    # a tab is a blank like any other where it is not the command character
    put("recipe", [MARK, A, "\\\n\t", B, NL] + nx, ("command", norm((A, "\\\n\t", B))), nx, True, False, char=MARK)
    put("recipe", [MARK, A, "\\\n", B, "\\\n\t", C, NL] + nx, ("command", norm((A, "\\\n", B, "\\\n\t", C))), nx, True, False, char=MARK)
    for rl in (False, True):
        put("reads", ["\t", A, " = ", B, NL] + nx, asg(A, "Recursive", (B,)), nx, rl, False, char=MARK)
        put("reads", ["\t", A, ": ", B, NL] + nx, rule([A], [B]), nx, rl, False, char=MARK)
        put("reads", ["\tinclude ", A, NL] + nx, drv("Include", A), nx, rl, False, char=MARK)
        put("reads", ["\tendif", NL] + nx, cond("EndIf"), nx, rl, False, char=MARK)
    put("recipe", [MARK, A, ": ", B, NL] + nx, "error", nx, False, False, char=MARK)
    for text, rest in comments():
        for rl in (False, True):
            for ign in (False, True):
                if not (rl and text[:1] == [BL]):
                    put("nothing", text, "nothing", rest, rl, ign)

    def one(Rp, it):
        label, text, want, rest, rl, ign, char = it
        sh = shape(*text)
        s = "%s`%s`%s%s" % ("after a rule, " if rl else "", sshow(sh), ", skipping" if ign else "",
                            "" if char == "\t" else " with %s for a command character" % char)
        open_rule = sym("rule")
        rule0 = SOME(open_rule) if rl else NONE()
        evals = []
        try:
            O = S.run(sh, rule0, TRUE if ign else FALSE, REFS, char)
        except Undecided as e:
            Rp.undecided(label, where, "%s: %s" % (s, e))
            return
        Rp.fns |= O.eng.seen_fns()
        Rp.add("paths", len(O.outs))
        S0 = S.state(rule0, TRUE if ign else FALSE)
        good = 0
        for o in O.outs:
            p = ok(o)
            got = []
            H = None
            recorded = False
            for ev in o.ev:
                if ev.name in S.hnames:
                    act = [x for x in ev.args if x.op == "adt" and x.a[0] in S.what]
                    st = [x for x in ev.args if x.op == "adt" and x.a[0] == "parsers::ParserState"]
                    got.append(S.action(act[0]) if act else "?")
                    H = (ev, st[0] if st else None)
                elif ev.name in S.rnames:
                    if any(x is open_rule or x == open_rule for x in ev.args) and H is None and not recorded:
                        recorded = True
                    else:
                        got.append("records %s" % show(ev.args[-1])[:60])
            post = o.st.mem[("h", "S")]
            nev = len(o.st.mem[("h", "EVALS")].a) if ("h", "EVALS") in o.st.mem else 0
            if o.kind != "ret":
                Rp.violation(label, where, "%s panics: %s" % (s, o.msg), key=label + ":" + s)
                continue
            if want == "empty":
                # a rule without targets, which may or may not end the rule before it
                Rp.check(label, where, p is not None and (H is None and not recorded and post == S0 or
                                                          len(got) == 1 and got[0][0] == "rule" and not got[0][2]) or
                         H is not None and p is None, "%s is %s, should be nothing" % (s, got), key=label + ":" + s)
                good += p is not None
                continue
            if H is None:
                rp = proj(post, (None, S.F.rule))
                cmd = pushed(rp, open_rule) if rl else None
                if p is None:
                    fatal = o.ret.op == "adt" and any(x.op == "adt" and x.a[0] == "nom::Err" and x.a[2] == "Failure" for x in walk(o.ret))
                    seen_ = "error" if fatal else "a recoverable error"
                elif cmd is not None:
                    seen_ = ("command", leaves(S.N.flat(cmd)))
                else:
                    seen_ = "nothing"
                if cmd is None and post != S0:
                    seen_ = "a change of the parser state"
                if recorded and seen_ != "error":
                    seen_ = "the end of the rule"
                if got:
                    seen_ = got
            else:
                seen_ = got[0] if len(got) == 1 else got
                pre = S0
                want_rec = rl and want[0] in ("assignment", "directive", "rule")
                if want[0] in ("assignment", "directive", "rule"):
                    pre = S.state(NONE(), TRUE if ign else FALSE)
                Rp.check(label, where, recorded == want_rec and (H[1] is None or H[1] == pre),
                         "%s: the open rule is %srecorded %s" % (s, "" if recorded else "not ", "and no longer open when it is handled" if H[1] == pre else
                                                                 "but the parser state is not as it should be then"), key=label + ":rule:" + s)
            if H is not None and isinstance(want, tuple) and want[:4] == seen_[:4] and want[0] == "assignment" and \
                    (want[3] in ("Append",) or "define" in want[2]):
                # evaluated now or later: told by C09 and C17
                seen_ = seen_[:4] + (want[4],) + seen_[5:]
            if H is not None:
                res = [v for k, v in o.facts.items() if isinstance(k, tuple) and k[0] == "disc" and k[1].op == "app" and k[1].a[0] == H[0].name]
                Rp.check("outcome", where, bool(res) and (res[-1] == frozenset([0])) == (p is not None) and
                         (p is not None or any(x.op == "adt" and x.a[0] == "nom::Err" and x.a[2] == "Failure" for x in walk(o.ret))
                          and any(x.op == "app" and x.a[0] == H[0].name for x in walk(o.ret))),
                         "%s: %s, so the line %s" % (s, "its handler succeeds" if res and res[-1] == frozenset([0]) else "its handler fails",
                                                     "succeeds" if p is not None else "fails"), key="outcome:" + s)
            if p is not None:
                good += 1
                if sshow(p[0]) != sshow(shape(*rest)):
                    Rp.violation(label, where, "%s: leaves `%s`, should leave `%s`" % (s, sshow(p[0]), sshow(shape(*rest))), key=label + ":" + s)
            Rp.check(label, where, seen_ == want, "%s is %s%s" % (s, tell(seen_), "" if seen_ == want else ", should be %s" % tell(want)),
                     key=label + ":" + s)
            if label in ("skipped", "recipe", "nothing"):
                Rp.check(label, where, not nev, "%s: expands nothing" % s, key=label + ":" + s)
        if want != "error" and not good:
            Rp.violation(label, where, "%s never succeeds" % s, key=label + ":" + s)
    Rp.fork(items, one)
    Rp.count("lines", len(items))
    Rp.floor("reads", 100)
    Rp.floor("recipe", 20)
    Rp.floor("nothing", 30)
    Rp.floor("skipped", 40)


def pushed(t, rule):
    """the node a command was added from, if this is the rule with one command more and nothing else"""
    if t.op != "adt" or t.a[2] != "Some":
        return None
    r = t.a[4][0]
    if r is rule or r.op != "adt":
        return None
    found = []

    def same(x, path):
        """x is the part of the old rule at path, but for one push"""
        if x == proj_all(rule, path):
            return True
        if x.op == "adt":
            return all(same(y, path + ((None, i),)) for i, y in enumerate(x.a[4]))
        if x.op == "app" and x.a[0] == "push":
            found.append(x.a[-1])
            return x.a[1] == proj_all(rule, path)
        return False
    if not same(r, ()) or len(found) != 1:
        return None
    ns = [n for n in top_nodes(found[0])]
    return ns[0] if len(ns) == 1 else None


def proj_all(t, path):
    for s in path:
        t = proj(t, s)
    return t


def tell(x):
    if isinstance(x, T):
        return sshow(shape(x))
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("assignment", "rule", "directive", "conditional", "command"):
        return "%s (%s)" % (x[0], "; ".join(tell(y) for y in x[1:]))
    if isinstance(x, tuple) and any(isinstance(y, T) for y in x):
        return "`%s`" % lshow(x)
    if isinstance(x, (tuple, list)):
        return "[%s]" % ", ".join(tell(y) for y in x)
    return str(x)


CHECKS = {"C18": c18}
