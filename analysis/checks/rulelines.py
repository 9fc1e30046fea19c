"""C10: what a rule line says: its targets, prerequisites, kind and command."""
from ..absint import show, mk, sym, app, walk, T, STR, Outcome, Undecided
from ..report import AnchorMissing
from ..grammar import attempt, parser, ok, runf, fresh
from ..shape import shape, chunk, WORD, BLANKS, SEAM, unseam, OK
from ..nodes import Nodes
from .refs import leaves, lshow, sshow, norm, REF

A, B, C, D, U, V, X, Y, Z = (chunk(n, WORD) for n in ("a", "b", "c", "d", "u", "v", "x", "y", "z"))
BL = chunk("blank", BLANKS)
WORDY = chunk("cmd", WORD)


# a piece of a target or prerequisite list: its text, and the names it stands for given what references expand to
def pieces(n):
    """n is a prefix that keeps chunk names apart"""
    c = lambda s: chunk(n + s, WORD)
    r1, r2, r3 = n + "r1", n + "r2", n + "r3"
    k = lambda s: chunk(s, WORD)
    refs = {}

    def ref(name, *exp):
        refs["<%s>" % name] = shape(*exp)
        return k(name)
    out = {
        "plain": ([c("p")], [shape(c("p"))]),
        "two": ([c("p"), " ", c("q")], [shape(c("p")), shape(c("q"))]),
        "three": ([c("p"), "\t", c("q"), BL, c("s")], [shape(c("p")), shape(c("q")), shape(c("s"))]),
        "ref": (["$(", ref(r1, c("u")), ")"], [shape(c("u"))]),
        "refs2": (["${", ref(r2, c("u"), " ", c("v")), "}"], [shape(c("u")), shape(c("v"))]),
        "refpad": (["$(", ref(n + "r4", BL, c("u"), BL, c("v"), BL), ")"], [shape(c("u")), shape(c("v"))]),
        "glued": ([c("p"), "$(", ref(n + "r5", c("u"), " ", c("v")), ")", c("q")],
                  [shape(c("p"), c("u")), shape(c("v"), c("q"))]),
        "empty+": (["$(", ref(n + "r6"), ") ", c("p")], [shape(c("p"))]),
        "+empty": ([c("p"), " $(", ref(n + "r7"), ")"], [shape(c("p"))]),
        "nested": (["$(", c("m"), "$(", c("k"), "))"], [shape(c("u"))]),
        "blanknest": (["$(", c("m"), "$(", c("k"), ") ", c("n"), ")", c("q")], [shape(c("u"), c("q"))]),
        "curlynest": (["${", c("m"), "${", c("k"), "}\t}"], [shape(c("u"))]),
        "six": ([c("p"), BL, c("q"), "  ", c("s"), BL, c("t"), " \t", c("w"), BL, c("z")],
                [shape(c(x)) for x in ("p", "q", "s", "t", "w", "z")]),
        "dollar": (["$$", c("p")], [shape("$", c("p"))]),
        "path": (["./", c("p"), "/", c("q"), ".o"], [shape("./", c("p"), "/", c("q"), ".o")]),
        "percent": (["%.", c("p")], [shape("%.", c("p"))]),
        "space": ([c("p"), "\\ ", c("q")], [shape(c("p"), " ", c("q"))]),
        "seam": ([c("p"), SEAM, c("q"), " ", SEAM, c("s")], [shape(c("p"), c("q")), shape(c("s"))]),
        "one": (["$x"], [shape(c("u"))]),
        "brackets": ([c("p"), "(", c("q"), ")"], [shape(c("p"), "(", c("q"), ")")]),
        "cont": ([c("p"), " \\\n", BL, c("q")], [shape(c("p")), shape(c("q"))]),
        "question": ([c("p"), "?", c("q")], [shape(c("p"), "?", c("q"))]),
        "plus": ([c("p"), "+", c("q"), " ", "+"], [shape(c("p"), "+", c("q")), shape("+")]),
    }
    nest = {"nested": "<%sm><nested>", "blanknest": "<%sm><nested> <%sn>", "curlynest": "<%sm><nested>\t"}
    nest = {x: y.replace("%s", n) for x, y in nest.items()}
    for x in nest.values():
        refs[x] = shape(c("u"))
    keys = {"ref": [r1], "refs2": [r2], "refpad": [n + "r4"], "glued": [n + "r5"], "empty+": [n + "r6"],
            "+empty": [n + "r7"]}
    keys = {x: ["<%s>" % q for q in y] for x, y in keys.items()}
    for x, y in nest.items():
        keys[x] = [y]
    keys["one"] = ["x"]
    return {x: (t, g, keys.get(x, [])) for x, (t, g) in out.items()}, refs


COMMANDS = {
    "none": ([], None),
    "cmd": ([";", WORDY], (WORDY,)),
    "padded": ([BL, "; ", WORDY, " ", C], (" ", WORDY, " ", C)),
    "empty": ([";"], ()),
    "two": (["; ", WORDY, "; ", C], (" ", WORDY, "; ", C)),
    "ref": ([";", WORDY, " $(", C, ") $@ $$", D], (WORDY, " ", REF(C), " ", REF("@"), " $", D)),
    "colon": ([";", WORDY, ":", C, "=", D], (WORDY, ":", C, "=", D)),
    "brackets": ([";(", WORDY, "); {", C, "}"], ("(", WORDY, "); {", C, "}")),
    "assign": ([";", WORDY, " = ", C, " := ", D], (WORDY, " = ", C, " := ", D)),
}
ENDS = {
    "eof": ([], []),
    "line": (["\n", X, " : ", Y, "\n\t", Z], [X, " : ", Y, "\n\t", Z]),
    "crlf": (["\r\n", X], [X]),
    "comment": (["# ", X, ": ", Y, "\n", Z], ["# ", X, ": ", Y, "\n", Z]),
}
SEPS = {"": ":", "after": (": ",), "both": (BL, ":", BL), "before": (" :",), "tab": (":\t",), "none": (":",)}


class Lines:
    def __init__(self, prog):
        self.prog = prog
        self.f = parser(prog, "target")
        self.N = Nodes(prog)
        a = prog.adts.get("parsers::targets::Action")
        if a is None:
            raise AnchorMissing("parsers::targets::Action")
        vs = a["variants"]
        self.rule_v = next((v for v in vs if {"targets", "deps"} <= {f["n"] for f in v["fields"]}), None)
        if self.rule_v is None:
            raise AnchorMissing("an Action with targets and deps")
        self.names = [f["n"] for f in self.rule_v["fields"]]
        self.bool = next(i for i, f in enumerate(self.rule_v["fields"]) if prog.tystr(f["t"]) == "bool")
        self.cmd = next(i for i, f in enumerate(self.rule_v["fields"]) if "AstNode" in prog.tystr(f["t"]))

    def run(self, sh, refs):
        N = self.N

        def hook(e, fn, b, name, callee, vals, st, dty):
            if name.endswith("AstNode::eval") and len(vals) == 3:
                out = []

                keys = []

                def value(l):
                    if isinstance(l, T):
                        return l
                    if l[0] == "VariableReference":
                        n = "".join(sshow(value(q)) if isinstance(q, T) else "<nested>" for q in l[1])
                        keys.append(n)
                        if n in refs:
                            return refs[n]
                    raise Undecided("evaluation of %s" % lshow((l,)))
                lv = leaves(N.flat(e.deref_val(st, vals[0])))
                for l in lv:
                    out.append(value(l))
                sh = shape(*out)
                s = st.copy()
                old = s.mem.get(("h", "EVALS"))
                s.mem[("h", "EVALS")] = mk("list", *((old.a if old else ()) + tuple(STR(n) for n in keys)))
                return [Outcome("ret", mk("sblock", sh, app("sens", sh)), s)]
            if name.endswith("env::current_dir"):
                return [Outcome("ret", OK(sym("cwd")), st.copy())]
            return None
        st = fresh()
        return runf(self.prog, self.f, {"BlockSpan": sh}, lambda n, c: False, state=st, hooks=[hook])

    def action(self, v):
        """(kind, targets, deps, double, command leaves or None) of an action"""
        if v.op != "adt":
            return None
        if v.a[2] != self.rule_v["n"]:
            t = v.a[4][0] if v.a[4] else None
            return v.a[2], self.names_of(t) if t is not None else None, None, None, None
        fs = dict(zip(self.names, v.a[4]))
        c = v.a[4][self.cmd]
        cmd = "?"
        if c.op == "adt" and c.a[2] == "None":
            cmd = None
        elif c.op == "adt" and c.a[2] == "Some":
            cmd = leaves(self.N.flat(c.a[4][0]))
        d = v.a[4][self.bool]
        return v.a[2], self.names_of(fs["targets"]), self.names_of(fs["deps"]), d.a[0] if d.op == "bool" else None, cmd

    def names_of(self, l):
        if l is None or l.op != "list":
            return None
        return [unseam(x.a[0]) if x.op == "sblock" else x for x in l.a]


def mix(text):
    return shape(*text)


def cases(deep):
    """(label, text, references, expected) of rule lines composed from their parts."""
    tp, tr = pieces("T")
    dp, dr = pieces("D")
    # not every piece can stand next to a colon
    tl = [k for k in tp]
    dl = [None] + [k for k in dp]
    out = []
    refs = dict(tr)
    refs.update(dr)
    refs["x"] = shape(chunk("Tu", WORD))
    n = 0
    seps = [s for s in SEPS if s]
    for i, t in enumerate(tl):
        for j, d in enumerate(dl):
            for k, cm in enumerate(COMMANDS):
                for m, en in enumerate(ENDS):
                    for q, s in enumerate(seps):
                        for dbl in (False, True):
                            n += 1
                            sel = (i * 3 + j * 5 + k * 7 + m * 11 + q * 13 + dbl * 17)
                            if (sel * 2654435761 % 4294967296) * 1000 // 4294967296 >= (60 if deep else 6):
                                continue
                            if t == "one" and d == "one":
                                continue
                            text = list(tp[t][0])
                            sp = [("::" if dbl else ":") if p == ":" else p.replace(":", "::") if dbl and isinstance(p, str)
                                  else p for p in SEPS[s]]
                            text += sp
                            deps = []
                            rf = dict(refs)
                            if d is not None:
                                text += dp[d][0]
                                deps = dp[d][1]
                                if d == "one":
                                    rf["x"] = shape(chunk("Du", WORD))
                            text += COMMANDS[cm][0] + ENDS[en][0]
                            out.append((text, rf, tp[t][2] + (dp[d][2] if d else []), tp[t][1], deps, dbl, COMMANDS[cm][1], ENDS[en][1]))
    return out


def c10(ctx, R):
    prog = ctx.prog
    L = Lines(prog)
    deep = ctx.tier == "thorough"
    where = "%s %s" % (L.f.path, L.f.loc())
    R.rule("line", "a rule line stands for exactly its targets, prerequisites, kind and initial command, and leaves the rest of "
                   "the input")
    R.rule("expansion", "targets and prerequisites are expanded once each, in order; the command is not expanded")
    R.rule("other", "lines without a target, without a colon, or assigning a variable are told apart from rules")

    def one(R, it):
        text, refs, keys, tg, deps, dbl, cmd, rest = it
        sh = shape(*text)
        s = sshow(sh)
        try:
            A = L.run(sh, refs)
        except Undecided as e:
            R.undecided("line", where, "`%s`: %s" % (s, e))
            return
        R.fns |= A.eng.seen_fns()
        R.add("paths", len(A.outs))
        want = ([sshow(x) for x in tg], [sshow(x) for x in deps], dbl, None if cmd is None else lshow(norm(cmd)),
                sshow(shape(*rest)))
        for o in A.outs:
            p = ok(o)
            if p is None:
                R.violation("line", where, "`%s` %s" % (s, "panics: %s" % o.msg if o.kind != "ret" else "is refused: %s" %
                            show(o.ret)[:160]), key="line:" + s)
                continue
            a = L.action(p[1])
            if a is None or a[1] is None or (a[0] == L.rule_v["n"] and (a[2] is None or a[3] is None or a[4] == "?")):
                R.undecided("line", where, "`%s` gives %s" % (s, show(p[1])[:200]))
                continue
            got = ([sshow(x) for x in a[1]], [sshow(x) for x in a[2] or []], a[3],
                   None if a[4] is None else lshow(a[4]), sshow(p[0]))
            R.check("line", where, a[0] == L.rule_v["n"] and got == want, "`%s` gives %s %s%s" % (
                s, a[0], say(got), "" if got == want else ", should be %s" % say(want)), key="line:" + s)
            ev = o.st.mem.get(("h", "EVALS"))
            evs = [x.a[0] for x in ev.a] if ev else []
            R.check("expansion", where, evs == keys, "`%s`: expands %s in this order%s" % (
                s, evs, "" if evs == keys else ", should be %s" % keys), key="expansion:" + s)
    cs = cases(deep)
    R.fork(cs, one)
    R.count("lines", len(cs))
    other(L, R, where)
    R.floor("line", len(cs))
    R.floor("other", 20)


def say(x):
    return "targets [%s], prerequisites [%s]%s, command %s, leaving `%s`" % (
        "; ".join(x[0]), "; ".join(x[1]), ", double colon" if x[2] else "", "none" if x[3] is None else "`%s`" % x[3], x[4])


def other(L, R, where):
    prog = L.prog
    e = shape()
    refs = {"<e>": shape(), "<e2>": shape(BL), "<l>": shape(U, ": ", V), "<c>": shape(":"), "<t>": shape(U, ":"),
            "<tt>": shape(U, " ", V, ":"), "<m>": shape(U, ": ", V, "; ", X), "<s>": shape("; ", X), "<n>": shape(U, " ", V),
            "<ms>": shape(U, ": ", V, ";"), "<so>": shape(";")}
    MS, SO = chunk("ms", WORD), chunk("so", WORD)
    E, E2, Lr, Cr, Tr, TT, M, S, Nn = (chunk(x, WORD) for x in ("e", "e2", "l", "c", "t", "tt", "m", "s", "n"))
    dr = {"<v>": shape(A, " c:/", B)}
    rule = lambda t, d, dbl=False, c=None: ("rule", [shape(*x) for x in t], [shape(*x) for x in d], dbl, c)
    table = [
        ((), "none"), ((BL,), "none"), (("$(", E, ")"), "none"), (("$(", E2, ")"), "none"), (("$(", E, ") $(", E, ")"), "none"),
        ((":", A), "none"), (("::", A), "none"), ((": ", A, "\n", X), "none"), ((A,), "MissingSeparator"),
        ((A, " ", B), "MissingSeparator"), ((A, BL, "\n"), "MissingSeparator"), (("$(", Nn, ")"), "MissingSeparator"),
        (("$(", E, ")", A), "MissingSeparator"), ((A, " $(", E, ")"), "MissingSeparator"), ((";", A), "NoRuleRecipe"),
        ((BL, ";"), "NoRuleRecipe"), ((A, " ; ", B), "MissingSeparator"), ((A, " # : ", B), "MissingSeparator"),
        # the colon comes from an expansion
        (("$(", Lr, ")"), rule([(U,)], [(V,)])), (("$(", Lr, ") ", A), rule([(U,)], [(V,), (A,)])),
        ((A, " $(", Lr, ") ", B), rule([(A,), (U,)], [(V,), (B,)])), ((A, " $(", Cr, ") ", B), rule([(A,)], [(B,)])),
        (("$(", Tr, ")", A), rule([(U,)], [(A,)])), (("$(", Tr, "):", A), rule([(U,)], [(A,)], True)),
        (("$(", TT, ")"), rule([(U,), (V,)], [])), (("$(", Lr, ")", A, " ", B), rule([(U,)], [(V, A), (B,)])),
        (("$(", Lr, ");", A), rule([(U,)], [(V,)], False, (A,))),
        # the semicolon comes from an expansion
        (("$(", M, ")"), rule([(U,)], [(V,)], False, (" ", X))), (("$(", M, ") ", A), rule([(U,)], [(V,)], False, (" ", X, " ", A))),
        ((A, ": $(", S, ")"), rule([(A,)], [], False, (" ", X))), ((A, ": ", B, "$(", S, ") ", C), rule([(A,)], [(B,)], False, (" ", X, " ", C))),
        ((A, " :: ", B, " $(", S, ")"), rule([(A,)], [(B,)], True, (" ", X))),
        (("$(", MS, ")"), rule([(U,)], [(V,)], False, ())), (("$(", MS, ")", A), rule([(U,)], [(V,)], False, (A,))),
        (("$(", MS, ") ", A, " ", B), rule([(U,)], [(V,)], False, (" ", A, " ", B))),
        (("$(", MS, ") $(", Nn, ")"), rule([(U,)], [(V,)], False, (" ", U, " ", V))),
        ((A, " $(", M, ") ", B), rule([(A,), (U,)], [(V,)], False, (" ", X, " ", B))),
        ((A, ": $(", SO, ")", B), rule([(A,)], [], False, (B,))), ((A, ": ", B, "$(", SO, ")"), rule([(A,)], [(B,)], False, ())),
        ((A, ": ", B, "; $(", SO, ") ", C), rule([(A,)], [(B,)], False, (" ", REF(SO), " ", C))),
        ((A, "$(", Lr, "); ", B, "$(", SO, ")"), rule([(A, U)], [(V,)], False, (" ", B, REF(SO)))),
        # escapes
        ((A, "\\:", B, ": ", C), rule([(A, ":", B)], [(C,)])), ((A, "\\ ", B, " ", C, ": ", D), rule([(A, " ", B), (C,)], [(D,)])),
        ((A, ": ", B, "\\:", C), rule([(A,)], [(B, ":", C)])), ((A, ": ", B, "\\ ", C), rule([(A,)], [(B, " ", C)])),
        ((A, "\\%", B, ": ", C), rule([(A, "\\%", B)], [(C,)])),
        # drive specifications
        (("$(", V, "): ", C), ("drive", rule([(A,), ("c:/", B)], [(C,)]))),
        # assignments for targets
        ((A, ": ", B, " = ", C), ("TargetVariable", [A])), ((A, " ", D, ": ", B, "=", C), ("TargetVariable", [A, D])),
        ((A, ": ", B, " := ", C), ("TargetVariable", [A])), ((A, ": ", B, " += ", C, "; ", D), ("TargetVariable", [A])),
        ((A, ":", B, "?=", C), ("TargetVariable", [A])),
    ]
    for text, want in table:
        sh = shape(*text)
        s = sshow(sh)
        rf = refs
        if want[0] == "drive":
            rf, want = dr, want[1]
        A_ = attempt(R, "other", where, "`%s`" % s, lambda: L.run(sh, rf))
        if A_ is None:
            continue
        R.fns |= A_.eng.seen_fns()
        if not A_.outs:
            R.violation("other", where, "`%s`: no result" % s, key="other:" + s)
        for o in A_.outs:
            p = ok(o)
            if p is None:
                kinds = [x.a[2] for x in walk(o.ret) if x.op == "adt" and x.a[0].endswith("ParseErrorKind")]
                sev = [x.a[2] for x in walk(o.ret) if x.op == "adt" and x.a[0] == "nom::Err"]
                R.check("other", where, isinstance(want, str) and kinds[:1] == [want] and sev[:1] == ["Failure"],
                        "`%s`: %s, should be %s" % (s, "panic %s" % o.msg if o.kind != "ret" else kinds or show(o.ret)[:100],
                                                    tell(want)), key="other:" + s)
                continue
            a = L.action(p[1])
            if a is None:
                R.undecided("other", where, "`%s` gives %s" % (s, show(p[1])[:200]))
                continue
            if want == "none":
                # nothing, or a rule without targets
                good = a[0] != L.rule_v["n"] and not a[1] or a[0] == L.rule_v["n"] and a[1] == []
            elif isinstance(want, str):
                good = False
            elif want[0] == "rule":
                good = a[0] == L.rule_v["n"] and a[1] == want[1] and a[2] == want[2] and a[3] is want[3] and \
                    a[4] == (None if want[4] is None else norm(want[4]))
            else:
                good = a[0] == want[0] and a[1] == [shape(x) for x in want[1]]
            R.check("other", where, good, "`%s` gives %s, should be %s" % (s, tell(a), tell(want)), key="other:" + s)


def tell(x):
    if isinstance(x, T):
        return "`%s`" % sshow(shape(x))
    if isinstance(x, (list, tuple)):
        return "[%s]" % ", ".join(tell(y) for y in x)
    return str(x)


CHECKS = {"C10": c10}
