"""C11: which references and function calls a text contains."""
import os
from ..absint import show, mk, sym, T, STR, walk, proj
from ..recog import fact_bool, variant
from ..report import AnchorMissing
from ..grammar import attempt, parser, ok, ANY
from ..shape import shape, chunk, run, WORD, BLANKS, SPACES, TEXT, SEAM, unseam, CLASSES
from ..nodes import Nodes
from ..single import analyse

a, b, c, d = (chunk(x, WORD) for x in "abcd")
w = chunk("w", BLANKS)


def REF(*x):
    return ("VariableReference", norm(x))


def EVAL(*x):
    return ("Eval", norm(x))


def STRIP(*x):
    return ("Strip", norm(x))


def WORDS(*x):
    return ("Words", norm(x))


def WRD(i, l):
    return ("Word", norm((i,)), norm((l,)))


def ren(x):
    """the same with other chunk names"""
    if isinstance(x, T):
        if x.op == "shape":
            return shape(*[ren(p) for p in x.a])
        if x.op == "chunk":
            return chunk(x.a[0] + "2", CLASSES[x.a[0]])
        return x
    if isinstance(x, tuple):
        return tuple(ren(y) for y in x)
    return x


def norm(xs):
    """leaves with adjacent texts joined; texts as shapes without seams"""
    out = []
    for x in xs:
        if isinstance(x, tuple):
            out.append(x)
            continue
        s = shape(x)
        if not s.a:
            continue
        if out and isinstance(out[-1], T):
            out[-1] = shape(out[-1], s)
        else:
            out.append(s)
    return tuple(out)


def leaves(fl):
    """Nodes.flat in the same notation"""
    out = []
    for x in fl:
        if x[0] in ("text", "node", "done"):
            t = x[1]
            if isinstance(t, str):
                t = shape(t)
            while t.op in ("sseg",):
                t = t.a[0]
            if t.op == "adt":
                for y in t.a[4]:
                    if y.op in ("str", "shape", "sseg"):
                        t = y.a[0] if y.op == "sseg" else shape(y) if y.op == "str" else y
            if x[0] == "text" and t.op == "shape":
                t = unseam(t)
                if not t.a:
                    continue
                if out and isinstance(out[-1], T) and out[-1].op == "shape":
                    out[-1] = shape(out[-1], t)
                else:
                    out.append(t)
            else:
                out.append((x[0], t))
        else:
            out.append((x[0],) + tuple(leaves(y) for y in x[1:]))
    return tuple(out)


def lshow(l):
    r = []
    for x in l:
        if isinstance(x, T):
            r.append("".join(p.a[0] if p.op == "str" else "<%s>" % p.a[0] for p in x.a) if x.op == "shape" else show(x)[:60])
        elif isinstance(x, tuple) and x and isinstance(x[0], str) and len(x) > 1 and isinstance(x[1], tuple):
            r.append("%s[%s]" % (x[0], "; ".join(lshow(y) for y in x[1:])))
        else:
            r.append("%s %s" % (x[0], show(x[1])[:80]))
    return " + ".join(r) if r else "nothing"


def sshow(sh):
    return "".join(p.a[0] if p.op == "str" else "" if p.op == "seam" else "<%s>" % p.a[0] for p in sh.a)


TREE = [
    # plain text
    ((), ()), ((a,), (a,)), ((a, " ", b), (a, " ", b)), ((a, SEAM, b), (a, b)), ((a, SEAM, b, SEAM, c), (a, b, c)),
    ((a, ",", b, ")", c, "}", d), (a, ",", b, ")", c, "}", d)), (("(", a, "){", b, "}"), ("(", a, "){", b, "}")),
    ((w, a, w), (w, a, w)),
    # dollars
    (("$$",), ("$",)), ((a, "$$", b), (a, "$", b)), (("$$$$",), ("$$",)), ((a, "$$(", b, ")"), (a, "$(", b, ")")),
    ((a, "$"), (a, "$")), (("$$$",), ("$$",)),
    # one-character references
    (("$x",), (REF("x"),)), (("$x", a), (REF("x"), a)), ((a, "$x", b, "$y"), (a, REF("x"), b, REF("y"))),
    (("$@",), (REF("@"),)), (("$x$$",), (REF("x"), "$")), (("$$$x",), ("$", REF("x"))),
    # bracketed references
    (("$(", a, ")"), (REF(a),)), (("${", a, "}"), (REF(a),)),
    ((a, "$(", b, ")", c), (a, REF(b), c)), ((a, "${", b, "}", c), (a, REF(b), c)),
    (("$(", a, ")$(", b, ")"), (REF(a), REF(b))), (("$(", a, ")${", b, "}", c), (REF(a), REF(b), c)),
    (("$(", a, " ", b, ")", c), (REF(a, " ", b), c)), (("$()", a), (REF(), a)), (("${}", a), (REF(), a)),
    ((a, SEAM, "$(", b, SEAM, c, ")", SEAM, d), (a, REF(b, c), d)),
    (("$", SEAM, "(", a, ")"), (REF(a),)),
    # nesting
    (("$(", a, "$(", b, ")", c, ")", d), (REF(a, REF(b), c), d)), (("${", a, "${", b, "}", c, "}", d), (REF(a, REF(b), c), d)),
    (("$(", a, "${", b, "}", c, ")", d), (REF(a, REF(b), c), d)), (("${", a, "$(", b, ")", c, "}", d), (REF(a, REF(b), c), d)),
    (("$($(", a, "))"), (REF(REF(a)),)), (("${${${", a, "}}}"), (REF(REF(REF(a))),)),
    (("$($x", a, ")"), (REF(REF("x"), a),)), (("$(", a, "$$", b, ")"), (REF(a, "$", b),)),
    # brackets in names
    (("$(", a, "(", b, ")", c, ")", d), (REF(a, "(", b, ")", c), d)), (("${", a, "{", b, "}", c, "}", d), (REF(a, "{", b, "}", c), d)),
    (("$(", a, "}", b, ")", c), (REF(a, "}", b), c)), (("${", a, ")", b, "}", c), (REF(a, ")", b), c)),
    (("$(", a, "{", b, ")", c), (REF(a, "{", b), c)), (("${", a, "(", b, "}", c), (REF(a, "(", b), c)),
    (("$(", a, ",", b, ")"), (REF(a, ",", b),)), (("$(", a, ":", b, "=", c, ")", d), (REF(a, ":", b, "=", c), d)),
    # functions
    (("$(eval ", a, ")"), (EVAL(a),)), (("${eval ", a, "}"), (EVAL(a),)), (("$(eval\t", a, ")"), (EVAL(a),)),
    ((a, "$(eval ", b, ")", c), (a, EVAL(b), c)), (("$(eval ", a, ",", b, ")", c), (EVAL(a, ",", b), c)),
    (("$(eval $(", a, ")=", b, ")", c), (EVAL(REF(a), "=", b), c)), (("$(eval $$(", a, "))"), (EVAL("$(", a, ")"),)),
    (("$(", a, "$(eval ", b, ")", c, ")", d), (REF(a, EVAL(b), c), d)),
    (("$(eval ", a, SEAM, b, ")", c), (EVAL(a, b), c)),
    (("$(strip ", a, ")", b), (STRIP(a), b)), (("${strip ", a, " ", b, "}", c), (STRIP(a, " ", b), c)),
    (("$(strip $(", a, "))", b), (STRIP(REF(a)), b)), (("$(strip $(", a, ",", b, "))", c), (STRIP(REF(a, ",", b)), c)),
    (("$(strip ${", a, ",", b, "})", c), (STRIP(REF(a, ",", b)), c)), (("$(strip (", a, ",", b, "))", c), (STRIP("(", a, ",", b, ")"), c)),
    (("$(words ", a, " ", b, ")", c), (WORDS(a, " ", b), c)), (("$(words $(", a, "))"), (WORDS(REF(a)),)),
    (("$(word ", a, ",", b, ")", c), (WRD(a, b), c)), (("${word ", a, ",", b, "}", c), (WRD(a, b), c)),
    (("$(word $(", a, "),$(", b, "))", c), (WRD(REF(a), REF(b)), c)), (("$(word (", a, ",", b, "),", c, ")", d), (("Word", norm(("(", a, ",", b, ")")), norm((c,))), d)),
    (("$(word ", a, ",", b, " ", c, ")", d), (("Word", norm((a,)), norm((b, " ", c))), d)),
    # names that are not function calls
    (("$(eval", a, ")"), (REF("eval", a),)), (("$(words", a, ")"), (REF("words", a),)), (("$(word", a, ")"), (REF("word", a),)),
    (("$(strip", a, ")"), (REF("strip", a),)), (("$(eval)"), (REF("eval"),)), (("$(word)",), (REF("word"),)),
    (("${words}",), (REF("words"),)), (("$(", a, " eval ", b, ")"), (REF(a, " eval ", b),)), (("$(Eval ", a, ")"), (REF("Eval ", a),)),
    (("eval ", a), ("eval ", a)), (("(eval ", a, ")"), ("(eval ", a, ")")), (("$(wordsmith ", a, ")"), (REF("wordsmith ", a),)),
]
BAD = [
    (("$(", a), "UnternimatedVariable"), (("${", a), "UnternimatedVariable"), (("$(",), "UnternimatedVariable"),
    (("${",), "UnternimatedVariable"), (("$(", a, "}"), "UnternimatedVariable"), (("${", a, ")"), "UnternimatedVariable"),
    (("$(", a, "$(", b, ")"), "UnternimatedVariable"), (("$(", a, "(", b, ")", c), "UnternimatedVariable"),
    ((a, "$(", b, ")$(", c), "UnternimatedVariable"), (("$(", a, "${", b, ")", c), "UnternimatedVariable"),
    (("$(eval ", a), "UnternimatedVariable"), (("$(strip ", a), "UnternimatedVariable"),
    (("$(eval $(", a, ")", b), "UnternimatedVariable"), (("$(eval ${", a, ")", b), "UnternimatedVariable"),
    (("$(strip ", a, ",", b, ")"), "ExtraArguments"), (("$(words ", a, ",", b, ")"), "ExtraArguments"),
    (("$(word ", a, ",", b, ",", c, ")"), "ExtraArguments"), (("$(word ", a, ")"), "InsufficientArguments"),
    (("${word ", a, "}", b), "InsufficientArguments"),
    (("$(strip $(", a, ")", b), "UnternimatedVariable"),
]


def brackets(n):
    """words over ( ) { }, of n pairs, in which each kind is balanced on its own"""
    out = []

    def go(w, c, d):
        if len(w) + c + d > 2 * n:
            return
        if len(w) == 2 * n:
            out.append(w)
            return
        go(w + "(", c + 1, d)
        go(w + "{", c, d + 1)
        if c:
            go(w + ")", c - 1, d)
        if d:
            go(w + "}", c, d - 1)
    go("", 0, 0)
    return out


def bracketed(deep):
    """Shapes with brackets nested in names and arguments: trees and errors, by counting each kind of bracket."""
    tree, bad = [], []
    xs = [chunk("x%d" % i, WORD) for i in range(12)]
    for n in range(1, 4 if deep else 3):
        for w in brackets(n):
            body = [xs[0]]
            for i, ch in enumerate(w):
                body += [ch, xs[i + 1]]
            for o, c in ("()", "{}"):
                tree.append((("$" + o,) + tuple(body) + (c, d), (REF(*body), d)))
            at = range(len(w) + 1) if n < 3 else range(1, len(w))
            for i in at:
                inner = w[:i].count("(") > w[:i].count(")") or w[:i].count("{") > w[:i].count("}")
                b2 = body[:2 * i + 1] + [",", a] + body[2 * i + 1:]
                if inner:
                    tree.append((("$(strip ",) + tuple(b2) + (")", d), (STRIP(*b2), d)))
                    tree.append((("${words ",) + tuple(b2) + ("}", d), (WORDS(*b2), d)))
                    tree.append((("$(word ",) + tuple(b2) + (",", c_, ")", d), (WRD_(b2, [c_]), d)))
                    tree.append((("${word ", c_, ",") + tuple(b2) + ("}", d), (WRD_([c_], b2), d)))
                else:
                    bad.append((("$(strip ",) + tuple(b2) + (")", d), "ExtraArguments"))
                    tree.append((("$(word ",) + tuple(b2) + (")", d),
                                 (WRD_(body[:2 * i + 1], [a] + body[2 * i + 1:]), d)))
    return tree, bad


c_ = chunk("c", WORD)


def WRD_(i, l):
    return ("Word", norm(i), norm(l))


def c11(ctx, R):
    prog = ctx.prog
    deep = os.environ.get("VERIF_TIER") == "thorough"
    bt, bb = bracketed(deep)
    tree, bad = TREE + bt, BAD + bb
    if deep:
        t2 = [(x, norm(y)) for x, y in TREE if isinstance(x, tuple) and x]
        for i, (x, y) in enumerate(t2):
            for j, (x2, y2) in enumerate(t2):
                if (i * 7 + j) % 2 or (isinstance(x[-1], str) and (len(x[-1]) - len(x[-1].rstrip("$"))) % 2):
                    continue
                x2, y2 = ren(x2), ren(y2)
                tree.append((x + x2, y + y2))
                if (i + j) % 5 == 0 and x2[0] != "eval " and not any(isinstance(p, str) and set(p) & set("(){}") for p in x2):
                    tree.append((("$(", ) + x2 + (")",) + x, (REF(*y2),) + y))
    f = parser(prog, "ast")
    N = Nodes(prog)
    R.rule("tree", "the parsed text is, in order, exactly its plain text, dollars, references (named by exactly the text up to "
                   "the matching bracket) and function calls")
    R.rule("reject", "unterminated references and wrong numbers of function arguments are errors, of the right kind")
    R.rule("concat", "joining parts keeps all of them, in order, leaving out only empty ones")
    where = "%s %s" % (f.path, f.loc())
    op = lambda n, cal: False

    def one(R, it):
        text, want = it
        sh = shape(*text)
        s = sshow(sh)
        A = run(prog, f, {0: sh}, opaque=op)
        R.fns |= A.eng.seen_fns()
        R.add("paths", len(A.outs))
        if not A.outs:
            R.violation("tree", where, "`%s`: no result" % s, key="tree:" + s)
        if isinstance(want, str):
            for o in A.outs:
                kinds = [x.a[2] for x in walk(o.ret) if x.op == "adt" and x.a[0].endswith("ParseErrorKind")]
                sev = [x.a[2] for x in walk(o.ret) if x.op == "adt" and x.a[0] == "nom::Err"]
                good = o.kind == "ret" and ok(o) is None and want in kinds and sev[:1] == ["Failure"]
                R.check("reject", where, good, "`%s`: %s" % (s, "panic: %s" % o.msg if o.kind != "ret" else
                        "accepted" if ok(o) else "%s %s" % ("/".join(sev), "/".join(kinds))), key="reject:" + s)
            return
        want = norm(want)
        for o in A.outs:
            p = ok(o)
            if p is None:
                R.violation("tree", where, "`%s` %s" % (s, "panics: %s" % o.msg if o.kind != "ret" else "is refused: %s" %
                            show(o.ret)[:160]), key="tree:" + s)
                continue
            got = leaves(N.flat(p[1]))
            R.check("tree", where, got == want, "`%s` is parsed as %s%s" % (
                s, lshow(got), "" if got == want else ", should be " + lshow(want)), key="tree:" + s)
            R.check("tree", where, p[0] is shape(), "`%s`: left over: %s" % (s, sshow(p[0]) if p[0].op == "shape" else
                                                                          show(p[0])[:60]), key="rest:" + s)
    R.fork([(t if isinstance(t, tuple) else (t,), w) for t, w in tree + bad], one)
    R.count("texts", len(tree) + len(bad))
    concat(ctx, R, N)
    R.floor("tree", 2 * len(tree))
    R.floor("reject", len(bad))
    R.floor("concat", 80)


def concat(ctx, R, N):
    prog = ctx.prog
    f = prog.one(r"^ast::collapsing_concat$")
    if f is None:
        raise AnchorMissing("ast::collapsing_concat")
    where = "%s %s" % (f.path, f.loc())
    iv = next(i for i in range(f.argc) if "Vec<" in prog.tystr(f.locals[i + 1]))
    chv = prog.adts["ast::AstChildren"]["variants"]

    def node(i, vn):
        vi = N.names.index(vn)
        fs = chv[vi]["fields"]
        ch = mk("adt", "ast::AstChildren", vi, vn, tuple(x["n"] for x in fs),
                tuple(sym("f%d_%d" % (i, j)) for j in range(len(fs))))
        af = prog.adts["ast::AstNode"]["variants"][0]["fields"]
        return mk("adt", "ast::AstNode", 0, prog.adts["ast::AstNode"]["variants"][0]["n"], tuple(x["n"] for x in af),
                  tuple(ch if j == N.i_ch else sym("l%d_%d" % (i, j)) for j in range(len(af))))
    lists = [[]] + [[x] for x in N.names] + [[x, y] for x in N.names for y in N.names]
    for x in ("Constant", "PreEvaluated", "VariableReference"):
        lists += [[p if m & 1 else "Empty", q if m & 2 else "Empty", r if m & 4 else "Empty"]
                  for m in range(8) for p, q, r in [(x, "Concat", "Constant")]]
    for l in lists:
        xs = [node(i, vn) for i, vn in enumerate(l)]
        A = attempt(R, "concat", where, "joining %s" % (l,), lambda: run(prog, f, {iv: mk("list", *xs)}, opaque=lambda n, cal: False))
        if A is None:
            continue
        R.fns |= A.eng.seen_fns()
        want = N.flat(mk("adt", "ast::AstNode", 0, "AstNode", (), tuple(
            mk("adt", "ast::AstChildren", N.names.index("Concat"), "Concat", ("0",), (mk("list", *xs),)) if j == N.i_ch
            else sym("l") for j in range(2))))
        for o in A.outs:
            what = "joining [%s]" % ", ".join(l)
            if o.kind != "ret":
                R.violation("concat", where, "%s panics: %s" % (what, o.msg), key="concat")
                continue
            got = N.flat(o.ret)
            R.check("concat", where, got == want, "%s gives [%s]" % (what, ", ".join(
                y[0] if y[0] != "node" else show(y[1])[:80] for y in got)), key="concat")


CHECKS = {"C11": c11}
