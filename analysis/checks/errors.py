"""C12: a makefile is read line by line up to its end or its first error, which is what the caller gets."""
import itertools
from ..absint import mk, app, sym, show, walk, T, INT, STR, CH, Undecided, Outcome, State, TRUE, FALSE
from ..line import find_step, line_opaque, arg_types, Fields, Step
from ..mir import strip_generics
from ..models import OK, short
from ..nodes import Nodes
from ..report import AnchorMissing
from ..shape import shape
from ..single import analyse
from ..views import Many, Stop, pieces
from .blocks import with_widths, BLOCK, SPAN, Lab, Look, off, pr, rng
from .includes import ERR, TRACE
from .locations import ch

BOM = "\ufeff"
FAILS = ("failure", "error", "failure of several parts", "failure of the parser library", "incomplete")


def nom(prog):
    need = {"Err": "nom::Err", "Context": "nom::Context", "Kind": "nom::ErrorKind"}
    for p in need.values():
        if p not in prog.adts:
            raise AnchorMissing(p)

    def adt(p, variant, *fs):
        vs = prog.adts[p]["variants"]
        i = [v["n"] for v in vs].index(variant)
        return mk("adt", p, i, variant, tuple(str(k) for k in range(len(fs))), fs)
    return need, adt


def failed(prog, what, span):
    """(the value a failing line gives, the errors it may be reported as)"""
    P, adt = nom(prog)
    e = sym("the error")
    custom = lambda x: adt(P["Kind"], "Custom", x)
    code = lambda k: adt(P["Context"], "Code", span, k)
    if what == "failure":
        return ERR(adt(P["Err"], "Failure", code(custom(e)))), [e]
    if what == "error":
        return ERR(adt(P["Err"], "Error", code(custom(e)))), [e]
    if what == "failure of several parts":
        f = sym("another error")
        return ERR(adt(P["Err"], "Failure", adt(P["Context"], "List", mk("list", mk("tuple", span, custom(e)), mk("tuple", span, custom(f)))))), [e, f]
    if what == "failure of the parser library":
        return ERR(adt(P["Err"], "Failure", code(adt(P["Kind"], "Tag")))), None
    return ERR(adt(P["Err"], "Incomplete", sym("needed"))), None


def lines(ctx, R):
    """The lines of a text."""
    prog = ctx.prog
    pb, step = find_step(prog)
    where = "%s %s" % (pb.path, pb.loc())
    at = arg_types(prog, step)
    i_in = next(i for i, t in enumerate(at) if "BlockSpan" in t)
    deep = ctx.tier == "thorough"
    texts = ["", "A", "AB", "ABC", BOM, BOM + "A", BOM + "AB", "A" + BOM, BOM + BOM + "A", "A\nB", "\n", " ", "A\n\t ", "A\n\t \n", " \nA",
             "A\\", "A\\\n", "A\0B", "\0", "A\x1aB", "#", "A#B", "A\r\n", BOM + "\n", "A\n" + BOM] + (["ABCD", BOM + "A" + BOM + "B", "\n\n\n"] if deep else [])

    def one(R, item):
        with_widths(R, item, one_)

    def one_(R, s, note=""):
        L = Lab(prog)
        K = Look(L, R, where)
        st = L.start()
        body = [ch(c) if c in "ABCD" else STR(c) for c in s]
        blk, cs, st = L.block([("text", body)] if body else [], st, "new")
        lab = "`%s`%s" % (s.replace(BOM, "<BOM>").replace("\n", "\\n"), note)
        from_ = L.method("slice", SPAN, "std::ops::RangeFrom<usize>")

        def ev(st, *x):
            s1 = st.copy()
            s1.mem[TRACE] = mk("tuple", *(s1.mem[TRACE].a + (mk("ev", *x),)))
            return s1

        def hook(e, fn, bl, name, callee, vals, st, dty):
            if short(name) == "into_error_kind" and len(vals) == 1:
                x = e.deref_val(st, vals[0])
                if x.op == "adt" and x.a[2] == "List" and x.a[4][0].op == "list":
                    # the library's: the first of them
                    return [Outcome("ret", x.a[4][0].a[0].a[1], st.copy())]
            if callee.get("key") != step.key:
                if callee.get("key") in prog.fns and any(prog.tystr(x).endswith("ProtoRule") for x in prog.fns[callee["key"]].locals[1:1 + prog.fns[callee["key"]].argc]):
                    return [Outcome("ret", mk("tuple"), ev(st, "record"))]
                return None
            sp = e.deref_val(st, vals[i_in])
            s0 = st.copy()
            x, s0 = L.go(L.method("into_string", SPAN), [L.ref(s0, sp)], s0)
            rest = L.text(x)
            outs = []
            n = len(rest)
            for k in sorted({1, n} | (set(range(1, n)) if deep else set())):
                s1 = ev(st, "line", mk("tuple", *rest), INT(k))
                r, s1 = L.go(from_, [L.ref(s1, sp), rng(lo=off([(p, None) for p in rest[:k]]))], s1)
                outs.append(Outcome("ret", OK(mk("tuple", r, mk("tuple"))), s1))
            for w in FAILS:
                v, _ = failed(prog, w, sp)
                outs.append(Outcome("ret", v, ev(st, "line", mk("tuple", *rest), mk(w))))
            return outs
        L.e.hooks.insert(0, hook)
        st.mem[TRACE] = mk("tuple")
        args = []
        for k in range(pb.argc):
            t = prog.tystr(pb.locals[k + 1])
            args.append(L.ref(st, blk if "Block" in t else sym("engine" if t.endswith("Engine") else "names")))
        try:
            outs = L.e.run(pb, args, st)
        except (Undecided, Many) as u:
            R.undecided("lines", where, "%s: %s" % (lab, u))
            return
        except Stop as u:
            R.violation("lines", where, "%s: panics: %s" % (lab, u), key="lines:panic")
            return
        R.fns |= L.e.seen_fns() | L.seen
        want = body[1:] if s.startswith(BOM) else body
        if not outs:
            R.undecided("lines", where, "%s: no way through" % lab)
        for o in outs:
            if o.kind == "panic":
                R.violation("lines", where, "%s: panics: %s" % (lab, o.msg), key="lines:panic")
                continue
            i, bad = 0, None
            for x in o.st.mem[TRACE].a:
                if x.a[0] != "line":
                    continue
                R.check("stop", where, bad is None, "%s: nothing is read after a line that failed" % lab, key="stop:again")
                if bad is not None:
                    break
                good = list(x.a[1].a) == want[i:]
                R.check("lines", where, good and i < len(want), "%s: `%s` is read after %d characters" % (lab, pr(x.a[1].a), i), key="lines:from")
                if not good:
                    break
                if x.a[2].op == "int":
                    i += x.a[2].a[0]
                else:
                    bad = x.a[2].op
            else:
                r = o.ret
                ok = r.op == "adt" and r.a[1] == 0
                if bad is None:
                    R.check("lines", where, i == len(want), "%s: %d of %d characters are read" % (lab, i, len(want)), key="lines:all")
                    R.check("result", where, ok, "%s: all lines could be read; gives %s" % (lab, show(r)[:100]), key="result:ok")
                    continue
                if not R.check("result", where, r.op == "adt" and r.a[1] == 1, "%s: %s of a line gives %s" % (lab, bad, show(r)[:80]), key="result:swallowed:" + bad.replace(" ", "-")):
                    continue
                _, may = failed(prog, bad, sym("?"))
                x = r.a[4][0]
                good = x.op == "adt" and x.a[2] == "ParseError"
                if may is not None:
                    good = good and any(x.a[4][0] is m for m in may[:1])
                R.check("result", where, good, "%s: %s of a line is reported as %s" % (lab, bad, show(x)[:100]), key="result:which:" + bad.replace(" ", "-"))
    R.fork(texts, one, per=1)


def source(ctx, R):
    """Where the text comes from."""
    prog = ctx.prog
    c = [g for g in prog.local.values() if strip_generics(g.path) == "Engine::read_makefile"]
    if not c:
        raise AnchorMissing("Engine::read_makefile")
    f = c[0]
    where = "%s %s" % (f.path, f.loc())
    L = Lab(prog)
    st = L.start()
    body = [ch("A"), STR("\n"), ch("B")]

    def ev(st, *x):
        s1 = st.copy()
        s1.mem[TRACE] = mk("tuple", *(s1.mem[TRACE].a + (mk("ev", *x),)))
        return s1

    def hook(e, fn, bl, name, callee, vals, st, dty):
        sn = short(name)
        n = strip_generics(name)
        if sn in ("read_to_string", "read_to_end"):
            s1, s2 = ev(st, "got", True), ev(st, "got", False)
            e.put(s1, vals[1], shape(*body))
            # a failure may come after part of the text has been read
            s3 = s2.copy()
            e.put(s3, vals[1], shape(*body))
            return [Outcome("ret", OK(app("bytes read")), s1), Outcome("ret", ERR(sym("io error")), s2), Outcome("ret", ERR(sym("io error")), s3)]
        if sn in ("intern_file_name", "intern_variable_name"):
            return [Outcome("ret", app("file named", *[e.deref_val(st, v) for v in vals[1:]]), st.copy())]
        if n.endswith("Engine::process_block"):
            b = [x for x in (e.deref_val(st, v) for v in vals) if x.op == "adt" and x.a[0] == BLOCK]
            return [Outcome("ret", OK(mk("tuple")), ev(st, "lines", True)), Outcome("ret", ERR(sym("a line's error")), ev(st, "lines", False))]
        if sn in ("from", "into") and len(vals) == 1 and vals[0].op == "sym" and vals[0].a[0] != "io error":
            return [Outcome("ret", vals[0], st.copy())]
        return None
    L.e.hooks.insert(0, hook)
    st.mem[TRACE] = mk("tuple")
    args = []
    for i in range(f.argc):
        t = prog.tystr(f.locals[i + 1])
        args.append(sym("name") if t.startswith("&str") else L.ref(st, sym("arg%d" % i)))
    try:
        outs = L.e.run(f, args, st)
    except (Undecided, Many) as u:
        R.undecided("source", where, str(u))
        return
    R.fns |= L.e.seen_fns()
    for o in outs:
        if o.kind == "panic":
            R.violation("source", where, "panics: %s" % o.msg, key="source:panic")
            continue
        evs = [tuple(x.a) for x in o.st.mem[TRACE].a]
        bad = ("got", False) in evs
        failed_ = ("lines", False) in evs
        n = len([x for x in evs if x[0] == "lines"])
        R.check("source", where, n == (0 if bad else 1), "the text read is processed once, and only if it could be read: %d" % n, key="source:once")
        r = o.ret
        if not bad and not failed_:
            R.check("source", where, r.op == "adt" and r.a[1] == 0, "all went well: %s" % show(r)[:80], key="source:ok")
        else:
            w = sym("io error") if bad else sym("a line's error")
            good = r.op == "adt" and r.a[1] == 1 and (any(y is w for y in walk(r)) and (not bad or any(y.op == "adt" and y.a[2] == "IOError" for y in walk(r))))
            R.check("source", where, good, "%s gives %s" % (w.a[0], show(r)[:80]), key="source:swallowed:" + w.a[0].replace(" ", "-"))
    if not outs:
        R.undecided("source", where, "no way through")


def forms(prog, v):
    """What the parts of an action may be: [(description, parts)] - whether an optional part is there, which one flag is set."""
    base = [(sym("%s of it" % x["n"]), prog.types[x["t"]]) for x in v["fields"]]
    out = [("", [b for b, _ in base])]
    none = mk("adt", "std::option::Option", 0, "None", (), ())
    for i, (b, t) in enumerate(base):
        new = []
        a = prog.adts.get(t.get("path") or "")
        if t.get("path") == "std::option::Option":
            for d, fs in out:
                new.append((d, fs[:i] + [none] + fs[i + 1:]))
                new.append((d + " with something", fs[:i] + [mk("adt", "std::option::Option", 1, "Some", ("0",), (b,))] + fs[i + 1:]))
        elif a and len(a["variants"]) == 1 and a["variants"][0]["fields"] and all(prog.tystr(f["t"]) == "bool" for f in a["variants"][0]["fields"]):
            names = [f["n"] for f in a["variants"][0]["fields"]]
            for d, fs in out:
                for k in [None] + list(range(len(names))):
                    x = mk("adt", t["path"], 0, a["variants"][0]["n"], tuple(names), tuple(TRUE if j == k else FALSE for j in range(len(names))))
                    new.append((d + (" modifier " + names[k] if k is not None else ""), fs[:i] + [x] + fs[i + 1:]))
        out = new or out
    return out


def answers(ctx, R):
    """What a line or an expression asks for is done or refused."""
    prog = ctx.prog
    from ..line import LEAF
    F = None
    for p in prog.adts:
        if p.endswith("parsers::ParserState"):
            F = Fields(prog, p)
            sp = p
    if F is None:
        raise AnchorMissing("ParserState")
    opq = line_opaque(prog)
    for ty, kind in LEAF.items():
        if kind not in ("define", "conditional", "variable", "directive", "target"):
            continue
        c = [f for f in prog.local.values() if "{" not in f.path and f.selfty and "ParserState" in f.selfty and ty in arg_types(prog, f) and
             "result::Result<()" in prog.tystr(f.locals[0])]
        called = {(cl or {}).get("key") for g in c for _, cl, _ in g.calls()}
        c = [g for g in c if g.key not in called] if len(c) > 1 else c
        if len(c) != 1:
            R.undecided("answer", "parsers::", "what is done for %s (%d candidates)" % (ty, len(c)))
            continue
        f = c[0]
        where = "%s %s" % (f.path, f.loc())
        vs = prog.adts[ty]["variants"]
        for i, v in enumerate(vs):
            for d, parts in forms(prog, v):
                act = mk("adt", ty, i, v["n"], tuple(x["n"] for x in v["fields"]), tuple(parts))
                st = State()
                fields = [sym("state %d" % k) for k in range(F.n)]
                fields[F.rule] = mk("adt", "std::option::Option", 0, "None", (), ())
                fields[F.define] = mk("adt", "std::option::Option", 1, "Some", ("0",), (sym("define"),)) if kind == "define" else fields[F.rule]
                state = mk("adt", sp, 0, prog.adts[sp]["variants"][0]["n"], tuple(x["n"] for x in F.fields), tuple(fields))
                st.mem[("h", "state")] = state
                args = {}
                for k, t in enumerate(arg_types(prog, f)):
                    if t == ty:
                        args[k] = act
                    elif "ParserState" in t:
                        args[k] = mk("ref", ("h", "state"), ())
                what = (v["n"] if len(vs) > 1 else kind) + d
                try:
                    A = analyse(prog, f, opaque=opq, args=args, state=st)
                except Undecided as u:
                    R.undecided("answer", where, "%s: %s" % (what, u))
                    continue
                R.fns |= A.eng.seen_fns()
                bad = [o for o in A.outs if o.kind == "panic"]
                R.check("answer", where, not bad, "%s panics" % what if bad else "%s is done or refused" % what, key="answer:" + what)
    # lines that are not even read
    from ..grammar import parser
    from ..shape import chunk, WORD
    from . import assign, rulelines
    p, q, r = (chunk(x, WORD) for x in "pqr")
    for kind, text, what in (("variable", ("undefine ", p), "undefine"), ("target", (p, ": ", q, ": ", r), "a static pattern rule")):
        f = parser(prog, kind)
        where = "%s %s" % (f.path, f.loc())
        try:
            A = assign.runf(prog, f, {"BlockSpan": shape(*text)}, assign.Ctx(prog).opq) if kind == "variable" else rulelines.Lines(prog).run(shape(*text), {})
        except Undecided as u:
            R.undecided("answer", where, "%s: %s" % (what, u))
            continue
        R.fns |= A.eng.seen_fns()
        bad = [o for o in A.outs if o.kind == "panic"]
        R.check("answer", where, not bad, "%s %s" % (what, "panics" if bad else "is read or refused"), key="answer:" + what)
    # expressions
    from .evals import Eval
    V = Eval(prog)
    N = V.N
    for v in V.ac:
        if v["n"] in ("PreEvaluated",):
            continue
        kids = [sym("c%d" % i) for i in range(len(v["fields"]))]
        vals = [mk("list", *kids) if v["n"] == "Concat" else k for k in kids]
        if v["n"] == "Constant":
            vals = [V.located(shape("text"))]
        where = "ast::AstNode::eval"
        try:
            A = V.run(V.node(v["n"], *vals), {})
        except Undecided as u:
            R.undecided("answer", where, "expanding %s: %s" % (v["n"], u))
            continue
        R.fns |= A.eng.seen_fns()
        bad = set()
        for o in A.outs:
            if o.kind == "panic":
                ps = [e for e in o.ev if getattr(e, "name", "").endswith("process_block")]
                f_ = ps and o.facts.get(("disc", ps[-1].ret)) == frozenset([1])
                bad.add("expanding %s%s" % (v["n"], " of text that is refused" if f_ else ""))
        for b in sorted(bad):
            R.violation("answer", where, "%s panics" % b, key="answer:" + b)
        if not bad and A.outs:
            R.ok("answer", where, "expanding %s gives a text" % v["n"])


def c12(ctx, R):
    R.rule("answer", "what a line or an expression asks for is done or refused with an error; it does not end the program")
    R.rule("lines", "lines are read one after the other, each from where the last one ended, from the start of the text (or the byte order mark "
                    "there) to its end")
    R.rule("stop", "after a line that failed none is read")
    R.rule("result", "reading succeeds exactly if every line could be read, and fails with the error of the first that could not")
    R.rule("source", "text that cannot be read is an error, as is an error in it")
    lines(ctx, R)
    source(ctx, R)
    answers(ctx, R)
    R.floor("lines", 30)
    R.floor("result", 30)
    R.floor("source", 3)


CHECKS = {"C12": c12}
