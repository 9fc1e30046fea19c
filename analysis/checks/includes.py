"""C13: include directives read each file they name, in order, and report what could not be read."""
from ..absint import mk, app, sym, show, walk, T, INT, STR, CH, Undecided, Outcome
from ..mir import strip_generics
from ..models import OK, short
from ..report import AnchorMissing
from ..shape import shape, chunk, Cls, PUNCT, CLASSES
from ..views import Many, Stop, pieces
from .blocks import with_widths, BLOCK, Lab, Look, pr

NAME = Cls("one file name character", excl="\n\r \t\0\\\ufeff\x0b\x0c", ws=False, single=True)
TRACE = ("h", "trace")


def ch(n):
    return chunk(n + "'f", NAME)


def text(s):
    return [ch(c) if c in "ABCDEF" else STR(c) for c in s]


# text -> the names in it
TEXTS = [("", []), ("A", ["A"]), ("AB", ["AB"]), ("A B", ["A", "B"]), (" A", ["A"]), ("A ", ["A"]), ("\tA\t B ", ["A", "B"]), ("A\nB", ["A", "B"]),
         ("A  B", ["A", "B"]), ("A B C", ["A", "B", "C"]), ("A\\ B", ["A B"]), ("AB\tC", ["AB", "C"]), ("   ", []), ("A\\B C", ["A\\B", "C"])]
MORE = [("A B C D", ["A", "B", "C", "D"]), ("\n A\\ B C\\ D\t", ["A B", "C D"]), ("A\\\\ B", ["A\\", "B"]), ("A A A", ["A", "A", "A"]), ("ABC D EF", ["ABC", "D", "EF"])]


def ERR(x):
    return mk("adt", "std::result::Result", 1, "Err", ("0",), (x,))


def handler(prog):
    act = [p for p, a in prog.adts.items() if {"Include", "SoftInclude"} <= {v["n"] for v in a["variants"]}]
    if len(act) != 1:
        raise AnchorMissing("the type of directives")
    c = [f for f in prog.local.values() if "{" not in f.path and any(prog.tystr(f.locals[i + 1]) == act[0] for i in range(f.argc)) and
         "result::Result<()" in prog.tystr(f.locals[0]) and f.selfty and "ParserState" in f.selfty]
    if len(c) > 1:
        # the one that tells the directives apart itself
        called = {(cl or {}).get("key") for g in c for _, cl, _ in g.calls()}
        c = [g for g in c if g.key not in called]
    if len(c) != 1:
        raise AnchorMissing("handler of directives (%d candidates)" % len(c))
    return act[0], c[0]


class Includes:
    def __init__(self, ctx, R):
        self.prog, self.R = ctx.prog, R
        self.act, self.f = handler(self.prog)
        self.where = "%s %s" % (self.f.path, self.f.loc())
        me = [p for p in self.prog.adts if p.split("::")[-1] == "MakefileError"]
        if not me:
            raise AnchorMissing("MakefileError")
        self.me = me[0]

    def error(self, i, v):
        return mk("adt", self.me, i, v["n"], tuple(f["n"] for f in v["fields"]), tuple(sym("%s error" % v["n"]) for f in v["fields"]))

    def run(self, kind, s, names):
        prog, R, where = self.prog, self.R, self.where
        L = Lab(prog)
        st = L.start()
        blk, cs, st = L.block([("text", text(s))] if s else [], st, "new")
        node = sym("names given")

        def ev(st, *x):
            s1 = st.copy()
            s1.mem[TRACE] = mk("tuple", *(s1.mem[TRACE].a + (mk("ev", *x),)))
            return s1

        def hook(e, fn, bl, name, callee, vals, st, dty):
            sn = short(name)
            D = lambda i: e.deref_val(st, vals[i])
            n = strip_generics(name)
            if n.startswith("std::env::current_dir"):
                return None
            if n.endswith("AstNode::eval"):
                return [Outcome("ret", blk, ev(st, "eval", D(0)))]
            if n.endswith("File::open"):
                p = D(0)
                return [Outcome("ret", OK(app("open", p)), ev(st, "open", p, True)),
                        Outcome("ret", ERR(app("io error", p)), ev(st, "open", p, False))]
            if n.endswith("Engine::read_makefile"):
                rd, nm = None, None
                for v, l in zip(vals, prog.fns[callee["key"]].locals[1:] if callee.get("key") in prog.fns else [None] * len(vals)):
                    x = e.deref_val(st, v)
                    if any(y.op == "app" and y.a[0] == "open" for y in walk(x)):
                        rd = x
                    elif x.op in ("shape", "str") or (x.op == "app" and "file name" in show(x)):
                        nm = x
                outs = [Outcome("ret", OK(mk("tuple")), ev(st, "read", rd or sym("?"), nm or sym("?"), mk("ok")))]
                for i, v in enumerate(prog.adts[self.me]["variants"]):
                    x = self.error(i, v)
                    outs.append(Outcome("ret", ERR(x), ev(st, "read", rd or sym("?"), nm or sym("?"), x)))
                return outs
            if n in ("std::path::Path::new", "std::convert::AsRef::as_ref") or sn in ("as_ref", "into", "from", "as_path", "as_str", "to_path_buf", "to_owned", "to_string"):
                if len(vals) == 1 and D(0).op in ("shape", "str", "sym", "app", "adt") and (D(0).op != "adt" or sn in ("into", "from")):
                    return [Outcome("ret", D(0), st.copy())]
            if sn == "push" and "PathBuf" in n:
                s1 = st.copy()
                e.put(s1, vals[0], app("join", D(0), D(1)))
                return [Outcome("ret", mk("tuple"), s1)]
            if sn == "join" and "Path" in n:
                return [Outcome("ret", app("join", D(0), D(1)), st.copy())]
            return None
        L.e.hooks.insert(0, hook)
        st.mem[TRACE] = mk("tuple")
        vs = self.prog.adts[self.act]["variants"]
        i = [v["n"] for v in vs].index(kind)
        action = mk("adt", self.act, i, kind, tuple(f["n"] for f in vs[i]["fields"]), (node,))
        args, me = [], None
        for k in range(self.f.argc):
            t = prog.tystr(self.f.locals[k + 1])
            if t == self.act:
                args.append(action)
            else:
                nm = "state" if "ParserState" in t else "engine" if t.endswith("Engine") else "names"
                args.append(L.ref(st, sym(nm)))
                if nm == "state":
                    me = args[-1]
        outs = L.e.run(self.f, args, st)
        R.fns |= L.e.seen_fns()
        want = [shape(*text(n)) for n in names]
        lab = "%s of `%s`" % (kind, s.replace("\n", "\\n").replace("\t", "\\t"))
        soft = kind.startswith("Soft")
        for o in outs:
            self.judge(L.e, lab, soft, want, node, me, o, kind)
        return len(outs)

    def judge(self, e, lab, soft, want, node, me, o, kind):
        R, where = self.R, self.where
        if o.kind == "panic":
            R.violation("read", where, "%s: panics: %s" % (lab, o.msg), key="panic")
            return
        evs = [x.a for x in o.st.mem[TRACE].a]
        R.check("expand", where, [x for x in evs if x[0] == "eval"] == [("eval", node)], "%s: the names are expanded once" % lab, key="expand:once")
        evs = [x for x in evs if x[0] != "eval"]
        expect = OK(mk("tuple"))
        k = 0

        def nxt(what):
            nonlocal k
            x = evs[k] if k < len(evs) else None
            k += 1
            return x if x is not None and x[0] == what else None
        for n in want:
            x = nxt("open")
            if not R.check("open", where, x is not None, "%s: `%s` is opened%s" % (lab, pr(pieces(n)), "" if x else " - but next is %s" % (evs[k - 1:k] and evs[k - 1][0] or "the end")),
                           key="open:missing"):
                return
            p = x[1]
            good = p.op == "app" and p.a[0] == "join" and str_eq(p.a[2], n) and "current_dir" not in show(p)
            R.check("open", where, good, "%s: `%s` is looked for at %s" % (lab, pr(pieces(n)), show(p)[:200]), key="open:path")
            R.check("open", where, p.op == "app" and "engine" in show(p.a[1]) and p.a[1].op != "shape", "%s: relative to the working directory" % lab, key="open:dir")
            if not x[2]:
                if soft:
                    continue
                expect = ("missing", n, p)
                break
            x = nxt("read")
            if not R.check("read", where, x is not None, "%s: `%s` is read%s" % (lab, pr(pieces(n)), "" if x else " - but is not"), key="read:missing"):
                return
            R.check("read", where, any(y is app("open", p) for y in walk(x[1])), "%s: what was opened is read" % lab, key="read:what")
            R.check("read", where, str_eq(x[2], n), "%s: `%s` is read under the name %s" % (lab, pr(pieces(n)), show(x[2])[:100]), key="read:name")
            if x[3].op != "ok":
                expect = ("failed", n, x[3])
                break
        rest = evs[k:]
        R.check("stop" if isinstance(expect, tuple) else "open", where, not rest,
                "%s: %s" % (lab, "nothing else is opened or read" if not rest else "also %ss %s" % (rest[0][0], show(rest[0][1])[:100])), key="open:extra")
        R.check("open", where, e.deref_val(o.st, me) is sym("state"), "%s: the parser's own state is left alone" % lab, key="state")
        r = o.ret
        if not isinstance(expect, tuple):
            R.check("result", where, r.op == "adt" and r.a[1] == 0, "%s: done: %s" % (lab, show(r)[:200]), key="result:ok")
            return
        if not R.check("result", where, r.op == "adt" and r.a[1] == 1, "%s: fails: %s" % (lab, show(r)[:100]), key="result:swallowed:" + expect[0]):
            return
        x = e.deref_val(o.st, r.a[4][0])
        if expect[0] == "missing":
            want_k, n = app("io error", expect[2]), expect[1]
        else:
            v = expect[2]
            if v.a[2] == "ParseError":
                R.check("result", where, x is v.a[4][0], "%s: the error in the file is the error of the line: %s" % (lab, show(x)[:200]), key="result:parse")
                return
            want_k, n = v.a[4][0], expect[1]
        good = x.op == "adt" and x.a[2] == "IncludeFailure" and len(x.a[4]) == 2 and \
            any(y.op == "app" and "kind" in str(y.a[0]) and y.a[1] is want_k for y in walk(x.a[4][0])) and str_eq(x.a[4][1], n)
        R.check("result", where, good, "%s: the error names the file and what went wrong: %s" % (lab, show(x)[:200]), key="result:include")


CUTS = ("trim_matches", "trim_start_matches", "trim_left_matches", "trim_end_matches", "trim_right_matches")


def admits(ps, pat):
    """Whether text of these pieces can start with the pattern."""
    if len(pat) > len(ps):
        return False
    return all(p.a[0] == c if p.op == "str" else CLASSES[p.a[0]].eq(c) is not False for p, c in zip(ps, pat))


def cut(x, n):
    """Whether cutting a pattern off the ends of the text leaves some text of these pieces another one."""
    sn, ps = x.a[0].split("::")[-1], pieces(n)
    pat = x.a[2].a[0] if len(x.a) > 2 and x.a[2].op in ("char", "str") else None
    if pat is None or not str_eq(x.a[1], n):
        raise Undecided("name %s" % show(x)[:100])
    return sn in CUTS[:3] and admits(ps, pat) or \
        sn in CUTS[:1] + CUTS[3:] and admits(ps[::-1], pat[::-1])


def str_eq(x, n):
    from ..shape import unseam
    while x.op == "sseg":
        x = x.a[0]
    if x.op == "app" and str(x.a[0]).split("::")[-1] in CUTS:
        return not cut(x, n)
    if x.op == "str":
        x = shape(x)
    if x.op != "shape":
        raise Undecided("name %s" % show(x)[:100])
    return pieces(unseam(x)) == pieces(n)


def c13(ctx, R):
    R.rule("expand", "the names an include directive gives are expanded once")
    R.rule("open", "the names are the words of what that gives; each is opened in turn below the working directory, and nothing else is")
    R.rule("read", "each file that could be opened is read once, under the name it was given, before the next is opened")
    R.rule("stop", "after the first failure no further file is opened or read")
    R.rule("result", "the directive fails exactly if a file it names could not be opened (unless it is -include or sinclude) or read, with that error")
    I = Includes(ctx, R)
    todo = [(k, s, ns) for k in ("Include", "SoftInclude") for s, ns in TEXTS + (MORE if ctx.tier == "thorough" else [])]

    def one(R, item):
        k, s, ns = item

        def go(R, note=""):
            I.R = R
            try:
                I.run(k, s, ns)
            except (Undecided, Many) as u:
                R.undecided("open", I.where, "%s of `%s`%s: %s" % (k, s, note, u))
            except Stop as u:
                R.violation("open", I.where, "%s of `%s`%s: panics: %s" % (k, s, note, u), key="panic")
        with_widths(R, item, lambda R, it, note="": go(R, note))
    R.fork(todo, one, per=2)
    R.floor("expand", 60)
    R.floor("open", 200)
    R.floor("read", 200)
    R.floor("result", 60)
    R.floor("stop", 20)


CHECKS = {"C13": c13}
