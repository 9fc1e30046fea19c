"""C02: where text, and what is parsed from it, is said to come from.  C03: comparing places."""
import itertools
from ..absint import mk, app, sym, show, T, INT, STR, CH, Undecided, Outcome, State, TRUE, FALSE
from ..grammar import parser
from ..mir import strip_generics
from ..models import OK, SOME, short
from ..nodes import Nodes
from ..report import AnchorMissing
from ..shape import shape, chunk, Cls, PUNCT, minus, plus, sign
from ..views import Views, Many, Stop, pieces
from .blocks import with_widths, BLOCK, Lab, Look, blocks, loceq, lshow, pr, sh

# any character that could be part of a name, but those that functions begin with
NAME1 = Cls("one name character", excl=PUNCT + "esw\n\r \t\0\ufeff", ws=False, word=True, single=True)


def ch(n):
    return chunk(n + "'", NAME1)


def parse(cs, i=0, j=None):
    """What the text of characters (piece, place) is made of: [("c", piece, places) | (kind, place, [parts])]"""
    j = len(cs) if j is None else j
    lit = lambda k: cs[k][0].a[0] if cs[k][0].op == "str" else None
    out = []
    while i < j:
        if lit(i) != "$":
            out.append(("c", cs[i][0], [cs[i][1]]))
            i += 1
        elif i + 1 == j:
            out.append(("c", cs[i][0], [cs[i][1]]))
            i += 1
        elif lit(i + 1) == "$":
            out.append(("c", cs[i][0], [cs[i][1], cs[i + 1][1]]))
            i += 2
        elif lit(i + 1) not in ("(", "{"):
            out.append(("VariableReference", cs[i][1], [parse(cs, i + 1, i + 2)]))
            i += 2
        else:
            o, c = lit(i + 1), ")" if lit(i + 1) == "(" else "}"
            n, k = 1, i + 2
            while n:
                n += (lit(k) == o) - (lit(k) == c)
                k += 1
            body = i + 2, k - 1
            word = ""
            m = body[0]
            while m < body[1] and lit(m) not in (" ", "\t") and lit(m) is not None:
                word += lit(m)
                m += 1
            kind = {"eval": "Eval", "strip": "Strip", "words": "Words", "word": "Word"}.get(word) if m < body[1] and lit(m) is not None else None
            if kind is None:
                out.append(("VariableReference", cs[i][1], [parse(cs, *body)]))
            else:
                while m < body[1] and lit(m) in (" ", "\t"):
                    m += 1
                args = [(m, body[1])]
                if kind == "Word":
                    p = next(q for q in range(m, body[1]) if lit(q) == ",")
                    q = p + 1
                    while lit(q) in (" ", "\t"):
                        q += 1
                    args = [(m, p), (q, body[1])]
                out.append((kind, cs[i][1], [parse(cs, *x) for x in args]))
            i = k
    return out


TEXTS = ["A", "AB", "A$(B)C", "$(A)", "${A}B", "$AB", "A$B$C", "A$$B", "$$A", "A$", "$$$A", "$(A$(B)C)D", "${$(A)}", "$(A${B}$(C))D", "$(A)$(B)",
         "A$(eval B)C", "${strip A B}C", "$(words A B)", "A$(word B,C)D", "$(eval $(A)B)", "$(eval $$(A))B", "$(strip $(A) B)$(C)",
         "$(word $(A),B$(C))", "$(word A, B)C", "$(A(B)C)D", "$(A:B=C)D", "$(eval  A)B", "A\nB$(C)\nD", "$(eval A\nB)C", "$(A\nB)C$D", "\n$(A)"]


def read(text):
    return [ch(c) if c in "ABCD" else STR(c) for c in text]


def subs(t, st, e):
    return e.deref_val(st, t)


def nodes(ctx, R):
    prog = ctx.prog
    L = Lab(prog)
    f = parser(prog, "ast")
    N = Nodes(prog)
    where = "%s %s" % (f.path, f.loc())
    deep = ctx.tier == "thorough"
    K = Look(L, R, where, True)

    def loc_of(x, st):
        x = L.e.deref_val(st, x)
        if x.op == "adt" and x.a[0].endswith("Marker"):
            x = L.e.deref_val(st, x.a[4][0])
        return L.where(x)

    def flat(x, st, out, top):
        x = L.e.deref_val(st, x)
        k = N.kind(x)
        if k is None:
            raise Undecided("node %s" % show(x)[:100])
        kind, fs = k
        loc = loc_of(x.a[4][N.i_loc], st)
        if kind == "Empty":
            return
        if kind == "Concat":
            inner = []
            for y in L.e.deref_val(st, fs[0]).a:
                flat(y, st, inner, False)
            out.append(("Concat", loc, inner))
        elif kind == "Constant":
            t, l = L.segment(fs[0], st)
            out.append(("text", loc, t, l))
        else:
            out.append((kind, loc, [flat_(y, st) for y in fs]))

    def flat_(x, st):
        out = []
        flat(x, st, out, True)
        return out

    def check(s, got, want):
        """got: nodes, want: parts"""
        want = list(want)

        def eat(g):
            if g[0] == "Concat":
                if want:
                    first = want[0][2] if want[0][0] == "c" else [want[0][1]]
                    R.check("nodes", where, any(loceq(g[1], p) for p in first), "`%s`: a text of several parts is at %s" % (s, lshow(g[1])), key="nodes:Concat")
                for y in g[2]:
                    eat(y)
                return
            if g[0] == "text":
                l = g[3]
                R.check("nodes", where, loceq(g[1], l), "`%s`: a constant and its text are at %s" % (s, lshow(l)), key="nodes:Constant")
                for p in g[2]:
                    if not want or want[0][0] != "c" or want[0][1] is not p:
                        raise Undecided("the text `%s` is parsed otherwise" % s)
                    good = any(loceq(l, q) for q in want[0][2])
                    R.check("nodes", where, good, "`%s`: `%s` is at %s" % (s, pr([p]), lshow(l)), key="nodes:text")
                    want.pop(0)
                    l = (plus(l[0], INT(1)), INT(1), l[2]) if p is STR("\n") else (l[0], plus(l[1], INT(1)), l[2]) if not isinstance(l, str) else l
                return
            if not want or want[0][0] != g[0]:
                raise Undecided("the text `%s` is parsed otherwise" % s)
            w = want.pop(0)
            R.check("nodes", where, loceq(g[1], w[1]), "`%s`: the %s is at %s" % (s, g[0], lshow(g[1])), key="nodes:" + g[0])
            for x, y in zip(g[2], w[2]):
                check(s, x, y)
        for g in got:
            eat(g)
        if want:
            raise Undecided("the text `%s` is parsed otherwise" % s)
    def one(R_, item):
        with_widths(R_, item, one_)

    def one_(R_, item, note=""):
        nonlocal R
        R = K.R = R_
        s, cut = item
        body = read(s)
        parts = [("text", body)] if not cut else [("text", body[:cut]), ("text", body[cut:])]
        if cut == 1 and len(body) > 3:
            # a part of a text, in the value of something
            parts = [("var", [("text", [ch("z")] + body[:1]), ("text", body[1:])], 1, len(body) + 1)]

        def go():
            st = L.start()
            L.e.finds = True
            blk, cs, st = L.block(parts, st, "new")
            sp, st = K.whole(blk, st)
            outs = L.e.run(f, [sp], st)
            L.seen |= L.e.seen_fns()
            if not outs:
                raise Undecided("no way through")
            for o in outs:
                if o.kind == "panic":
                    R.violation("nodes", where, "`%s`: panics: %s" % (s, o.msg), key="nodes:panic")
                    continue
                if o.ret.op != "adt" or o.ret.a[2] != "Ok":
                    raise Undecided("`%s` is refused" % s)
                tree = o.ret.a[4][0].a[1]
                check(s + note + ("" if not cut else " in two parts"), flat_(tree, o.st), parse(cs))
        K.guard("nodes", "`%s`" % s, go)
        R.fns |= L.seen
    todo = []
    for s in TEXTS:
        n = len(read(s))
        cuts = [None, n // 2] + ([i for i in range(1, n) if i != n // 2] if deep else [1] if n > 3 else [])
        todo += [(s, c) for c in cuts]
    all_ = R
    all_.fork(todo, one, per=2)
    R = all_
    R.fns |= L.seen


def source(ctx, R):
    """The text of a makefile starts at the first column of the first line of that file."""
    prog = ctx.prog
    c_ = [g for g in prog.local.values() if strip_generics(g.path) == "Engine::read_makefile"]
    f = c_[0] if c_ else None
    if f is None:
        raise AnchorMissing("Engine::read_makefile")
    where = "%s %s" % (f.path, f.loc())
    L = Lab(prog)
    K = Look(L, R, where, True)
    a, b, c = (ch(x) for x in "abc")
    nl = STR("\n")
    for body in ([a], [a, b, nl, c, nl], [nl, a, nl, nl, b], [a, nl], []):
        st = L.start()
        seen = []

        def hook(e, fn, bl, name, callee, vals, st, dty):
            sn = short(name)
            if sn in ("read_to_string", "read_to_end"):
                s1, s2 = st.copy(), st.copy()
                e.put(s1, vals[1], shape(*body))
                return [Outcome("ret", OK(app("bytes read")), s1), Outcome("ret", mk("adt", "std::result::Result", 1, "Err", ("0",), (sym("io error"),)), s2)]
            if sn in ("intern_file_name", "intern_variable_name"):
                x = [e.deref_val(st, v) for v in vals[1:]]
                return [Outcome("ret", app("file named", *x), st.copy())]
            if sn == "process_block":
                # the first argument that is a block
                for v in vals:
                    x = e.deref_val(st, v)
                    if x.op == "adt" and x.a[0] == BLOCK:
                        seen.append((x, st.copy()))
                return [Outcome("ret", OK(mk("tuple")), st.copy()),
                        Outcome("ret", mk("adt", "std::result::Result", 1, "Err", ("0",), (sym("failure"),)), st.copy())]
            if sn in ("from", "into") and len(vals) == 1 and vals[0].op == "sym":
                return [Outcome("ret", vals[0], st.copy())]
            return None
        L.e.hooks.insert(0, hook)
        args = []
        for i in range(f.argc):
            t = prog.tystr(f.locals[i + 1])
            if t.startswith("&str"):
                args.append(sym("name"))
            else:
                args.append(L.ref(st, sym("arg%d" % i)))

        def go():
            seen.clear()
            outs = L.e.run(f, args, st)
            L.seen.update(L.e.seen_fns())
            for o in outs:
                if o.kind == "panic":
                    R.violation("source", where, "reading a makefile panics: %s" % o.msg, key="source:panic")
            R.check("source", where, bool(seen), "the text read is processed", key="source:none")
            for blk, s in seen:
                w, s = K.whole(blk, s)
                cs = []
                line, col = INT(1), INT(1)
                for p in body:
                    cs.append((p, (line, col, None)))
                    line, col = (plus(line, INT(1)), INT(1)) if p is nl else (line, plus(col, INT(1)))
                s2 = s.copy()
                x, s2 = L.go(L.method("segments", "evaluated::block_span::BlockSpan"), [L.ref(s2, w)], s2)
                xs, s2 = L.items(x, s2)
                k = 0
                for y in xs:
                    t, loc = L.segment(y, s2)
                    if t and isinstance(loc, tuple) and k < len(cs):
                        good = all(sign(minus(p, q)) == 0 for p, q in zip(loc[:2], cs[k][1][:2]))
                        R.check("source", where, good, "`%s` of the file is at %s" % (pr(t), lshow(loc)), key="source:place")
                        R.check("source", where, loc[2] is app("file named", sym("name")), "the file is %s" % show(loc[2]), key="source:file")
                    elif t:
                        R.check("source", where, False, "the text of the file is at %s" % (lshow(loc),), key="source:place")
                    for p in t:
                        R.check("source", where, k < len(cs) and p is cs[k][0], "the text processed is that of the file", key="source:text")
                        k += 1
                R.check("source", where, k == len(cs), "all text of the file is processed", key="source:all")
        K.guard("source", "reading a makefile", go)
    R.fns |= L.seen


def c02(ctx, R):
    R.rule("location", "every segment of a text, of any part of it and of any copy, and the text itself, says where its first character is")
    R.rule("nodes", "every reference, function call and constant parsed from a text says where it starts")
    R.rule("source", "the text of a makefile starts at line 1, column 1 of the file of that name")
    blocks(ctx, R, True)
    nodes(ctx, R)
    source(ctx, R)
    R.floor("location", 2000)
    R.floor("nodes", 300)
    R.floor("source", 15)


LOC = "source_location::Location"


class Order(Views):
    """Views in which only the order of given values is known."""
    ranks = {}

    def rank(self, st, x, y):
        x, y = self.deref_val(st, x), self.deref_val(st, y)
        if x.op == "sym" and y.op == "sym" and x in self.ranks and y in self.ranks and self.ranks[x][0] == self.ranks[y][0]:
            a, b = self.ranks[x][1], self.ranks[y][1]
            return (a > b) - (a < b)
        return None

    def decide(self, st, b):
        if b.op == "app" and b.a[0] in ("Eq", "Lt"):
            r = self.rank(st, b.a[1], b.a[2])
            if r is not None:
                return r == (0 if b.a[0] == "Eq" else -1)
        return super().decide(st, b)

    def view_op(self, e, fn, b, name, callee, vals, st, dty):
        sn = short(name)
        if len(vals) == 2 and sn in ("partial_cmp", "cmp", "eq", "ne", "lt", "le", "gt", "ge"):
            def three(x, y):
                x, y = self.deref_val(st, x), self.deref_val(st, y)
                if x.op == "tuple" and y.op == "tuple" and len(x.a) == len(y.a):
                    for p, q in zip(x.a, y.a):
                        r = three(p, q)
                        if r is None or r != 0:
                            return r
                    return 0
                return self.rank(st, x, y)
            r = three(*vals)
            if r is not None:
                if sn == "partial_cmp":
                    x = SOME(ordering(self.prog, r))
                elif sn == "cmp":
                    x = ordering(self.prog, r)
                else:
                    x = TRUE if {"eq": r == 0, "ne": r != 0, "lt": r < 0, "le": r <= 0, "gt": r > 0, "ge": r >= 0}[sn] else FALSE
                return [Outcome("ret", x, st.copy())]
        v = self.deref_val(st, vals[0]) if vals else None
        if v is not None and v.op == "adt" and v.a[0] == ORD:
            if sn == "then" and len(vals) == 2:
                return [Outcome("ret", v if v.a[2] != "Equal" else self.deref_val(st, vals[1]), st.copy())]
            if sn == "then_with" and len(vals) == 2:
                return [Outcome("ret", v, st.copy())] if v.a[2] != "Equal" else self.call_value(fn, b, vals[1], [], st, dty)
            if sn == "reverse":
                return [Outcome("ret", ordering(self.prog, {"Less": 1, "Equal": 0, "Greater": -1}[v.a[2]]), st.copy())]
            if sn in ("eq", "ne") and len(vals) == 2 and self.deref_val(st, vals[1]).op == "adt":
                same = v.a[2] == self.deref_val(st, vals[1]).a[2]
                return [Outcome("ret", TRUE if same == (sn == "eq") else FALSE, st.copy())]
        return super().view_op(e, fn, b, name, callee, vals, st, dty)


ORD = "std::cmp::Ordering"


def ordering(prog, r):
    n = {-1: "Less", 0: "Equal", 1: "Greater"}[r]
    vs = [v["n"] for v in prog.adts[ORD]["variants"]] if ORD in prog.adts else ["Less", "Equal", "Greater"]
    return mk("adt", ORD, vs.index(n), n, (), ())


def ordname(x):
    """None | "Less" | ... of an Option<Ordering>, or "?" """
    if x.op != "adt":
        return "?"
    if x.a[1] == 0:
        return None
    y = x.a[4][0]
    if y.op == "adt":
        return y.a[2]
    if y.op == "int":
        return {-1: "Less", 0: "Equal", 1: "Greater", 255: "Less"}.get(y.a[0], "?")
    return "?"


def c03(ctx, R):
    prog = ctx.prog
    R.rule("compare", "places in one file (or in the result of one evaluation) are ordered by line, then column; places in different "
                      "ones, or of different kinds, are not ordered at all")
    R.rule("equal", "two places are equal exactly if they are the same kind of place in the same file, line and column")
    R.rule("wrapped", "located things compare as their places do")
    if LOC not in prog.adts:
        raise AnchorMissing(LOC)

    def method(ty, n):
        c = [g for g in prog.local.values() if g.path.endswith("::" + n) and "{" not in g.path and g.argc == 2 and
             strip_generics(prog.tystr(g.locals[1])).lstrip("&") == ty]
        if not c:
            raise AnchorMissing("%s of %s" % (n, ty))
        return c[0]
    cmp_, eq = method(LOC, "partial_cmp"), method(LOC, "eq")
    lc = [g for g in prog.local.values() if g.path.endswith("::partial_cmp") and g.argc == 2 and
          "source_location::Located<" in prog.tystr(g.locals[1])]
    where = "%s %s" % (cmp_.path, cmp_.loc())
    vs = prog.adts[LOC]["variants"]
    for va, vb in itertools.product(vs, vs):
        def fields(v, side):
            return tuple(sym("%s of %s" % (f["n"], side)) for f in v["fields"])
        fa, fb = fields(va, "a"), fields(vb, "b")
        same = va is vb
        names = [f["n"] for f in va["fields"]]
        dims = []
        for n in sorted({f["n"] for f in va["fields"]} | {f["n"] for f in vb["fields"]}):
            k = "at" if n in ("line", "character") else "in"
            both = n in names and n in [f["n"] for f in vb["fields"]]
            dims.append((n, [0, 1, -1] if k == "at" and both else [0, 1] if both else [0]))
        for combo in itertools.product(*[d for _, d in dims]):
            rel = {n: r for (n, _), r in zip(dims, combo)}
            e = Order(prog, budget=200000, max_states=200)
            e.ranks = {}
            for v, fs, side in ((va, fa, 0), (vb, fb, 1)):
                for f, t in zip(v["fields"], fs):
                    e.ranks[t] = (f["n"], 0 if side else rel[f["n"]])
            A = mk("adt", LOC, vs.index(va), va["n"], tuple(names), fa)
            B = mk("adt", LOC, vs.index(vb), vb["n"], tuple(f["n"] for f in vb["fields"]), fb)
            inn = [n for n in rel if n not in ("line", "character")]
            if not same or any(rel[n] for n in inn):
                want = None
            else:
                r = rel.get("line") or rel.get("character") or 0
                want = {-1: "Less", 0: "Equal", 1: "Greater"}[r]
            lab = "%s and %s%s" % (va["n"], vb["n"], "".join(", %s %s" % (n, {0: "the same", 1: "after" if n in ("line", "character") else "another", -1: "before"}[r])
                                                             for n, r in rel.items()))
            for f, rule in [(cmp_, "compare"), (eq, "equal")] + [(g, "wrapped") for g in lc[:1]]:
                st = State()
                x, y = A, B
                if rule == "wrapped":
                    def wrap(z, s):
                        fs = prog.adts["source_location::Located"]["variants"][0]["fields"]
                        m = mk("adt", "source_location::Marker", 0, prog.adts["source_location::Marker"]["variants"][0]["n"],
                               tuple(q["n"] for q in prog.adts["source_location::Marker"]["variants"][0]["fields"]), (z,))
                        return mk("adt", "source_location::Located", 0, prog.adts["source_location::Located"]["variants"][0]["n"],
                                  tuple(q["n"] for q in fs), tuple(m if "Marker" in prog.tystr(q["t"]) else sym("contents " + s) for q in fs))
                    x, y = wrap(A, "a"), wrap(B, "b")
                try:
                    outs = e.run(f, [e.cell(st, x), e.cell(st, y)], st)
                except (Undecided, Many) as u:
                    R.undecided(rule, where, "%s: %s" % (lab, u))
                    continue
                R.fns |= e.seen_fns()
                for o in outs:
                    if o.kind == "panic":
                        R.violation(rule, where, "%s: panics: %s" % (lab, o.msg), key=rule + ":panic")
                        continue
                    if rule == "equal":
                        d = e.decide(o.st, o.ret)
                        R.check(rule, where, d == (want == "Equal"), "%s: equal: %s" % (lab, show(o.ret)[:300]), key="equal:%s:%s" % (va["n"], vb["n"]))
                    else:
                        got = ordname(o.ret)
                        R.check(rule, where, got == want, "%s: ordered as %s" % (lab, got), key="%s:%s:%s" % (rule, va["n"], vb["n"]))
    R.floor("compare", 30)
    R.floor("equal", 30)


CHECKS = {"C02": c02, "C03": c03}
