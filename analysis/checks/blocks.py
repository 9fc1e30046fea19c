"""C15: every view of a text gives the same text.  C02: and where it came from."""
import itertools
import os
from ..absint import mk, app, sym, show, T, INT, STR, CH, State, Undecided, TRUE, FALSE, t_eq
from ..report import AnchorMissing
from ..mir import strip_generics
from ..models import NONE
from .. import shape as shape_
from ..report import Recorder
from ..shape import CLASSES, shape, plus, minus, sign, blen, total
from ..views import TESTED, Views, Stop, Many, ch, pieces

SPAN = "evaluated::block_span::BlockSpan"
BLOCK = "evaluated::Block"
CREF = "evaluated::content_reference::ContentReference"


class Lab:
    """Builds texts with the code's own constructors and looks at them through its own operations."""

    def __init__(self, prog):
        self.prog = prog
        self.seen = set()
        self._m = {}
        for p in ("evaluated::Block", "evaluated::nodes::EvaluatedNode", "source_location::Located", "source_location::Location"):
            if p not in prog.adts:
                raise AnchorMissing(p)

    def method(self, name, recv, arg=None, ret=None, need=True):
        """The function of this name with this kind of first argument."""
        k = (name, recv, arg, ret)
        if k not in self._m:
            c = []
            for f in self.prog.local.values():
                if "{" in f.path or not f.argc or not strip_generics(f.path).endswith("::" + name):
                    continue
                a = [self.prog.tystr(f.locals[i + 1]) for i in range(f.argc)]
                first = strip_generics(a[0]).lstrip("&").replace("mut ", "").strip()
                if first.split("<")[0] != recv or (arg and not any(arg in x for x in a[1:])):
                    continue
                if ret and ret not in self.prog.tystr(f.locals[0]):
                    continue
                c.append(f)
            c.sort(key=lambda f: (("P" not in [self.prog.tystr(f.locals[i + 1]) for i in range(f.argc)]), f.path))
            self._m[k] = c[0] if c else None
        if self._m[k] is None and need:
            raise AnchorMissing("%s of %s" % (name, recv))
        return self._m[k]

    def free(self, path):
        f = [g for g in self.prog.local.values() if strip_generics(g.path) == path]
        if not f:
            raise AnchorMissing(path)
        return f[0]

    def start(self):
        self.e = Views(self.prog, budget=2000000, max_states=200)
        self.nloc = 0
        return State()

    def adt(self, path, variant=None, **fields):
        vs = self.prog.adts[path]["variants"]
        i = 0 if variant is None else [v["n"] for v in vs].index(variant)
        names = tuple(f["n"] for f in vs[i]["fields"])
        return mk("adt", path, i, variant, names, tuple(fields[n] for n in names))

    kind = "SourceLocation"

    def location(self, n):
        if self.kind == "Synthetic":
            return self.adt("source_location::Location", "Synthetic")
        if self.kind == "EvalLocation":
            return self.adt("source_location::Location", "EvalLocation", line=app("line", INT(n)), character=app("column", INT(n)), tree_node=sym("file %d" % n))
        fs = {"line": app("line", INT(n)), "character": app("column", INT(n)), "filename": sym("file %d" % n)}
        return self.adt("source_location::Location", "SourceLocation", **fs)

    def located(self, sh, n):
        fs = {}
        for f in self.prog.adts["source_location::Located"]["variants"][0]["fields"]:
            t = self.prog.tystr(f["t"])
            fs[f["n"]] = self.adt("source_location::Marker", None, **{g["n"]: self.location(n) for g in
                                  self.prog.adts["source_location::Marker"]["variants"][0]["fields"]}) if "Marker" in t else sh
        return self.adt("source_location::Located", None, **fs)

    def go(self, f, vals, st):
        r = self.e.go(f, vals, st)
        self.seen |= self.e.seen_fns()
        return r

    def outs(self, f, vals, st):
        r = self.e.outs(f, vals, st)
        self.seen |= self.e.seen_fns()
        return r

    # -- texts: ("text", pieces, lo, hi) ("concat"|"var"|"subst"|"eval", [parts], lo, hi); lo, hi count characters
    def node(self, part, st):
        """(node, characters, state)"""
        kind, body = part[:2]
        if kind == "text":
            self.nloc += 1
            n = self.nloc
            cs, line, col, file = [], app("line", INT(n)), app("column", INT(n)), sym("file %d" % n)
            for p in body:
                cs.append((p, (line, col, file) if self.kind != "Synthetic" else "Synthetic"))
                if p == STR("\n"):
                    line, col = plus(line, INT(1)), INT(1)
                else:
                    col = plus(col, INT(1))
            return self.adt("evaluated::nodes::EvaluatedNode", "Constant", **{"0": self.located(shape(*body), n)}), cs, st
        blk, cs, st = self.block(body, st, "new")
        if kind == "concat":
            return self.adt("evaluated::nodes::EvaluatedNode", "Concat", **{"0": blk}), cs, st
        v = {"var": "VariableReference", "subst": "SubstitutionReference", "eval": "Evaluated"}[kind]
        path = "evaluated::nodes::" + v
        names = [f["n"] for f in self.prog.adts[path]["variants"][0]["fields"]]
        fields = {n: sym("other " + n) for n in names}
        fields["value"] = blk
        return self.adt("evaluated::nodes::EvaluatedNode", v, **{"0": self.adt(path, None, **fields)}), cs, st

    def reference(self, part, st):
        n, cs, st = self.node(part, st)
        lo, hi = part[2:] if len(part) > 2 else (None, None)
        if lo is None:
            r, st = self.go(self.free(CREF + "::new_from_node"), [n], st)
            return r, cs, st
        off = total(shape(*[p for p, _ in cs[:lo]]))
        length = total(shape(*[p for p, _ in cs[lo:hi]]))
        r, st = self.go(self.free(CREF + "::new_from_node_slice"), [n, off, length], st)
        return r, cs[lo:hi], st

    def block(self, parts, st, how, sens="S"):
        refs, cs = [], []
        for p in parts:
            r, c, st = self.reference(p, st)
            refs.append(r)
            cs += c
        new = self.free(BLOCK + "::new")
        dep = mk("cset", sym("dep of " + sens), sym("dep2 of " + sens))
        if how == "new":
            b, st = self.go(new, [dep, mk("list", *refs)], st)
            return b, cs, st
        b, st = self.go(new, [dep, mk("list")], st)
        r = self.e.cell(st, b)
        for x in refs:
            _, st = self.go(self.method("push", BLOCK), [r, x], st)
        return self.e.read(st, r.a[0], ()), cs, st

    # -- looking
    def text(self, x):
        if x.op == "str":
            x = shape(x)
        if x.op != "shape":
            raise Undecided("text is %s" % show(x)[:100])
        return pieces(x)

    def items(self, it, st):
        r = self.e.all_items(None, None, it, st)
        if len(r) != 1:
            raise Many("%d ways through an iterator" % len(r))
        return r[0][0], r[0][2]

    def char(self, c):
        from ..views import of_char
        return of_char(c)

    def ref(self, st, v):
        return self.e.cell(st, v)

    def where(self, loc):
        """(line, column) of a location"""
        if loc.op == "adt" and loc.a[2] in ("SourceLocation", "EvalLocation"):
            f = dict(zip(loc.a[3], loc.a[4]))
            return plus(f["line"], INT(0)), plus(f["character"], INT(0)), f.get("filename") or f.get("tree_node")
        if loc.op == "adt":
            return loc.a[2]
        raise Undecided("location %s" % show(loc)[:80])

    def segment(self, x, st):
        x = self.e.deref_val(st, x)
        t, l = None, None
        for fn, v in zip(x.a[3], x.a[4]):
            v = self.e.deref_val(st, v)
            if v.op in ("shape", "str"):
                t = self.text(v)
            elif v.op == "adt":
                l = v.a[4][0] if v.a[0].endswith("Marker") else v
        if t is None or l is None:
            raise Undecided("segment %s" % show(x)[:100])
        return t, self.where(l)


def sh(cs):
    return [p for p, _ in cs]


def off(cs):
    return total(shape(*sh(cs)))


def pr(ps):
    return "".join(p.a[0] if p.op == "str" else p.a[0] for p in ps) or "nothing"


def texts(thorough):
    """Divisions of a text: (name, parts, how the block is made)"""
    a, b, c, d, e, f, g, h = (ch(x) for x in "abcdefgh")
    nl = STR("\n")
    t = lambda *x: ("text", list(x))
    cut = lambda p, lo, hi: (p[0], p[1], lo, hi)
    out = []

    def add(name, *parts):
        out.append((name, list(parts), "new"))
        out.append((name + ", pushed", list(parts), "push"))
    add("one part", t(a, b, c))
    add("two parts", t(a, b), t(c, d))
    add("three parts", t(a), t(b, c), t(d))
    add("an empty part first", t(), t(a, b))
    add("an empty part between", t(a), t(), t(b, c))
    add("an empty part last", t(a, b), t())
    add("a part of a text", cut(t(a, b, c, d), 1, 3))
    add("the end of a text", cut(t(a, b, c), 1, 3), t(d))
    add("the start of a text", cut(t(a, b, c), 0, 1), t(d, e))
    add("parts of texts", cut(t(a, b, c), 1, 2), cut(t(d, e, f), 1, 3))
    add("a concatenation", ("concat", [t(a, b), t(c)]))
    add("a variable", ("var", [t(a, b), t(c)]), t(d))
    add("a substitution", t(a), ("subst", [t(b), t(c)]))
    add("a call", ("eval", [t(a, b)]), t(c))
    add("a part of a concatenation", ("concat", [t(a, b), t(c, d)], 1, 3))
    add("a middle of a concatenation", ("concat", [t(a), t(b), t(c)], 1, 2), t(d))
    add("an end of a concatenation", t(a), ("concat", [t(b), t(c), t(d)], 1, 3))
    add("a part of a variable", ("var", [t(a, b), t(c, d)], 1, 3), t(e))
    add("an end of a variable", t(a), ("var", [t(b), t(c), t(d)], 2, 3))
    add("a middle of a variable", ("var", [t(a), t(b, c), t(d)], 1, 2))
    add("nested", ("concat", [t(a), ("var", [t(b), t(c, d)], 1, 3)]), t(e))
    add("a part of nested", ("concat", [t(a), ("var", [t(b), t(c, d)], 0, 2), t(e)], 1, 3))
    add("parts of parts", ("var", [("concat", [t(a, b, c), t(d)], 1, 4)], 1, 3), t(e))
    add("lines", t(a, nl, b), t(c, nl))
    add("lines in a variable", t(a, nl), ("var", [t(nl, b), t(c, nl, nl, d)], 1, 6))
    add("a part of lines", cut(t(a, nl, b, nl, c), 2, 5), t(d))
    add("nothing", t())
    add("no parts")
    if thorough:
        ws = [t(a, b), cut(t(a, b, c), 1, 3), ("concat", [t(a), t(b)]), ("var", [t(a), t(b, c)], 1, 3), ("concat", [t(a, b), t(c)], 1, 3)]
        fresh = iter("%s%d" % (x, n) for n in range(1, 400) for x in "abcdefgh")

        def rename(p):
            m = {}

            def go(q):
                if isinstance(q, T):
                    if q.op != "chunk":
                        return q
                    if q not in m:
                        m[q] = ch(next(fresh))
                    return m[q]
                if isinstance(q, (list, tuple)):
                    return type(q)(go(x) for x in q)
                return q
            return go(p)
        for x, y in itertools.product(ws, ws):
            add("%s and %s" % (x[0], y[0]), rename(x), rename(y))
        for x, y, z in itertools.product(ws[:3], ws[:3], ws[:3]):
            add("%s, %s and %s" % (x[0], y[0], z[0]), rename(x), rename(y), rename(z))
    return out


def loceq(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return all(sign(minus(x, y)) == 0 for x, y in zip(a[:2], b[:2])) and a[2] is b[2]


def lshow(l):
    return l if isinstance(l, str) else "line %s, column %s of %s" % tuple(show(x) for x in l)


class Look:
    """The views of one span or block against the text it should be."""

    def __init__(self, L, R, where, only=False):
        # only: just where things are
        self.L, self.R, self.where, self.only = L, R, where, only

    def guard(self, rule, lab, f):
        try:
            return f()
        except Stop as x:
            self.R.violation(rule, self.where, "%s: panics: %s" % (lab, x), key="%s:panic:%s" % (rule, lab.split(" of ")[0]))
        except (Undecided, Many) as x:
            self.R.undecided(rule, self.where, "%s: %s" % (lab, x))

    def same(self, rule, lab, got, want, what):
        good = got == want
        self.R.check(rule, self.where, good, "%s: %s is `%s`%s" % (lab, what, pr(got), "" if good else ", not `%s`" % pr(want)),
                     key="%s:%s:%s" % (rule, what, lab.split(" of ")[0]))
        return good

    def span(self, lab, sp, cs, st, rule="views", full=True):
        L = self.L
        want = sh(cs)

        def string():
            r = L.ref(st.copy(), sp)
            s = st.copy()
            r = L.ref(s, sp)
            x, _ = L.go(L.method("into_string", SPAN), [r], s)
            return self.same(rule, lab, L.text(x), want, "its string")

        def length():
            s = st.copy()
            x, _ = L.go(L.method("len", SPAN), [L.ref(s, sp)], s)
            self.R.check(rule, self.where, sign(minus(x, off(cs))) == 0, "%s: its length is %s" % (lab, show(x)), key="%s:len:%s" % (rule, lab.split(" of ")[0]))

        def chars():
            s = st.copy()
            for x, s in L.outs(L.method("chars", SPAN), [L.ref(s, sp)], s):
                xs, s = L.items(x, s)
                self.same(rule, lab, [L.char(y) for y in xs], want, "its characters")

        def indices():
            s = st.copy()
            for x, s in L.outs(L.method("char_indices", SPAN), [L.ref(s, sp)], s):
                xs, s = L.items(x, s)
                self.same(rule, lab, [L.char(y.a[1]) for y in xs], want, "its numbered characters")
                good = all(sign(minus(y.a[0], off(cs[:i]))) == 0 for i, y in enumerate(xs))
                self.R.check(rule, self.where, good, "%s: characters are numbered by their bytes" % lab, key="%s:indices:%s" % (rule, lab.split(" of ")[0]))

        def segments():
            s = st.copy()
            x, s = L.go(L.method("segments", SPAN), [L.ref(s, sp)], s)
            xs, s = L.items(x, s)
            k = 0
            got = []
            for y in xs:
                t, loc = L.segment(y, s)
                got += t
                if not self.only:
                    continue
                if not t:
                    continue
                if k < len(cs):
                    self.R.check("location", self.where, loceq(loc, cs[k][1]), "%s: the segment `%s` is said to be at %s" % (lab, pr(t), lshow(loc)),
                                 key="location:segment:" + lab.split(" of ")[0])
                k += len(t)
            if not self.only:
                self.same(rule, lab, got, want, "the text of its segments")

        def location():
            s = st.copy()
            x, s = L.go(L.method("location", SPAN), [L.ref(s, sp)], s)
            if not cs:
                self.R.check("location", self.where, x.a[1] == 0, "%s: nothing is nowhere" % lab, key="location:empty")
                return
            if x.op != "adt" or x.a[1] != 1:
                self.R.check("location", self.where, False, "%s: has no location" % lab, key="location:none")
                return
            loc = L.where(L.e.deref_val(s, x.a[4][0]))
            self.R.check("location", self.where, loceq(loc, cs[0][1]), "%s: is where its first character is" % lab, key="location:span:" + lab.split(" of ")[0])
        if self.only:
            return self.guard("location", lab, segments), self.guard("location", lab, location)
        ok = self.guard(rule, lab, string)
        self.guard(rule, lab, length)
        if full:
            for f in (chars, indices, segments):
                self.guard(rule, lab, f)
        return ok

    def block(self, lab, blk, cs, st, rule="views"):
        L = self.L
        if self.only:
            return None

        def f():
            s = st.copy()
            r = L.ref(s, blk)
            x, _ = L.go(L.method("into_string", BLOCK), [r], s.copy())
            self.same(rule, lab, L.text(x), sh(cs), "its string")
            x, _ = L.go(L.method("len", BLOCK), [r], s.copy())
            self.R.check(rule, self.where, sign(minus(x, off(cs))) == 0, "%s: its length is %s" % (lab, show(x)), key="%s:block-len:%s" % (rule, lab.split(" of ")[0]))
            x, _ = L.go(L.method("raw_sensitivity", BLOCK), [r], s.copy())
            return x
        return self.guard(rule, lab, f)

    def whole(self, blk, st):
        s = st.copy()
        r = self.L.ref(s, blk)
        return self.L.go(self.L.method("span", BLOCK), [r], s)


def rng(lo=None, hi=None):
    if lo is not None and hi is not None:
        return mk("adt", "std::ops::Range", 0, None, ("start", "end"), (lo, hi))
    if lo is not None:
        return mk("adt", "std::ops::RangeFrom", 0, None, ("start",), (lo,))
    return mk("adt", "std::ops::RangeTo", 0, None, ("end",), (hi,))


def setup(ctx):
    return Lab(ctx.prog)


def spans(K, lab, sp, cs, st, thorough):
    """Parts of a span by every way of taking them: (label, span, characters, state)"""
    L = K.L
    n = len(cs)
    out = []
    sl = {k: L.method("slice", SPAN, "std::ops::%s<usize>" % k) for k in ("Range", "RangeFrom", "RangeTo")}
    take, split = L.method("take", SPAN), L.method("take_split", SPAN)

    def one(l, f, args, st, want, pick=None):
        s = st.copy()
        r = L.ref(s, sp)

        def g():
            x, s2 = L.go(f, [r] + args, s)
            if pick is not None:
                x = x.a[pick]
            out.append((l, x, want, s2))
        K.guard("slice", l, g)
    for i in range(n + 1):
        one("from %d of %s" % (i, lab), sl["RangeFrom"], [rng(lo=off(cs[:i]))], st, cs[i:])
        one("up to %d of %s" % (i, lab), sl["RangeTo"], [rng(hi=off(cs[:i]))], st, cs[:i])
        one("the first %d of %s" % (i, lab), take, [off(cs[:i])], st, cs[:i])
        one("the first %d split off %s" % (i, lab), split, [off(cs[:i])], st, cs[:i], 1)
        one("the rest after %d split off %s" % (i, lab), split, [off(cs[:i])], st, cs[i:], 0)
        for j in range(i, n + 1):
            one("%d to %d of %s" % (i, j, lab), sl["Range"], [rng(off(cs[:i]), off(cs[:j]))], st, cs[i:j])
    return out


def c15(ctx, R):
    R.rule("views", "length, string, characters, numbered characters and segments of a text and of any part of it agree with "
                    "what it is made of")
    R.rule("slice", "a part of a text taken from one position to another is exactly the characters between, at any nesting")
    R.rule("copy", "a block or reference made of a part of a text, and text pushed to a block, is exactly that text, and depends on "
                   "what its source depended on")
    R.rule("offset", "the offset between a text and a later part of it is the bytes between")
    R.rule("search", "searching and splitting at a character stops at exactly the first that matches")
    blocks(ctx, R)
    finding(ctx, R)
    R.floor("views", 300)
    R.floor("slice", 500)
    R.floor("copy", 300)
    R.floor("offset", 200)
    R.floor("search", 80)


def blocks(ctx, R, only=False):
    L = Lab(ctx.prog)
    thorough = ctx.tier == "thorough"
    where = "evaluated::"
    K = Look(L, R, where, only)
    todo = [("SourceLocation",) + x for x in texts(thorough)]
    if only:
        todo += [(k,) + x for k in ("EvalLocation", "Synthetic") for x in texts(False) if "pushed" not in x[0] and
                 ("line" in x[0] or "nested" in x[0] or "middle" in x[0] or thorough)]

    def one(R, item):
        with_widths(R, item, one_)

    def one_(R, item, note=""):
        kind, name, parts, how = item
        name += note
        K.R = R
        L.kind = kind
        if kind != "SourceLocation":
            name = "%s, at an %s" % (name, kind)

        def build():
            st = L.start()
            return L.block(parts, st, how)
        r = K.guard("views", "a block of " + name, build)
        if r is None:
            return
        blk, cs, st = r
        K.block("a block of " + name, blk, cs, st)
        w = K.guard("views", "the span of " + name, lambda: K.whole(blk, st))
        if w is None:
            return
        sp, st = w
        K.span("all of " + name, sp, cs, st)
        parts_ = spans(K, name, sp, cs, st, thorough)
        for l, x, want, s in parts_:
            full = thorough or l.split(" of ")[0].count(" to ") or l.startswith("from")
            K.span(l, x, want, s, "slice", full)
        # parts of parts: from the ranges, all but the trivial ones
        for l, x, want, s in parts_:
            if " to " in l.split(" of ")[0] and len(want) >= 2 and (thorough or how == "new"):
                for l2, y, want2, s2 in spans(K, l, x, want, s, thorough):
                    if thorough or l2.startswith(("1 to", "from 1 ", "up to 1 ", "2 to", "the rest after 1")):
                        K.span(l2, y, want2, s2, "slice", False)
        copies(K, name, parts_ if thorough else [p for p in parts_ if " to " in p[0].split(" of ")[0]], sp)
        if only:
            return
        offsets(K, name, parts_, sp, cs)
        search(K, name, sp, cs, st)
        for l, x, want, s in parts_:
            if l.startswith("from 1 ") or l.startswith("1 to"):
                search(K, l, x, want, s)
        R.fns |= L.seen
    R.fork(todo, one, per=1)
    K.R = R
    R.fns |= L.seen


# widths in bytes given to characters where the question cannot be decided for all widths at once
WIDTHS = ([1], [2, 1, 3], [4, 3, 2, 1])


def with_widths(R, item, f):
    """f(report, item, note) with characters of any width; if that leaves something undecided, also with some given widths."""
    p = Recorder()
    TESTED.clear()
    f(p, item)
    und = False
    tested = sorted(TESTED)
    for n, a in p.calls:
        getattr(R, n)(*a)
        und |= n == "undecided"
    R.fns |= p.fns
    for ws in WIDTHS if und else ():
        q = Recorder()
        shape_.FIXED[0] = lambda n: ws[(ord(n[0]) + (int(n[1:]) if n[1:].isdigit() else 0)) % len(ws)]
        try:
            f(q, item, " (characters of %s bytes)" % ", ".join(map(str, ws)))
        finally:
            shape_.FIXED[0] = None
        for n, a in q.calls:
            if n != "undecided":
                getattr(R, n)(*a)
        R.fns |= q.fns
    # the code looks for certain characters: texts of those
    for c in tested[:4] if und else ():
        for k in (0, 1):
            x = pinned(item, lambda i: c if i % 2 == k else "uvwxyz"[i % 6])
            if x == item:
                continue
            q = Recorder()
            f(q, x, " (with %r)" % c)
            for n, a in q.calls:
                if n != "undecided":
                    getattr(R, n)(*a)
            R.fns |= q.fns


def pinned(item, f):
    """The same with particular characters, f(index), in place of the ones that could be any."""
    m = {}

    def go(q):
        if isinstance(q, T):
            if q.op != "chunk" or not CLASSES[q.a[0]].single:
                return q
            if q not in m:
                m[q] = STR(f(len(m)))
            return m[q]
        if isinstance(q, (list, tuple)):
            return type(q)(go(x) for x in q)
        return q
    return go(item)


def deps_of(*names):
    return {"%s of %s" % (k, n) for n in names for k in ("dep", "dep2")}


def deps(x):
    if x.op == "app" and x.a[0] == "set0":
        return set()
    if x.op != "cset" or any(t.op != "sym" for t in x.a):
        raise Undecided("dependencies %s" % show(x)[:80])
    return {t.a[0] for t in x.a}


def copies(K, name, parts, sp):
    L = K.L
    for l, x, want, s in parts:
        def new():
            s1 = s.copy()
            b, s2 = L.go(L.method("to_new_block", SPAN), [L.ref(s1, x)], s1)
            dep = K.block("a new block of " + l, b, want, s2, "copy")
            if want and dep is not None:
                K.R.check("copy", K.where, deps(dep) == deps_of("S"), "a new block of %s: depends on what the text does" % l,
                          key="copy:sensitivity:block")
            w, s3 = K.whole(b, s2)
            K.span("the span of a new block of " + l, w, want, s3, "copy", True)

        def cref():
            s1 = s.copy()
            c, s2 = L.go(L.method("to_content_reference", SPAN), [L.ref(s1, x)], s1)
            b, s3 = L.go(L.free(BLOCK + "::new"), [mk("cset"), mk("list", c)], s2)
            K.block("a block of a reference to " + l, b, want, s3, "copy")
            lab = "a reference to " + l
            m = {k: L.method(k, CREF, need=False) for k in ("chars", "char_indices", "append_to_string", "segments")}
            if m["chars"] is not None:
                for x1, s4 in L.outs(m["chars"], [L.ref(s2, c)], s2):
                    K.same("copy", lab, [L.char(y) for y in L.items(x1, s4)[0]], sh(want), "its characters")
            if m["char_indices"] is not None:
                for x1, s4 in L.outs(m["char_indices"], [L.ref(s2, c)], s2):
                    xs, s4 = L.items(x1, s4)
                    K.same("copy", lab, [L.char(y.a[1]) for y in xs], sh(want), "its numbered characters")
                    K.R.check("copy", K.where, all(sign(minus(y.a[0], off(want[:i]))) == 0 for i, y in enumerate(xs)),
                              "%s: characters are numbered by their bytes" % lab, key="copy:indices:ref")
            if m["append_to_string"] is not None:
                s4 = s2.copy()
                buf = L.ref(s4, STR("$"))
                x1, s4 = L.go(m["append_to_string"], [L.ref(s4, c), buf], s4)
                K.same("copy", lab, L.text(L.e.read(s4, buf.a[0], ())), [STR("$")] + sh(want), "a string it is appended to")
            if m["segments"] is not None:
                x1, s4 = L.go(m["segments"], [L.ref(s2, c)], s2.copy())
                xs, s4 = L.items(x1, s4)
                K.same("copy", lab, [t for y in xs for t in L.segment(y, s4)[0]], sh(want), "the text of its segments")

        def push():
            for init, ic in (([], []), ([("text", [ch("y"), ch("z")])], None)):
                b, c0, s1 = L.block(init, s.copy(), "new", "S2")
                r = L.ref(s1, b)
                _, s2 = L.go(L.method("push_all_contents", BLOCK), [r, x], s1)
                nb = L.e.read(s2, r.a[0], ())
                lab = "a block with%s %s pushed to it" % ("" if not init else " text and", l)
                dep = K.block(lab, nb, c0 + want, s2, "copy")
                if dep is not None:
                    K.R.check("copy", K.where, deps_of("S2") <= deps(dep) <= deps_of("S2", "S") and (not want or deps_of("S") <= deps(dep)),
                              "%s: depends on what both did" % lab, key="copy:sensitivity:push")
        K.guard("copy", "a new block of " + l, new)
        K.guard("copy", "a reference to " + l, cref)
        K.guard("copy", "text pushed of " + l, push)


def offsets(K, name, parts, sp, cs):
    L = K.L
    f = L.method("offset", SPAN, need=False)
    if f is None:
        return
    for l, x, want, s in parts:
        i = next((k for k in range(len(cs) + 1) if cs[k:k + len(want)] == want), None)
        if not want:
            # nothing may be anywhere; a rest of nothing is at the end
            if not l.startswith(("from", "the rest")):
                continue
            i = len(cs)
        if not l.startswith(("from", "the rest")) and " to " not in l.split(" of ")[0]:
            i = 0

        def go():
            s1 = s.copy()
            v, _ = L.go(f, [L.ref(s1, sp), L.ref(s1, x)], s1)
            K.R.check("offset", K.where, sign(minus(v, off(cs[:i]))) == 0, "%s: starts at byte %s" % (l, show(v)), key="offset:" + l.split(" of ")[0])
        K.guard("offset", l, go)


def search(K, name, sp, cs, st):
    """Operations that look for the first character satisfying a predicate: they stop at it, wherever that is."""
    L = K.L
    pred = sym("wanted")
    for op, need in (("position", True), ("split_at_position", False), ("split_at_position1", False)):
        f = L.method(op, SPAN, need=need)
        if f is None:
            continue

        def go():
            s = st.copy()
            r = L.ref(s, sp)
            extra = [sym("kind")] if f.argc > 2 else []
            outs = L.e.run(f, [r, pred] + extra, s)
            hits = set()
            for o in outs:
                if o.kind == "panic":
                    raise Stop(o.msg)
                # which characters were asked about, and what was assumed
                known = {}
                for k, v in o.facts.items():
                    if isinstance(k, T) and k.op == "app" and k.a[0] == "callvalue" and isinstance(v, bool):
                        rep = [t for t in k.a[1:] if t.op in ("rep", "char")]
                        if len(rep) == 1:
                            known[L.char(rep[0])] = v
                first = next((i for i, p in enumerate(sh(cs)) if known.get(p) is True), None)
                if any(p not in known for p in sh(cs)[:first if first is not None else len(cs)]):
                    raise Undecided("%s stops before asking about every character" % op)
                hits.add(first)
                x = o.ret
                if op == "position":
                    if first is None:
                        good = x.a[1] == 0
                    else:
                        good = x.a[1] == 1 and sign(minus(x.a[4][0], off(cs[:first]))) == 0
                    K.R.check("search", K.where, good, "the position in %s: %s" % (name, show(x)[:80]), key="search:position")
                    continue
                if op.endswith("1") and first in ((0, None) if not cs else (0,)):
                    K.R.check("search", K.where, x.a[2] == "Err", "%s of %s fails" % (op, name), key="search:%s:fails" % op)
                    continue
                if x.a[2] != "Ok":
                    K.R.check("search", K.where, False, "%s of %s fails" % (op, name), key="search:%s:ok" % op)
                    continue
                rest, head = x.a[4][0].a
                i = first if first is not None else len(cs)
                K.span("the head of %s of %s" % (op, name), head, cs[:i], o.st, "search", False)
                K.span("the rest of %s of %s" % (op, name), rest, cs[i:], o.st, "search", False)
            chars = sh(cs)
            want = {None} | {i for i in range(len(cs)) if chars.index(chars[i]) == i}
            if hits != want:
                raise Undecided("%s: only stops at %s" % (op, sorted(map(str, hits))))
        K.guard("search", "%s of %s" % (op, name), go)
    f = L.method("slice_index", SPAN, need=False)
    if f is not None:
        for n in range(len(cs) + 2):
            def go():
                s = st.copy()
                x, _ = L.go(f, [L.ref(s, sp), INT(n)], s)
                if n > len(cs):
                    good = x.a[1] == 0
                else:
                    good = x.a[1] == 1 and sign(minus(x.a[4][0], off(cs[:n]))) == 0
                K.R.check("search", K.where, good, "the byte of character %d of %s: %s" % (n, name, show(x)[:80]), key="search:slice_index")
            K.guard("search", "character %d of %s" % (n, name), go)


def finding(ctx, R):
    a, b, c = (ch(x) for x in "abc")
    x, y, dl = (STR(z) for z in "xy$")
    t = lambda *p: ("text", list(p))
    small = [[t()], [t(a)], [t(a, b)], [t(a), t(b)], [t(x), t(y)], [t(x, y)], [t(x, x, y)], [t(x), t(x), t(y)], [t(a), t(x, y)], [t(a, x), t(y)],
             [t(x, a), t(y)], [t(x), t(a, x, y)], [("text", [a, x, y, b], 1, 3)], [("text", [a, x, y], 1, 2), t(y)], [t(a, dl), t(x)],
             [t(dl), t(a, dl)], [("text", [dl, a, dl], 1, 3)], [("var", [t(x), t(a)]), t(y)], [("concat", [t(a, x), t(y, x)], 1, 3)],
             [t(a), t(b), t(x)], [t(dl, x, y, dl)]]
    if ctx.tier == "thorough":
        small += [[t(a, b, c)], [t(a), t(b, c)], [t(a, b), t(x, y)], [("text", [a, b, x, y], 1, 4)], [t(x, a, b), t(y)]]
    L = Lab(ctx.prog)
    K = Look(L, R, "evaluated::nom")
    for parts in small:
        st = L.start()
        L.e.max_states = 3000
        name = "/".join("%s%s" % (p[0] if p[0] != "text" else "", pr(p[1] if p[0] == "text" else [q for z in p[1] for q in z[1]]) +
                                  (str(list(p[2:])) if len(p) > 2 else "")) for p in parts)
        blk, cs, st = L.block(parts, st, "new")
        sp, st = K.whole(blk, st)
        literals(K, name, sp, cs, st)
    R.fns |= L.seen


WANTED = ["$", "xy", "xx", "\u00e9", ""]


def literals(K, name, sp, cs, st):
    """Looking for a given text: where it first is, and whether it is what the text starts with."""
    L = K.L
    chars = sh(cs)

    def eqfact(o, p, c):
        """whether this path knows the character p to be c"""
        if p.op == "str":
            return p.a[0] == c
        rep = mk("rep", p.a[0], "1")
        for k in (t_eq(rep, CH(c)), t_eq(CH(c), rep)):
            if k.op == "bool":
                return k.a[0]
            d = L.e.decide(o.st, k)
            if d is not None:
                return d
        w = L.e.widths(o.st).get(p.a[0])
        bs = c.encode()
        if w is not None and w != len(bs):
            return False
        if w is not None and w > 1:
            es = [o.st.facts.get(app("Eq", app("byte", rep, INT(i), INT(w)), INT(x))) for i, x in enumerate(bs)]
            es = [e if e is not None else o.st.facts.get(L.e.same_bytes([app("byte", rep, INT(i), INT(w))], [INT(x)])) for i, (e, x) in enumerate(zip(es, bs))]
            whole = o.st.facts.get(L.e.same_bytes([app("byte", rep, INT(i), INT(w)) for i in range(w)], [INT(x) for x in bs]))
            if False in es or whole is False:
                return False
            if all(e is True for e in es) or whole is True:
                return True
        return None

    def at(o, i, t):
        """whether t is at character i"""
        if i + len(t) > len(chars):
            return False
        r = True
        for p, c in zip(chars[i:], t):
            d = eqfact(o, p, c)
            if d is False:
                return False
            if d is None:
                r = None
        if r is None and len(t) > 1:
            # known only of all of it together
            for k, v in o.st.facts.items():
                if v is False and isinstance(k, T) and k.op == "app" and k.a[0] == "And":
                    parts = conj(k)
                    if parts == {x for p, c in zip(chars[i:], t) if p.op != "str" for x in [t_eq(mk("rep", p.a[0], "1"), CH(c))]}:
                        return False
        return r

    def conj(k):
        return conj(k.a[1]) | conj(k.a[2]) if k.op == "app" and k.a[0] == "And" else {k}
    f = L.method("find_substring", SPAN, need=False)
    for t in WANTED if f is not None else []:
        def go():
            s = st.copy()
            for o in L.e.run(f, [L.ref(s, sp), STR(t)], s):
                if o.kind == "panic":
                    raise Stop(o.msg)
                first = None
                for i in range(len(chars) + 1):
                    d = at(o, i, t)
                    if d is None:
                        # not looked at, so it should not matter
                        first = "unknown"
                        break
                    if d:
                        first = i
                        break
                x = o.ret
                if first == "unknown":
                    # too few bytes are left for it
                    need = len(t.encode())
                    if x.a[1] == 0 and (L.e.cmp(o.st, off(cs), INT(need)) == -1 or any(
                            v is True and k in (app("Lt", off(cs), INT(need)), app("Gt", INT(need), off(cs))) for k, v in o.st.facts.items())):
                        continue
                    raise Undecided("answers %s for `%s` without knowing" % (show(x)[:60], t))
                if first is None:
                    good = x.a[1] == 0
                else:
                    good = x.a[1] == 1 and L.e.cmp(o.st, x.a[4][0], off(cs[:first])) == 0
                K.R.check("search", K.where, good, "`%s` in %s: %s" % (t, name, show(x)[:80]), key="search:find:" + t)
        K.guard("search", "`%s` in %s" % (t, name), go)

    def low(o, p, c):
        if p.op == "str":
            return p.a[0].lower() == c.lower()
        x = app("lower", mk("rep", p.a[0], "1"))
        for k in (t_eq(x, CH(c)), t_eq(CH(c), x)):
            d = L.e.decide(o.st, k) if k.op != "bool" else k.a[0]
            if d is not None:
                return d
        return None
    for op in ("compare", "compare_no_case"):
        f = L.method(op, SPAN, need=False)
        for t in ("$", "xy", "") if f is not None else []:
            def go():
                s = st.copy()
                for o in L.e.run(f, [L.ref(s, sp), STR(t)], s):
                    if o.kind == "panic":
                        raise Stop(o.msg)
                    got = o.ret.a[2]
                    n = min(len(t), len(chars))
                    ds = [low(o, p, c) if op.endswith("case") else eqfact(o, p, c) for p, c in zip(chars, t)]
                    if False in ds:
                        want = "Error"
                    elif None in ds:
                        raise Undecided("answers %s for `%s` without knowing" % (got, t))
                    elif n == len(t):
                        want = "Ok"
                    else:
                        want = "Incomplete"
                    if want == "Incomplete" and got == "Ok" and op.endswith("case"):
                        # characters of other widths in the other case
                        continue
                    K.R.check("search", K.where, got == want, "whether %s starts with `%s`: %s" % (name, t, got), key="search:%s:%s" % (op, t))
            K.guard("search", "%s of `%s` with %s" % (op, t, name), go)


CHECKS = {"C15": c15}
