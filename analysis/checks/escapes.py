"""C22: what a backslash quotes, and what it does not."""
import itertools
import re
from ..absint import mk, sym, show, app, STR, Undecided
from ..grammar import ok, fresh
from ..line import arg_types
from ..shape import shape, chunk, run, WORD
from ..views import Many, Stop, pieces
from ..absint import T
from ..models import OK
from .blocks import with_widths, pr
from .includes import Includes, str_eq, TRACE
from .refs import sshow
from .rulelines import Lines
from . import subst


def unquote(s, stops, extra=None):
    """(text before the first unquoted stop character, text after it or None)"""
    out, n = "", 0
    for i, c in enumerate(s):
        if c in stops:
            out = out[:len(out) - n] + "\\" * (n // 2)
            if n % 2 == 0:
                return out, s[i + 1:]
            out += c
            n = 0
        else:
            out += c
            n = n + 1 if c == "\\" else 0
    return out, None


def words(s, stops=" \t\n"):
    """The names in a list."""
    out = []
    s = s.lstrip(" \t")
    while s:
        w, s = unquote(s, stops)
        if w:
            out.append(w)
    return out


def texts(alphabet, n):
    for k in range(1, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield letters("".join(t))


def letters(s):
    """Tells the letters apart."""
    it = iter("ABCDEFGHI")
    return "".join(next(it) if c == "A" else c for c in s)


def sh(s, pre=""):
    return shape(*[chunk(pre + c, WORD) if c.isalpha() else STR(c) for c in s])


def tail(s):
    return len(s) - len(s.rstrip("\\"))


def one_colon(s):
    """Whether all colons of the text are quoted."""
    return unquote(s, ":")[1] is None


# lengths of longer rows of backslashes
ROWS = (5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 32, 33, 64, 65)


def rows(c):
    """Texts with such rows before a character, a letter and at the start."""
    for k in ROWS:
        for t in ("A@" + c + "A", "@" + c + "A", "A@A"):
            yield letters(t.replace("@", "\\" * k))


def rule_lines(deep):
    n = 5 if deep else 4
    for s in rows(" "):
        yield "Z: " + s + "\n", ["Z"], words(s, " \t:")
        yield s + ":Z\n", words(s), ["Z"]
    for s in rows(":"):
        if one_colon(s):
            yield "Z: " + s + "\n", ["Z"], words(s, " \t:")
            yield s + ":Z\n", words(s, " \t:"), ["Z"]
    for s in texts("A\\: ", n):
        # a colon before a backslash may be a drive; one at the start has no target
        l, r = unquote(s + ":", ":")
        if not l.strip(" ") or r != "" or tail(s) > 3:
            continue
        # a run of blanks there is one blank
        l = re.sub(" +", " ", l).lstrip(" ")
        yield s + ":Z\n", words(l), ["Z"]
    for s in texts("A\\ " if not deep else "A\\ :", n + 1 if not deep else n):
        if tail(s) or not one_colon(s):
            continue
        yield "Z: " + s + "\n", ["Z"], words(s, " \t:")
    for s in texts("A\\:", n):
        if tail(s) or not one_colon(s):
            continue
        yield "Z: " + s + "\n", ["Z"], words(s, " \t:")


def c22(ctx, R):
    prog = ctx.prog
    deep = ctx.tier == "thorough"
    R.rule("names", "in the lists of names of rule lines a backslash before a blank or colon makes it part of the name; pairs of backslashes "
                    "there stand for one each; all other backslashes stand for themselves")
    R.rule("files", "the same of the blanks between the names of an include directive")
    R.rule("pattern", "the same of the % of a key and of a replacement")
    rules(ctx, R, deep)
    files(ctx, R, deep)
    patterns(ctx, R, deep)


def rules(ctx, R, deep):
    L = Lines(ctx.prog)
    where = "%s %s" % (L.f.path, L.f.loc())

    def one(R, it):
        s, tg, dp = it
        try:
            A = L.run(sh(s), {})
        except Undecided as u:
            R.undecided("names", where, "`%s`: %s" % (s.strip("\n"), u))
            return
        R.fns |= A.eng.seen_fns()
        want = [sshow(sh(x)) for x in tg], [sshow(sh(x)) for x in dp]
        for o in A.outs:
            p = ok(o)
            lab = "`%s`" % s.strip("\n")
            if p is None:
                R.violation("names", where, "%s %s" % (lab, "panics: %s" % o.msg if o.kind != "ret" else "is refused: %s" % show(o.ret)[:160]), key="names:refused")
                continue
            a = L.action(p[1])
            if a is None or a[1] is None or a[0] == L.rule_v["n"] and a[2] is None:
                R.undecided("names", where, "%s gives %s" % (lab, show(p[1])[:200]))
                continue
            got = [sshow(x) for x in a[1]], [sshow(x) for x in a[2] or []]
            R.check("names", where, a[0] == L.rule_v["n"] and got == want, "%s gives %s %s%s" % (lab, a[0], got, "" if got == want else ", should be %s" % (want,)),
                    key="names:" + ("targets" if got[0] != want[0] else "prerequisites"))
    todo = list(rule_lines(deep))
    R.fork(todo, one)
    R.count("rule lines", len(todo))
    R.floor("names", len(todo) * 9 // 10)


class Opened(Includes):
    """Include directives all of whose files can be read."""

    def run(self, kind, s, names):
        self.faults = False
        return super().run(kind, s, names)

    def judge(self, e, lab, soft, want, node, me, o, kind):
        evs = [x.a for x in o.st.mem[TRACE].a] if o.kind != "panic" else []
        if any(x[0] == "open" and not x[2] or x[0] == "read" and x[3].op != "ok" for x in evs):
            return
        R, where = self.R, self.where
        if o.kind == "panic":
            R.violation("files", where, "%s: panics: %s" % (lab, o.msg), key="files:panic")
            return
        got = []
        for x in evs:
            if x[0] == "open":
                p = x[1]
                if not (p.op == "app" and p.a[0] == "join"):
                    raise Undecided("opens %s" % show(p)[:100])
                got.append(p.a[2])
        good = len(got) == len(want) and all(str_eq(g, w) for g, w in zip(got, want))
        R.check("files", where, good, "%s: opens [%s]%s" % (lab, ", ".join(show(x)[:60] for x in got), "" if good else ", not [%s]" % ", ".join(pr(pieces(w)) for w in want)),
                key="files:names")


def files(ctx, R, deep):
    I = Opened(ctx, R)
    todo = [s for s in texts("A\\ ", 6 if deep else 5) if not tail(s) and len(words(s)) < 4] + list(rows(" "))

    def one(R, s):
        def go(R, s, note=""):
            I.R = R
            try:
                I.run("Include", s, words(s))
            except (Undecided, Many) as u:
                R.undecided("files", I.where, "`%s`%s: %s" % (s, note, u))
            except Stop as u:
                R.violation("files", I.where, "`%s`%s: panics: %s" % (s, note, u), key="files:panic")
        with_widths(R, s, go)
    R.fork(todo, one, per=4)
    R.count("lists of files", len(todo))
    R.floor("files", len(todo) * 9 // 10)


def pattern(s):
    a, b = unquote(s, "%")
    return a, b


def patterns(ctx, R, deep):
    prog = ctx.prog
    f = subst.find(prog)
    if f is None:
        R.undecided("pattern", "ast::", "no function of the expansion gets a value, a key and a replacement")
        return
    where = "%s %s" % (f.path, f.loc())
    n = 5 if deep else 4
    todo = []
    for s in itertools.chain(texts("A\\%", n), rows("%")):
        a, b = pattern(s)
        # of several unquoted %, the first counts
        ws = [a + "Y" + b] if b is not None else ["X" + a]
        ws += ["Y" + s, s] if deep else ["Y" + s]
        for w in ws:
            if " " not in w:
                todo.append((s, "R%S", w))
        todo.append(("P%Q", s, "PYQ"))
        todo.append(("Q", s, "YQ"))
        todo.append(("P%Q", s, "PY"))

    def one(R, it):
        k, r, v = it
        pk, qk = pattern(k)
        pr_, qr = pattern(r)
        if qk is None:
            # the key is a suffix, and the replacement stands for itself
            hit = v.endswith(pk)
            want = v[:len(v) - len(pk)] + r if hit else v
        else:
            hit = len(v) >= len(pk) + len(qk) and v.startswith(pk) and v.endswith(qk)
            stem = v[len(pk):len(v) - len(qk)]
            want = v if not hit else pr_ if qr is None else pr_ + stem + qr
        lab = "`%s` replaced by `%s` in `%s`" % (k, r, v)
        bs = [mk("sblock", sh(x), app("sens", sh(x))) for x in (v, k, r)]
        args, it_ = {}, iter(bs)
        for i, t in enumerate(arg_types(prog, f)):
            args[i] = next(it_) if "evaluated::Block>" in t else sym("told")
        try:
            A = run(prog, f, args, state=fresh(), hooks=[subst.hook])
        except Undecided as u:
            R.undecided("pattern", where, "%s: %s" % (lab, u))
            return
        R.fns |= A.eng.seen_fns()
        for o in A.outs:
            if o.kind != "ret":
                R.violation("pattern", where, "%s: panics: %s" % (lab, o.msg), key="pattern:panic")
            elif o.ret.op != "sblock":
                R.undecided("pattern", where, "%s: gives %s" % (lab, show(o.ret)[:160]))
            else:
                got = sshow(o.ret.a[0])
                R.check("pattern", where, got == sshow(sh(want)), "%s: gives `%s`%s" % (lab, got, "" if got == sshow(sh(want)) else ", not `%s`" % sshow(sh(want))),
                        key="pattern:" + ("key" if "\\" in k else "replacement"))
    R.fork(todo, one)
    R.count("substitutions", len(todo))
    R.floor("pattern", len(todo) * 9 // 10)


CHECKS = {"C22": c22}
