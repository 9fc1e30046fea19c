"""C19: what a substitution reference makes of a value."""
import os
from ..absint import mk, sym, show, app, T, STR, Undecided, Outcome, BOOL, walk
from ..grammar import fresh
from ..line import arg_types
from ..models import NONE, SOME, short
from ..shape import shape, chunk, run, WORD, BLANKS
from .refs import sshow


def find(prog):
    """The function of the expansion that gets a value, a key and a replacement and gives the new value."""
    c = [f for f in prog.local.values() if "{" not in f.path and f.path.startswith("ast::") and
         prog.tystr(f.locals[0]).endswith("evaluated::Block>") and
         [("evaluated::Block>" in x) for x in arg_types(prog, f)].count(True) == 3]
    return c[0] if len(c) == 1 else None


def flat(sh):
    """characters of literal text and chunks, in order"""
    out = []
    for p in sh.a:
        if p.op == "str":
            out += list(p.a[0])
        else:
            out.append(p)
    return out


def unflat(xs):
    return shape(*[x if isinstance(x, T) else STR(x) for x in xs])


def split(xs, is_sep):
    out, cur = [], []
    for x in xs:
        if is_sep(x):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out


def blank(x):
    return x in (" ", "\t") if not isinstance(x, T) else x.a[0].startswith("ws")


def expected(value, key, rep):
    """The words of the result; chunks stand for different texts without % or blanks."""
    key, rep = flat(key), flat(rep)
    words = split(flat(value), blank)
    if "%" in key:
        i = key.index("%")
        pre, post = key[:i], key[i + 1:]
        if "%" in rep:
            j = rep.index("%")
            rpre, rpost = rep[:j], rep[j + 1:]
        else:
            rpre, rpost = rep, None
    else:
        pre, post, rpre, rpost = [], key, [], rep
    out = []
    for w in words:
        if len(w) < len(pre) + len(post) or w[:len(pre)] != pre or (post and w[-len(post):] != post):
            out.append(w)
        else:
            mid = w[len(pre):len(w) - len(post)]
            out.append(rpre + mid + rpost if rpost is not None else rpre)
    return out


def affix(v, w, end):
    """Whether the text v starts (ends) with w."""
    a, b = flat(v), flat(w)
    if len(b) > len(a):
        return False
    return (a[len(a) - len(b):] if end else a[:len(b)]) == b


def hook(e, fn, b, name, callee, vals, st, dty):
    sn = short(name)
    if sn in ("starts_with", "ends_with", "strip_prefix", "strip_suffix") and len(vals) == 2:
        v, w = (e.deref_val(st, x) for x in vals)
        v, w = (shape(x) if x.op in ("str", "char") else x for x in (v, w))
        if v.op == "shape" and w.op == "shape":
            end = sn in ("ends_with", "strip_suffix")
            r = affix(v, w, end)
            if sn.endswith("_with"):
                return [Outcome("ret", BOOL(r), st.copy())]
            f = flat(v)
            n = len(flat(w))
            rest = unflat((f[:len(f) - n] if end else f[n:])) if r else None
            return [Outcome("ret", SOME(rest) if r else NONE(), st.copy())]
    if sn == "new" and name.endswith("Block::new") and len(vals) == 2:
        l = e.deref_val(st, vals[1])
        if l.op == "list" and not l.a:
            return [Outcome("ret", mk("sblock", shape(), e.deref_val(st, vals[0])), st.copy())]
    return None


def c19(ctx, R):
    prog = ctx.prog
    f = find(prog)
    R.rule("words", "the result is the words of the value, in order, each replaced if it matches the key and else as it was, "
                    "separated by single spaces")
    R.rule("sensitivity", "the result depends on at least what it was told the value depends on")
    if f is None:
        R.undecided("words", "ast::", "no function of the expansion gets a value, a key and a replacement")
        return
    where = "%s %s" % (f.path, f.loc())
    x, y, z, k, m, n, q = (chunk(i, WORD) for i in "xyzkmnq")
    w0, w1, w2 = (chunk("ws%d" % i, BLANKS) for i in range(3))
    keys = [("a suffix", (".c",)), ("a named suffix", (".", k)), ("a word", (k,)), ("nothing", ()), ("a suffix of two parts", (".", k, ".c")),
            ("a pattern of suffix", ("%.c",)), ("a pattern of prefix", ("lib%",)), ("a named prefix", (k, "%")),
            ("a pattern of both", ("lib%.c",)), ("a named pattern", (k, "/%.", m)), ("any word", ("%",)), ("two percents", ("a%%b",)),
            ("a pattern of equal ends", ("aa%aa",)), ("percents apart", (k, "%x%", m))]
    reps = [("a suffix", (".o",)), ("nothing", ()), ("a named suffix", (".", n)), ("a pattern", ("%.o",)), ("a pattern of prefix", ("obj/%",)),
            ("a pattern of both", (n, "/%.", q)), ("a percent alone", ("%",)), ("two percents", ("%-%",)), ("words", (n, " ", q)),
            ("words around a percent", (n, " %", w2, q))]
    single = [(x,), (x, ".c"), (x, ".", k), (k,), (x, k), (k, x), (k, x, k), (".c",), ("lib", x, ".c"), ("lib.c",), ("li", x, ".c"),
              (k, "/", x, ".", m), (k, "/.", m), (x, ".c", y), (x, ".cc"), (x, ".c.c"), ("aa", x, "aa"), ("aaaa",), ("aaa",), ("aa",),
              ("a%", x, "b"), ("%", x), (x, ".", k, ".c"), (k, "q%x%", m), ("\u00e9", x, ".c"), ("c",), (".",), (x, ".o"), (x, ".C")]
    multi = [(), (w0,), (w0, x, ".c"), (x, ".c", w0), (x, ".c", w0, y), (x, w0, y, ".c"), (x, ".c ", y, ".c"), (x, "\t", y, w0, z, ".c"),
             (w0, x, ".c", w1, y, ".c", w2), (k, " ", k), (x, ".c", w0, y, ".", k, w1, k), ("lib", x, ".c", w0, y, ".c lib", z)]
    multi += [(x, ".c", s, y, ".c", s, z) for s in ("\t", "  ", " \t", "\t ", "\t\t")] + [("\t", x, ".c"), (x, ".c\t")]
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    vals = single + multi
    if thorough:
        vals = vals + [s + (w0,) + t for s in single for t in single[:3]]
    todo = []
    for i, kk in enumerate(keys):
        for j, rr in enumerate(reps):
            # every key with every replacement; a third of the values each, all with the first two replacements
            for l, v in enumerate(vals):
                if thorough or j in (0, 5) or (i + j + l) % 5 == 0:
                    todo.append((kk, rr, v))
    for (kn, kt), (rn, rt), vt in todo:
        V, K, P = shape(*vt), shape(*kt), shape(*rt)
        lab = "%s replaced by %s in `%s`" % (sshow(K), sshow(P) or "nothing", sshow(V))
        bs = [mk("sblock", s, app("sens", s)) for s in (V, K, P)]
        st = fresh()
        args, it_ = {}, iter(bs)
        for i, t in enumerate(arg_types(prog, f)):
            if "evaluated::Block>" in t:
                args[i] = next(it_)
            else:
                args[i] = sym("told")
        try:
            A = run(prog, f, args, state=st, hooks=[hook])
        except Undecided as e:
            R.undecided("words", where, "%s: %s" % (lab, e))
            continue
        R.fns |= A.eng.seen_fns()
        R.add("paths", len(A.outs))
        want = expected(V, K, P)
        for o in A.outs:
            if o.kind != "ret":
                R.violation("words", where, "%s: panics: %s" % (lab, o.msg), key="words:panic:%s:%s" % (kn, rn))
                continue
            if o.ret.op != "sblock":
                R.undecided("words", where, "%s: gives %s" % (lab, show(o.ret)[:160]))
                continue
            got = flat(o.ret.a[0])
            full = []
            for i, wd in enumerate(want):
                full += ([" "] if i else []) + wd
            if all(want):
                good = got == full
            else:
                # whether a word replaced by nothing leaves its blank does not matter
                good = split(got, blank) == split(full, blank)
            R.check("words", where, good, "%s: gives `%s`%s" % (lab, sshow(o.ret.a[0]), "" if good else ", not `%s`" % sshow(unflat(full))),
                    key="words:%s:%s" % (kn, rn))
            told = any(t is sym("told") for t in walk(o.ret.a[1]))
            R.check("sensitivity", where, told, "%s: depends on what was told" % lab, key="sensitivity:%s:%s" % (kn, rn))
    R.floor("words", 800)
    R.floor("sensitivity", 800)


CHECKS = {"C19": c19}
