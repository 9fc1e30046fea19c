"""C23: what rules, variables, engines and the pieces of expanded text are made from is what is read from them."""
import re
from ..absint import app, mk, proj, show, sym, walk, INT, STR, T, Outcome, Undecided
from ..mir import strip_generics
from ..models import short
from ..report import AnchorMissing
from ..single import analyse
from ..views import Many, Stop, ch
from ..recog import variant
from ..shape import minus, shape, sign
from .blocks import BLOCK, CREF, SPAN, Lab, Look, pr

NODES = "evaluated::nodes::"


def method(prog, path):
    f = [g for g in prog.local.values() if strip_generics(g.path) == path]
    if not f:
        raise AnchorMissing(path)
    return f[0]


def fields(prog, path):
    """{type: index} of the fields whose type no other has"""
    fs = prog.adts[path]["variants"][0]["fields"]
    ts = [prog.tystr(f["t"]) for f in fs]
    return {t: i for i, t in enumerate(ts) if ts.count(t) == 1}


# the part of a value, followed through references
def read(A, o, t):
    n = 0
    while t.op == "ref" and n < 8:
        t = A.eng.read(o.st, t.a[0], t.a[1])
        n += 1
    return t


def plain(prog, R, rule, f, want, what, args=None):
    """Every way through f gives the term `want`, and changes nothing."""
    where = "%s %s" % (f.path, f.loc())
    A = analyse(prog, f, args=args)
    R.fns |= A.eng.seen_fns()
    if not A.outs:
        R.undecided(rule, where, "no way through")
    for o in A.outs:
        if o.kind != "ret":
            R.violation(rule, where, "%s: panics: %s" % (what, o.msg), key="%s:%s" % (rule, short(f.path)))
            continue
        got = read(A, o, o.ret)
        R.check(rule, where, got is want and not A.posts(o), "%s gives %s" % (what, show(got)[:140]),
                key="%s:%s" % (rule, short(f.path)))


def stored(prog, R):
    me = sym("a0")
    rule = fields(prog, "Rule")

    def by(ty, pat):
        k = [i for t, i in ty.items() if re.search(pat, t)]
        if len(k) != 1:
            raise AnchorMissing("the field %s" % pat)
        return proj(me, (None, k[0]))
    for name, pat in (("target", r"^std::sync::Arc<evaluated::Block>$"), ("target_fname", r"^FileName$"),
                      ("recipe", r"Arc<Recipe>$"), ("dependencies", r"^std::vec::Vec<std::sync::Arc<evaluated::Block>>$")):
        plain(prog, R, "rule", method(prog, "Rule::" + name), by(rule, pat), "the %s of a rule" % name.replace("_fname", "'s name"))
    rec = prog.adts["Recipe"]["variants"][0]["fields"]
    k = [i for i, f in enumerate(rec) if "Vec<Command>" in prog.tystr(f["t"])]
    if len(k) != 1:
        raise AnchorMissing("the commands of a recipe")
    plain(prog, R, "rule", method(prog, "Recipe::commands"), proj(me, (None, k[0])), "the commands of a recipe")
    # variables
    var = fields(prog, "eval::Variable")
    val = [i for t, i in var.items() if "VariableParameters" in t]
    tgt = [i for t, i in var.items() if "Option" in t]
    if len(val) != 1 or len(tgt) != 1:
        raise AnchorMissing("the value and target of a variable")
    vp = fields(prog, "eval::VariableParameters")
    ast = [i for t, i in vp.items() if "AstNode" in t]
    if len(ast) != 1:
        raise AnchorMissing("the value of variable parameters")
    plain(prog, R, "variable", method(prog, "eval::Variable::ast"), proj(proj(me, (None, val[0])), (None, ast[0])), "the expression of a variable")
    for n, t in (("new", None), ("new_for_target", sym("a2"))):
        f = method(prog, "eval::Variable::" + n)
        where = "%s %s" % (f.path, f.loc())
        A = analyse(prog, f)
        R.fns |= A.eng.seen_fns()
        for o in A.outs:
            r = o.ret
            if o.kind != "ret" or r.op != "adt":
                R.undecided("variable", where, show(r)[:100] if r is not None else "panics")
                continue
            R.check("variable", where, read(A, o, r.a[4][val[0]]) is sym("a1"), "%s keeps the value %s" % (n, show(r.a[4][val[0]])[:80]),
                    key="variable:%s:value" % n)
            g = r.a[4][tgt[0]]
            good = g.op == "adt" and (g.a[1] == 0 if t is None else g.a[1] == 1 and read(A, o, g.a[4][0]) is t)
            R.check("variable", where, good, "%s keeps the target %s" % (n, show(g)[:80]), key="variable:%s:target" % n)


def expand(prog, R):
    """Variable::expand: the text of the expansion of the variable's expression, expanded once, by the names and database given."""
    f = method(prog, "eval::Variable::expand")
    where = "%s %s" % (f.path, f.loc())
    A = analyse(prog, f, opaque=lambda name, callee: bool(re.search(r"AstNode::eval$|Block::into_string$", strip_generics(name))))
    R.fns |= A.eng.seen_fns()
    me = sym("a0")
    var = fields(prog, "eval::Variable")
    val = [i for t, i in var.items() if "VariableParameters" in t][0]
    tgt = [i for t, i in var.items() if "Option" in t][0]
    ast = [i for t, i in fields(prog, "eval::VariableParameters").items() if "AstNode" in t][0]
    want = proj(proj(me, (None, val)), (None, ast))
    n = 0
    for o in A.outs:
        if variant(o.facts, proj(me, (None, tgt))) == 1:
            # in the context of a target: not implemented
            continue
        n += 1
        if o.kind != "ret":
            R.violation("expand", where, "panics: %s" % o.msg, key="expand:panic")
            continue
        ev = [e for e in o.ev if not hasattr(e, "loop") and re.search(r"AstNode::eval$", e.name)]
        R.check("expand", where, len(ev) == 1, "the expression is expanded %d times" % len(ev), key="expand:once")
        if len(ev) != 1:
            continue
        e = ev[0]
        R.check("expand", where, e.args[0] is want, "what is expanded is %s" % show(e.args[0])[:100], key="expand:what")
        R.check("expand", where, [a for a in e.args[1:]] == [sym("a1"), sym("a2")] or
                (None if any(a not in (sym("a1"), sym("a2")) for a in e.args[1:]) else False),
                "it is expanded by %s" % ", ".join(show(a)[:40] for a in e.args[1:]), key="expand:by")
        st = [x for x in o.ev if not hasattr(x, "loop") and re.search(r"Block::into_string$", x.name)]
        r = o.ret
        good = len(st) == 1 and r is st[0].ret and (st[0].args[0] is e.ret)
        R.check("expand", where, good, "the result is %s" % show(r)[:120], key="expand:text")
    R.check("expand", where, True if n else None, "expanding in no target's context is possible", key="expand:none")


class Made(Lab):
    def start(self):
        st = super().start()
        prog = self.prog

        def lazy(e, fn, b, name, callee, vals, st, dty):
            m = re.match(r"<(.*) as std::ops::Deref>::deref$", name)
            if m:
                g = [h for h in prog.local.values() if h.path == name + "::__static_ref_initialize"]
                if g:
                    v, s = e.go(g[0], [], st.copy())
                    return [Outcome("ret", e.cell(s, v), s)]
            if vals or not re.search(r"(ContentReference::(space|newline|semicolon)|Block::empty|BlockSpan::empty)$", strip_generics(name)):
                return None
            g = prog.local.get(callee.get("key"))
            return e.run(g, [], st) if g else None
        self.e.hooks.insert(0, lazy)
        return st


def pieces_(prog, R):
    L = Made(prog)
    K = Look(L, R, "evaluated::")
    SYN = "Synthetic"

    def guard(lab, f, where):
        K.where = where
        K.guard("piece", lab, f)

    def text_of(ref, st):
        """(characters, places of segments) of a reference, through a block of it"""
        blk, st = L.go(L.free(BLOCK + "::new"), [sym("deps"), mk("list", ref)], st)
        sp, st = K.whole(blk, st)
        it, st = L.go(L.method("segments", SPAN), [L.ref(st, sp)], st)
        xs, st = L.items(it, st)
        out, at = [], []
        for x in xs:
            t, l = L.segment(x, st)
            out += list(t)
            at.append(l)
        return out, at

    for name, c in (("space", " "), ("newline", "\n"), ("semicolon", ";")):
        f = method(prog, CREF + "::" + name)
        where = "%s %s" % (f.path, f.loc())

        def one():
            st = L.start()
            r, st = L.go(f, [], st)
            t, at = text_of(r, st)
            R.check("piece", where, t == [STR(c)], "the ready-made %s is `%s`" % (name, pr(t)), key="piece:" + name)
            R.check("piece", where, at == [SYN], "the ready-made %s stands at %s" % (name, at), key="piece:%s:place" % name)
        guard("the ready-made " + name, one, where)
        R.fns |= L.seen
    # given text, at a place or at none
    cs = [ch("a"), ch("b"), STR("\n"), ch("c")]
    f = method(prog, "evaluated::constant")

    def given():
        st = L.start()
        r, st = L.go(f, [L.located(shape(*cs), 1)], st)
        t, at = text_of(r, st)
        where = "%s %s" % (f.path, f.loc())
        R.check("piece", where, t == cs, "a constant reads as `%s`" % pr(t), key="piece:constant")
        R.check("piece", where, at == [(app("line", INT(1)), app("column", INT(1)), sym("file 1"))], "a constant stands at %s" % (at,),
                key="piece:constant:place")
    guard("a constant", given, "%s %s" % (f.path, f.loc()))
    R.fns |= L.seen
    g = [h for h in prog.local.values() if strip_generics(h.path).endswith("::synthetic_new")]
    for h in g:
        def made():
            st = L.start()
            s, st = L.go(h, [shape(*cs)], st)
            r, st = L.go(f, [s], st)
            t, at = text_of(r, st)
            where = "%s %s" % (h.path, h.loc())
            R.check("piece", where, t == cs, "a text of no place reads as `%s`" % pr(t), key="piece:synthetic")
            R.check("piece", where, at == [SYN], "a text of no place stands at %s" % (at,), key="piece:synthetic:place")
        guard("a text of no place", made, "%s %s" % (h.path, h.loc()))
        R.fns |= L.seen
    # nothing
    f = method(prog, BLOCK + "::empty")
    where = "%s %s" % (f.path, f.loc())

    def empty():
        st = L.start()
        b, st = L.go(f, [], st)
        b = L.e.deref_val(st, b)
        for t, v in zip(prog.adts[BLOCK]["variants"][0]["fields"], b.a[4]):
            none = (v.op == "list" and not v.a) or v is app("set0") or (v.op == "cset" and not v.a)
            R.check("piece", where, none, "the empty text has %s %s" % (t["n"], show(v)[:60]), key="piece:empty:" + t["n"])
    guard("the empty text", empty, where)
    f = method(prog, SPAN + "::empty")

    def empty_span():
        st = L.start()
        b, st = L.go(f, [], st)
        n, st = L.go(L.method("len", SPAN), [L.ref(st, b)], st)
        R.check("piece", "%s %s" % (f.path, f.loc()), n is INT(0), "the empty part of a text is %s long" % show(n)[:60], key="piece:span")
    guard("the empty part", empty_span, "%s %s" % (f.path, f.loc()))
    R.fns |= L.seen


def nodes(prog, R):
    """name, key, replacement, value of the nodes made by the constructors"""
    L = Made(prog)
    K = Look(L, R, "evaluated::")

    def block(st, *cs):
        b, _, st = L.block([("text", list(cs))], st, "new")
        return b, st
    for con, var, args, gives in (
            ("variable_reference", "VariableReference", ("name", "value"), ("name",)),
            ("substitution_reference", "SubstitutionReference", ("name", "key", "replacement", "value"), ("name", "key", "replacement", "value")),
            ("concat", "Concat", ("value",), ()),
            (NODES + "Evaluated::new", "Evaluated", ("value",), ("value",))):
        f = method(prog, con if "::" in con else "evaluated::" + con)
        where = "%s %s" % (f.path, f.loc())
        K.where = where

        def one(empty=None):
            st = L.start()
            bs = {}
            for i, a in enumerate(args):
                bs[a], st = block(st, *[ch("%s%d" % (a[0], k)) for k in range(0 if a == empty else i + 1)])
            lab = con if empty is None else "%s, with an empty %s" % (con, empty)
            for r, st in L.outs(f, [bs[a] for a in args], st):
                made(lab, r, st, bs)

        def text(v, s):
            """the texts v may read as"""
            return [L.text(x) for x, _ in L.outs(L.method("into_string", BLOCK), [v if v.op == "ref" else L.ref(s, v)], s)]

        def made(lab, r, st, bs):
            if con.startswith(NODES):
                node = r
            else:
                # the whole text of the value
                w, s = L.go(L.free(BLOCK + "::new"), [sym("deps"), mk("list", r)], st)
                n, s = L.go(L.method("len", BLOCK), [w if w.op == "ref" else L.ref(s, w)], s)
                m, s = L.go(L.method("len", BLOCK), [L.ref(s, bs["value"])], s)
                R.check("node", where, sign(minus(n, m)) == 0, "%s: is %s long" % (lab, show(n)[:60]), key="node:%s:length" % con)
                want = text(bs["value"], s)
                for x in text(w, s):
                    R.check("node", where, [x] == want, "%s: reads as `%s`" % (lab, pr(x)), key="node:%s:text" % con)
                node = L.e.deref_val(st, dict(zip(r.a[3], r.a[4]))["node"]) if "node" in r.a[3] else \
                    next(v for v in (L.e.deref_val(st, v) for v in r.a[4]) if v.op == "adt" and v.a[0] == NODES + "EvaluatedNode")
                R.check("node", where, node.a[2] == var, "%s: is a %s" % (lab, node.a[2]), key="node:%s:kind" % con)
                node = L.e.deref_val(st, node.a[4][0])
            for g in gives:
                for v, s in L.outs(L.method(g, NODES + var), [L.ref(st, node)], st):
                    want = text(bs[g], s)
                    for x in text(v, s):
                        R.check("node", where, [x] == want, "%s: its %s reads as `%s`" % (lab, g, pr(x)), key="node:%s:%s" % (con, g))
        for empty in (None,) + args:
            K.guard("node", con if empty is None else "%s, with an empty %s" % (con, empty), lambda: one(empty))
        R.fns |= L.seen


def dependencies(prog, R):
    """The variables a text says it depends on are those it was made with; its parts are those it was made of."""
    L = Made(prog)
    K = Look(L, R, "evaluated::")
    d = [sym("dependency %d" % i) for i in range(3)]
    for name, par in (("sensitivity", 0), ("into_sensitivity", 0), ("raw_sensitivity", 0), ("content", 1)):
        f = method(prog, BLOCK + "::" + name)
        K.where = where = "%s %s" % (f.path, f.loc())

        def one(parts):
            st = L.start()
            refs = []
            for i in range(parts):
                r, st = L.go(method(prog, "evaluated::constant"), [L.located(shape(ch("t%d" % i)), i)], st)
                refs.append(r)
            b, st = L.go(L.free(BLOCK + "::new"), [mk("cset", *d), mk("list", *refs)], st)
            own = prog.tystr(f.locals[1]).startswith("&")
            x, st = L.go(f, [b if (b.op == "ref") == own else L.ref(st, b) if own else L.e.deref_val(st, b)], st)
            x = L.e.deref_val(st, x)
            if x.op == "cset":
                xs = list(x.a)
            else:
                xs, st = L.items(x, st)
                xs = [L.e.deref_val(st, y) for y in xs]
            if par:
                R.check("depends", where, xs == refs, "%s lists %d of %d parts%s" % (name, len(xs), parts, "" if xs == refs else ", others or in another order"),
                        key="depends:" + name)
            else:
                R.check("depends", where, set(xs) == set(d) and len(xs) == 3, "%s: of what a text depends on, has %s" % (name, ", ".join(show(y) for y in xs)[:100]),
                        key="depends:" + name)
        for n in (3, 0, 1):
            K.guard("depends", "%s of %d parts" % (name, n), lambda: one(n))
    R.fns |= L.seen


def engine(prog, R):
    f = [g for g in prog.local.values() if g.path == "<Engine as std::default::Default>::default"]
    if not f:
        raise AnchorMissing("Engine::default")
    f = f[0]
    where = "%s %s" % (f.path, f.loc())
    A = analyse(prog, f)
    R.fns |= A.eng.seen_fns()
    fs = prog.adts["Engine"]["variants"][0]["fields"]
    n = 0
    for o in A.outs:
        if o.kind != "ret" or o.ret.op != "adt":
            continue
        n += 1
        for fd, v in zip(fs, o.ret.a[4]):
            t = prog.tystr(fd["t"])
            if t == "char":
                R.check("engine", where, v.op == "char" and v.a[0] == "\t", "a new engine's command character is %s" % show(v), key="engine:char")
            elif t == "Database":
                maps = v.a[4] if v.op == "adt" else ()
                good = bool(maps) and all(x is app("map0") for x in maps)
                R.check("engine", where, good or None, "a new engine knows %s" % show(v)[:100], key="engine:database")
            elif t == "std::path::PathBuf":
                cwd = [x for x in walk(v) if x is app("current_dir")]
                R.check("engine", where, bool(cwd) and v.op == "proj" or (None if cwd else False), "a new engine works in %s" % show(v)[:80], key="engine:directory")
    R.check("engine", where, True if n else None, "an engine can be made")
    f = method(prog, "Engine::replace_database")
    where = "%s %s" % (f.path, f.loc())
    A = analyse(prog, f)
    R.fns |= A.eng.seen_fns()
    k = [i for i, fd in enumerate(fs) if prog.tystr(fd["t"]) == "Database"]
    for o in A.outs:
        post = o.st.mem[("h", "a0")]
        for i, fd in enumerate(fs):
            v = proj(post, (None, i))
            want = sym("a1") if i in k else proj(sym("a0"), (None, i))
            R.check("engine", where, o.kind == "ret" and v is want, "replacing the database makes %s %s" % (fd["n"], show(v)[:80]),
                    key="engine:replace:" + fd["n"])


def c23(ctx, R):
    prog = ctx.prog
    R.rule("rule", "a rule's target, target name, prerequisites and recipe, and a recipe's commands, read as stored")
    R.rule("variable", "a variable has the value, target and expression it was made with")
    R.rule("expand", "expanding a variable gives the text of its expression expanded once, by the names and engine given")
    R.rule("piece", "the ready-made blank, line end and semicolon are those, of no source place; the empty text has nothing")
    R.rule("node", "a node made of a name, key, replacement and value reads as its value and gives these back")
    R.rule("depends", "the dependencies and parts of a text are those it was made with")
    R.rule("engine", "a new engine knows nothing, uses tab and the current directory; replacing the database replaces just that")
    stored(prog, R)
    expand(prog, R)
    pieces_(prog, R)
    nodes(prog, R)
    dependencies(prog, R)
    engine(prog, R)
    for r, n in (("rule", 5), ("variable", 5), ("expand", 4), ("piece", 9), ("node", 40), ("depends", 12), ("engine", 6)):
        R.floor(r, n)


CHECKS = {"C23": c23}
