"""C14: walking a syntax tree visits every node once, in order, by its kind."""
from ..absint import mk, app, sym, show, T, INT, Undecided, Outcome, UNIT
from ..mir import strip_generics
from ..models import short
from ..nodes import Nodes
from ..report import AnchorMissing
from ..views import Many, Stop
from .blocks import Lab

NAMES = {"Empty": "visit_empty", "Constant": "visit_constant", "PreEvaluated": "visit_pre_evaluated", "Concat": "visit_concat",
         "VariableReference": "visit_variable_reference", "Eval": "visit_eval", "Strip": "visit_strip", "Word": "visit_word",
         "Words": "visit_words"}
# trees: kind and parts; a Concat has any number of parts
E, C, P = ("Empty",), ("Constant",), ("PreEvaluated",)
TREES = [E, C, P, ("Concat",), ("Concat", C), ("Concat", C, E), ("Concat", C, P, C), ("VariableReference", C), ("Eval", C), ("Strip", C), ("Word", C, P),
         ("Words", C), ("Concat", ("VariableReference", C), C, ("Eval", ("Concat", C, ("VariableReference", C)))),
         ("Word", ("VariableReference", C), ("Words", ("Strip", C))), ("Eval", ("Word", ("Concat", C, C), ("Strip", ("VariableReference", P)))),
         ("VariableReference", ("VariableReference", ("VariableReference", C))), ("Concat", ("Concat", C, ("Concat", C, C)), C)]
MORE = [(k, (q, C) if q != "Word" else (q, C, P)) for k in ("VariableReference", "Eval", "Strip", "Words") for q in NAMES if q not in ("Empty", "Constant", "PreEvaluated")] + \
       [("Word", x, y) for x in (C, ("Concat", C, C), ("Eval", C)) for y in (E, ("Concat", P), ("Strip", C))] + [("Concat", C, C, C, C, C)]


class Walk:
    def __init__(self, ctx, R, trait):
        self.prog, self.R, self.trait = ctx.prog, R, trait
        self.N = Nodes(self.prog)
        self.ms = {}
        for f in self.prog.local.values():
            p = strip_generics(f.path)
            if p.startswith("ast::visit::%s::" % trait) and "{" not in p:
                self.ms[p.split("::")[-1]] = f
        need = set(NAMES.values()) | {"visit_ast"}
        if need - set(self.ms):
            raise AnchorMissing("%s of ast::visit::%s" % (sorted(need - set(self.ms))[0], trait))
        self.ac = self.prog.adts["ast::AstChildren"]["variants"]
        self.an = self.prog.adts["ast::AstNode"]["variants"][0]

    def build(self, t):
        """(node, the visits it takes: [(method, [parts], own path)])"""
        self.n += 1
        kind = t[0]
        i = [v["n"] for v in self.ac].index(kind)
        fs = self.ac[i]["fields"]
        kids = [self.build(x) for x in t[1:]]
        if kind in ("Constant", "PreEvaluated"):
            vals = (sym("%s %d" % (kind, self.n)),)
        elif kind == "Concat":
            vals = (mk("list", *kids),)
        else:
            vals = tuple(kids)
        c = mk("adt", "ast::AstChildren", i, kind, tuple(f["n"] for f in fs), vals)
        return mk("adt", "ast::AstNode", 0, self.an["n"], tuple(f["n"] for f in self.an["fields"]),
                  tuple(c if j == self.N.i_ch else sym("place %d" % self.n) for j in range(len(self.an["fields"]))))

    def want(self, node, stop):
        """[(method, [what it is given])] for visiting the node"""
        out = [("visit_ast", (node,))]
        if stop == "visit_ast" and out:
            return out
        kind, vals = self.N.kind(node)
        out.append((NAMES[kind], vals))
        if NAMES[kind] == stop or kind in ("Empty", "Constant", "PreEvaluated"):
            return out
        for x in (vals[0].a if kind == "Concat" else vals):
            out += self.want(x, stop)
        return out

    def changed(self, node):
        """the tree with every constant replaced"""
        kind, vals = self.N.kind(node)
        c = node.a[4][self.N.i_ch]
        if kind == "Constant":
            vals = (app("new", vals[0]),)
        elif kind == "Concat":
            vals = (mk("list", *[self.changed(x) for x in vals[0].a]),)
        elif kind not in ("Empty", "PreEvaluated"):
            vals = tuple(self.changed(x) for x in vals)
        c = mk("adt", c.a[0], c.a[1], c.a[2], c.a[3], vals)
        return mk("adt", node.a[0], node.a[1], node.a[2], node.a[3], tuple(c if j == self.N.i_ch else x for j, x in enumerate(node.a[4])))

    def walk(self, tree, stop=None, change=False):
        prog, R = self.prog, self.R
        f = self.ms["visit_ast"]
        where = "%s %s" % (f.path, f.loc())
        self.n = 0
        node = self.build(tree)
        L = Lab(prog)
        st = L.start()
        seen = []

        def hook(e, fn, bl, name, callee, vals, st, dty):
            p = strip_generics(name)
            if "ast::visit::" not in p:
                return None
            m = p.split("::")[-1]
            if m not in self.ms:
                return None
            s = st.copy()
            if m.startswith("visit_"):
                seen.append((m, tuple(e.deref_val(st, v) for v in vals[1:])))
                if change and m == "visit_constant":
                    e.put(s, vals[1], app("new", e.deref_val(st, vals[1])))
                    return [Outcome("ret", UNIT, s)]
                if m == stop and len(seen) > 1:
                    return [Outcome("ret", UNIT, s)]
            return e.local(self.ms[m], vals, s)
        L.e.hooks.insert(0, hook)
        root = L.ref(st, node)
        vis = L.ref(st, sym("visitor"))
        lab = "%s, %s%s" % (self.trait, tshow(tree), ", not going below %s" % stop if stop else ", replacing constants" if change else "")
        seen.append(("visit_ast", (node,)))
        try:
            if stop == "visit_ast":
                outs = None
            outs = L.e.run(f, [vis, root], st)
        except (Undecided, Many) as u:
            R.undecided("visit", where, "%s: %s" % (lab, u))
            return
        except Stop as u:
            R.violation("visit", where, "%s: panics: %s" % (lab, u), key="visit:panic")
            return
        R.fns |= L.e.seen_fns()
        if len(outs) != 1:
            R.undecided("visit", where, "%s: %d ways through" % (lab, len(outs)))
            return
        o = outs[0]
        if o.kind == "panic":
            R.violation("visit", where, "%s: panics: %s" % (lab, o.msg), key="visit:panic")
            return
        want = self.want(node, stop)
        if change:
            R.check("change", where, L.e.deref_val(o.st, root) == self.changed(node), "%s: what is changed is the tree" % lab, key="change")
        rule = "below" if stop else "visit"
        k = 0
        while k < len(want) or k < len(seen):
            g = seen[k] if k < len(seen) else None
            w = want[k] if k < len(want) else None
            good = g is not None and w is not None and g[0] == w[0]
            R.check(rule, where, good, "%s: next is %s%s" % (lab, g[0] if g else "the end", "" if good else ", not %s" % (w[0] if w else "the end")),
                    key="%s:%s" % (rule, (w or g)[0]))
            if not good:
                break
            if not change:
                R.check("given", where, g[1] == w[1], "%s: %s is given its parts" % (lab, g[0]), key="given:%s" % g[0])
            k += 1


def tshow(t):
    return t[0] + ("(%s)" % ", ".join(tshow(x) for x in t[1:]) if t[1:] or t[0] == "Concat" else "")


def builders(ctx, R):
    """What the functions building nodes build."""
    prog = ctx.prog
    N = Nodes(prog)
    named = {"empty": "Empty", "constant": "Constant", "preevaluated": "PreEvaluated", "variable_reference": "VariableReference",
             "eval": "Eval", "strip": "Strip", "words": "Words", "word": "Word"}
    acc = {n: [g for g in prog.local.values() if strip_generics(g.path) == "ast::AstNode::" + n] for n in ("children", "children_mut", "location")}
    for n, kind in named.items():
        c = [g for g in prog.local.values() if strip_generics(g.path) == "ast::" + n]
        if not c:
            raise AnchorMissing("ast::" + n)
        f = c[0]
        where = "%s %s" % (f.path, f.loc())
        L = Lab(prog)
        st = L.start()
        args, parts, loc = [], [], None
        for i in range(f.argc):
            t = prog.tystr(f.locals[i + 1])
            if t == "source_location::Location":
                loc = L.location(1)
                args.append(loc)
            elif "Located" in t:
                x = L.located(sym("text"), 1)
                loc = L.location(1)
                args.append(x)
                parts.append(x)
            else:
                args.append(sym("part %d" % i))
                parts.append(args[-1])
        if loc is None:
            loc = L.adt("source_location::Location", "Synthetic")
        try:
            x, st = L.go(f, args, st)
            r = L.ref(st, x)
            ch, st = L.go(acc["children"][0], [r], st)
            ch = L.e.deref_val(st, ch)
            lo, st = L.go(acc["location"][0], [r], st)
            lo = L.e.deref_val(st, lo)
            mu, st = L.go(acc["children_mut"][0], [r], st)
            mu = L.e.deref_val(st, mu)
        except (Undecided, Many) as u:
            R.undecided("build", where, "%s: %s" % (n, u))
            continue
        except Stop as u:
            R.violation("build", where, "%s: panics: %s" % (n, u), key="build:" + n)
            continue
        R.fns |= L.seen
        vs = prog.adts["ast::AstChildren"]["variants"]
        fs = [v for v in vs if v["n"] == kind][0]["fields"]
        if n == "word" and {x["n"] for x in fs} == {"index", "words"}:
            names = [nm[0] for nm in f.names if nm[0] in ("index", "words")]
            parts = [parts[[q for q in ("index", "words")].index(x["n"])] for x in fs]
        got = tuple(L.e.deref_val(st, y) for y in ch.a[4]) if ch.op == "adt" else ()
        R.check("build", where, ch.op == "adt" and ch.a[2] == kind and got == tuple(parts), "%s gives %s" % (n, show(ch)[:120]), key="build:" + n)
        R.check("build", where, lo == loc, "%s is at %s" % (n, show(lo)[:100]), key="build:place:" + n)
        R.check("build", where, mu == ch, "%s: its children are those that can be changed" % n, key="build:mut:" + n)


def c14(ctx, R):
    R.rule("visit", "visiting a tree visits each node once, each before its parts, parts in order, with the method for its kind")
    R.rule("given", "a method is given the parts of the node it is called for")
    R.rule("below", "where a method does not go on, just what is below its nodes is left out")
    R.rule("change", "a change made by a visitor is made in the tree, at that node and nowhere else")
    R.rule("build", "the functions building nodes give the kind, parts and place asked for, and reading a node gives these back")
    deep = ctx.tier == "thorough"
    todo = []
    for t in ("Visitor", "MutVisitor"):
        for tree in TREES + (MORE if deep else []):
            todo.append((t, tree, None, False))
            if t == "MutVisitor":
                todo.append((t, tree, None, True))
            for stop in sorted(NAMES.values()) + ["visit_ast"]:
                todo.append((t, tree, stop, False))
    ws = {t: Walk(ctx, R, t) for t in ("Visitor", "MutVisitor")}

    def one(R, it):
        w = ws[it[0]]
        w.R = R
        if it[2] == "visit_ast":
            return
        if it[2] and not uses(it[1], it[2]):
            return
        w.walk(*it[1:])
    R.fork(todo, one, per=20)
    builders(ctx, R)
    R.floor("visit", 100)
    R.floor("given", 100)
    R.floor("below", 50)
    R.floor("change", 15)
    R.floor("build", 20)


def uses(t, m):
    return NAMES[t[0]] == m or any(uses(x, m) for x in t[1:])


CHECKS = {"C14": c14}
