"""C01: what expanding a syntax tree gives, and which variables it says it depends on."""
from ..absint import show, mk, sym, app, walk, proj, T, INT, STR, Outcome, Undecided
from ..report import AnchorMissing
from ..grammar import fresh, nm
from ..line import arg_types
from ..models import NONE
from ..mir import strip_generics
from ..nodes import Nodes
from ..shape import shape, chunk, run, it, WORD, BLANKS
from .refs import sshow


class Eval:
    def __init__(self, prog):
        self.prog = prog
        self.N = Nodes(prog)
        self.f = prog.one(r"^ast::AstNode::eval$")
        if self.f is None:
            raise AnchorMissing("AstNode::eval")
        self.ac = prog.adts["ast::AstChildren"]["variants"]
        self.fs = prog.adts["ast::AstNode"]["variants"][0]["fields"]
        # everything with the signature of an evaluation: a node, the names, the engine
        self.evals = {}
        self.subref = set()
        self.process = set()
        self.news = set()
        for f in prog.local.values():
            if "{" in f.path:
                continue
            a = [nm(x) for x in arg_types(prog, f)]
            r = prog.tystr(f.locals[0])
            if a == ["AstNode", "NameCache", "Engine"]:
                self.evals[strip_generics(f.path)] = "block" if r.endswith("Block>") and "Arc" in r else "parts" if r.startswith("(") else None
            if r.endswith("evaluated::Block>") and sum("evaluated::Block>" in x for x in arg_types(prog, f)) == 3:
                self.subref.add(f.key)
            if f.path == "Engine::process_block":
                self.process.add(f.key)
        self.evals = {k: v for k, v in self.evals.items() if v}
        if not self.process:
            raise AnchorMissing("Engine::process_block")

    def node(self, variant, *vals):
        i = [v["n"] for v in self.ac].index(variant)
        c = mk("adt", "ast::AstChildren", i, variant, tuple(f["n"] for f in self.ac[i]["fields"]), tuple(vals))
        return mk("adt", "ast::AstNode", 0, None, tuple(f["n"] for f in self.fs),
                  tuple(c if j == self.N.i_ch else sym("loc") for j in range(len(self.fs))))

    def located(self, sh):
        fs = self.prog.adts["source_location::Located"]["variants"][0]["fields"]
        return mk("adt", "source_location::Located", 0, None, tuple(f["n"] for f in fs),
                  tuple(sh if self.prog.tystr(f["t"]) in ("T", "C", "S") or "Marker" not in self.prog.tystr(f["t"]) else sym("where")
                        for f in fs))

    def run(self, root, texts):
        """texts: what a child reads as, by the name of its symbol"""
        N = self.N

        def text_of(n):
            return shape(*texts.get(show(n), (chunk("value of " + show(n)[:20], WORD),)))

        def hook(e, fn, b, name, callee, vals, st, dty):
            nme = strip_generics(name)
            if nme in self.evals and len(vals) == 3:
                n = e.deref_val(st, vals[0])
                if N.kind(n) is not None:
                    return None
                s = st.copy()
                old = s.mem.get(("h", "EVALS"))
                s.mem[("h", "EVALS")] = mk("list", *((old.a if old else ()) + (n,)))
                for c in ("N", "E"):
                    s.mem[("h", c)] = app("after", n, s.mem[("h", c)])
                sh = text_of(n)
                if self.evals[nme] == "block":
                    return [Outcome("ret", mk("sblock", sh, app("sens", n), mk("list", mk("sref", sh, n))), s)]
                return [Outcome("ret", mk("tuple", app("sens", n), mk("list", mk("sref", sh, n))), s)]
            if callee.get("key") in self.subref:
                s = st.copy()
                a = [e.deref_val(st, v) for v in vals]
                old = s.mem.get(("h", "SUBREF"))
                s.mem[("h", "SUBREF")] = mk("list", *((old.a if old else ()) + (mk("tuple", *a),)))
                sh = shape(chunk("substituted", WORD))
                return [Outcome("ret", mk("sblock", sh, a[0], mk("list", mk("sref", sh, sym("substituted")))), s)]
            if nme.endswith("ContentReference::new_from_node") and len(vals) == 1:
                v = e.deref_val(st, vals[0])
                t = None
                if v.op == "adt" and v.a[2] == "Constant":
                    t = [x for x in walk(v) if x.op == "shape"]
                    t = t[0] if t else None
                elif v.op == "adt":
                    bs = [x for x in v.a[4]]
                    # the text of a reference is that of its value
                    x = bs[0]
                    if x.op == "adt":
                        i = [k for k, n in enumerate(x.a[3]) if n == "value"]
                        x = x.a[4][i[0]] if i else x
                    t = x.a[0] if x.op == "sblock" else None
                if t is None:
                    raise Undecided("text of the node %s" % show(v)[:100])
                return [Outcome("ret", mk("sref", t, v), st.copy())]
            if nme.endswith("evaluated::Block::new") and len(vals) == 2:
                l = e.deref_val(st, vals[1])
                if l.op == "list" and all(x.op == "sref" for x in l.a):
                    return [Outcome("ret", mk("sblock", shape(*[x.a[0] for x in l.a]), e.deref_val(st, vals[0]), l), st.copy())]
            if nme.endswith("Block::content") and len(vals) == 1:
                v = e.deref_val(st, vals[0])
                if v.op == "sblock" and len(v.a) > 2:
                    return [Outcome("ret", it(v.a[2]), st.copy())]
            return None

        def opq(name, cal):
            k = cal.get("key")
            f = self.prog.fns.get(k or "")
            return f is not None and f.local and (f.selfty == "Database" or k in self.subref or k in self.process)
        s = fresh()
        s.mem[("h", "X")] = root
        args = {0: mk("ref", ("h", "X"), ()), 1: mk("ref", ("h", "N"), ()), 2: mk("ref", ("h", "E"), ())}
        return run(self.prog, self.f, args, opaque=opq, state=s, hooks=[hook], inline=r"evaluated::nodes::")


def atoms(t):
    """the members of a set term"""
    if t.op == "app" and t.a[0] == "union":
        r = set()
        for x in t.a[1:]:
            r |= atoms(x)
        return r
    if t.op == "app" and t.a[0] == "set0":
        return set()
    if t.op == "app" and t.a[0] == "sens" and t.a[1].op == "shape" and not t.a[1].a:
        return set()
    return {t}


def symbols(xs):
    """the texts of the names in a set, and the rest of it"""
    names, rest = set(), set()
    for x in xs:
        ys = [y for y in walk(x) if y.op == "app" and y.a[0] == "symbol"] if x.op == "app" and x.a[0] == "single" else []
        if ys and x.op == "app" and x.a[0] == "single":
            names.add(sshow(shape(ys[0].a[-1])))
        else:
            rest.add(x)
    return names, rest


def c01(ctx, R):
    prog = ctx.prog
    V = Eval(prog)
    where = "%s %s" % (V.f.path, V.f.loc())
    R.rule("text", "expanding a node gives the parts of its children, in order, each once, and what references are to, as the value "
                   "of a node that says so")
    R.rule("sensitivity", "the variables an expansion says it depends on are all those looked up in it, and no others")
    R.rule("order", "every child, and the value of a variable that is set, is expanded exactly once, in order")
    R.rule("lookup", "a reference looks up the variable named by the expansion of its name, after expanding that")
    R.rule("eval", "the text of an eval is read as makefile lines, all of it, and expands to nothing")
    R.rule("substitution", "a substitution reference is told by : and = in the expanded name, and gets the value, key and "
                           "replacement it says")
    c = [sym("c%d" % i) for i in range(4)]
    k = chunk("k", WORD)
    B = mk("sblock", shape("x", chunk("p", WORD)), sym("bs"), mk("list", mk("sref", shape("x"), sym("n1")),
                                                               mk("sref", shape(chunk("p", WORD)), sym("n2"))))
    D = chunk("ws", BLANKS)
    val = lambda n: chunk("value of " + show(n)[:20], WORD)
    leaf = lambda sh: V.node("Constant", V.located(sh))
    con = lambda *x: V.node("Concat", mk("list", *x))
    ref = lambda x: V.node("VariableReference", x)
    S = ("SUBST",)
    cases = [
        ("nothing", V.node("Empty"), {}, (), (), []),
        ("plain text", leaf(shape("k", k)), {}, ("k", k), (), []),
        ("already expanded text", V.node("PreEvaluated", B), {}, ("x", chunk("p", WORD)), (sym("bs"),), []),
        ("no parts", con(), {}, (), (), []),
    ]
    for n in (1, 2, 3, 4):
        cases.append(("%d parts" % n, con(*c[:n]), {}, tuple(val(x) for x in c[:n]), tuple(c[:n]), c[:n]))
    cases += [
        ("text, nothing and parts", con(c[0], leaf(shape("z")), V.node("Empty"), c[1]), {}, (val(c[0]), "z", val(c[1])), (c[0], c[1]), c[:2]),
        ("parts of parts", con(c[0], con(c[1], c[2]), c[3]), {}, tuple(val(x) for x in c), tuple(c), c[:4]),
        ("a repeated part", con(c[0], c[0]), {}, (val(c[0]), val(c[0])), (c[0],), [c[0], c[0]]),
        ("expanded text and a part", con(V.node("PreEvaluated", B), c[0]), {}, ("x", chunk("p", WORD), val(c[0])), (sym("bs"), c[0]), [c[0]]),
    ]

    def text(sb):
        return sshow(sb.a[0])

    def sens_ok(sb, names, rest, lab):
        nm_, rs = symbols(atoms(sb.a[1]))
        want = {x if x.op == "sym" and x.a[0] == "bs" else app("sens", x) for x in rest}
        missing = (names - nm_) | {show(x)[:80] for x in want - rs}
        extra = (nm_ - names) | {show(x)[:80] for x in rs - want}
        if any(y.op == "phi" for x in atoms(sb.a[1]) for y in walk(x)):
            R.undecided("sensitivity", where, "%s: depends on %s" % (lab, show(sb.a[1])[:100]))
            return
        R.check("sensitivity", where, not missing and not extra, "%s: %s" % (
            lab, "depends on exactly what was looked up" if not missing and not extra else
            "not said to depend on %s" % sorted(missing) if missing else "said to depend on %s" % sorted(extra)), key="sensitivity:" + lab)

    def evals(o):
        m = o.st.mem.get(("h", "EVALS"))
        return list(m.a) if m else []

    def go(lab, node, texts):
        try:
            A = V.run(node, texts)
        except Undecided as e:
            R.undecided("text", where, "%s: %s" % (lab, e))
            return []
        R.fns |= A.eng.seen_fns()
        R.add("paths", len(A.outs))
        outs = []
        for o in A.outs:
            if o.kind == "ret" and o.ret.op == "sblock":
                outs.append(o)
            elif o.kind == "ret":
                R.undecided("text", where, "%s: gives %s" % (lab, show(o.ret)[:160]))
            else:
                outs.append(o)
        return outs
    for lab, node, texts, want, rest, order in cases:
        outs = go(lab, node, texts)
        for o in outs:
            if o.kind != "ret":
                R.violation("text", where, "%s: panics: %s" % (lab, o.msg), key="text:" + lab)
                continue
            R.check("text", where, text(o.ret) == sshow(shape(*want)), "%s: expands to `%s`" % (lab, text(o.ret)), key="text:" + lab)
            sens_ok(o.ret, set(), rest, lab)
            R.check("order", where, evals(o) == order, "%s: expands %s" % (lab, [show(x)[:60] for x in evals(o)]), key="order:" + lab)
        if not outs:
            R.undecided("text", where, "%s: no result" % lab)
    loop(V, R, where)
    mixed(V, R, where, go, sens_ok, evals)

    # references
    F, G = chunk("f", WORD), chunk("g", WORD)
    X, Y = chunk("x", WORD), chunk("y", WORD)
    refs = [("a reference", (F,), None), ("a reference with a blank name", (F, " ", G), None), ("a reference to a name with =", (F, "=", G), None),
            ("a reference to a name with :", (F, ":", G), None), ("a reference to a name with = before :", (F, "=", G, ":"), None),
            ("a substitution", (F, ":", X, "=", Y), (X, Y)), ("a substitution of suffixes", (F, ":.", X, "=.", Y), ((".", X), (".", Y))),
            ("a substitution by nothing", (F, ":", X, "="), (X, ())), ("a substitution of nothing", (F, ":=", Y), ((), Y)),
            ("a substitution with a pattern", (F, ":%.", X, "=", Y, "/%.", G), (("%.", X), (Y, "/%.", G))),
            ("a substitution with blanks", (F, ":", X, "=", Y, D, G), (X, (Y, D, G))),
            ("a reference with blanks around the name", (D, F, D), None), ("a reference with a blank before the name", (" ", F), None),
            ("a reference with a blank after the name", (F, " "), None), ("a reference to a name that starts with ./", ("./", F), None),
            ("a substitution of a name with blanks around it", (D, F, " ", ":", X, "=", Y), (X, Y)),
            # the last = ends the key, as the crate's own tests say
            ("a substitution with a second =", (F, ":", X, "=", Y, "=", G), ((X, "=", Y), G)),
            ("a substitution with a second :", (F, ":", X, ":", G, "=", Y), ((X, ":", G), Y)),
            ("a substitution with a : in the replacement", (F, ":", X, "=", Y, ":", G), (X, (Y, ":", G))),
            ("a substitution with another : and = in the replacement", (F, ":", X, "=", Y, ":", G, "=", F), ((X, "=", Y, ":", G), F))]
    for lab, t, sub in refs:
        outs = go(lab, ref(c[0]), {"c0": t})
        seen = set()
        for o in outs:
            if o.kind != "ret":
                R.violation("lookup", where, "%s: panics: %s" % (lab, o.msg), key="lookup:" + lab)
                continue
            gets = [e for e in o.ev if getattr(e, "name", "").endswith("get_variable")]
            before = t[:[i for i, y in enumerate(t) if isinstance(y, str) and y.startswith(":")][0]] if sub is not None else t
            name = sshow(shape(*before))
            looked = [sshow(shape(y.a[-1])) for e in gets for y in walk(e.args[-1]) if y.op == "app" and y.a[0] == "symbol"]
            R.check("lookup", where, looked == [name] and any(y.op == "app" and y.a[0] == "after" and y.a[1] == c[0] for y in walk(gets[0].args[0])),
                    "%s: looks up %s after expanding the name" % (lab, looked), key="lookup:" + lab)
            if not gets:
                continue
            dv = o.facts.get(("disc", gets[0].ret))
            found = dv == frozenset([1])
            seen.add(found)
            ev = evals(o)
            value = ev[1] if len(ev) > 1 else None
            good = ev[:1] == [c[0]] and len(ev) == (2 if found else 1) and (not found or any(y is gets[0].ret or y == gets[0].ret for y in walk(value)))
            R.check("order", where, good, "%s: expands the name%s" % (lab, ", then the value" if found else ""), key="order:" + lab)
            sens_ok(o.ret, {name}, [c[0]] + ([value] if found and value is not None else []), "%s, %s" % (lab, "set" if found else "not set"))
            vt = sshow(shape(val(value))) if found and value is not None else ""
            refs_ = list(o.ret.a[2].a) if len(o.ret.a) > 2 else []
            n = refs_[0].a[1] if len(refs_) == 1 and len(refs_[0].a) > 1 else None
            if n is None or n.op != "adt":
                R.check("text", where, False if not refs_ else None, "%s: expands to %s" % (lab, show(o.ret)[:100]), key="text:" + lab)
                continue
            parts = {fn: x for y in n.a[4] if y.op == "adt" for fn, x in zip(y.a[3], y.a[4])}
            if sub is None:
                R.check("text", where, n.a[2] == "VariableReference" and text(parts["name"]) == name and text(parts["value"]) == vt and
                        text(o.ret) == vt, "%s: is a %s to `%s` of value `%s`" % (lab, n.a[2], text(parts["name"]), text(parts["value"])),
                        key="text:" + lab)
                continue
            key, rep = (sshow(shape(*(x if isinstance(x, tuple) else (x,)))) for x in sub)
            R.check("text", where, n.a[2] == "SubstitutionReference" and [text(parts[q]) for q in ("name", "key", "replacement")] == [name, key, rep],
                    "%s: is a %s to `%s`" % (lab, n.a[2], text(parts["name"])), key="text:" + lab)
            sr = o.st.mem.get(("h", "SUBREF"))
            calls = list(sr.a) if sr else []
            blocks = [[x for x in t_.a if x.op == "sblock"] for t_ in calls]
            R.check("substitution", where, len(calls) == 1 and [text(x) for x in blocks[0]] == [vt, key, rep] and
                    text(parts["value"]) == "<substituted>", "%s: replaces in `%s` the key `%s` by `%s`" % (
                        (lab,) + (tuple(text(x) for x in blocks[0]) if blocks and len(blocks[0]) == 3 else ("?",) * 3)), key="substitution:" + lab)
        if outs and seen != {True, False}:
            R.undecided("lookup", where, "%s: only seen %sset" % (lab, "" if True in seen else "not "))
    # eval
    outs = go("an eval", V.node("Eval", c[0]), {})
    for o in outs:
        ps = [e for e in o.ev if getattr(e, "name", "").endswith("process_block")]
        if o.kind != "ret":
            # a panic on failure of the lines is C12's
            if not (ps and o.facts.get(("disc", ps[-1].ret)) == frozenset([1])):
                R.violation("eval", where, "an eval panics: %s" % o.msg, key="eval:panic")
            continue
        b = [x for x in ps[0].args if x.op == "sblock"] if ps else []
        R.check("eval", where, len(ps) == 1 and len(b) == 1 and text(b[0]) == sshow(shape(val(c[0]))) and text(o.ret) == "",
                "an eval reads `%s` as lines and expands to `%s`" % (text(b[0]) if b else "nothing", text(o.ret)), key="eval:read")
        R.check("order", where, evals(o) == [c[0]] and bool(ps) and any(y.op == "app" and y.a[0] == "after" for y in walk(ps[0].args[0])),
                "an eval expands its text once, before reading it", key="order:eval")
        sens_ok(o.ret, set(), [c[0]], "an eval")
        if b:
            sens_ok(b[0], set(), [c[0]], "the text an eval reads")
    R.floor("text", 20)
    R.floor("sensitivity", 25)
    R.floor("lookup", 15)
    R.floor("eval", 1)


def mixed(V, R, where, go, sens_ok, evals):
    """kinds of parts beside each other: whatever was expanded or looked up on the way is depended on"""
    import itertools
    import os
    B = mk("sblock", shape(chunk("p", WORD)), sym("bs"), mk("list", mk("sref", shape(chunk("p", WORD)), sym("n1"))))
    kinds = {
        "text": lambda x: (V.node("Constant", V.located(shape("k"))), []),
        "expanded text": lambda x: (V.node("PreEvaluated", B), []),
        "a part": lambda x: (x, [x]),
        "a list": lambda x: (V.node("Concat", mk("list", x, V.node("Empty"))), [x]),
        "a reference": lambda x: (V.node("VariableReference", x), [x]),
        "an eval": lambda x: (V.node("Eval", x), [x]),
        "a reference to an eval": lambda x: (V.node("VariableReference", V.node("Concat", mk("list", V.node("Eval", x), V.node("Constant", V.located(shape("k")))))), [x]),
    }
    n = 3 if os.environ.get("VERIF_TIER") == "thorough" else 2
    for ks in itertools.chain(*(itertools.product(kinds, repeat=i) for i in range(1, n + 1))):
        xs = [sym("m%d" % i) for i in range(len(ks))]
        nodes = [kinds[k](x) for k, x in zip(ks, xs)]
        root = V.node("Concat", mk("list", *[a for a, _ in nodes])) if len(ks) > 1 else nodes[0][0]
        lab = " and ".join(ks)
        for o in go(lab, root, {}):
            if o.kind != "ret":
                ps = [e for e in o.ev if getattr(e, "name", "").endswith("process_block")]
                if not (ps and o.facts.get(("disc", ps[-1].ret)) == frozenset([1])):
                    R.violation("text", where, "%s: panics: %s" % (lab, o.msg), key="text:" + lab)
                continue
            gets = [e for e in o.ev if getattr(e, "name", "").endswith("get_variable")]
            names = {sshow(shape(y.a[-1])) for e in gets for y in walk(e.args[-1]) if y.op == "app" and y.a[0] == "symbol"}
            ev = evals(o)
            rest = list(ev) + ([sym("bs")] if "expanded text" in ks else [])
            sens_ok(o.ret, names, rest, lab)
            own = [x for x in ev if x in xs]
            R.check("order", where, own == [y for _, l in nodes for y in l], "%s: expands %s" % (lab, [show(x)[:40] for x in ev]),
                    key="order:" + lab)
            reads = [e for e in o.ev if getattr(e, "name", "").endswith("process_block")]
            n_ev = sum("eval" in k for k in ks)
            R.check("eval", where, len(reads) == n_ev, "%s: reads %d texts as lines" % (lab, len(reads)), key="eval:" + lab)


def loop(V, R, where):
    """any number of parts: the step of the loop over them"""
    L = sym("L")
    try:
        A = V.run(V.node("Concat", L), {})
    except Undecided as e:
        R.undecided("text", where, "any number of parts: %s" % e)
        return
    for o in A.outs:
        ls = [e.loop for e in o.ev if hasattr(e, "loop")]
        if o.kind != "ret" or len(ls) != 1:
            R.undecided("text", where, "any number of parts: %s" % (o.msg or "%d loops" % len(ls)))
            continue
        l = ls[0]
        for ph in l.phis:
            init = l.init[ph]
            for b in l.body:
                nx = b["next"].get(ph, ph)
                R.add("loop transfers", 1)
                if init.op == "app" and init.a[0] == "set0":
                    have = {x for x in atoms(nx)}
                    item = [x for x in walk(nx) if x.op == "app" and x.a[0] == "item"]
                    R.check("sensitivity", where, True if ph in have and any(x.op == "app" and x.a[0] == "sens" for x in have) and len(have) == 2
                            else (False if nx is ph else None), "any number of parts: each adds its own to the set", key="sensitivity:loop")


CHECKS = {"C01": c01}
