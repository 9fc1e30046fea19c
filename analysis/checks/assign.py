"""C09: what each assignment operator stores.  C17: multi-line definitions."""
import re
from ..absint import show, proj, sym, mk, app, walk, T, INT, TRUE, FALSE, Undecided
from ..recog import variant, variant_set, variant_names, mentions
from ..report import AnchorMissing
from ..grammar import parser, handler, runf, attempt, ok, fresh, ANY, nm
from ..shape import shape, chunk, WORD, BLANKS, SPACES, TEXT
from ..nodes import Nodes, fshow
from .conditionals import site
from .rules import is_ok

# evaluation, interning and the generic expression parser stay opaque; everything else is followed
OPAQUE = r"AstNode::(eval|eval_internal|location)$|^NameCache::|collapsing_concat$|<impl NameCache|Engine::(process_block|read_makefile)$"


def field(prog, path, what, vi=0):
    a = prog.adts.get(path)
    if a is None:
        raise AnchorMissing(path)
    fs = a["variants"][vi]["fields"]
    c = [i for i, f in enumerate(fs) if what in prog.tystr(f["t"])]
    if len(c) != 1:
        raise AnchorMissing("%s field of %s (%d candidates)" % (what, path, len(c)))
    return c[0]


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.N = Nodes(prog)
        VP = "eval::VariableParameters"
        self.iv = field(prog, VP, "AstNode")
        self.ifl = field(prog, VP, "Flavor")
        self.ior = field(prog, VP, "Origin")
        self.idb = field(prog, "Engine", "Database")
        fs = prog.adts["Database"]["variants"][0]["fields"]
        c = [i for i, f in enumerate(fs) if "VariableParameters" in prog.tystr(f["t"]) and
             "FileName" not in prog.tystr(f["t"])]
        if len(c) != 1:
            raise AnchorMissing("variable map of the database")
        self.ivars = c[0]
        self.ndb = len(fs)
        self.nen = len(prog.adts["Engine"]["variants"][0]["fields"])
        self.flavors = [v["n"] for v in prog.adts["eval::Flavor"]["variants"]]
        ast = [f for f in prog.fns.values() if f.local and f.path.endswith("parsers::ast::parse_ast")]
        if not ast:
            raise AnchorMissing("parsers::ast::parse_ast")
        self.opq = OPAQUE + r"|parsers::ast::parse_ast$"

    def parts(self, eng):
        """(root engine, variables term) when only the variables of `root` changed; else None and why."""
        flds = [proj(eng, (None, i)) for i in range(self.nen)]
        db = flds[self.idb]
        dbf = [proj(db, (None, i)) for i in range(self.ndb)]
        v = dbf[self.ivars]
        base = v
        while base.op == "app" and base.a[0] in ("minsert", "mremove"):
            base = base.a[1]
        if base.op == "proj" and base.a[0].op == "proj":
            root = base.a[0].a[0]
        else:
            return None, v, "variables are %s" % show(v)[:120]
        for i, f in enumerate(flds):
            if i != self.idb and f is not proj(root, (None, i)):
                return None, v, "engine field %d changes" % i
        for i, f in enumerate(dbf):
            if i != self.ivars and f is not proj(proj(root, (None, self.idb)), (None, i)):
                return None, v, "database field %d changes" % i
        return root, v, ""


def has_facts(o, key):
    return [(k.a[1], v) for k, v in o.facts.items()
            if isinstance(k, T) and k.op == "app" and k.a[0] == "has" and k.a[2] is key]


def old_simple(C, o, key):
    """Was the old value simply expanded?  (True/False/None)"""
    r = None
    for k, v in o.facts.items():
        if isinstance(k, tuple) and k[0] == "disc" and k[1].op == "proj" and k[1].a[1] == (None, C.ifl):
            m = k[1].a[0]
            if m.op == "app" and m.a[0] == "mval" and m.a[2] is key:
                names = {C.flavors[i] for i in v if i < len(C.flavors)}
                if names == {"Simple"}:
                    r = True
                elif "Simple" not in names:
                    r = False
    return r


def is_node(x, val):
    return x[0] == "node" and x[1] is val


def is_done(x, val):
    """the value of `val`, expanded on the spot"""
    return x[0] == "done" and x[1].op == "app" and str(x[1].a[0]).startswith("ast::AstNode::eval") and x[1].a[1] is val \
        or (x[0] == "done" and x[1].op == "app" and "eval" in str(x[1].a[0]) and x[1].a[1] is val)


def expect(C, R, where, op, o, key, val, what):
    """One outcome of storing `name op value`."""
    eng = o.st.mem[("h", "E")]
    root, v, why = C.parts(eng)
    if root is None:
        R.violation("frame", where, "%s: %s" % (what, why), key="frame:" + op)
        return
    R.ok("frame", where, what + ": nothing but the variable changes")
    base = proj(proj(root, (None, C.idb)), (None, C.ivars))
    hf = has_facts(o, key)
    has = None
    for m, b in hf:
        if m is base:
            has = b
    if has is None and hf:
        has = hf[-1][1]
    k = "value:" + op
    if v is base:
        R.check("value", where, op == "?=" and has is True,
                "%s: nothing is stored%s" % (what, " although the variable is not set" if has is not True else ""), key=k)
        return
    if not (v.op == "app" and v.a[0] == "minsert" and v.a[1] is base):
        R.violation("value", where, "%s: more than one write: %s" % (what, show(v)[:200]), key=k)
        return
    if v.a[2] is not key:
        R.violation("name", where, "%s: stored under %s" % (what, show(v.a[2])[:160]), key="name:" + op)
        return
    vp = v.a[3]
    node, fl, orig = (proj(vp, (None, i)) for i in (C.iv, C.ifl, C.ior))
    old = app("mval", base, key)
    flat = C.N.flat(node)
    f = fl.a[2] if fl.op == "adt" else None
    og = orig.a[2] if orig.op == "adt" else None
    got = "%s: stored %s, flavor %s, origin %s" % (what, fshow(flat), f or show(fl)[:60], og or show(orig)[:60])
    one = flat[0] if len(flat) == 1 else None

    if op == "?=":
        good = has is False and one and is_node(one, val) and f in ("Recursive", "Conditional") and og == "File"
        R.check("value", where, bool(good), got + (" although the variable is set" if has else ""), key=k)
    elif op == "=":
        R.check("value", where, bool(one and is_node(one, val) and f == "Recursive" and og == "File"), got, key=k)
    elif op == "!=":
        R.check("value", where, bool(one and is_node(one, val) and f == "Shell" and og == "File"), got, key=k)
    elif op in (":=", "::="):
        R.check("value", where, bool(one and is_done(one, val) and f == "Simple" and og == "File"), got, key=k)
    elif op == "+=":
        simple = old_simple(C, o, key)

        def new_ok(x):
            if simple is True:
                return is_done(x, val)
            if simple is False or has is False:
                return is_node(x, val)
            return is_done(x, val) if x[0] == "done" else None
        if has is True:
            keep = fl is proj(old, (None, C.ifl))
            okold = len(flat) == 3 and flat[0][0] == "node" and flat[0][1] is proj(old, (None, C.iv)) and \
                flat[1] == ("text", " ")
            n = new_ok(flat[2]) if okold else False
            if okold and n is None:
                n = False       # stored unexpanded without looking at the old flavor
                got += " (whatever the old flavor)"
            R.check("value", where, bool(okold and n and keep), got, key=k)
        elif has is False:
            n = one and (new_ok(one) or (simple is True and is_done(one, val)))
            R.check("value", where, bool(n and f == "Recursive" and og == "File"), got, key=k)
        else:
            R.violation("value", where, got + " without looking whether it is set", key=k)


def c09(ctx, R):
    prog = ctx.prog
    C = Ctx(prog)
    fp, fh = parser(prog, "variable"), handler(prog, "VariableAction")
    R.rule("accepted", "an assignment whose name and value parse is accepted as one, with or without blanks around the "
                       "operator, with or without a value")
    R.rule("name", "the variable written is the interned, trimmed expansion of the text before the operator")
    R.rule("value", "= stores the value unexpanded (recursive); := and ::= expand it once, now (simple); ?= stores only if "
                    "unset; += appends a space and the value to the old one, keeping its flavor, expanded now exactly if the "
                    "old one is simple; != keeps the command (shell)")
    R.rule("frame", "an assignment changes no other part of the engine than the variables")
    R.rule("state", "an assignment outside a define leaves conditionals, skipping and defines alone")
    R.rule("applied", "the line step hands every parsed assignment to that handler: the database afterwards is the one "
                      "written")
    nmc, vc, rest = chunk("nm", WORD), chunk("v", WORD), chunk("w", ANY)
    b = [chunk("b%d" % i, BLANKS) for i in range(3)]
    shapes = []
    for op in ("=", ":=", "::=", "?=", "+=", "!="):
        for lay, pieces in (("name OP value", ((nmc, b[1]), (b[2], vc, rest))),
                            ("nameOPvalue", ((nmc,), (vc, rest))),
                            ("name OPvalue", ((nmc, b[1]), (vc, rest))),
                            ("blanks name OP", ((b[0], nmc, b[1]), ())),
                            ("nameOP blanks", ((nmc,), (b[2],)))):
            shapes.append((op, lay.replace("OP", op), shape(*(pieces[0] + (op,) + pieces[1])),
                           shape(*[p for p in pieces[1] if p is not b[2]])))
    paths = 0
    for op, what, sh, vsh in shapes:
        where = "%s %s" % (fp.path, fp.loc())
        A = attempt(R, "accepted", where, what, lambda: runf(prog, fp, {"BlockSpan": sh}, C.opq))
        if A is None:
            continue
        R.fns |= A.eng.seen_fns()
        got = 0
        for o in A.outs:
            paths += 1
            calls = [k[1] for k, v in o.facts.items() if isinstance(k, tuple) and k[0] == "disc" and
                     k[1].op == "app" and str(k[1].a[0]).endswith("parse_ast")]
            failed = [c for c in calls if variant(o.facts, c) == 1]
            p = ok(o)
            if o.kind != "ret":
                R.violation("accepted", where, "%s panics: %s" % (what, o.msg), key="accepted:" + op)
                continue
            if p is None:
                # the parse of name or value failed
                R.check("accepted", where, bool(failed),
                        "%s: refused although name and value parse: %s" % (what, show(o.ret)[:100]) if not failed
                        else "%s: refused because its name or value is malformed" % what, key="accepted:" + op)
                continue
            got += 1
            R.check("accepted", where, not failed, what + ": accepted", key="accepted:" + op)
            vals = [c for c in calls if c.a[1] is vsh]
            names = [c for c in calls if c.a[1] is shape(nmc)]
            act = p[1]
            key = proj(act, (None, field(prog, "parsers::variable::VariableAction", "VariableName")))
            if not vals:
                R.violation("value", where, "%s: the value is not the text after the operator (parsed: %s)" %
                            (what, ", ".join(show(c.a[1])[:60] for c in calls)), key="value:" + op)
                continue
            val = proj(proj(vals[0], ("Ok", 0)), (None, 1))
            good = False
            if names and key.op == "app" and "intern_variable_name" in str(key.a[0]):
                nast = proj(proj(names[0], ("Ok", 0)), (None, 1))
                txt = key.a[-1]
                ev = [x for x in walk(txt) if x.op == "app" and "eval" in str(x.a[0]) and x.a[1] is nast]
                good = bool(ev) and txt.op == "app" and str(txt.a[0]).endswith("trim")
            R.check("name", where, good, "%s: name is %s" % (what, show(key)[:160]), key="name:" + op)
            H = attempt(R, "applied", where, what, lambda: runf(prog, fh, {"VariableAction": act}, C.opq, state=o.st))
            if H is None:
                continue
            R.fns |= H.eng.seen_fns()
            hw = "%s %s" % (fh.path, fh.loc())
            for q in H.outs:
                if q.kind != "ret":
                    R.violation("value", hw, "%s: handling panics: %s" % (what, q.msg), key="value:" + op)
                    continue
                if q.ret.op == "adt" and q.ret.a[2] == "Err":
                    R.violation("value", hw, "%s: handling fails: %s" % (what, show(q.ret)[:80]), key="value:" + op)
                    continue
                expect(C, R, hw, op, q, key, val, what)
                R.check("state", hw, q.st.mem[("h", "S")] is sym("S"),
                        "%s: parser state becomes %s" % (what, show(q.st.mem[("h", "S")])[:120]), key="state:" + op)
        if not got:
            R.violation("accepted", where, what + ": never accepted", key="accepted:" + op)
    R.count("shapes", len(shapes))
    R.count("paths", paths)
    step_applied(ctx, R, C)
    R.floor("value", 36)
    R.floor("accepted", 60)
    R.floor("name", 30)
    R.floor("applied", 2)


def step_applied(ctx, R, C):
    """Every line step path with a parsed assignment ends in a database written with it."""
    S = ctx.step()
    where = site(S)
    for o in S.outs:
        p = S.parsed(o).get("variable")
        if not p or p[0] != "Ok" or o.kind != "ret":
            continue
        # outcomes the handler reports as errors are not the handler's effect
        act = proj(proj(p[1], ("Ok", 0)), (None, 1))
        key = proj(act, (None, field(ctx.prog, "parsers::variable::VariableAction", "VariableName")))
        if o.ret.op == "adt" and o.ret.a[2] == "Err":
            R.violation("applied", where, "a parsed assignment ends in an error: %s" % show(o.ret)[:120])
            continue
        db = proj(S.cell(o, "engine"), (None, C.idb))
        w = [x for x in walk(db) if x.op == "app" and isinstance(x.a[0], str) and
             re.search(r"Database::|set_variable|append_to_variable", x.a[0]) and key in x.a[1:]]
        top = db.op == "app" and db in w
        skip = [k for k, v in o.facts.items() if isinstance(k, tuple) and k[0] == "disc" and k[1].op == "app" and
                "get_variable" in str(k[1].a[0]) and key in k[1].a and v == frozenset([1])]
        R.check("applied", where, bool(top or skip),
                "a parsed assignment leaves the database as %s" % show(db)[:140])


# ------------------------------------------------------------------ defines
def c17(ctx, R):
    prog = ctx.prog
    C = Ctx(prog)
    fp, fh = parser(prog, "define"), handler(prog, "DefineLine")
    vp, vh = parser(prog, "variable"), handler(prog, "VariableAction")
    R.rule("opens", "define NAME [op] opens a definition of exactly that name, at nesting one, with an empty value of the "
                    "operator's flavor; += keeps the old value")
    R.rule("body", "each line of the body, line end included, unexpanded, is appended to the value; nothing else changes")
    R.rule("nesting", "a nested define or endef is part of the body and counts; the matching endef ends the definition and "
                      "is not part of it")
    R.rule("rest", "a body line takes exactly one line off the input")
    R.rule("simple-body", "the body of a definition made with := is expanded immediately")
    R.rule("errors", "words after endef are an error")
    R.rule("only-define", "while a definition is open every line goes to it and nowhere else")
    ds = "parsers::DefineState"
    a = prog.adts.get(ds)
    if a is None:
        raise AnchorMissing(ds)
    iname = field(prog, ds, "VariableName")
    inest = next(i for i, f in enumerate(a["variants"][0]["fields"]) if i != iname)
    sf = prog.adts["parsers::ParserState"]["variants"][0]["fields"]
    idef = field(prog, "parsers::ParserState", "DefineState")
    v, w, b = chunk("v", WORD), chunk("w", ANY), chunk("b", BLANKS)
    b2 = chunk("b2", BLANKS)
    nmc = chunk("nm", WORD)
    S0 = sym("S")
    d0 = proj(S0, (None, idef))
    dst = proj(d0, ("Some", 0))
    var0, n0 = proj(dst, (None, iname)), proj(dst, (None, inest))

    # -- opening
    kw = {"": "Recursive", "=": "Recursive", ":=": "Simple", "::=": "Simple", "?=": ("Conditional", "Recursive"),
          "!=": "Shell", "+=": None}
    vidx = field(prog, "parsers::variable::VariableAction", "VariableName")
    for op, fl in kw.items():
        sh = shape("define", b, nmc) if not op else shape("define", b, nmc, b2, op)
        what = "define NAME " + op
        where = "%s %s" % (vp.path, vp.loc())
        A = attempt(R, "opens", where, what, lambda: runf(prog, vp, {"BlockSpan": sh}, C.opq))
        if A is None:
            continue
        R.fns |= A.eng.seen_fns()
        got = 0
        for o in A.outs:
            p = ok(o)
            calls = [k[1] for k, x in o.facts.items() if isinstance(k, tuple) and k[0] == "disc" and
                     k[1].op == "app" and str(k[1].a[0]).endswith("parse_ast")]
            if p is None:
                failed = [c for c in calls if variant(o.facts, c) == 1]
                R.check("opens", where, bool(failed) and o.kind == "ret", "%s: %s %s" % (
                    what, "refused: the name is malformed" if failed else "refused:", show(o.ret)[:80]), key="opens:" + op)
                continue
            got += 1
            act = p[1]
            key = proj(act, (None, vidx))
            names_nm = key.op == "app" and "intern_variable_name" in str(key.a[0]) and \
                any(x.op == "chunk" and x.a[0] == "nm" for x in walk(key.a[-1])) and \
                not any(x.op == "chunk" and x.a[0] in ("b", "b2") for x in walk(key.a[-1])
                        if not (key.a[-1].op == "app" and "trim" in str(key.a[-1].a[0])))
            H = attempt(R, "opens", where, what, lambda: runf(prog, vh, {"VariableAction": act}, C.opq, state=o.st))
            if H is None:
                continue
            R.fns |= H.eng.seen_fns()
            hw = "%s %s" % (vh.path, vh.loc())
            for q in H.outs:
                if q.kind != "ret":
                    if variant(q.facts, d0) == 1:
                        continue        # a define inside a define never gets here (only-define)
                    R.violation("opens", hw, "%s: panics: %s" % (what, q.msg), key="opens:" + op)
                    continue
                st = proj(q.st.mem[("h", "S")], (None, idef))
                dd = st.a[4][0] if st.op == "adt" and st.a[2] == "Some" else None
                good = dd is not None and dd.op == "adt" and dd.a[4][iname] is key and dd.a[4][inest] is INT(1) and names_nm
                R.check("opens", hw, bool(good), "%s: definition becomes %s" % (what, show(st)[:140]), key="opens:" + op)
                for i in range(len(sf)):
                    if i != idef and proj(q.st.mem[("h", "S")], (None, i)) is not proj(S0, (None, i)):
                        R.violation("opens", hw, "%s: parser state field %s changes" % (what, sf[i]["n"]), key="opens:" + op)
                root, vv, why = C.parts(q.st.mem[("h", "E")])
                if root is None:
                    R.violation("opens", hw, "%s: %s" % (what, why), key="opens:" + op)
                    continue
                base = proj(proj(root, (None, C.idb)), (None, C.ivars))
                has = None
                for m, x in has_facts(q, key):
                    has = x
                okv = False
                if vv.op == "app" and vv.a[0] == "minsert" and vv.a[1] is base and vv.a[2] is key:
                    n, f, og = (proj(vv.a[3], (None, i)) for i in (C.iv, C.ifl, C.ior))
                    flat = C.N.flat(n)
                    fn = f.a[2] if f.op == "adt" else None
                    old = app("mval", base, key)
                    if fl is None and has is True:
                        okv = f is proj(old, (None, C.ifl)) and flat[:1] == [("node", proj(old, (None, C.iv)))] and \
                            all(x[0] == "text" and not str(x[1]).strip() for x in flat[1:])
                    elif fl is None:
                        okv = has is False and not flat and fn == "Recursive"
                    else:
                        okv = not flat and (fn == fl or (isinstance(fl, tuple) and fn in fl))
                        if op == "?=" and has is not False:
                            okv = False     # a conditional definition must not touch a variable that is set
                elif op == "?=" and vv is base:
                    okv = has is True
                R.check("opens", hw, okv, "%s: variable becomes %s" % (what, show(vv)[:200]), key="opens-value:" + op)
        if not got:
            R.violation("opens", where, what + ": never accepted", key="opens:" + op)

    # -- body lines
    keep, up, down, err = "append", "nest", "unnest", "error"
    cases = [
        ("text line", (v, "\n"), (w,), keep), ("last line without line end", (v,), (), keep),
        ("blank line", ("\n",), (w,), keep), ("indented text", (b, v, "\n"), (w,), keep),
        ("two words", (v, b, chunk("v2", WORD), "\n"), (w,), keep),
        ("recipe-like line", ("\t", v, "\n"), (w,), keep),
        ("line ending in a comment", (v, b, "#", chunk("v2", WORD), "\n"), (w,), keep),
        ("assignment", (v, "=", chunk("v2", WORD), "\n"), (w,), keep),
        ("conditional", ("ifeq", b, "(", v, ",", chunk("v2", WORD), ")", "\n"), (w,), keep),
        ("word starting with endef", ("endef", v, "\n"), (w,), keep),
        ("word starting with define", ("define", v, "\n"), (w,), keep),
        ("define NAME", ("define", b, v, "\n"), (w,), up), ("indented define NAME", (b2, "define", b, v, "\n"), (w,), up),
        ("endef", ("endef", "\n"), (w,), down), ("indented endef", (b, "endef", "\n"), (w,), down),
        ("endef at the end of the input", ("endef",), (), down), ("endef and blanks", ("endef", b, "\n"), (w,), down),
        ("endef and a comment", ("endef", b, "#", v, "\n"), (w,), down),
        ("endef and words", ("endef", b, v, "\n"), (w,), err),
    ]
    for pre in ("", " ", "\t", "\t ", "  "):
        for end in ("\n", " \n", "\t\n", " #\n", "\t#", " # x\n", "\t#x\n", "\r\n", " \t#x # y\n"):
            cases.append(("%r" % (pre + "endef" + end), (pre + "endef" + end,), (w,) if end.endswith("\n") else (), down))
        for end in (" x\n", "\tx\n", " x # y\n", "\tx=\n", " #\n", "\r\n", ""):
            cases.append(("%r" % (pre + "define" + end), (pre + "define" + end,), (w,) if end.endswith("\n") else (), up))
        for word in ("defined x", "defines", "endefs", "Endef", "endef:", "define:", "define=x", "end", "x endef", "undefine x"):
            cases.append(("%r" % (pre + word), (pre + word + "\n",), (w,), keep))
        cases += [("%r" % (pre + x), (pre + x,), (w,) if x.endswith("\n") else (), err) for x in ("endef x\n", "endef\tx", "endef = # y\n")]
    where = "%s %s" % (fp.path, fp.loc())
    hw = "%s %s" % (fh.path, fh.loc())
    for what, line, rest, kind in cases:
        sh = shape(*(line + rest))
        try:
            A = runf(prog, fp, {"BlockSpan": sh}, C.opq)
        except Undecided as e:
            R.undecided("body", where, "%s: %s" % (what, e))
            continue
        R.fns |= A.eng.seen_fns()
        k = what.replace(" ", "-")
        n = 0
        for o in A.outs:
            p = ok(o)
            if o.kind != "ret":
                R.violation("body", where, "%s panics: %s" % (what, o.msg), key="body:" + k)
                continue
            if kind is err:
                msg = show(o.ret)
                R.check("errors", where, p is None, "%s: %s" % (what, msg[:160]), key="errors:" + k)
                continue
            if p is None:
                failed = [x for x, y in o.facts.items() if isinstance(x, tuple) and x[0] == "disc" and
                          x[1].op == "app" and str(x[1].a[0]).endswith("parse_ast") and y == frozenset([1])]
                R.check("body", where, bool(failed), "%s: refused%s: %s" % (
                    what, " because it is malformed" if failed else "", show(o.ret)[:80]), key="body:" + k)
                continue
            n += 1
            R.check("rest", where, p[0] is shape(*rest), "%s: leaves %s" % (what, show(p[0])[:80]), key="rest:" + k)
            H = attempt(R, "body", where, what, lambda: runf(prog, fh, {"DefineLine": p[1]}, C.opq, state=o.st))
            if H is None:
                continue
            R.fns |= H.eng.seen_fns()
            seen = set()
            for q in H.outs:
                if variant(q.facts, d0) == 0:
                    continue    # not in a definition: excluded by only-define
                if q.kind != "ret":
                    R.violation("body", hw, "%s: panics: %s" % (what, q.msg), key="body:" + k)
                    continue
                st = proj(q.st.mem[("h", "S")], (None, idef))
                others = [sf[i]["n"] for i in range(len(sf)) if i != idef and
                          proj(q.st.mem[("h", "S")], (None, i)) is not proj(S0, (None, i))]
                if others:
                    R.violation("nesting", hw, "%s: parser state %s changes" % (what, others), key="nesting:" + k)
                closed = st.op == "adt" and st.a[2] == "None"
                nest = None
                if st is d0:
                    nest = 0
                elif st.op == "adt" and st.a[2] == "Some":
                    x = st.a[4][0]
                    if proj(x, (None, iname)) is var0:
                        y = proj(x, (None, inest))
                        nest = 0 if y is n0 else 1 if y is app("Add", n0, INT(1)) else -1 if y is app("Sub", n0, INT(1)) \
                            else None
                one = nest_is_one(q, n0)
                if kind is down:
                    good = (closed and one is True) or (nest == -1 and one is False)
                    if one is None:
                        good = False
                    seen.add(closed)
                else:
                    good = nest == (1 if kind is up else 0)
                R.check("nesting", hw, good, "%s with nesting %s: definition becomes %s" % (
                    what, "1" if one else "above 1" if one is False else "any", show(st)[:100]), key="nesting:" + k)
                root, vv, why = C.parts(q.st.mem[("h", "E")])
                base = proj(proj(sym("E"), (None, C.idb)), (None, C.ivars))
                if root is not sym("E"):
                    R.violation("body", hw, "%s: %s" % (what, why or "the engine changes"), key="body:" + k)
                    continue
                if closed:
                    R.check("body", hw, vv is base, "the closing line: variables become %s" % show(vv)[:120], key="body:" + k)
                    continue
                old = app("mval", base, var0)
                okv = False
                got = show(vv)[:160]
                if vv.op == "app" and vv.a[0] == "minsert" and vv.a[1] is base and vv.a[2] is var0:
                    flat = C.N.flat(proj(vv.a[3], (None, C.iv)))
                    f = proj(vv.a[3], (None, C.ifl))
                    has = None
                    for m, x in has_facts(q, var0):
                        has = x
                    got = fshow(flat)
                    simple = old_simple(C, q, var0)
                    if what == "text line" and simple is None and has is True:
                        R.violation("simple-body", hw, "the body of a definition made with := is stored unexpanded",
                                    key="simple-body")
                    if has is False:
                        okv = len(flat) == 1 and is_text(flat[0], line)
                    elif simple is True:
                        okv = len(flat) == 2 and flat[0] == ("node", proj(old, (None, C.iv))) and flat[1][0] == "done"
                    else:
                        okv = len(flat) == 2 and flat[0] == ("node", proj(old, (None, C.iv))) and \
                            f is proj(old, (None, C.ifl)) and is_text(flat[1], line)
                R.check("body", hw, okv, "%s: the value becomes %s" % (what, got), key="body:" + k)
            if kind is down and len(seen) != 2:
                R.violation("nesting", hw, "%s: %s" % (what, "always ends" if True in seen else "never ends") +
                            " the definition", key="nesting:" + k)
        if kind is not err and not n:
            R.violation("body", where, what + ": never accepted", key="body:" + k)

    # -- dispatch
    S = ctx.step()
    dpre, rpre = S.pre["define"], S.pre["rule"]
    sw = site(S)
    R.rule("not-both", "no rule is open inside a definition, and no definition starts with a rule left open")
    for o in S.outs:
        if o.kind != "ret":
            continue
        pm = {k: x[0] for k, x in S.parsed(o).items()}
        v0, r0 = variant(o.facts, dpre), variant(o.facts, rpre)
        d2, r2 = S.post(o, "define"), S.post(o, "rule")

        def some(t, pre, pv):
            if t is pre:
                return pv
            if t.op == "adt":
                return 1 if t.a[2] == "Some" else 0
            return None
        if not (o.ret.op == "adt" and o.ret.a[2] == "Err"):
            # assuming not both before; unchanged fields keep what held
            if not (d2 is dpre and r2 is rpre):
                both = some(d2, dpre, v0) != 0 and some(r2, rpre, r0) != 0
                if both and (v0 == 0 and d2 is dpre or r0 == 0 and r2 is rpre):
                    both = False
                if both and d2 is dpre and r0 == 1:
                    both = False        # a rule was open before, so no definition
                if both and r2 is rpre and v0 == 1:
                    both = False        # a definition was open before, so no rule
                R.check("not-both", sw, not both, "line parsed as %s: definition %s, rule %s" % (
                    [k for k, x in pm.items() if x == "Ok"], show(d2)[:60], show(r2)[:60]))
        if pm.get("comment") == "Ok":
            continue            # lines that are only a comment are dropped everywhere
        pm.pop("comment", None)
        if not pm and not is_ok(o):
            continue            # a malformed comment is an error
        if r0 == 1:
            R.check("only-define", sw, "define" not in pm, "a line after a rule (so outside any definition)")
        elif v0 == 1:
            bad = [x for x in pm if x not in ("define", "recipe")]
            R.check("only-define", sw, not bad, "a line of an open definition %s" % (
                "is parsed as %s" % "/".join(bad) if bad else "is only that"))
            if pm.get("define") is None:
                R.violation("only-define", sw, "a line of an open definition is parsed as %s" % "/".join(pm))
        else:
            R.check("only-define", sw, v0 == 0 and "define" not in pm,
                    "no definition is open" if v0 == 0 else
                    "a line is parsed as %s without looking for an open definition" % "/".join(pm))
    R.count("body_shapes", len(cases))
    R.count("opening_shapes", len(kw))
    R.floor("body", len(cases))
    R.floor("opens", 14)
    R.floor("only-define", 4)
    R.floor("not-both", 2)


def is_text(x, line):
    """the leaf is the parsed, unexpanded text of exactly this line"""
    if x[0] != "node":
        return False
    t = x[1]
    c = [y for y in walk(t) if y.op == "app" and str(y.a[0]).endswith("parse_ast")]
    return len(c) == 1 and t is proj(proj(c[0], ("Ok", 0)), (None, 1)) and c[0].a[1] is shape(*line)


def nest_is_one(o, n0):
    for k, v in o.facts.items():
        if isinstance(k, T) and k.op == "app" and n0 in k.a and k.a[0] in ("Eq", "Ne", "Gt", "Lt", "Le", "Ge"):
            c = k.a[2] if k.a[1] is n0 else k.a[1]
            if c.op == "int":
                if k.a[0] == "Eq" and c.a[0] == 1:
                    return v
                if k.a[0] == "Ne" and c.a[0] == 1:
                    return not v
                if k.a[1] is n0 and k.a[0] == "Gt" and c.a[0] == 1:
                    return not v
                if k.a[1] is n0 and k.a[0] == "Le" and c.a[0] == 1:
                    return v
        if isinstance(k, tuple) and k[0] == "val" and k[1] is n0:
            return (v.a[0] if isinstance(v, T) else v) == 1
    return None


CHECKS = {"C09": c09, "C17": c17}
