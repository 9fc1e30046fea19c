"""C04: the database is a persistent map.  C08: what recording a rule does.
C16: names are interned per namespace, stably."""
import re
from ..absint import show, proj, sym, mk, app, walk, TRUE, FALSE, T, subst, INT, t_eq, t_len, rebuild
from ..recog import fact_bool, variant, mentions, loop_source, closed, loops_of
from ..report import AnchorMissing
from ..single import analyse
from ..line import arg_types
from ..mir import strip_generics
from .rules import PROTO


def method(prog, ty, name):
    f = prog.one(r"^%s::%s$" % (ty, name))
    if f is None:
        raise AnchorMissing("%s::%s" % (ty, name))
    return f


def opq_text(name, callee):
    return bool(re.search(r"into_string$|collapsing_concat|^ast::", name))


CUTS = re.compile(r"(it_)?(filter|filter_map|take|take_while|skip|skip_while|step_by|flat_map|flatten|nth|next|map_while|chain|cycle|peekable|scan|rev_?skip)$")


def drop_inserts(t, keys):
    """t with the map updates at the given keys undone (reading other keys)."""
    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x.op == "app" and x.a[0] == "minsert" and x.a[2] in keys:
            return go(x.a[1])
        if x.op in ("sym", "int", "bool", "str"):
            return x
        na = tuple(go(y) for y in x.a)
        if na == x.a:
            return x
        if x.op == "proj":
            return proj(na[0], na[1])
        if x.op == "app":
            return rebuild(na[0], na[1:])
        return mk(x.op, *na)
    return go(t)


def table(A, rename=None):
    """Getter outcomes as a comparable set of (facts, value)."""
    rows = set()
    for o in A.outs:
        if o.kind != "ret":
            rows.add(("panic", o.msg))
            continue
        fs = []
        for k, v in o.facts.items():
            if isinstance(k, tuple):
                fs.append((k[0], rename(k[1]) if rename else k[1], v))
            else:
                t = rename(k) if rename else k
                if t is TRUE or t is FALSE:
                    continue
                fs.append(("b", t, v))
        rows.add((frozenset(fs), rename(o.ret) if rename else o.ret))
    return rows


def c04(ctx, R):
    prog = ctx.prog
    R.rule("read-back", "reading a key just written gives exactly the value written")
    R.rule("frame", "writing one key leaves every other key and every other kind of content as it was")
    R.rule("persistent", "database operations take the database by shared reference and the types in it have no interior "
                         "mutability, so an existing database never changes")
    R.rule("enumerate", "enumerating rules and looking one up read the same rules")
    a0, S = sym("a0"), {}
    getters = {"rule": ("get_rule", 1), "variable": ("get_variable", 1), "target variable": ("get_variable_for_target", 2)}
    setters = {"rule": "add_rule", "variable": "set_variable", "target variable": "set_variable_for_target"}
    keys = {"rule": (sym("k1"),), "variable": (sym("k1"),), "target variable": (sym("k1"), sym("k2"))}
    for kind, sn in setters.items():
        f = method(prog, "Database", sn)
        args = {0: a0}
        if kind == "rule":
            ra = prog.adts.get("Rule")
            fk = method(prog, "Rule", "target_fname")
            args[1] = sym("v")
            kk = analyse(prog, fk, args={0: sym("v")}).outs
            if len(kk) != 1:
                raise AnchorMissing("Rule::target_fname")
            key = (kk[0].ret,)
        else:
            key = keys[kind]
            for i, k in enumerate(key):
                args[1 + i] = k
            args[1 + len(key)] = sym("v")
        A = analyse(prog, f, opq_text, args=args)
        R.fns |= A.eng.seen_fns()
        for o in A.outs:
            if o.kind != "ret":
                R.violation("read-back", f.loc(), "%s can panic: %s" % (sn, o.msg))
                continue
            db2 = o.ret
            if db2.op == "app" and db2.a[0] not in ("minsert",):
                R.undecided("read-back", f.loc(), show(db2)[:120])
                continue
            for gk, (gn, n) in getters.items():
                g = method(prog, "Database", gn)
                # same key
                if gk == kind:
                    B = analyse(prog, g, args=dict([(0, db2)] + [(1 + i, k) for i, k in enumerate(key)]))
                    R.fns |= B.eng.seen_fns()
                    want = sym("v")
                    for q in B.outs:
                        # facts of the setter's path carry over
                        if any(o.facts.get(k) is not None and o.facts[k] != v for k, v in q.facts.items()):
                            continue
                        got = q.ret
                        ok = got.op == "adt" and got.a[2] == "Some" and (
                            got.a[4][0] is want or (got.a[4][0].op == "adt" and want in got.a[4][0].a[4]))
                        und = not ok and undecided_map(got, q)
                        R.check("read-back", g.loc(), None if und else ok,
                                "%s after %s gives %s" % (gn, sn, show(got)[:160]))
                # another key of the same or any other kind
                other = tuple(sym("j%d" % i) for i in range(n))
                B1 = analyse(prog, g, args=dict([(0, db2)] + [(1 + i, k) for i, k in enumerate(other)]))
                B0 = analyse(prog, g, args=dict([(0, a0)] + [(1 + i, k) for i, k in enumerate(other)]))
                ren = lambda t: drop_inserts(subst(t, {db2: a0}), set(key))
                r1, r0 = table(B1, ren), table(B0)
                R.check("frame", f.loc(), r1 == r0 if r1 == r0 or not und_rows(r1) else None,
                        "%s of another key after %s: %s" % (gn, sn, "unchanged" if r1 == r0 else
                                                          [show(x[1])[:100] for x in r1 - r0 if isinstance(x[1], T)]))
                if gk == kind and n == 2:
                    # same target, other variable
                    other = (key[0], sym("j1"))
                    B1 = analyse(prog, g, args={0: db2, 1: other[0], 2: other[1]})
                    B0 = analyse(prog, g, args={0: a0, 1: other[0], 2: other[1]})
                    H = [k for k, v in o.facts.items() if isinstance(k, T)]
                    r1 = table2(B1, o, lambda t: drop_inserts(subst(t, {db2: a0}), {key[1]}))
                    r0 = table2(B0, o, None)
                    R.check("frame", f.loc(), same_lookup(r1, r0),
                            "%s of another variable of the same target after %s" % (gn, sn))
    # enumerate
    A = analyse(prog, method(prog, "Database", "rules"), args={0: a0})
    G = analyse(prog, method(prog, "Database", "get_rule"), args={0: a0})
    src = {x.a[1] for o in G.outs for k in o.facts if isinstance(k, T) for x in walk(k)
           if x.op == "app" and x.a[0] == "has"}
    for o in A.outs:
        r = o.ret
        m = {x.a[1] for x in walk(r) if x.op == "app" and x.a[0] in ("values",)}
        R.check("enumerate", "Database::rules", None if len(src) != 1 or len(m) != 1 else m == src,
                "rules() reads %s, get_rule %s" % ([show(x) for x in m], [show(x) for x in src]))
        cut = sorted({x.a[0] for x in walk(r) if x.op == "app" and CUTS.match(str(x.a[0]))} |
                     {x.op for x in walk(r) if CUTS.match(x.op)})
        R.check("enumerate", "Database::rules", not cut, "rules() lists all of them%s" % (", except what %s leaves out" % cut[0] if cut else ""),
                key="enumerate:partial")
    # persistence by construction
    db = prog.adts.get("Database")
    if db is None:
        raise AnchorMissing("Database")
    for f in prog.local.values():
        if f.selfty == "Database" and f.pub and not f.generic:
            t0 = arg_types(prog, f)[:1]
            if t0 and "Database" in t0[0]:
                R.check("persistent", f.loc(), t0[0] == "&Database" or "&'" in t0[0] and "mut" not in t0[0],
                        "%s takes %s" % (f.path, t0[0]))
    bad, seen = interior(prog, "Database")
    R.check("persistent", "Database", not bad, "types reachable from the database: %d; interior mutability: %s" % (
        len(seen), ", ".join(bad) or "none"))
    for u in prog.unsafe:
        # unsafe code may read; a store through a raw pointer could change a shared database
        for f in prog.local.values():
            if f.path == u["fn"]:
                st = raw_stores(prog, f)
                R.check("persistent", f.loc(), not st, "unsafe code in %s: %s" % (
                    f.path, "; ".join(st) or "no store through a raw pointer"))
    R.floor("read-back", 3)
    R.floor("frame", 9)
    R.floor("persistent", 6)


def raw_stores(prog, f):
    r = []
    for b in f.blocks:
        for s in b["s"]:
            if s[0] == "=" and any(e[0] == "*" for e in s[1][1:]) and prog.types[f.locals[s[1][0]]]["k"] == "ptr":
                r.append("store through a raw pointer")
    for b, c, t in f.calls():
        nm = strip_generics((c or {}).get("res") or "")
        if re.search(r"ptr::(write|copy|swap|replace)|from_raw|as_mut$|transmute", nm):
            r.append("calls " + nm)
    return r


def undecided_map(t, q):
    return any(x.op == "app" and x.a[0] in ("has", "mval") for x in walk(t)) and not t.op == "adt"


def und_rows(rows):
    return any(isinstance(x[1], T) and x[1].op == "app" for x in rows if len(x) == 2)


def table2(A, o, ren):
    rows = set()
    for q in A.outs:
        fs = []
        bad = False
        for k, v in q.facts.items():
            if isinstance(k, tuple):
                fs.append((k[0], ren(k[1]) if ren else k[1], v))
                continue
            t = ren(k) if ren else k
            if t is TRUE or t is FALSE:
                if (t is TRUE) != v:
                    bad = True
                continue
            if t in o.facts:
                if o.facts[t] != v:
                    bad = True
                continue
            fs.append(("b", t, v))
        if not bad:
            rows.add((frozenset(fs), ren(q.ret) if ren else q.ret))
    return rows


def same_lookup(r1, r0):
    if r1 == r0:
        return True
    # a fresh (empty) inner map answers None to everything, as no map does
    if {x[1] for x in r1} == {x[1] for x in r0}:
        return True
    if all(isinstance(x[1], T) and x[1].op == "adt" for x in r1 | r0):
        return False
    return None


INTERIOR = re.compile(r"(cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)|sync::(Mutex|RwLock|OnceLock|LazyLock)|"
                      r"atomic::Atomic)")


def interior(prog, root):
    """Interior-mutable types reachable through the fields of an ADT (type arguments included)."""
    seen, bad = set(), set()

    def ty(tid):
        if tid in seen:
            return
        seen.add(tid)
        t = prog.types[tid]
        p = t.get("path", "")
        if INTERIOR.search(p):
            bad.add(t["s"])
        if t["k"] in ("ptr",):
            bad.add(t["s"])
        for a in t.get("args", []) or []:
            if isinstance(a, int):
                ty(a)
        if t.get("inner") is not None and isinstance(t.get("inner"), int):
            ty(t["inner"])
        ad = prog.adts.get(p)
        if ad and ad.get("local"):
            for v in ad["variants"]:
                for f in v["fields"]:
                    ty(f["t"])
    for v in prog.adts[root]["variants"]:
        for f in v["fields"]:
            ty(f["t"])
    return sorted(bad), seen


# ------------------------------------------------------------------ C08

def c08(ctx, R):
    prog = ctx.prog
    R.rule("all-targets", "every target of a rule line is recorded")
    R.rule("key", "a rule is recorded under its own target's name")
    R.rule("with-recipe", "a rule with a recipe replaces what its targets had")
    R.rule("no-recipe-new", "a rule without recipe for a fresh target is recorded as written")
    R.rule("no-recipe-known", "a rule without recipe adds its prerequisites to a known target and keeps its recipe and kind")
    R.rule("frame", "recording a rule changes no variable and no other target")
    fs = [f for f in prog.local.values() if f.selfty == "Database" and PROTO in arg_types(prog, f)]
    if len(fs) != 1:
        raise AnchorMissing("the Database method recording a rule (%d candidates)" % len(fs))
    f = fs[0]
    A = analyse(prog, f, lambda n, c: n.endswith("into_string"))
    R.fns |= A.eng.seen_fns()
    at = arg_types(prog, f)
    db0, proto = sym("a%d" % next(i for i, t in enumerate(at) if "Database" in t)), \
        sym("a%d" % at.index(PROTO))
    names = "a%d" % next(i for i, t in enumerate(at) if "NameCache" in t)
    pa = prog.adts[PROTO]["variants"][0]["fields"]
    P = {x["n"]: proj(proto, (None, i)) for i, x in enumerate(pa)}
    for need in ("targets", "deps", "recipe", "rule_type"):
        if need not in P:
            raise AnchorMissing("field %s of a finished rule" % need)
    dbf = prog.adts["Database"]["variants"][0]["fields"]
    i_rules = next((i for i, x in enumerate(dbf) if x["n"] == "rules"), None)
    if i_rules is None:
        raise AnchorMissing("rules of the database")
    rf = [x["n"] for x in prog.adts["Rule"]["variants"][0]["fields"]]
    cmds = proj(P["recipe"], (None, 0))
    loc = "%s %s" % (f.path, f.loc())
    n = 0
    for o in A.outs:
        if o.kind != "ret":
            R.violation("all-targets", loc, "recording a rule can panic: %s" % o.msg)
            continue
        L = None
        for l in loops_of(o):
            pos, src = loop_source(l)
            if src is P["targets"]:
                L = l
        if L is None:
            if fact_bool(o, t_eq(t_len(P["targets"]), INT(0))) is True:
                continue
            und = any(x.op in ("phi",) or (x.op == "app" and x.a[0] == "fold") for x in walk(o.ret))
            R.check("all-targets", loc, None if und else False, "no pass over all the targets: %s" % show(o.ret)[:120])
            continue
        pos, src = loop_source(L)
        done = o.facts.get(app("hasnext", src, pos)) is False
        R.check("all-targets", loc, done, "the pass over the targets %s" % ("goes to the end" if done else "can stop early"))
        pre = closed([e for e in o.ev])
        dbphi = [ph for ph in L.phis if L.init[ph] is db0]
        if len(dbphi) != 1:
            R.undecided("frame", loc, "accumulator of the pass not recognised")
            continue
        ph = dbphi[0]
        if not (o.ret is ph or subst(o.ret, pre) is ph):
            R.check("frame", loc, None, "result %s" % show(o.ret)[:120])
            continue
        t = app("item", src, pos)
        for b in L.body:
            n += 1
            known = closed(b["ev"])
            nx = subst(b["next"].get(ph, ph), known)
            facts = dict(o.facts)
            facts.update(b["facts"])

            class Q:
                pass
            q = Q()
            q.facts = facts
            empty = fact_bool(q, t_eq(t_len(cmds), INT(0)))
            if nx.op != "adt":
                R.check("all-targets", loc, False if nx is ph else None, "a target is skipped: %s" % show(nx)[:100])
                continue
            others = [i for i in range(len(dbf)) if i != i_rules and nx.a[4][i] is not proj(ph, (None, i))]
            R.check("frame", loc, not others, "fields of the database changed besides the rules: %s" %
                    [dbf[i]["n"] for i in others])
            m = nx.a[4][i_rules]
            m0 = proj(ph, (None, i_rules))
            if not (m.op == "app" and m.a[0] == "minsert" and m.a[1] is m0):
                und = any(x.op == "phi" and x is not ph and x not in L.phis for x in walk(m))
                R.check("frame", loc, None if und else False, "rules become %s" % show(m)[:160])
                continue
            key, val = m.a[2], m.a[3]
            txt = [x for x in walk(key) if x.op == "app" and str(x.a[0]).endswith("into_string")]
            R.check("key", loc, bool(txt) and all(x.a[1] is t for x in txt), "key of the target's rule: %s" % show(key)[:140])
            has = facts.get(app("has", m0, key))
            old = app("mval", m0, key)
            if val.op != "adt" or val.a[0] != "Rule":
                R.undecided("with-recipe", loc, show(val)[:160])
                continue
            V = dict(zip(rf, val.a[4]))
            O = {nm: proj(old, (None, i)) for i, nm in enumerate(rf)}
            depset = {x for x in walk(V.get("dep_names", mk("bot"))) if x.op == "app" and x.a[0] == "mapset"}
            fresh = {"target": V["target"] is t, "target_fname": V["target_fname"] is key,
                     "deps": V["deps"] is P["deps"],
                     "recipe": V["recipe"] is P["recipe"], "rule_type": V["rule_type"] is P["rule_type"],
                     "dep_names": len(depset) == 1 and V["dep_names"] in depset and
                     next(iter(depset)).a[1] is P["deps"]}
            ext = {"target": V["target"] is O["target"], "target_fname": V["target_fname"] in (O["target_fname"], key),
                   "deps": V["deps"] is app("concat", O["deps"], P["deps"]),
                   "recipe": V["recipe"] is O["recipe"], "rule_type": V["rule_type"] is O["rule_type"],
                   "dep_names": any(V["dep_names"] is rebuild("union", (O["dep_names"], d)) for d in depset)}

            def judge(rule, tab, what):
                for nm, okk in tab.items():
                    und = not okk and any(x.op == "phi" and x is not ph and x not in L.phis for x in walk(V[nm]))
                    if not okk and nm == "dep_names" and not und:
                        und = any(x.op == "app" and x.a[0] in ("fold", "mapseq", "filter") for x in walk(V[nm]))
                    R.check(rule, loc, None if und else okk, "%s: %s of the recorded rule is %s" % (what, nm, show(V[nm])[:140]))
            if empty is False:
                judge("with-recipe", fresh, "rule with a recipe")
            elif empty is True and has is False:
                judge("no-recipe-new", fresh, "rule without recipe, fresh target")
            elif empty is True and has is True:
                judge("no-recipe-known", ext, "rule without recipe, known target")
            elif empty is True:
                R.violation("no-recipe-known", loc, "a rule without recipe is recorded without looking whether the target "
                                                    "is known")
            else:
                R.violation("with-recipe", loc, "whether the rule has a recipe is not looked at")
    R.floor("all-targets", 1)
    R.floor("key", 2)
    R.floor("with-recipe", 5)
    R.floor("no-recipe-known", 5)
    R.floor("no-recipe-new", 5)


# ------------------------------------------------------------------ C16

def c16(ctx, R):
    prog = ctx.prog
    R.rule("intern", "interning stores the exact text given in one namespace and returns the symbol of that text there")
    R.rule("lookup", "looking a name up reads the namespace its kind is interned in, with the exact text")
    R.rule("resolve", "resolving a file name reads the namespace file names are interned in")
    R.rule("separate", "file names and variable names are kept apart")
    a0, tx = sym("a0"), sym("txt")
    ns = {}
    for kind, intern, look in (("file", "intern_file_name", "file_name"),
                               ("variable", "intern_variable_name", "variable_name")):
        f = method(prog, "NameCache", intern)
        A = analyse(prog, f, args={1: tx})
        R.fns |= A.eng.seen_fns()
        for o in A.outs:
            post = o.st.mem[("h", "a0")]
            syms = [x for x in walk(o.ret) if x.op == "app" and x.a[0] == "symbol"] if o.kind == "ret" else []
            gets = [x for x in walk(o.ret) if x.op == "app" and x.a[0] == "symget"] if o.kind == "ret" else []
            if not syms and len(gets) == 1 and o.ret.op == "adt":
                # the name was known already: its own symbol, and nothing changes
                R.check("intern", f.loc(), gets[0].a[2] is tx and post is a0,
                        "%s returns the symbol of %s" % (intern, show(gets[0].a[2])[:80]))
                continue
            if len(syms) != 1:
                R.undecided("intern", f.loc(), show(o.ret)[:120])
                continue
            s = syms[0]
            fld = s.a[1]
            ns[kind] = fld
            R.check("intern", f.loc(), s.a[2] is tx, "%s returns the symbol of %s" % (intern, show(s.a[2])[:80]))
            want = app("interned", fld, s.a[2])
            n = len(prog.adts["NameCache"]["variants"][0]["fields"])
            ch = [i for i in range(n) if proj(post, (None, i)) is not proj(a0, (None, i))]
            R.check("intern", f.loc(), len(ch) == 1 and proj(post, (None, ch[0])) is want,
                    "%s changes %s" % (intern, show(post)[:140]))
        g = method(prog, "NameCache", look)
        B = analyse(prog, g, args={0: a0, 1: tx})
        R.fns |= B.eng.seen_fns()
        for o in B.outs:
            gets = [x for k in list(o.facts) + [o.ret] for x in walk(k[1] if isinstance(k, tuple) else k)
                    if x.op == "app" and x.a[0] == "symget"]
            if not gets or kind not in ns:
                R.undecided("lookup", g.loc(), show(o.ret)[:100])
                continue
            R.check("lookup", g.loc(), all(x.a[1] is ns[kind] and x.a[2] is tx for x in gets),
                    "%s looks up %s" % (look, show(gets[0])[:100]))
            v = variant(o.facts, gets[0])
            if v is not None:
                some = o.ret.op == "adt" and o.ret.a[2] == "Some"
                R.check("lookup", g.loc(), some == (v == 1) and (not some or mentions(o.ret, proj(gets[0], ("Some", 0)))),
                        "%s gives %s when the name is %s" % (look, show(o.ret)[:80], "known" if v else "unknown"))
    g = method(prog, "NameCache", "resolve_file_name")
    B = analyse(prog, g, args={0: a0, 1: sym("f")})
    for o in B.outs:
        rs = [x for x in walk(o.ret) if x.op == "app" and x.a[0] == "symresolve"]
        if not rs or "file" not in ns:
            R.undecided("resolve", g.loc(), show(o.ret)[:100])
        else:
            R.check("resolve", g.loc(), rs[0].a[1] is ns["file"] and mentions(rs[0].a[2], sym("f")),
                    "resolve_file_name reads %s" % show(rs[0])[:100])
    if len(ns) == 2:
        R.check("separate", "NameCache", ns["file"] is not ns["variable"], "namespaces %s / %s" % (
            show(ns["file"]), show(ns["variable"])))
    R.floor("intern", 4)
    R.floor("lookup", 4)
    R.floor("resolve", 1)


CHECKS = {"C04": c04, "C08": c08, "C16": c16}
