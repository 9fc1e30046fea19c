"""C05: conditionals nest, `else` flips once, `endif` closes; ignoring is
exactly "some enclosing conditional is not taken".
C06: a line in an untaken branch has no effect but on the nesting."""
import itertools
from ..absint import show, proj, sym, mk, app, walk, TRUE, FALSE, INT, LAST, t_eq, t_len, T
from ..line import Step
from ..recog import (fact_bool, variant, variant_set, elem_of, facts_about, exhausted, is_empty, quantifier,
                     evs, mentions, variant_names)
from ..report import AnchorMissing


def site(S):
    return "%s %s" % (S.fn.path, S.fn.loc())


def cond_case(S, o, names):
    """Variant names of the parsed conditional this path covers, and its term; None if none was parsed."""
    p = S.parsed(o).get("conditional")
    if not p or p[0] != "Ok":
        return None, None
    c = proj(proj(p[1], ("Ok", 0)), (None, 1))
    v = variant_set(o.facts, c)
    return (sorted(v) if v is not None else list(range(len(names)))), c


def unchanged(o, M, conds, pc, top):
    """The stack is as it was, maybe by putting back what was there."""
    if conds is pc:
        return True
    if not (conds.op == "app" and conds.a[0] == "setidx" and conds.a[1] is pc and conds.a[2] is LAST):
        return False
    el = conds.a[3]
    if el.op != "adt":
        return False
    for i, f in enumerate(el.a[4]):
        old = proj(top, (None, i))
        if f is old or (i == M.i_seen and fact_bool(o, f) is not None and fact_bool(o, f) == fact_bool(o, old)):
            continue
        if i == M.i_interp and variant(o.facts, f) is not None and variant(o.facts, f) == variant(o.facts, old):
            continue
        return False
    return True


class CondModel:
    def __init__(self, S):
        self.S = S
        prog = S.prog
        call = None
        for o in S.outs:
            p = S.parsed(o).get("conditional")
            if p:
                call = p[1]
                break
        if call is None:
            raise AnchorMissing("the conditional-line parser is not called by the per-line step")
        self.cpath = "parsers::conditional::Conditional"
        self.names = variant_names(prog, self.cpath)
        if self.names is None:
            raise AnchorMissing(self.cpath)
        for need in ("IfEq", "IfNEq", "Else", "EndIf"):
            if need not in self.names:
                raise AnchorMissing("conditional variant " + need)
        vt = prog.types[S.F.fields[S.F.conds]["t"]]
        et = prog.types[vt["args"][0]]
        ea = prog.adts.get(et.get("path"))
        if ea is None:
            raise AnchorMissing("conditional stack element type")
        fs = ea["variants"][0]["fields"]
        self.epath = et["path"]
        self.i_interp = self.i_seen = None
        for i, f in enumerate(fs):
            t = prog.types[f["t"]]
            if t["s"] == "bool":
                self.i_seen = i
            elif t["k"] == "adt" and len(prog.adts.get(t["path"], {"variants": []})["variants"]) == 2:
                self.i_interp = i
                self.ipath = t["path"]
        if self.i_interp is None or self.i_seen is None:
            raise AnchorMissing("interpretation / seen-else fields of the conditional stack element")

    def interp(self, e):
        return proj(e, (None, self.i_interp))

    def seen(self, e):
        return proj(e, (None, self.i_seen))

    # property of an element: "not executing"
    def not_exec(self, el, facts):
        v = variant(facts, self.interp(el))
        if v is not None:
            return v == self.NE
        for k, val in facts.items():
            if isinstance(k, T) and k.op == "app" and k.a[0] == "Eq" and k.a[1] is self.interp(el) \
                    and k.a[2].op == "adt":
                eq = (k.a[2].a[1] == self.NE)
                return eq if val else not eq
        return None


def on_stack(M, t, env):
    """The value of a term over the given stacks; None if it depends on something else."""
    for k, x in env["stacks"]:
        if t is k:
            return list(x)
    if t is M.S.pre["ignoring"]:
        return any(n for n, _ in env["pre"])
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == "int":
        return t.a[0]
    if t.op == "adt":
        return t.a[1] if t.a[0] == M.ipath else None
    for el in env["els"]:
        if t is el or t is M.interp(el) or t is M.seen(el):
            x = on_stack(M, el.a[1], env)
            i = len(x) - 1 if el.a[2] is LAST else el.a[2].a[0]
            if not 0 <= i < len(x):
                raise IndexError
            return x[i] if t is el else x[i][1] if t is M.seen(el) else M.NE if x[i][0] else 1 - M.NE
    if t.op != "app":
        return None
    n = t.a[0]
    xs = [on_stack(M, y, env) for y in t.a[1:]] if all(isinstance(y, T) for y in t.a[1:]) else [None]
    if any(x is None for x in xs):
        return None
    try:
        return {"len": lambda a: len(a), "Not": lambda a: not a, "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b,
                "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b,
                "And": lambda a, b: a and b, "Or": lambda a, b: a or b, "BitAnd": lambda a, b: a and b, "BitOr": lambda a, b: a or b}[n](*xs)
    except (KeyError, TypeError):
        return None


def counterexample(M, o):
    """Stacks on which this path leaves `ignoring` other than it must be."""
    S = M.S
    conds, ign, pc = S.post(o, "conds"), S.post(o, "ignoring"), S.pre["conds"]
    popped = conds.op == "app" and conds.a[0] == "pop" and conds.a[1] is pc
    if not popped and conds is not pc:
        return None
    terms = [ign] + [k if isinstance(k, T) else k[1] for k in o.facts if isinstance(k, T) or isinstance(k, tuple) and isinstance(k[1], T)]
    els = []
    for t in terms:
        for x in walk(t):
            if x.op == "app" and x.a[0] == "index" and (x.a[1] is conds or x.a[1] is pc) and (x.a[2] is LAST or x.a[2].op == "int") and x not in els:
                els.append(x)
    one = [(False, False), (True, False), (False, True), (True, True)]
    for n in range(4):
        for pre in itertools.product(one, repeat=n):
            if popped and not pre:
                continue
            post = pre[:-1] if popped else pre
            env = {"pre": pre, "stacks": [(pc, pre)] + ([(conds, post)] if popped else []), "els": els}
            try:
                v = on_stack(M, ign, env)
                if v is None:
                    return None
                sure = True
                for k, val in o.facts.items():
                    t = k if isinstance(k, T) else k[1] if isinstance(k, tuple) and k[0] == "disc" else None
                    if t is None:
                        sure = False
                        break
                    if not any(x is pc or x is conds or x is S.pre["ignoring"] for x in walk(t)):
                        continue
                    r = on_stack(M, t, env)
                    if r is None or (r not in val if not isinstance(k, T) else r != val):
                        sure = False
                        break
            except IndexError:
                continue
            want = any(x for x, _ in post)
            if sure and bool(v) != want:
                return "[%s]" % ", ".join("untaken" if x else "taken" for x, _ in post)
    return None


def ignoring_ok(M, o):
    ok, why = ignoring_shape(M, o)
    if ok is None:
        w = counterexample(M, o)
        if w:
            return False, "ignoring := %s is wrong for the conditionals %s" % (show(M.S.post(o, "ignoring"))[:120], w)
    return ok, why


def ignoring_shape(M, o):
    """post.ignoring == any(not executing, post.conds)?  (True/False/None, why)"""
    S = M.S
    conds, ign = S.post(o, "conds"), S.post(o, "ignoring")
    pc, pi = S.pre["conds"], S.pre["ignoring"]
    if conds is pc and ign is pi:
        return True, "unchanged"
    pre_ign = fact_bool(o, pi)
    val = fact_bool(o, ign)
    last = None
    if conds.op == "app" and conds.a[0] in ("push",):
        last = conds.a[2]
    elif conds.op == "app" and conds.a[0] == "setidx" and conds.a[2] is LAST:
        last = conds.a[3]
    last_ne = M.not_exec(last, o.facts) if last is not None else None
    pushed = conds.op == "app" and conds.a[0] == "push" and conds.a[1] is pc
    # exact value known from the shape of the stack
    expect = None
    if last_ne is True:
        expect = True
    elif pushed and pre_ign is True:
        expect = True
    elif pushed and pre_ign is False and last_ne is False:
        expect = False
    elif conds is pc and pre_ign is not None:
        expect = pre_ign
    elif is_empty(o, conds) is True:
        expect = False
    if val is not None:
        if expect is not None:
            # feasible only when the path does not contradict its own loop facts
            if expect != val and infeasible(M, o, conds, expect):
                return True, "infeasible path"
            return expect == val, "ignoring becomes %s while the stack %s an untaken conditional" % (
                val, "has" if expect else "has not")
        el_ne = [k for k, v in o.facts.items() if isinstance(k, tuple) and k[0] == "disc" and v == frozenset([M.NE])
                 and any(elem_of(x, conds) for x in walk(k[1]))]
        el_e = [k for k, v in o.facts.items() if isinstance(k, tuple) and k[0] == "disc" and v == frozenset([1 - M.NE])
                and any(elem_of(x, conds) for x in walk(k[1]))]
        if val is True and el_ne:
            return True, "an untaken conditional was found on the stack"
        q = None
        for k, v in o.facts.items():
            if isinstance(k, T):
                qq = quantifier(o, k, conds, M.not_exec)
                if qq:
                    q = (qq == "any") is v
        if q is not None:
            return (q == val), "ignoring set from a scan of the stack"
        if val is False and exhausted(o, conds):
            if el_ne:
                return False, "ignoring becomes False although an untaken conditional was seen"
            bad = loop_bad(M, o, conds)
            if bad is None:
                return None, "loop over the stack not recognised"
            return (not bad), "ignoring becomes False after a scan that %s" % (
                "does not stop at untaken conditionals" if bad else "found none untaken")
        if val is True and el_e and not el_ne:
            return False, "ignoring becomes True because of a taken conditional"
        if not facts_about(o.facts, conds) and ign in (TRUE, FALSE):
            return False, "ignoring becomes %s without looking at the remaining conditionals" % val
        return None, "ignoring=%s not recognised" % show(ign)[:120]
    q = quantifier(o, ign, conds, M.not_exec)
    if q is not None:
        return q == "any", "ignoring := %s" % show(ign)[:120]
    # ignoring |= ...
    if ign.op == "app" and ign.a[0] in ("Or", "BitOr") and pushed:
        parts = [x for x in ign.a[1:] if x is not pi]
        if len(parts) == 1 and last_ne is not None and fact_bool(o, parts[0]) is not None:
            return fact_bool(o, parts[0]) == last_ne, "ignoring |= new conditional"
    if ign is pi and not mentions(conds, mk("bot")):
        # stack changed, ignoring kept
        if pushed and (pre_ign is True or last_ne is False):
            return True, "kept"
        if pushed and last_ne is True and pre_ign is False:
            return False, "an untaken conditional is pushed but lines are not ignored"
        if not pushed:
            return False, "the stack changes but ignoring keeps its old value"
    if not any(x is conds or elem_of(x, conds) for x in walk(ign)) and not facts_about(o.facts, conds):
        return False, "ignoring := %s does not depend on the remaining conditionals" % show(ign)[:100]
    return None, "ignoring=%s not recognised" % show(ign)[:120]


def infeasible(M, o, conds, expect):
    """A path that scanned the whole stack without meeting the untaken element it ends with
    (or met one where none exists) cannot happen."""
    if expect is True:
        return exhausted(o, conds) and loop_bad(M, o, conds) is False
    return any(isinstance(k, tuple) and k[0] == "disc" and v == frozenset([M.NE]) and
               any(elem_of(x, conds) for x in walk(k[1])) for k, v in o.facts.items())


def loop_bad(M, o, conds):
    """Some iteration of the scan over conds goes on after an untaken conditional
    without remembering it (None: no loop recognised)."""
    from ..recog import loops_of, elem_in
    seen = False
    for L in loops_of(o):
        for b in L.body:
            el = elem_in(b["facts"], conds)
            if el is None:
                # an iteration that does not look at its element
                if any(same(x, conds) for k in b["facts"] for x in walk(k[1] if isinstance(k, tuple) else k)):
                    return True
                continue
            seen = True
            el = base_el(b["facts"], conds)
            c = M.not_exec(el, b["facts"])
            if c is None:
                return None if not only_hasnext(b["facts"], conds) else True
            if c is True:
                return True
    return False if seen else None


def only_hasnext(facts, conds):
    for k in facts:
        t = k[1] if isinstance(k, tuple) else k
        if any(elem_of(x, conds) for x in walk(t)):
            return False
    return True


def same(x, conds):
    return x is conds


def base_el(facts, conds):
    for k in facts:
        for x in walk(k[1] if isinstance(k, tuple) else k):
            if elem_of(x, conds):
                return x
    return None


def is_eval(e):
    return e.name.split("::")[-1] in ("eval", "eval_internal") and "AstNode" in e.name


def arg_values(o, c, variants, S):
    """The texts the path compares: terms depending on the evaluation of the two arguments."""
    return None


def compare_fact(o, evals):
    """The Eq fact over the two evaluated arguments: (term, value), or None."""
    r = []
    for k, v in o.facts.items():
        t = k[1] if isinstance(k, tuple) and k[0] == "val" else k
        if isinstance(t, T) and t.op == "app" and t.a[0] == "Eq" and not isinstance(k, tuple):
            a = {i for i, e in enumerate(evals) if mentions(t.a[1], e.ret)}
            b = {i for i, e in enumerate(evals) if mentions(t.a[2], e.ret)}
            if a or b:
                r.append((t, v, a, b))
    return r


def c05(ctx, R):
    S = ctx.step()
    R.fns |= S.eng.seen_fns()
    M = CondModel(S)
    N = M.names
    where = site(S)
    R.rule("ifeq", "ifeq/ifneq outside an untaken branch evaluate both arguments and push one conditional, taken iff the "
                   "trimmed texts are equal (ifeq) / different (ifneq)")
    R.rule("nested", "ifeq/ifneq inside an untaken branch push one conditional and evaluate nothing")
    R.rule("else", "else flips the innermost conditional once; a second else or a stray else is an error")
    R.rule("endif", "endif closes exactly the innermost conditional; a stray endif is an error")
    R.rule("ignoring", "after every line, lines are ignored iff some enclosing conditional is not taken")
    R.rule("others", "no other kind of line touches the conditional stack")
    R.rule("initial", "a makefile starts with no open conditional and not ignoring")
    # which value means "taken": what an ifeq on equal texts pushes
    taken = set()
    rows = []
    for o in S.outs:
        vs, c = cond_case(S, o, N)
        if vs is None:
            continue
        rows.append((o, [N[v] for v in vs], c))
        if o.kind == "ret" and [N[v] for v in vs] == ["IfEq"]:
            conds = S.post(o, "conds")
            ev = [e for e in evs(o) if is_eval(e)]
            cf = [v for t, v, a, b in compare_fact(o, ev)]
            if True in cf and conds.op == "app" and conds.a[0] == "push" and fact_bool(o, S.pre["ignoring"]) is not True:
                x = variant(o.facts, M.interp(conds.a[2]))
                if x is not None:
                    taken.add(x)
    if len(taken) != 1:
        if not taken:
            raise AnchorMissing("no path pushes a conditional for an ifeq on equal texts")
        R.violation("ifeq", where, "ifeq on equal texts pushes both taken and untaken conditionals")
        return
    M.NE = 1 - taken.pop()
    pc = S.pre["conds"]
    top = app("index", pc, LAST)
    for o, vs, c in rows:
        if o.kind == "panic":
            continue        # C12's business
        conds, ign = S.post(o, "conds"), S.post(o, "ignoring")
        d = "%s: stack %s" % ("/".join(vs), show(conds)[:160])
        is_err = o.ret.op == "adt" and o.ret.a[2] == "Err"
        pre_ign = fact_bool(o, S.pre["ignoring"])
        ev = [e for e in evs(o) if is_eval(e)]
        okv, why = ignoring_ok(M, o)
        if not is_err:
            R.check("ignoring", where, okv, "%s: %s" % ("/".join(vs), why))
        if set(vs) <= {"IfEq", "IfNEq"}:
            if is_err:
                # an argument that cannot be evaluated may be reported; the stack must not change then
                R.check("ifeq", where, conds is pc or None, d + " on an error")
                continue
            one = conds.op == "app" and conds.a[0] == "push" and conds.a[1] is pc
            if not one:
                R.violation("ifeq", where, d + ": exactly one conditional must be pushed")
                continue
            el = conds.a[2]
            sn = fact_bool(o, M.seen(el))
            if sn is not False:
                R.check("ifeq", where, False if sn is True else None, d + ": a fresh conditional has seen no else")
            if pre_ign is True:
                R.check("nested", where, not ev, "%s in an untaken branch: %d evaluations" % (d, len(ev)))
                continue
            if pre_ign is None and not ev:
                # not evaluated, and the path never asked whether lines are ignored
                R.violation("ifeq", where, d + ": condition not evaluated outside an untaken branch")
                continue
            if pre_ign is None and ev:
                R.violation("nested", where, d + ": condition evaluated although the line may be in an untaken branch")
            ne = M.not_exec(el, o.facts)
            cf = compare_fact(o, ev)
            args_ok = set()
            for e in ev:
                for i in (0, 1):
                    if any(e.args and e.args[0] is proj(c, (v, i)) for v in vs):
                        args_ok.add(i)
            if args_ok != {0, 1}:
                R.check("ifeq", where, None if len(ev) >= 2 else False,
                        d + ": both arguments must be evaluated (%d evaluations)" % len(ev))
                continue
            good = [x for x in cf if x[2] and x[3] and not (x[2] & x[3])]
            if not good:
                R.check("ifeq", where, None if cf or ne is None else False,
                        d + ": no comparison of the two evaluated arguments decides the branch")
                continue
            t, v = good[0][0], good[0][1]
            trims = [side.op == "app" and "trim" in str(side.a[0]) for side in t.a[1:]]
            for side, tr in zip(t.a[1:], trims):
                if not any(x.op == "app" and str(x.a[0]).split("::")[-1] in ("trim", "into_string") for x in walk(side)):
                    R.undecided("ifeq", where, "comparison of %s" % show(side)[:100])
            if trims[0] != trims[1]:
                R.violation("ifeq", where, d + ": only one of the two texts is trimmed before the comparison")
            if ne is None or len(vs) != 1:
                R.undecided("ifeq", where, d + ": interpretation of the new conditional")
                continue
            want_taken = v if vs == ["IfEq"] else not v
            R.check("ifeq", where, (not ne) == want_taken,
                    "%s with texts %s: pushed as %s" % (vs[0], "equal" if v else "different",
                                                        "untaken" if ne else "taken"))
        elif vs == ["Else"]:
            fol = variant(o.facts, proj(c, ("Else", 0)))
            if fol == 1:
                R.check("else", where, None, "else with a nested condition")
                continue
            empty = is_empty(o, pc)
            if empty is True:
                R.check("else", where, is_err and "UnattachedElse" in show(o.ret) and conds is pc,
                        "else with no open conditional: %s" % show(o.ret)[-120:])
                continue
            seen = fact_bool(o, M.seen(top))
            if seen is True:
                R.check("else", where, is_err and "TooManyElses" in show(o.ret) and unchanged(o, M, conds, pc, top),
                        "second else of one conditional: %s" % show(o.ret)[-120:])
                continue
            if is_err:
                R.violation("else", where, "a first else of an open conditional is refused: %s" % show(o.ret)[-120:])
                continue
            if empty is None:
                R.violation("else", where, d + ": accepted without checking that a conditional is open")
                continue
            if seen is None:
                R.violation("else", where, d + ": accepted without checking that no else was seen before")
                continue
            if not (conds.op == "app" and conds.a[0] == "setidx" and conds.a[1] is pc and conds.a[2] is LAST):
                R.violation("else", where, d + ": else must change exactly the innermost conditional")
                continue
            el = conds.a[3]
            R.check("else", where, {True: True, False: False}.get(fact_bool(o, M.seen(el))),
                    d + ": seen_else must be set")
            a, b = variant(o.facts, M.interp(top)), variant(o.facts, M.interp(el))
            R.check("else", where, None if a is None or b is None else a != b, d + ": must flip taken/untaken")
        elif vs == ["EndIf"]:
            empty = is_empty(o, pc)
            if empty is True:
                R.check("endif", where, is_err and "UnattachedEndIf" in show(o.ret),
                        "endif with no open conditional: %s" % show(o.ret)[-120:])
            elif is_err:
                R.violation("endif", where, "endif of an open conditional is refused: %s" % show(o.ret)[-120:])
            elif empty is None:
                R.violation("endif", where, d + ": accepted without checking that a conditional is open")
            else:
                R.check("endif", where, conds is app("pop", pc), d + ": must close exactly the innermost conditional")
        else:
            R.undecided("ifeq", where, "%s is not implemented beyond parsing" % "/".join(vs))
    for o in S.outs:
        vs, c = cond_case(S, o, N)
        if vs is None and o.kind == "ret":
            R.check("others", where, S.post(o, "conds") is pc and S.post(o, "ignoring") is S.pre["ignoring"],
                    "line parsed as %s: stack %s ignoring %s" % (
                        {k: v[0] for k, v in S.parsed(o).items()}, show(S.post(o, "conds"))[:80],
                        show(S.post(o, "ignoring"))[:40]))
    initial_state(ctx, R, S)
    for r, n in (("ifeq", 4), ("nested", 1), ("else", 4), ("endif", 2), ("ignoring", 6), ("others", 10), ("initial", 1)):
        R.floor(r, n)


def initial_state(ctx, R, S):
    """The state process_block hands to the first line."""
    from ..block import Block
    B = ctx.memo("block", lambda: Block(ctx.prog))
    if B.initial is None:
        R.undecided("initial", B.fn.loc(), "initial parser state not recognised")
        return
    st = B.initial
    ok = proj(st, (None, S.F.conds)) is mk("list") and proj(st, (None, S.F.ignoring)) is FALSE
    R.check("initial", "%s %s" % (B.fn.path, B.fn.loc()), ok, "initial state %s" % show(st)[:200])


def c06(ctx, R):
    S = ctx.step()
    R.fns |= S.eng.seen_fns()
    where = site(S)
    R.rule("no-effect", "while lines are ignored, no line changes the engine, the name cache, the open rule or the open "
                        "define, and nothing is evaluated")
    R.rule("invariant", "a define is never open while lines are ignored, nor together with an open rule")
    names = variant_names(ctx.prog, "parsers::conditional::Conditional") or []
    for o in S.outs:
        if fact_bool(o, S.pre["ignoring"]) is False:
            continue
        dopen = variant(o.facts, S.pre["define"])
        pm = {k: v[0] for k, v in S.parsed(o).items()}
        if dopen == 1 and "define" in pm:
            continue          # unreachable while ignoring, by the invariant below
        if o.kind == "panic":
            # reached with lines possibly ignored?
            vs, c = cond_case(S, o, names)
            if vs is None and dopen == 1:
                continue
            if vs is not None:
                continue
            R.violation("no-effect", o.where[1] if o.where else where,
                        "panic reachable on an ignored line: %s" % (o.msg,))
            continue
        ch = [w for w in ("rule", "define") if S.post(o, w) is not S.pre[w]]
        ch += [c for c in ("engine", "names") if S.cell(o, c) is not sym(c)]
        ev = [e for e in evs(o) if is_eval(e)]
        vs, c = cond_case(S, o, names)
        explicit = fact_bool(o, S.pre["ignoring"]) is True
        if vs is not None and not explicit:
            # else / endif / unguarded paths: still no effect beyond the nesting unless known not ignoring
            pass
        R.check("no-effect", where, not ch and not ev,
                "%s line parsed as %s changes %s, evaluates %d" % (
                    "ignored" if explicit else "possibly ignored", pm, ", ".join(ch) or "nothing", len(ev)))
    for o in S.outs:
        if o.kind != "ret":
            continue
        d2, r2 = S.post(o, "define"), S.post(o, "rule")
        d0, r0, i0 = S.pre["define"], S.pre["rule"], S.pre["ignoring"]
        dn = variant(o.facts, d2)
        if dn == 0:
            continue
        # invariant at entry: define open => not ignoring and no rule
        if variant(o.facts, d0) == 1 and (fact_bool(o, i0) is True or variant(o.facts, r0) == 1):
            continue
        pm = {k: v[0] for k, v in S.parsed(o).items()}
        if d2 is d0 and r2 is r0 and S.post(o, "ignoring") is i0:
            continue
        if d2 is d0 and variant(o.facts, d0) is None:
            # the path never asked; the define parser comes first when one is open
            if variant(o.facts, r0) == 1:
                continue
        if dn is None and d2 is d0:
            R.undecided("invariant", where, "line %s" % pm)
            continue
        ign = fact_bool(o, S.post(o, "ignoring"))
        rr = variant(o.facts, r2)
        if variant(o.facts, d0) == 1:
            # a define is open at entry: the invariant gives the entry values
            if S.post(o, "ignoring") is i0:
                ign = False
            if r2 is r0:
                rr = 0
        R.check("invariant", where, None if ign is None or rr is None else (ign is False and rr == 0),
                "line parsed as %s leaves a define open with ignoring=%s rule=%s" % (pm, ign, show(r2)[:60]))
    R.floor("no-effect", 5)
    R.floor("invariant", 2)


CHECKS = {"C05": c05, "C06": c06}
