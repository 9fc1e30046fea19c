"""C07: every rule read is recorded in the database exactly once.
C10: recipe text is stored unexpanded.  C17: define bodies."""
from ..absint import show, proj, sym, mk, app, walk, TRUE, FALSE, T, adt
from ..recog import fact_bool, variant, variant_set, evs, mentions, variant_names
from ..report import AnchorMissing
from ..mir import strip_generics
from ..line import arg_types
from .conditionals import site, is_eval

PROTO = "parsers::ProtoRule"


def sinks(prog):
    """Functions that turn a finished rule into database content."""
    r = set()
    for f in prog.local.values():
        if f.selfty == "Database" and any(a == PROTO for a in arg_types(prog, f)):
            r.add(strip_generics(f.path))
    if not r:
        raise AnchorMissing("no Database method takes a finished rule")
    return r


def flushes(o, sk):
    return [e for e in evs(o) if e.name in sk]


def is_ok(o):
    return o.kind == "ret" and not (o.ret.op == "adt" and o.ret.a[2] == "Err") and \
        not (o.ret.op == "app" and variant(o.facts, o.ret) == 1)


def c07(ctx, R):
    S = ctx.step()
    prog = ctx.prog
    R.fns |= S.eng.seen_fns()
    where = site(S)
    sk = sinks(prog)
    r0 = S.pre["rule"]
    body = proj(r0, ("Some", 0))
    R.rule("once", "on every path of a line, an open rule is either kept (possibly extended by one recipe line) or handed "
                   "to the database exactly once, unchanged, and then closed; it is never dropped or recorded twice")
    R.rule("ends-rule", "a variable assignment, a directive and a new rule line end the open rule; comments, blank lines, "
                        "conditionals, recipe lines and ignored lines do not")
    R.rule("reaches-db", "what the database method returns becomes the engine's database")
    R.rule("new-rule", "a rule line opens a rule with exactly its targets, prerequisites, kind and initial command")
    R.rule("append", "a recipe line adds exactly one command at the end of the open rule's recipe and changes nothing else")
    R.rule("eof", "the end of the input ends the open rule")
    tvars = variant_names(prog, "parsers::targets::Action") or []
    pf = prog.adts[PROTO]["variants"][0]["fields"]
    for o in S.outs:
        if o.kind != "ret":
            continue
        pm = {k: v[0] for k, v in S.parsed(o).items()}
        fl = flushes(o, sk)
        r2 = S.post(o, "rule")
        d = "line parsed as %s" % ("/".join(k for k, v in pm.items() if v == "Ok" and k != "line") or
                                   "nothing (blank, ignored or erroneous)")
        v0 = variant(o.facts, r0)
        ok = is_ok(o)
        if r2 is r0:
            R.check("once", where, not fl, d + ": rule recorded but left open" if fl else d + ": rule kept")
        elif r2.op == "adt" and r2.a[2] == "Some" and is_ext(r2.a[4][0], body):
            R.check("once", where, not fl, d + ": rule extended%s" % (" and recorded" if fl else ""))
        elif v0 == 0:
            # nothing was open
            R.check("once", where, not fl, d + ": no rule was open%s" % (", one was recorded" if fl else ""))
        else:
            # closed or replaced
            if v0 is None and not fl and not ok:
                R.undecided("once", where, d)
            elif len(fl) == 1:
                same = fl[0].args and any(a is body for a in fl[0].args)
                R.check("once", where, same, d + ": the recorded rule is %s" % show(fl[0].args[-1])[:120])
            else:
                R.violation("once", where, d + ": the open rule is closed and recorded %d times" % len(fl))
        if fl:
            eng = S.cell(o, "engine")
            R.check("reaches-db", where, any(x is fl[0].ret for x in walk(eng)) or
                    any(mentions(eng, p) for i, p in fl[0].posts) or None
                    if not detached(fl[0], eng) else False, d + ": recorded rule %s" % show(eng)[:100])
        # which lines end a rule
        if not ok:
            continue
        if "variable" in pm and pm["variable"] == "Ok" or "directive" in pm and pm["directive"] == "Ok":
            if v0 != 0:
                R.check("ends-rule", where, variant(o.facts, r2) == 0 if variant(o.facts, r2) is not None else None,
                        d + ": open rule %s" % show(r2)[:80])
            incl = [i for i, e in enumerate(o.ev) if not hasattr(e, "loop") and
                    e.name.split("::")[-1] in ("read_makefile", "process_block")]
            lp = [i for i, e in enumerate(o.ev) if hasattr(e, "loop") and any(
                x.name.split("::")[-1] in ("read_makefile", "process_block") for x in evs_loop(e))]
            if fl and (incl or lp):
                fi = [i for i, e in enumerate(o.ev) if not hasattr(e, "loop") and e.name in sk]
                R.check("ends-rule", where, bool(fi) and fi[0] < min(incl + lp),
                        d + ": the rule before an include is recorded before the included file is read")
        elif pm.get("target") == "Ok":
            t = S.parsed(o)["target"][1]
            act = proj(proj(t, ("Ok", 0)), (None, 1))
            vs = variant_set(o.facts, act)
            names = [tvars[i] for i in sorted(vs)] if vs else list(tvars)
            if names == ["NewRule"]:
                newrule(R, S, o, act, r2, pf, where, prog)
            elif variant(o.facts, r2) != 0 and v0 != 0:
                kept = "NewRule" not in names and (r2 is r0 or r2.op == "adt" and r2.a[2] == "Some")
                R.check("ends-rule", where, False if kept else None, d + " that names no rule: open rule %s" % show(r2)[:80])
        else:
            keep = r2 is r0 or (r2.op == "adt" and r2.a[2] == "Some" and is_ext(r2.a[4][0], body))
            if pm.get("target") == "Err" or pm.get("define"):
                continue
            R.check("ends-rule", where, keep, d + ": the open rule becomes %s" % show(r2)[:80])
        if pm.get("recipe") == "Ok" and fact_bool(o, S.pre["ignoring"]) is False:
            call = S.parsed(o)["recipe"][1]
            ln = proj(proj(call, ("Ok", 0)), (None, 1))
            good = r2.op == "adt" and r2.a[2] == "Some" and is_ext(r2.a[4][0], body, ln)
            R.check("append", where, good, "recipe line: rule becomes %s" % show(r2)[:200])
    eof(ctx, R, sk)
    for r, n in (("once", 20), ("ends-rule", 10), ("reaches-db", 3), ("new-rule", 2), ("append", 1), ("eof", 1)):
        R.floor(r, n)


def evs_loop(le):
    for b in le.loop.body:
        for x in b["ev"]:
            if hasattr(x, "loop"):
                for y in evs_loop(x):
                    yield y
            else:
                yield x


def detached(e, eng):
    """The new database value is computed but the engine does not contain it."""
    return not any(x is e.ret for x in walk(eng)) and e.ret.op == "app" and not any(
        mentions(eng, p) for i, p in e.posts)


def is_ext(new, old, line=None):
    """new is the rule old with one command appended to its recipe."""
    if new.op != "adt":
        return False
    changed = []
    for i, v in enumerate(new.a[4]):
        if v is not proj(old, (None, i)):
            changed.append((i, v))
    if len(changed) != 1:
        return False
    i, v = changed[0]
    vec = v.a[4][0] if v.op == "adt" and len(v.a[4]) == 1 else v
    oldvec = proj(proj(old, (None, i)), (None, 0)) if v.op == "adt" else proj(old, (None, i))
    if not (vec.op == "app" and vec.a[0] == "push" and vec.a[1] is oldvec):
        return False
    cmd = vec.a[2]
    if line is None:
        return True
    return cmd is line or (cmd.op == "adt" and len(cmd.a[4]) == 1 and cmd.a[4][0] is line)


def newrule(R, S, o, act, r2, pf, where, prog):
    if not (r2.op == "adt" and r2.a[2] == "Some"):
        R.violation("new-rule", where, "a rule line opens no rule: %s" % show(r2)[:80])
        return
    rule = r2.a[4][0]
    if rule.op != "adt":
        R.undecided("new-rule", where, show(rule)[:120])
        return
    a = prog.adts["parsers::targets::Action"]
    nv = next(v for v in a["variants"] if v["n"] == "NewRule")
    fn = {f["n"]: proj(act, ("NewRule", i)) for i, f in enumerate(nv["fields"])}
    got = dict(zip(rule.a[3], rule.a[4]))
    for nm in ("targets", "deps"):
        if nm in fn and nm in got:
            R.check("new-rule", where, got[nm] is fn[nm], "%s of the new rule: %s" % (nm, show(got[nm])[-80:]))
    if "double_colon" in fn:
        dc = fact_bool(o, fn["double_colon"])
        rt = got.get("rule_type")
        if rt is not None:
            if rt.op == "adt" and dc is not None:
                R.check("new-rule", where, rt.a[2] == ("DoubleColon" if dc else "Standard"),
                        "rule line with %s colon is recorded as %s" % ("double" if dc else "single", rt.a[2]))
            else:
                R.check("new-rule", where, False if rt.op == "adt" else None,
                        "kind of the new rule %s does not depend on the line" % show(rt)[:60])
    if "initial_command" in fn:
        ic = variant(o.facts, fn["initial_command"])
        rec = got.get("recipe")
        vec = rec.a[4][0] if rec is not None and rec.op == "adt" and len(rec.a[4]) == 1 else rec
        if ic == 0:
            R.check("new-rule", where, vec is mk("list"), "no initial command: recipe %s" % show(vec)[:80])
        elif ic == 1:
            c = proj(fn["initial_command"], ("Some", 0))
            good = vec is not None and vec.op == "list" and len(vec.a) == 1 and mentions(vec.a[0], c)
            R.check("new-rule", where, good, "initial command: recipe %s" % show(vec)[-120:])
        else:
            R.check("new-rule", where, False if vec is mk("list") else None,
                    "initial command not looked at: recipe %s" % show(vec)[:80])


def eof(ctx, R, sk):
    from ..block import Block
    B = ctx.memo("block", lambda: Block(ctx.prog))
    R.fns |= B.eng.seen_fns()
    S = ctx.step()
    n = 0
    for o in B.outs:
        if o.kind != "ret" or not is_ok(o):
            continue
        # the state after the last line
        fl = flushes(o, sk)
        st = None
        for e in o.ev:
            if hasattr(e, "loop"):
                for ph, (cell, path) in e.loop.phis.items():
                    if path == () and e.loop.init[ph] is B.initial:
                        st = ph
        if st is None:
            R.undecided("eof", B.fn.loc(), "state after the last line not found")
            n += 1
            continue
        rule = proj(st, (None, S.F.rule))
        v = variant(o.facts, rule)
        n += 1
        if v == 0:
            R.check("eof", B.fn.loc(), not fl, "no rule open at the end of the input: %d recorded" % len(fl))
        elif v == 1 or fl:
            R.check("eof", B.fn.loc(), len(fl) == 1 and any(a is proj(rule, ("Some", 0)) for a in fl[0].args) and
                    not detached(fl[0], o.st.mem[("h", "engine")]),
                    "rule open at the end of the input: recorded %d times" % len(fl))
        else:
            R.violation("eof", B.fn.loc(), "the input can end with a rule still open, which is then dropped")
    return n


CHECKS = {"C07": c07}
