"""Recognisers shared by the checks: what a term or a loop summary computes."""
from .absint import T, mk, app, walk, proj, show, TRUE, FALSE, INT, LAST, t_not, adt


def fact_bool(o, t):
    """Truth value of boolean term t on path o, if the path settles it."""
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    v = o.facts.get(t)
    if v is not None:
        return v
    if t.op == "app" and t.a[0] == "Not":
        r = fact_bool(o, t.a[1])
        return None if r is None else not r
    if t.op == "app" and t.a[0] in ("Or", "And"):
        x, y = fact_bool(o, t.a[1]), fact_bool(o, t.a[2])
        if t.a[0] == "Or":
            if x or y:
                return True
            return False if x is False and y is False else None
        if x is False or y is False:
            return False
        return True if x and y else None
    if t.op == "app" and t.a[0] == "Eq" and t.a[2].op == "adt" and not t.a[2].a[4]:
        v = variant_set(o.facts, t.a[1])
        if v is not None:
            if t.a[2].a[1] not in v:
                return False
            if len(v) == 1:
                return True
    return None


def variant_set(facts, t):
    """Variants the facts allow for enum term t (None: unconstrained)."""
    if t.op == "adt":
        return frozenset([t.a[1]])
    return facts.get(("disc", t))


def variant(facts, t):
    v = variant_set(facts, t)
    return next(iter(v)) if v is not None and len(v) == 1 else None


def elem_of(t, coll):
    """t is an element of the collection term coll."""
    return t.op == "app" and t.a[0] in ("item", "index") and same_coll(t.a[1], coll)


def same_coll(a, coll):
    if a is coll:
        return True
    return a.op == "app" and a.a[0] == "rev" and a.a[1] is coll


def mentions(t, sub):
    return any(x is sub for x in walk(t))


def facts_about(facts, sub):
    """Facts whose term contains sub."""
    r = []
    for k, v in facts.items():
        t = k[1] if isinstance(k, tuple) else k
        if isinstance(t, T) and mentions(t, sub):
            r.append((k, v))
    return r


def exhausted(o, coll):
    """The path leaves an iteration over the whole of coll at its end."""
    from .absint import t_len
    for k, v in o.facts.items():
        if isinstance(k, T) and k.op == "app":
            if k.a[0] == "hasnext" and same_coll(k.a[1], coll) and v is False:
                return True
            if k.a[0] == "Lt" and v is False and k.a[2] is t_len(coll) and k.a[1].op == "phi":
                return True
    return False


def is_empty(o, coll):
    from .absint import t_len, t_eq
    t = t_eq(t_len(coll), INT(0))
    return fact_bool(o, t)


def loops_of(o):
    return [e.loop for e in o.ev if hasattr(e, "loop")]


def evs(o, deep=True):
    """Opaque calls on the path, those of loop bodies included."""
    for e in o.ev:
        if hasattr(e, "loop"):
            if deep:
                for b in e.loop.body:
                    for x in b["ev"]:
                        if not hasattr(x, "loop"):
                            yield x
                        else:
                            for bb in x.loop.body:
                                for y in bb["ev"]:
                                    if not hasattr(y, "loop"):
                                        yield y
        else:
            yield e


def quantifier(o, t, coll, elem_case):
    """What boolean term t says about the elements of coll.

    elem_case(elem, facts) -> True/False/None tells whether the element has
    the property under the facts; returns 'any', 'none', or None."""
    if t.op == "app" and t.a[0] == "Not":
        q = quantifier(o, t.a[1], coll, elem_case)
        return {"any": "none", "none": "any"}.get(q)
    if t.op == "app" and t.a[0] in ("any", "all") and same_coll(t.a[1], coll):
        body = t.a[2]
        pol = pred_polarity(body, coll, elem_case)
        if t.a[0] == "any" and pol is True:
            return "any"
        if t.a[0] == "all" and pol is False:
            return "none"
        return None
    if t.op == "app" and t.a[0] in ("find", "position"):
        return None
    if t.op == "phi":
        for L in loops_of(o):
            if t in L.phis and L.init[t] in (FALSE, TRUE):
                neg = L.init[t]
                pos = t_not(neg)
                if not any(elem_of(x, coll) for b in L.body for k in b["facts"]
                           for x in walk(k[1] if isinstance(k, tuple) else k)):
                    continue
                ok = True
                for b in L.body:
                    nx = b["next"].get(t, t)
                    el = elem_in(b["facts"], coll)
                    c = elem_case(el, b["facts"]) if el is not None else None
                    if nx is t and c is False:
                        continue
                    if nx is pos and c is True:
                        continue
                    if nx is t and c is True and b["facts"].get(t) is (pos is TRUE):
                        continue
                    # an Or of the flag with the test
                    if nx.op == "app" and nx.a[0] == "Or" and nx.a[1] is t and pos is TRUE and el is None:
                        e2 = [x for x in walk(nx.a[2]) if elem_of(x, coll)]
                        if e2 and pred_polarity_el(nx.a[2], e2[0], elem_case) is True:
                            continue
                    ok = False
                if ok:
                    return "any" if pos is TRUE else "none"
    return None


def elem_in(facts, coll):
    for k in facts:
        for x in walk(k[1] if isinstance(k, tuple) else k):
            if elem_of(x, coll):
                return x
    return None


def pred_polarity(body, coll, elem_case):
    """body: predicate term over a generic element; True if it is the property, False if its negation."""
    els = [x for x in walk(body) if elem_of(x, coll)]
    if not els:
        return None
    return pred_polarity_el(body, els[0], elem_case)


def pred_polarity_el(body, el, elem_case):
    if body.op == "app" and body.a[0] == "Not":
        r = pred_polarity_el(body.a[1], el, elem_case)
        return None if r is None else not r
    if body.op == "cases":
        res = set()
        for d, v in body.a[0]:
            facts = {}
            for k, x in d:
                facts[k] = x
            c = elem_case(el, facts)
            if c is None or v not in (TRUE, FALSE):
                return None
            res.add(c is (v is TRUE))
        return next(iter(res)) if len(res) == 1 else None
    if body.op == "app" and body.a[0] == "Eq":
        x, c = body.a[1], body.a[2]
        if c.op == "adt" and not c.a[4]:
            return elem_case(el, {("disc", x): frozenset([c.a[1]])})
    return elem_case(el, {body: True})


def variant_names(prog, path):
    a = prog.adts.get(path)
    return [v["n"] if "n" in v else v["name"] for v in a["variants"]] if a else None


# ---------------------------------------------------------------- closed forms of element-wise loops

def loop_source(L):
    """(position phi, source) when the loop walks a collection one item at a time, to its end."""
    for ph in L.phis:
        nx = {b["next"].get(ph) for b in L.body}
        if nx and all(n is not None and n.op == "app" and n.a[0] == "succ" and n.a[1] is ph for n in nx):
            for b in L.body:
                for k in b["facts"]:
                    t = k if isinstance(k, T) else k[1]
                    if t.op == "app" and t.a[0] == "hasnext" and t.a[2] is ph:
                        return ph, t.a[1]
    return None, None


def close_loop(L, known):
    """phi -> value after the loop, for accumulators that gather one thing per item."""
    from .absint import subst
    out = {}
    pos, src = loop_source(L)
    if pos is None or len(L.body) != 1:
        return out
    b = L.body[0]
    inner = dict(known)
    for e in b["ev"]:
        if hasattr(e, "loop"):
            inner.update(close_loop(e.loop, inner))
    anyp = mk("any")
    item = app("item", src, pos)
    for ph in L.phis:
        if ph is pos:
            continue
        nx = b["next"].get(ph)
        if nx is None:
            continue
        nx = subst(nx, inner)
        gathered = gather(nx, item, src, pos, anyp)
        if gathered is None:
            continue
        same, closed = gathered
        if same is not ph:
            continue
        init = subst(L.init[ph], known)
        out[ph] = subst(closed, {ph: init})
    return out


def gather(t, item, src, pos, anyp):
    """(t without what it gathers from the item, t with everything gathered), or None."""
    from .absint import subst, rebuild, t_union
    if not mentions(t, item) and not mentions(t, pos):
        return t, t
    if t.op == "app" and t.a[0] == "push":
        base = gather(t.a[1], item, src, pos, anyp)
        if base is None:
            return None
        g = t.a[2]
        part = src if g is item else app("mapseq", src, subst(g, {pos: anyp}))
        return base[0], t_concat(base[1], part)
    if t.op == "app" and t.a[0] == "union":
        ks, cs = [], []
        for x in t.a[1:]:
            if x.op == "app" and x.a[0] == "single" and mentions(x, item):
                g = x.a[1]
                cs.append(src if g is item else app("mapset", src, subst(g, {pos: anyp})))
            else:
                r = gather(x, item, src, pos, anyp)
                if r is None:
                    return None
                ks.append(r[0])
                cs.append(r[1])
        return t_union(*ks), t_union(*cs)
    if t.op == "adt":
        a, c = [], []
        for x in t.a[4]:
            r = gather(x, item, src, pos, anyp)
            if r is None:
                return None
            a.append(r[0])
            c.append(r[1])
        return adt(t.a[0], t.a[1], t.a[2], t.a[3], a), adt(t.a[0], t.a[1], t.a[2], t.a[3], c)
    if t.op == "app" and t.a[0] == "minsert" and not mentions(t.a[2], item):
        m = gather(t.a[1], item, src, pos, anyp)
        v = gather(t.a[3], item, src, pos, anyp)
        if m is None or v is None:
            return None
        return rebuild("minsert", (m[0], t.a[2], v[0])), rebuild("minsert", (m[1], t.a[2], v[1]))
    return None


def t_concat(a, b):
    if a is mk("list"):
        return b
    if b is mk("list"):
        return a
    return app("concat", a, b)


def closed(ev, upto=None):
    """Closed forms of all loops on an event list, in order."""
    known = {}
    for e in ev:
        if hasattr(e, "loop"):
            known.update(close_loop(e.loop, known))
    return known
