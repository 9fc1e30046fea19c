"""Semantics of the library functions hastur's code calls, over the term
domain of absint.  A function that is neither modelled here nor inlined stays
an uninterpreted term, and checks treat results that depend on one as
undecided rather than wrong."""
import re
from .absint import (mk, app, adt, sym, proj, tup, INT, BOOL, STR, CH, TRUE, FALSE, UNIT, LAST, SET0, MAP0,
                     t_len, t_push, t_pop, t_last, t_index, t_setidx, t_union, t_single, t_minsert, t_mval, t_has,
                     t_add, t_sub, t_eq, t_not, t_lt, t_cmp, t_and, Outcome, IDENT, IDENT_MUT, LOG, walk, T,
                     Undecided, has_ref, is_const)

OPTION = "std::option::Option"
RESULT = "std::result::Result"


def NONE():
    return mk("adt", OPTION, 0, "None", (), ())


def SOME(v):
    return mk("adt", OPTION, 1, "Some", ("0",), (v,))


def OK(v):
    return mk("adt", RESULT, 0, "Ok", ("0",), (v,))


ORD = "std::cmp::Ordering"


def short(name):
    return name.rsplit("::", 1)[-1]


def trait_of(name):
    m = re.match(r"^<(.*) as (.*?)(<.*>)?>::(\w+)$", name)
    return m.groups() if m else None


def is_log(e, callee, dty):
    p = e.prog
    for t in callee.get("targs", []) or []:
        if LOG.search(p.types[t]["s"]):
            return True
    return False


def fork_option(e, st, cond_none, val_some, mutate_some=None):
    """Two outcomes: None when cond_none holds, else Some(val)."""
    res = []
    s1 = st.copy()
    if e.assume(s1, cond_none, True):
        res.append(Outcome("ret", NONE(), s1))
    s2 = st.copy()
    if e.assume(s2, cond_none, False):
        v = val_some(s2) if callable(val_some) else val_some
        if mutate_some:
            mutate_some(s2)
        res.append(Outcome("ret", SOME(v), s2))
    return res


# iterator terms: it(src, pos, kind) ; kind "ref" / "mut" / "val"
START = mk("start")


def it(src, pos=START):
    return mk("it", src, pos)


def succ(p):
    return app("succ", p)


def strcat(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "str" and not x.a[0] or x.op == "app" and x.a == ("String::new",):
            return y
    return app("strcat", a, b)


def steps(pos):
    """how many steps a position is from the start, where that is known"""
    k = 0
    while pos.op == "app" and pos.a[0] == "succ":
        k, pos = k + 1, pos.a[1]
    return k if pos is START else None


def has_next(src, pos):
    return app("hasnext", src, pos)


def src_item(src, pos):
    """Item number pos of an iterable source term."""
    if src.op == "app":
        f = src.a[0]
        if f == "rev":
            return app("item", src, pos)
    return app("item", src, pos)


def iter_next(e, fn, b, cell_ref, st, dty):
    """next() on an iterator held in a mutable place."""
    v = e.deref_val(st, cell_ref)
    if v.op != "it":
        return None
    return next_of(e, fn, b, v, st, lambda s, nv: e.write(s, cell_ref.a[0], cell_ref.a[1], nv)
                   if cell_ref.op == "ref" else None)


def next_of(e, fn, b, v, st, put):
    """Outcomes of one next() step on iterator term v; put(state, newiter) stores it."""
    src, pos = v.a
    if src.op == "app" and src.a[0] == "mapit":
        inner, f = src.a[1], src.a[2]
        outs = []
        for o in next_of(e, fn, b, it(inner, pos), st, lambda s, nv: put(s, it(src, nv.a[1]))):
            if o.kind == "panic" or o.ret.a[1] == 0:
                outs.append(o)
                continue
            for r in e.call_value(fn, b, f, [o.ret.a[4][0]], o.st):
                if r.kind == "ret":
                    r = Outcome("ret", SOME(r.ret), r.st)
                outs.append(r)
        return outs
    if src.op == "app" and src.a[0] == "enumit":
        outs = []
        for o in next_of(e, fn, b, it(src.a[1], pos), st, lambda s, nv: put(s, it(src, nv.a[1]))):
            if o.kind == "ret" and o.ret.a[1] == 1:
                k = steps(pos)
                o = Outcome("ret", SOME(tup(app("ordinal", pos) if k is None else INT(k), o.ret.a[4][0])), o.st)
            outs.append(o)
        return outs
    if src.op == "app" and src.a[0] == "range" and src.a[1].op == "int":
        # a range with a known start, some known number of steps on
        k = steps(pos)
        if k is not None and (k or src.a[2].op == "int"):
            x, res = INT(src.a[1].a[0] + k), []
            for more in (False, True):
                s2 = st.copy()
                if not e.assume(s2, t_lt(x, src.a[2]), more):
                    continue
                if more:
                    put(s2, it(src, succ(pos)))
                res.append(Outcome("ret", SOME(x) if more else NONE(), s2))
            return res
    if src.op == "list":
        # literal list with concrete position
        k = 0
        p = pos
        while p.op == "app" and p.a[0] == "succ":
            k += 1
            p = p.a[1]
        if p is START:
            s2 = st.copy()
            if k >= len(src.a):
                return [Outcome("ret", NONE(), s2)]
            put(s2, it(src, succ(pos)))
            return [Outcome("ret", SOME(src.a[k]), s2)]
    cond = has_next(src, pos)
    res = []
    s1 = st.copy()
    if src is SET0 or src is MAP0:
        return [Outcome("ret", NONE(), s1)]
    if pos is START and src.op == "app" and src.a[0] in ("range",):
        cond = t_lt(src.a[1], src.a[2])
    if e.assume(s1, cond, False):
        if pos is START:
            lt = app("Eq", app("len", strip_mut(src)), INT(0))
            e.assume(s1, lt, True)
        res.append(Outcome("ret", NONE(), s1))
    s2 = st.copy()
    if e.assume(s2, cond, True):
        ok = True
        if pos is START and src.op != "app":
            ok = e.assume(s2, app("Eq", app("len", src), INT(0)), False)
        if ok:
            if src.op == "app" and src.a[0] == "mutsrc":
                ref = src.a[1]
                item = mk("ref", ref.a[0], ref.a[1] + (("each", pos),))
            elif src.op == "app" and src.a[0] == "range":
                item = src.a[1] if pos is START else app("rangeitem", src.a[1], src.a[2], pos)
            else:
                item = src_item(src, pos)
            put(s2, it(src, succ(pos)))
            res.append(Outcome("ret", SOME(item), s2))
    return res


def strip_mut(src):
    if src.op == "app" and src.a[0] == "mutsrc":
        return src.a[1]
    return src


def to_iter(e, st, v, by_mut=False):
    if v.op == "it":
        return v
    if v.op == "ref":
        inner = e.deref_val(st, v)
        if inner.op == "it":
            return inner
        if by_mut:
            return it(app("mutsrc", v))
        return it(inner)
    if v.op == "adt" and v.a[0].endswith("ops::Range"):
        return it(app("range", v.a[4][0], v.a[4][1]))
    return it(v)


GEN = mk("gen")


def generic_item(src):
    return src_item(src, mk("any"))


def apply_each(e, fn, b, src, f, st, extra=()):
    """Run f on a generic item of an iterator source; returns outcomes (guarded values)."""
    base = src
    fs = []
    while base.op == "app" and base.a[0] in ("mapit",):
        fs.append(base.a[2])
        base = base.a[1]
    if base.op == "app" and base.a[0] == "mutsrc":
        item = mk("ref", base.a[1].a[0], base.a[1].a[1] + (("each", mk("any")),))
    else:
        item = generic_item(base)
    outs = [Outcome("ret", item, st)]
    for g in reversed(fs):
        nxt = []
        for o in outs:
            if o.kind == "panic":
                nxt.append(o)
            else:
                nxt.extend(e.call_value(fn, b, g, [o.ret], o.st))
        outs = nxt
    if f is None:
        return outs
    res = []
    for o in outs:
        if o.kind == "panic":
            res.append(o)
        else:
            res.extend(e.call_value(fn, b, f, list(extra) + [o.ret], o.st))
    return res


def summarize(e, st, outs):
    """Guarded values as one term: cases((facts..., value), ...)."""
    rows = []
    for o in outs:
        if o.kind == "panic":
            rows.append((("panic",), mk("bot")))
            continue
        d = []
        for k, v in o.st.facts.items():
            if st.facts.get(k) != v:
                d.append((k, v))
        d.sort(key=lambda x: str(x))
        rows.append((tuple(d), o.ret))
    vals = {r[1] for r in rows}
    if len(vals) == 1:
        return next(iter(vals))
    rows.sort(key=lambda r: str(r))
    return mk("cases", tuple(rows))


def effects_of(e, st, outs, name, tag):
    """Havoc every place a generic iteration writes; collect its events."""
    s = st.copy()
    changed = set()
    evs = ()
    for o in outs:
        for c, v in o.st.mem.items():
            if c in st.mem and st.mem[c] is not v:
                changed.add(c)
        if o.st.ev != st.ev:
            evs = evs + o.st.ev[len(st.ev):]
    from .absint import Loop, LoopEv
    if changed or evs:
        L = Loop(e.prog.fns[e.stack[-1]], -1, (name, tag))
        L.pre_ev = st.ev
        for c in sorted(changed, key=str):
            old = st.mem[c]
            ph = mk("phi", (name, tag, e.stack[-1]), (c, ()), old)
            L.phis[ph] = (c, ())
            L.init[ph] = old
            s.mem[c] = ph
        for o in outs:
            if o.kind == "ret":
                L.body.append({"facts": {k: v for k, v in o.st.facts.items() if st.facts.get(k) != v},
                               "ev": o.st.ev[len(st.ev):],
                               "next": {ph: o.st.mem.get(L.phis[ph][0]) for ph in L.phis},
                               "where": "", "ret": o.ret})
        e.loops.append(L)
        s.ev = s.ev + (LoopEv(L),)
    return s


def default_of(e, tyid, st=None):
    ty = e.prog.types[tyid]
    s = ty["s"]
    if s == "bool":
        return FALSE
    if ty["k"] == "prim":
        return INT(0) if s != "char" else CH("\0")
    if s == "()":
        return UNIT
    p = ty.get("path", "")
    if p == OPTION:
        return NONE()
    if p.endswith("vec::Vec"):
        return mk("list")
    if p.endswith("HashSet") or p.endswith("OrdSet"):
        return SET0
    if p.endswith("HashMap") or p.endswith("OrdMap"):
        return MAP0
    if p.endswith("string::String"):
        return STR("")
    if p.endswith(("sync::Arc", "boxed::Box", "rc::Rc")) and ty.get("args"):
        return default_of(e, ty["args"][0], st)
    if ty["k"] == "tuple":
        return mk("tuple", *[default_of(e, a, st) for a in ty.get("args", [])])
    return None


def apply(e, fn, b, name, raw, callee, vals, st, dty):
    sn = short(name)
    n = len(vals)
    P = e.prog

    def D(i):
        return e.deref_val(st, vals[i])

    def ret(v, s=None):
        return [Outcome("ret", v, s if s is not None else st.copy())]

    local = callee.get("crate") == "hastur"

    if is_log(e, callee, dty) or name.startswith(("log::", "core::fmt", "std::fmt")):
        if sn in ("le", "lt", "ge", "gt", "eq", "ne"):
            return ret(FALSE)
        return ret(UNIT)

    # ---- comparison operators
    tr = trait_of(name)
    is_eq_trait = raw in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne") or \
        (tr is not None and tr[1] == "std::cmp::PartialEq") or "PartialEq" in name
    if is_eq_trait and sn in ("eq", "ne") and n == 2:
        # a derived or library equality is structural equality of the values
        if not local or derived_eq(e, callee):
            a, c = e.resolve(st, vals[0]), e.resolve(st, vals[1])
            v = t_eq(a, c)
            return ret(v if sn == "eq" else t_not(v))
    if local:
        if sn == "clone" and n == 1 and derived_eq(e, callee):
            return ret(e.resolve(st, vals[0]))
        return None

    if sn in ("lt", "le", "gt", "ge") and ("PartialOrd" in name or "PartialOrd" in raw) and n == 2:
        return ret(t_cmp({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[sn], D(0), D(1)))
    if sn in ("partial_cmp", "cmp") and n == 2 and ("Ord" in name or "Ord" in raw):
        c = app("cmp", D(0), D(1))
        return ret(SOME(c) if sn == "partial_cmp" else c)
    if sn == "then" and "Ordering" in name:
        return ret(app("then", D(0), D(1)))
    if sn == "reverse" and "Ordering" in name:
        return ret(app("reverse", D(0)))
    if re.search(r"ops::(Add|Sub|Mul|Rem|Div)(<.*>)?>::(add|sub|mul|rem|div)$", name):
        return ret(e.binop(sn.capitalize(), D(0), D(1)))
    if re.search(r"ops::(AddAssign|SubAssign)(<.*>)?>::", name) and vals[0].op == "ref":
        s = st.copy()
        r = e.binop("Add" if "Add" in name else "Sub", D(0), D(1))
        e.write(s, vals[0].a[0], vals[0].a[1], r)
        return ret(UNIT, s)
    if re.search(r"ops::Not>::not$", name):
        return ret(t_not(D(0)))

    # ---- identity-like
    if name in ("std::mem::drop", "std::hint::black_box"):
        return ret(UNIT if sn == "drop" else vals[0])
    if IDENT_MUT.search(name) and n >= 1:
        if sn == "borrow_mut" and "RefCell" in name:
            return None
        return ret(vals[0])
    if n >= 1 and sn in ("as_deref", "as_deref_mut") and "option" in name.lower():
        return ret(vals[0] if sn.endswith("mut") else D(0))
    if n == 1 and IDENT.search(name) and sn not in ("into_iter", "by_ref", "cloned", "copied", "fuse", "as_ref"):
        return ret(D(0))
    if n == 1 and sn == "as_ref" and "option" not in name and "result" not in name:
        return ret(D(0))
    if sn in ("cloned", "copied", "fuse", "by_ref") and n == 1 and "Iterator" in name:
        return ret(to_iter(e, st, D(0)) if sn != "by_ref" else vals[0])
    if sn in ("cloned", "copied") and n == 1:
        return ret(D(0))
    if raw == "std::convert::Into::into" or name.endswith("std::convert::Into<U>>::into"):
        ta = callee.get("targs") or []
        if len(ta) == 2:
            if ta[0] == ta[1]:
                return ret(vals[0])
            t0, t1 = P.types[ta[0]], P.types[ta[1]]
            for k, f in P.local.items():
                if f.path.endswith("::from") and "std::convert::From<" in f.path:
                    m = re.match(r"^<(.*) as std::convert::From<(.*)>>::from$", f.path)
                    if m and same_ty(m.group(1), t1["s"]) and same_ty(m.group(2), t0["s"]):
                        return e.call_body(f, vals, st)
            if t1.get("path", "").endswith(("string::String", "boxed::Box", "sync::Arc", "path::PathBuf")):
                return ret(D(0))
            if t1.get("path") == OPTION:
                return ret(SOME(vals[0]))
        return None
    if re.search(r"std::convert::From<T>>::from$|<T as std::convert::From<T>>", name) and n == 1:
        return ret(vals[0])

    # ---- default
    if sn == "default" and n == 0 and dty is not None:
        d = default_of(e, dty, st)
        if d is not None:
            return ret(d)
        return None
    if name in ("std::vec::Vec::new", "std::vec::Vec::with_capacity"):
        return ret(mk("list"))
    if name in ("std::string::String::new", "std::string::String::with_capacity"):
        return ret(STR(""))
    if re.match(r"^(im|std::collections)::(hashset::)?HashSet::(new|default|with_hasher|with_capacity)", name):
        return ret(SET0)
    if re.match(r"^(im|std::collections)::(hashmap::)?HashMap::(new|default|with_hasher|with_capacity)", name):
        return ret(MAP0)

    # ---- mem
    if name in ("std::mem::replace", "std::mem::take", "core::mem::replace") and vals[0].op == "ref":
        s = st.copy()
        old = e.deref_val(s, vals[0]) if False else e.read(s, vals[0].a[0], vals[0].a[1])
        new = vals[1] if n > 1 else (default_of(e, dty, st) if dty is not None else None)
        if new is None:
            return None
        e.write(s, vals[0].a[0], vals[0].a[1], new)
        return ret(old, s)
    if name == "std::mem::swap" and vals[0].op == "ref" and vals[1].op == "ref":
        s = st.copy()
        x, y = e.read(s, *vals[0].a), e.read(s, *vals[1].a)
        e.write(s, vals[0].a[0], vals[0].a[1], y)
        e.write(s, vals[1].a[0], vals[1].a[1], x)
        return ret(UNIT, s)
    if name == "std::boxed::Box::new_uninit":
        cell = ("h", "box", fn.key, b, len(e.stack))
        s = st.copy()
        s.mem[cell] = mk("undef")
        return ret(mk("ref", cell, ()), s)
    if name.endswith("box_assume_init_into_vec_unsafe") or (sn in ("assume_init", "write") and "Box" in name):
        return ret(D(0))
    if name == "std::ptr::eq":
        return ret(app("ptreq", D(0), D(1)))

    # ---- Option / Result helpers without dumped bodies
    if "option::Option" in name or "result::Result" in name:
        r = opt_model(e, fn, b, name, sn, vals, st, dty, callee)
        if r is not None:
            return r

    # ---- Vec
    if name.startswith(("std::vec::Vec::", "core::slice::", "std::slice::", "<std::vec::Vec", "std::vec::")) or \
            "[T]" in name:
        r = vec_model(e, fn, b, name, sn, vals, st, dty, callee)
        if r is not None:
            return r
    if name.startswith(("im::", "<im::", "std::collections", "<std::collections")) or "HashSet" in name:
        r = coll_model(e, fn, b, name, sn, vals, st, dty, callee)
        if r is not None:
            return r
    # ---- iterators
    if "Iterator" in name or "Iterator" in raw or "iter" in name.lower() or "Extend" in name:
        r = iter_model(e, fn, b, name, raw, sn, vals, st, dty, callee)
        if r is not None:
            return r
    # ---- strings
    if "str>" in name or "String" in name or "str::" in name:
        if sn == "len":
            return ret(t_len(D(0)))
        if sn == "is_empty":
            return ret(t_eq(t_len(D(0)), INT(0)))
        if sn == "trim" and n == 1:
            return ret(app("trim", D(0)))
        if sn in ("chars", "as_bytes", "char_indices", "bytes"):
            return ret(app(sn, D(0)))
        if sn == "push" and vals[0].op == "ref":
            s = st.copy()
            e.write(s, vals[0].a[0], vals[0].a[1], app("strpush", D(0), D(1)))
            return ret(UNIT, s)
        if sn == "push_str" and vals[0].op == "ref":
            s = st.copy()
            e.write(s, vals[0].a[0], vals[0].a[1], strcat(D(0), D(1)))
            return ret(UNIT, s)
        if sn == "reserve":
            return ret(UNIT)
        if sn == "index" and n == 2:
            return ret(app("strslice", D(0), D(1)))
        if sn in ("is_whitespace", "is_alphabetic", "len_utf8") and n == 1:
            return ret(app(sn, D(0)))
        if sn == "from" and n == 1:
            return ret(D(0))
    if sn in ("is_whitespace", "is_alphabetic", "len_utf8") and n == 1:
        return ret(app(sn, D(0)))
    # ---- interner
    if name.startswith("string_interner::StringInterner::"):
        if sn == "get_or_intern" and vals[0].op == "ref":
            s = st.copy()
            it0, k = D(0), D(1)
            e.write(s, vals[0].a[0], vals[0].a[1], app("interned", it0, k))
            return ret(app("symbol", it0, k), s)
        if sn == "get":
            return ret(app("symget", D(0), D(1)))
        if sn == "resolve":
            return ret(app("symresolve", D(0), D(1)))
    if name == "lazy_static::lazy::Lazy::get":
        return None
    # ---- paths / IO
    if name == "std::path::PathBuf::push" and vals[0].op == "ref":
        s = st.copy()
        e.write(s, vals[0].a[0], vals[0].a[1], app("join", D(0), D(1)))
        return ret(UNIT, s)
    if name.startswith("std::path::Path::") and sn == "join":
        return ret(app("join", D(0), D(1)))
    if name.startswith("std::path::") and sn in ("as_path", "to_path_buf", "new"):
        return ret(D(0))
    if name == "std::io::BufReader::new":
        return ret(app("reader", D(0)))
    if name == "std::fs::File::open":
        return ret(app("open", D(0)))
    if name == "std::env::current_dir":
        return ret(app("current_dir"))
    if name == "std::io::Error::kind":
        return ret(app("iokind", D(0)))
    if sn == "read_to_string" and ("Read" in name or "Read" in raw) and n == 2 and vals[1].op == "ref":
        s = st.copy()
        src = D(0)
        e.write(s, vals[1].a[0], vals[1].a[1], strcat(D(1), app("contents", src)))
        if vals[0].op == "ref":
            e.write(s, vals[0].a[0], vals[0].a[1], app("drained", src))
        return ret(app("readres", src), s)
    # ---- nom helpers
    if name.startswith("nom::") or "nom::" in name:
        if sn == "into_error_kind":
            return ret(app("into_error_kind", D(0)))
        if sn in ("input_len",):
            return ret(t_len(D(0)))
        if sn == "convert" and n == 1:
            return ret(app("convert", D(0)))
        if sn in ("as_char",):
            return ret(D(0))
    return None


def same_ty(a, b):
    def norm(s):
        s = re.sub(r"'\w+ ?", "", s)
        return s.replace("<>", "").replace(" ", "").replace("std::string::", "")
    return norm(a) == norm(b)


def derived_eq(e, callee):
    """Is this local PartialEq::eq a compiler-derived structural one?"""
    key = callee.get("key")
    f = e.prog.fns.get(key or "")
    if f is None:
        return False
    return f.derived


def opt_model(e, fn, b, name, sn, vals, st, dty, callee):
    def ret(v, s=None):
        return [Outcome("ret", v, s if s is not None else st.copy())]
    # std bodies are normally dumped and inlined; here only the ones that are not
    if callee.get("key") and callee["key"] in e.prog.fns:
        return None
    v = e.deref_val(st, vals[0]) if vals else None
    if sn in ("is_some", "is_none", "is_ok", "is_err") and len(vals) == 1:
        vi = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[sn]
        if v.op == "adt":
            return ret(BOOL(v.a[1] == vi))
        return ret(app("is", v, vi, 2))
    return split_opt(e, fn, b, name, sn, vals, st, v)


def split_opt(e, fn, b, name, sn, vals, st, v):
    isopt = "option::Option" in name
    if sn not in ("map", "unwrap_or", "unwrap_or_else", "and_then", "unwrap", "expect", "ok", "map_err", "ok_or",
                  "unwrap_or_default", "is_some_and", "is_none_or", "filter", "or_else", "ok_or_else", "as_mut",
                  "as_ref", "take", "or", "map_or", "map_or_else", "err", "and", "flatten", "inspect", "insert",
                  "get_or_insert_with", "replace", "branch", "from_residual", "into_iter", "as_deref"):
        return None
    good = 1 if isopt else 0
    cases = []
    for vi in (0, 1):
        s = st.copy()
        if v.op == "adt":
            if v.a[1] != vi:
                continue
            pay = v.a[4][0] if v.a[4] else None
        else:
            if not e.assume(s, app("is", v, vi, 2), True):
                continue
            nm = ("None", "Some")[vi] if isopt else ("Ok", "Err")[vi]
            pay = None if nm == "None" else proj(v, (nm, 0))
        cases.append((vi == good, pay, s))
    res = []

    def back(ok, pay):
        if isopt:
            return SOME(pay) if ok else NONE()
        return OK(pay) if ok else mk("adt", RESULT, 1, "Err", ("0",), (pay,))

    for ok, pay, s in cases:
        def R(x, s=s):
            res.append(Outcome("ret", x, s))

        def CV(f, args, wrap=lambda x: x, s=s):
            for o in e.call_value(fn, b, f, args, s):
                if o.kind == "ret":
                    o = Outcome("ret", wrap(o.ret), o.st)
                res.append(o)
        if sn == "map":
            CV(vals[1], [pay], lambda x: back(True, x)) if ok else R(back(False, pay))
        elif sn == "and_then":
            CV(vals[1], [pay]) if ok else R(back(False, pay))
        elif sn == "map_err":
            R(back(True, pay)) if ok else CV(vals[1], [pay], lambda x: back(False, x))
        elif sn == "unwrap_or":
            R(pay if ok else vals[1])
        elif sn == "unwrap_or_else":
            R(pay) if ok else CV(vals[1], [] if isopt else [pay])
        elif sn == "or_else":
            R(back(True, pay)) if ok else CV(vals[1], [] if isopt else [pay])
        elif sn == "or":
            R(back(True, pay) if ok else vals[1])
        elif sn == "and":
            R(vals[1] if ok else back(False, pay))
        elif sn in ("unwrap", "expect"):
            if ok:
                R(pay)
            else:
                res.append(Outcome("panic", mk("bot"), s, where=(e.where(fn, b), fn.loc(b)), msg=name))
        elif sn == "ok":
            R(SOME(pay) if ok else NONE())
        elif sn == "err":
            R(NONE() if ok else SOME(pay))
        elif sn in ("ok_or",):
            R(OK(pay) if ok else mk("adt", RESULT, 1, "Err", ("0",), (vals[1],)))
        elif sn == "ok_or_else":
            R(OK(pay)) if ok else CV(vals[1], [], lambda x: mk("adt", RESULT, 1, "Err", ("0",), (x,)))
        elif sn == "is_some_and":
            CV(vals[1], [pay]) if ok else R(FALSE)
        elif sn == "map_or":
            CV(vals[2], [pay]) if ok else R(vals[1])
        elif sn == "map_or_else":
            CV(vals[2], [pay]) if ok else CV(vals[1], [] if isopt else [pay])
        elif sn == "flatten":
            R(pay if ok else back(False, pay))
        elif sn == "take" and vals[0].op == "ref":
            e.write(s, vals[0].a[0], vals[0].a[1], NONE())
            R(back(ok, pay))
        elif sn == "as_ref" or sn == "as_deref":
            R(back(ok, pay))
        elif sn == "as_mut" and vals[0].op == "ref":
            tyid = None
            if ok:
                R(SOME(mk("ref", vals[0].a[0], vals[0].a[1] + (("f", "Some", 0, False, opt_ty(e)),))))
            else:
                R(NONE())
        else:
            return None
    return res


def opt_ty(e):
    for i, t in enumerate(e.prog.types):
        if t.get("path") == OPTION:
            return i
    return 0


def vec_model(e, fn, b, name, sn, vals, st, dty, callee):
    n = len(vals)

    def D(i):
        return e.deref_val(st, vals[i])

    def ret(v, s=None):
        return [Outcome("ret", v, s if s is not None else st.copy())]

    v = D(0) if n else None
    ref = vals[0] if n and vals[0].op == "ref" else None

    def W(s, x):
        e.write(s, ref.a[0], ref.a[1], x)

    if v is not None and v.op == "it":
        return None
    if sn == "push" and n == 2 and ref:
        s = st.copy()
        W(s, t_push(v, e.resolve(s, vals[1]) if False else vals[1]))
        return ret(UNIT, s)
    if sn == "pop" and n == 1 and ref:
        return fork_option(e, st, t_eq(t_len(v), INT(0)), t_last(v), lambda s: W(s, t_pop(v)))
    if sn == "len" and n == 1:
        return ret(t_len(v))
    if sn == "is_empty" and n == 1:
        return ret(t_eq(t_len(v), INT(0)))
    if sn == "clear" and ref:
        s = st.copy()
        W(s, mk("list"))
        return ret(UNIT, s)
    if sn in ("last", "first") and n == 1:
        return fork_option(e, st, t_eq(t_len(v), INT(0)), t_last(v) if sn == "last" else t_index(v, INT(0)))
    if sn in ("last_mut", "first_mut") and ref:
        k = LAST if sn == "last_mut" else INT(0)
        return fork_option(e, st, t_eq(t_len(v), INT(0)), mk("ref", ref.a[0], ref.a[1] + (("idx", k),)))
    if sn == "index" and n == 2:
        i = D(1)
        if i.op == "adt" and "ops::Range" in i.a[0]:
            return ret(app("subslice", v, i))
        return ret(t_index(v, i))
    if sn == "index_mut" and n == 2 and ref:
        i = D(1)
        if i.op == "adt":
            return None
        from .absint import norm_idx
        return ret(mk("ref", ref.a[0], ref.a[1] + (("idx", norm_idx(v, i)),)))
    if sn in ("get", "get_mut") and n == 2:
        i = D(1)
        if i.op == "adt":
            return None
        from .absint import norm_idx
        ii = norm_idx(v, i)
        ln = t_len(v)
        if ii is LAST:
            cond = t_eq(ln, INT(0))
        else:
            cond = t_not(t_lt(i, ln))
        return fork_option(e, st, cond, t_index(v, ii) if sn == "get" or not ref else
                           mk("ref", ref.a[0], ref.a[1] + (("idx", ii),)))
    if sn == "swap_remove" and ref and D(1).op == "int":
        s = st.copy()
        x = t_index(v, D(1))
        W(s, app("swapremoved", v, D(1)))
        return ret(x, s)
    if sn == "remove" and ref and n == 2:
        s = st.copy()
        x = t_index(v, D(1))
        W(s, app("removed", v, D(1)))
        return ret(x, s)
    if sn == "truncate" and ref:
        s = st.copy()
        if D(1) is t_sub(t_len(v), INT(1)):
            W(s, t_pop(v))
        else:
            W(s, app("truncated", v, D(1)))
        return ret(UNIT, s)
    if sn == "retain" and ref:
        src = v
        outs = apply_each(e, fn, b, src, vals[1], st)
        s = effects_of(e, st, outs, "retain", fn.key + str(b))
        W(s, app("retain", v, summarize(e, st, outs)))
        return ret(UNIT, s)
    if sn in ("iter", "into_iter") and n == 1:
        if sn == "into_iter" and "IterMut" in str(e.prog.types[dty]["s"] if dty is not None else ""):
            return ret(to_iter(e, st, vals[0], True))
        return ret(to_iter(e, st, vals[0]))
    if sn == "iter_mut" and ref:
        return ret(it(app("mutsrc", ref)))
    if sn in ("to_vec", "into_boxed_slice", "as_slice", "into_vec"):
        return ret(v)
    if sn in ("extend", "append", "extend_from_slice") and ref and n == 2:
        s = st.copy()
        x = D(1)
        if sn == "append" and vals[1].op == "ref":
            e.write(s, vals[1].a[0], vals[1].a[1], mk("list"))
        return extend(e, fn, b, s, ref, v, x)
    if sn == "drain":
        return ret(it(app("drained", v)))
    if sn == "contains":
        return ret(app("contains", v, D(1)))
    if sn in ("reserve", "shrink_to_fit"):
        return ret(UNIT)
    if sn == "split_last" and n == 1:
        return fork_option(e, st, t_eq(t_len(v), INT(0)), tup(t_last(v), t_pop(v)))
    if sn == "first_chunk":
        return None
    if sn in ("reverse", "sort", "sort_unstable", "dedup") and ref:
        s = st.copy()
        W(s, app(sn, v))
        return ret(UNIT, s)
    if sn == "clone" and n == 1:
        return ret(v)
    if sn == "deref" or sn == "deref_mut":
        return ret(vals[0] if sn == "deref_mut" else v)
    if sn == "as_ptr":
        return ret(app("asptr", v))
    return None


def extend(e, fn, b, s, ref, v, x):
    if x.op == "it":
        src, pos = x.a
        if pos is START:
            x = src
        else:
            x = app("iterrest", src, pos)
    if x.op == "app" and x.a[0] == "mapit":
        outs = apply_each(e, fn, b, x, None, s)
        s2 = effects_of(e, s, outs, "extend", fn.key + str(b))
        body = summarize(e, s, outs)
        x = app("mapseq", base_src(x), body)
        s = s2
    if x.op == "list":
        r = v
        for y in x.a:
            r = t_push(r, y)
    elif v.op == "list" and not v.a:
        r = x
    else:
        r = app("concat", v, x)
    e.write(s, ref.a[0], ref.a[1], r)
    return [Outcome("ret", UNIT, s)]


def base_src(x):
    while x.op == "app" and x.a[0] == "mapit":
        x = x.a[1]
    return x


def coll_model(e, fn, b, name, sn, vals, st, dty, callee):
    n = len(vals)

    def D(i):
        return e.deref_val(st, vals[i])

    def ret(v, s=None):
        return [Outcome("ret", v, s if s is not None else st.copy())]

    ref = vals[0] if n and vals[0].op == "ref" else None
    v = D(0) if n else None
    is_set = "HashSet" in name or "hashset" in name or "hash_set" in name
    if v is not None and v.op == "it" and sn != "into_iter":
        return None
    if sn in ("iter", "into_iter", "values", "keys") and n == 1:
        if sn in ("values", "keys"):
            return ret(it(app(sn, v)))
        return ret(to_iter(e, st, vals[0]))
    if sn == "clone":
        return ret(v)
    if sn == "len":
        return ret(t_len(v))
    if sn == "is_empty":
        return ret(t_eq(t_len(v), INT(0)))
    if is_set:
        if sn == "insert" and n == 2 and ref:
            s = st.copy()
            e.write(s, ref.a[0], ref.a[1], t_union(v, t_single(D(1))))
            return ret(app("setold", v, D(1)), s)
        if sn in ("update",) and n == 2:
            return ret(t_union(v, t_single(D(1))))
        if sn == "union" and n == 2:
            return ret(t_union(v, D(1)))
        if sn == "unit" and n == 1:
            return ret(t_single(v))
        if sn == "contains":
            return ret(app("contains", v, D(1)))
        if sn in ("without",):
            return ret(app("without", v, D(1)))
        if sn in ("remove",) and ref:
            s = st.copy()
            e.write(s, ref.a[0], ref.a[1], app("without", v, D(1)))
            return ret(app("setold", v, D(1)), s)
        if sn in ("intersection", "difference", "symmetric_difference", "relative_complement") and n == 2:
            return ret(app(sn, v, D(1)))
        if sn == "clear" and ref:
            s = st.copy()
            e.write(s, ref.a[0], ref.a[1], SET0)
            return ret(UNIT, s)
        if sn == "extend" and ref and n == 2:
            s = st.copy()
            x = D(1)
            if x.op == "it" and x.a[1] is START:
                x = x.a[0]
                if x.op == "app" and x.a[0] == "mapit":
                    outs = apply_each(e, fn, b, x, None, st)
                    body = summarize(e, st, outs)
                    bs = base_src(x)
                    x = bs if body is generic_item(bs) else app("mapset", bs, body)
                e.write(s, ref.a[0], ref.a[1], t_union(v, x))
                return ret(UNIT, s)
        return None
    if sn == "get" and n == 2:
        k = D(1)
        return mget(e, st, v, k)
    if sn == "contains_key" and n == 2:
        k = D(1)
        if v.op == "app" and v.a[0] == "minsert" and v.a[2] is k:
            return ret(TRUE)
        if v is MAP0:
            return ret(FALSE)
        return ret(t_has(v, k))
    if sn == "get_mut" and n == 2 and ref:
        k = D(1)
        return fork_option(e, st, t_not(t_has(v, k)), mk("ref", ref.a[0], ref.a[1] + (("key", k),)))
    if sn == "insert" and n == 3 and ref:
        s = st.copy()
        e.write(s, ref.a[0], ref.a[1], t_minsert(v, vals[1], vals[2]))
        return ret(app("mold", v, vals[1]), s)
    if sn == "update" and n == 3:
        return ret(t_minsert(v, vals[1], vals[2]))
    if sn == "without":
        return ret(app("mremove", v, D(1)))
    if sn == "remove" and ref:
        s = st.copy()
        e.write(s, ref.a[0], ref.a[1], app("mremove", v, D(1)))
        return ret(app("mold", v, D(1)), s)
    if sn == "update_with" and n == 4:
        k = vals[1]
        res = []
        s1 = st.copy()
        if e.assume(s1, t_has(v, k), True):
            for o in e.call_value(fn, b, vals[3], [t_mval(v, k), vals[2]], s1):
                if o.kind == "ret":
                    o = Outcome("ret", t_minsert(v, k, o.ret), o.st)
                res.append(o)
        s2 = st.copy()
        if e.assume(s2, t_has(v, k), False):
            res.append(Outcome("ret", t_minsert(v, k, vals[2]), s2))
        return res
    if sn == "entry" and n == 2 and ref:
        k = vals[1]
        res = []
        for present in (True, False):
            s = st.copy()
            if v.op == "app" and v.a[0] == "minsert" and v.a[2] is k:
                if not present:
                    continue
            elif v is MAP0:
                if present:
                    continue
            elif not e.assume(s, t_has(v, k), present):
                continue
            a = e.prog.adts.get("im::hashmap::Entry")
            ent = None
            for i, var in enumerate(a["variants"] if a else []):
                if var["n"] == ("Occupied" if present else "Vacant"):
                    ent = mk("adt", "im::hashmap::Entry", i, var["n"], ("0",),
                             (mk("occ" if present else "vac", ref, k),))
            if ent is None:
                return None
            res.append(Outcome("ret", ent, s))
        return res
    if "Entry" in name and n:
        h = v
        if h.op == "adt" and h.a[4] and h.a[4][0].op in ("occ", "vac"):
            hh = h.a[4][0]
        elif h.op in ("occ", "vac"):
            hh = h
        else:
            return None
        r, k = hh.a
        pref = mk("ref", r.a[0], r.a[1] + (("key", k),))
        if sn == "and_modify":
            if hh.op == "vac":
                return ret(h)
            res = []
            for o in e.call_value(fn, b, vals[1], [pref], st.copy()):
                res.append(Outcome("ret", h, o.st) if o.kind == "ret" else o)
            return res
        if sn in ("or_insert_with", "or_insert", "or_default"):
            if hh.op == "occ":
                return ret(pref)
            if sn == "or_insert":
                s = st.copy()
                e.write(s, pref.a[0], pref.a[1], vals[1])
                return ret(pref, s)
            if sn == "or_default":
                d = None
                ty = e.prog.types[dty] if dty is not None else {}
                if ty.get("inner") is not None:
                    d = default_of(e, ty["inner"])
                if d is None:
                    return None
                s = st.copy()
                e.write(s, pref.a[0], pref.a[1], d)
                return ret(pref, s)
            res = []
            for o in e.call_value(fn, b, vals[1], [], st.copy()):
                if o.kind == "ret":
                    e.write(o.st, pref.a[0], pref.a[1], o.ret)
                    o = Outcome("ret", pref, o.st)
                res.append(o)
            return res
        if sn == "insert" and n == 2:
            s = st.copy()
            old = e.read(s, pref.a[0], pref.a[1])
            e.write(s, pref.a[0], pref.a[1], vals[1])
            return ret(old if hh.op == "occ" else pref, s)
        if sn in ("get_mut", "into_mut"):
            return ret(pref)
        if sn == "get":
            return ret(e.read(st, pref.a[0], pref.a[1]))
        if sn == "key":
            return ret(k)
    return None


def mget(e, st, v, k):
    if v.op == "app" and v.a[0] == "minsert" and v.a[2] is k:
        return [Outcome("ret", SOME(v.a[3]), st.copy())]
    if v is MAP0:
        return [Outcome("ret", NONE(), st.copy())]
    return fork_option(e, st, t_not(t_has(v, k)), t_mval(v, k))


def iter_model(e, fn, b, name, raw, sn, vals, st, dty, callee):
    n = len(vals)

    def D(i):
        return e.deref_val(st, vals[i])

    def ret(v, s=None):
        return [Outcome("ret", v, s if s is not None else st.copy())]

    if not n:
        return None
    v = D(0)
    if sn == "next" and v.op == "it":
        return iter_next(e, fn, b, vals[0], st, dty)
    if sn == "into_iter" and n == 1:
        t = e.prog.types[dty]["s"] if dty is not None else ""
        if v.op == "it":
            return ret(v)
        if v.op == "adt" and "ops::Range" in v.a[0]:
            return ret(to_iter(e, st, v))
        if v.op in ("app", "proj", "sym", "list", "phi") and ("std::ops::IntoIterator" in raw or "IntoIterator" in raw):
            if v.op == "app" and v.a[0] not in ("push", "pop", "setidx", "concat", "mapseq", "filterseq", "union",
                                                 "subslice") and not known_collection(e, callee):
                return ret(v) if not known_collection(e, callee) else None
            if vals[0].op == "ref" and "IterMut" in t:
                return ret(to_iter(e, st, vals[0], True))
            return ret(it(v))
        return None
    if v.op != "it":
        if sn in ("map", "enumerate") and n <= 2 and ("Iterator::" in name or "Iterator::" in raw):
            v = it(v) if v.op in ("app", "proj", "sym") else v
        if v.op != "it":
            return None
    src, pos = v.a
    if pos is not START and sn not in ("map", "enumerate"):
        if sn in ("collect",):
            return ret(app("iterrest", src, pos))
        return None
    if sn == "map":
        return ret(it(app("mapit", src, vals[1]), pos))
    if sn == "enumerate":
        return ret(it(app("enumit", src), pos))
    if sn == "rev":
        return ret(it(app("rev", src), pos))
    if sn in ("peekable",):
        return ret(it(src, pos))
    if sn in ("skip", "take", "step_by", "chain", "zip"):
        return ret(it(app(sn, src, D(1))))
    if sn in ("filter", "filter_map", "take_while", "skip_while", "flat_map"):
        outs = apply_each(e, fn, b, src, vals[1], st)
        s = effects_of(e, st, outs, sn, fn.key + str(b))
        return ret(it(app(sn, src, summarize(e, st, outs))), s)
    if sn in ("collect", "from_iter"):
        if src.op == "app" and src.a[0] == "mapit":
            outs = apply_each(e, fn, b, src, None, st)
            s = effects_of(e, st, outs, "collect", fn.key + str(b))
            body = summarize(e, st, outs)
            bs = base_src(src)
            if body is generic_item(bs):
                return ret(bs, s)
            ty = e.prog.types[dty] if dty is not None else {}
            op = "mapset" if ty.get("path", "").endswith("HashSet") else "mapseq"
            return ret(app(op, bs, body), s)
        return ret(src)
    if sn in ("any", "all"):
        outs = apply_each(e, fn, b, src, vals[1], st)
        s = effects_of(e, st, outs, sn, fn.key + str(b))
        body = summarize(e, st, outs)
        return ret(app(sn, base_src(src), body), s)
    if sn in ("sum", "count", "last", "min", "max"):
        return ret(app(sn, src) if not (src.op == "app" and src.a[0] == "mapit") else
                   app(sn, base_src(src), summarize(e, st, apply_each(e, fn, b, src, None, st))))
    if sn in ("for_each",):
        outs = apply_each(e, fn, b, src, vals[1], st)
        s = effects_of(e, st, outs, sn, fn.key + str(b))
        return ret(UNIT, s)
    if sn in ("fold",) and n == 3:
        acc = mk("phi", ("fold", fn.key, b), ("acc",), vals[1])
        base = base_src(src)
        outs = apply_each(e, fn, b, src, vals[2], st, extra=(acc,))
        s = effects_of(e, st, outs, sn, fn.key + str(b))
        return ret(app("fold", base, vals[1], acc, summarize(e, st, outs)), s)
    if sn in ("find", "position", "find_map"):
        outs = apply_each(e, fn, b, src, vals[1], st)
        s = effects_of(e, st, outs, sn, fn.key + str(b))
        body, bs = summarize(e, st, outs), base_src(src)
        k = looked_for(body, bs)
        if sn == "find" and k is not None and over_map(e, fn, b, callee):
            # the entry of a map with a given key: a lookup
            return [Outcome("ret", SOME(mk("tuple", k, o.ret.a[4][0])) if o.ret.a[1] == 1 else o.ret, o.st) for o in mget(e, s, bs, k)]
        return ret(app(sn, bs, body), s)
    if sn in ("extend",):
        return None
    return None


def over_map(e, fn, b, callee):
    return bool(re.search(r"[hH]ash_?[mM]ap|BTreeMap|btree_?map|[oO]rd_?[mM]ap", str(callee.get("selfty", "")) + str(callee.get("res", "")) +
                          str([e.prog.types[t]["s"] for t in (callee.get("targs") or [])[:1]])))


def looked_for(body, bs):
    """k, if body says that the key of the generic entry of bs is k"""
    g = proj(generic_item(bs), (None, 0))
    if body.op == "app" and body.a[0] == "Eq":
        for x, y in ((body.a[1], body.a[2]), (body.a[2], body.a[1])):
            if x is g and not any(z is generic_item(bs) for z in walk(y)):
                return y
    return None


def known_collection(e, callee):
    return bool(re.search(r"Vec|HashSet|HashMap|\[|Option|Range", str(callee.get("selfty", "")) +
                          str([e.prog.types[t]["s"] for t in (callee.get("targs") or [])[:1]])))
