"""Library operations on values that are fully known: lists of given length, literal texts, numbers and characters."""
from .absint import mk, app, INT, BOOL, STR, CH, UNIT, TRUE, FALSE, Outcome, t_eq, t_and, t_not
from .mir import strip_generics

ORDER = "std::cmp::Ordering"


def order(c):
    i = 0 if c < 0 else 1 if c == 0 else 2
    return mk("adt", ORDER, i, ("Less", "Equal", "Greater")[i], (), ())


def t_or(a, b):
    return t_not(t_and(t_not(a), t_not(b)))


def bounds(r, n):
    """(from, to) of a range with known ends, in something n long"""
    if r.op == "adt" and "ops::Range" in r.a[0] or r.op == "adt" and r.a[0].endswith("RangeFull"):
        k = r.a[0].split("::")[-1]
        if k == "RangeFull":
            return 0, n
        if any(x.op != "int" for x in r.a[4]):
            return None
        x = [y.a[0] for y in r.a[4]]
        lo, hi = {"Range": lambda: (x[0], x[1]), "RangeFrom": lambda: (x[0], n), "RangeTo": lambda: (0, x[0]),
                  "RangeToInclusive": lambda: (0, x[0] + 1)}.get(k, lambda: (1, 0))()
        return (lo, hi) if 0 <= lo <= hi <= n else None
    return None


def more(e, fn, b, name, vals, st, dty, callee):
    from .models import SOME, NONE, START
    sn = strip_generics(name).rsplit("::", 1)[-1]
    n = len(vals)

    def ret(x, s=None):
        return [Outcome("ret", x, s if s is not None else st.copy())]

    def D(i):
        x = e.deref_val(st, vals[i])
        if x.op == "shape" and all(p.op == "str" for p in x.a):
            return STR("".join(p.a[0] for p in x.a))
        return x
    if n == 0:
        if sn == "new" and "VecDeque" in name:
            return ret(mk("list"))
        return None
    v = D(0)
    ref = vals[0] if vals[0].op == "ref" else None

    def W(x):
        s = st.copy()
        r = ref
        while e.read(s, r.a[0], r.a[1]).op == "ref":
            r = e.read(s, r.a[0], r.a[1])
        e.write(s, r.a[0], r.a[1], x)
        return s

    def listed(xs):
        return mk("it", mk("list", *xs), START)

    def opt(x):
        return NONE() if x is None else SOME(x)
    if v.op == "list" and ("slice" in name or "Vec" in name or "concat" in name or "join" in name or "array" in name):
        L = list(v.a)
        k = D(1).a[0] if n > 1 and D(1).op == "int" else None
        if sn == "reverse" and n == 1 and ref:
            return ret(UNIT, W(mk("list", *L[::-1])))
        if sn == "truncate" and ref and k is not None:
            return ret(UNIT, W(mk("list", *L[:k])))
        if sn == "insert" and n == 3 and ref and k is not None and k <= len(L):
            return ret(UNIT, W(mk("list", *L[:k], vals[2], *L[k:])))
        if sn == "remove" and n == 2 and ref and k is not None and k < len(L) and "VecDeque" not in name:
            return ret(L[k], W(mk("list", *L[:k], *L[k + 1:])))
        if sn == "swap" and n == 3 and ref and k is not None and D(2).op == "int" and max(k, D(2).a[0]) < len(L):
            j = D(2).a[0]
            L[k], L[j] = L[j], L[k]
            return ret(UNIT, W(mk("list", *L)))
        if sn == "split_off" and n == 2 and ref and k is not None and k <= len(L):
            return ret(mk("list", *L[k:]), W(mk("list", *L[:k])))
        if sn == "drain" and n == 2 and ref:
            r = bounds(D(1), len(L))
            if r:
                return ret(listed(L[r[0]:r[1]]), W(mk("list", *L[:r[0]], *L[r[1]:])))
        if sn == "contains" and n == 2:
            r = FALSE
            for x in L:
                r = t_or(r, t_eq(e.deref_val(st, x), D(1)))
            return ret(r)
        if sn in ("starts_with", "ends_with") and n == 2 and D(1).op == "list":
            M = list(D(1).a)
            if len(M) > len(L):
                return ret(FALSE)
            r = TRUE
            for x, y in zip(L[:len(M)] if sn == "starts_with" else L[len(L) - len(M):], M):
                r = t_and(r, t_eq(e.deref_val(st, x), e.deref_val(st, y)))
            return ret(r)
        if sn == "concat" and n == 1:
            xs = [e.deref_val(st, x) for x in L]
            if xs and all(x.op == "list" for x in xs):
                return ret(mk("list", *[y for x in xs for y in x.a]))
            if xs and all(x.op == "str" for x in xs):
                return ret(STR("".join(x.a[0] for x in xs)))
        if sn == "join" and n == 2 and D(1).op == "str":
            xs = [e.deref_val(st, x) for x in L]
            if all(x.op == "str" for x in xs):
                return ret(STR(D(1).a[0].join(x.a[0] for x in xs)))
        if sn == "windows" and k:
            return ret(listed([mk("list", *L[i:i + k]) for i in range(len(L) - k + 1)]))
        if sn == "chunks" and k:
            return ret(listed([mk("list", *L[i:i + k]) for i in range(0, len(L), k)]))
        if sn == "split_first" and n == 1 and "mut" not in sn:
            return ret(SOME(mk("tuple", L[0], mk("list", *L[1:]))) if L else NONE())
        if sn == "split_last" and n == 1:
            return ret(SOME(mk("tuple", L[-1], mk("list", *L[:-1]))) if L else NONE())
        if sn == "dedup" and n == 1 and ref:
            out = []
            for x in L:
                r = t_eq(e.deref_val(st, out[-1]), e.deref_val(st, x)) if out else FALSE
                if r not in (TRUE, FALSE):
                    return None
                if r is FALSE:
                    out.append(x)
            return ret(UNIT, W(mk("list", *out)))
        if "VecDeque" in name and ref:
            if sn == "push_front":
                return ret(UNIT, W(mk("list", vals[1], *L)))
            if sn == "pop_front":
                return ret(opt(L[0] if L else None), W(mk("list", *L[1:])))
            if sn == "pop_back":
                return ret(opt(L[-1] if L else None), W(mk("list", *L[:-1])))
        if "VecDeque" in name and sn in ("front", "back") and n == 1:
            return ret(opt((L[0] if sn == "front" else L[-1]) if L else None))
        return None
    a1 = D(1) if n > 1 else None
    if v.op == "str" and ("str" in name or "String" in name):
        s = v.a[0]
        q = a1.a[0] if a1 is not None and a1.op in ("str", "char") else None
        enc = lambda x: INT(len(x.encode()))
        if q is not None:
            if sn in ("starts_with", "ends_with"):
                return ret(BOOL(getattr(s, sn.replace("_", ""))(q)))
            if sn == "strip_prefix":
                return ret(opt(STR(s[len(q):]) if s.startswith(q) else None))
            if sn == "strip_suffix":
                return ret(opt(STR(s[:len(s) - len(q)]) if s.endswith(q) else None))
            if sn == "split_once":
                return ret(opt(mk("tuple", *map(STR, s.split(q, 1))) if q in s else None))
            if sn == "rsplit_once":
                return ret(opt(mk("tuple", *map(STR, s.rsplit(q, 1))) if q in s else None))
            if sn == "split" and q:
                return ret(listed([STR(x) for x in s.split(q)]))
            if sn == "find":
                return ret(opt(enc(s[:s.index(q)]) if q in s else None))
            if sn == "rfind":
                return ret(opt(enc(s[:s.rindex(q)]) if q in s else None))
            if sn == "replace" and n == 3 and D(2).op == "str":
                return ret(STR(s.replace(q, D(2).a[0])))
            if sn == "add" and n == 2:
                return ret(STR(s + q))
            if sn in ("add_assign", "push", "push_str") and n == 2 and ref:
                return ret(UNIT, W(STR(s + q)))
            if sn == "trim_start_matches" and q:
                while s.startswith(q):
                    s = s[len(q):]
                return ret(STR(s))
            if sn == "trim_end_matches" and q:
                while s.endswith(q):
                    s = s[:-len(q)]
                return ret(STR(s))
            if sn in ("contains",) and n == 2:
                return ret(BOOL(q in s))
            if sn == "eq_ignore_ascii_case" and s.isascii() and q.isascii():
                return ret(BOOL(s.lower() == q.lower()))
        if n == 1:
            if sn in ("trim", "trim_start", "trim_end") and s.isascii():
                return ret(STR({"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}[sn](" \t\n\x0b\x0c\r")))
            if sn == "split_whitespace" and s.isascii() and s.isprintable():
                return ret(listed([STR(x) for x in s.split()]))
            if sn in ("to_ascii_uppercase", "to_ascii_lowercase", "to_uppercase", "to_lowercase") and s.isascii():
                return ret(STR(s.upper() if "upper" in sn else s.lower()))
            if sn == "clear" and ref:
                return ret(UNIT, W(STR("")))
            if sn == "pop" and ref:
                return ret(opt(CH(s[-1]) if s else None), W(STR(s[:-1])))
        if sn == "repeat" and a1 is not None and a1.op == "int":
            return ret(STR(s * a1.a[0]))
        if a1 is not None and a1.op == "int" and s.isascii():
            if sn == "is_char_boundary":
                return ret(BOOL(a1.a[0] <= len(s)))
            if sn == "split_at" and a1.a[0] <= len(s):
                return ret(mk("tuple", STR(s[:a1.a[0]]), STR(s[a1.a[0]:])))
            if sn in ("insert", "insert_str") and n == 3 and ref and D(2).op in ("str", "char") and a1.a[0] <= len(s):
                return ret(UNIT, W(STR(s[:a1.a[0]] + D(2).a[0] + s[a1.a[0]:])))
            if sn == "truncate" and ref:
                return ret(UNIT, W(STR(s[:a1.a[0]])))
        if sn == "get" and a1 is not None and s.isascii():
            r = bounds(a1, len(s))
            if r:
                return ret(SOME(STR(s[r[0]:r[1]])))
        return None
    if v.op == "char":
        c = v.a[0]
        if n == 1:
            if sn == "is_ascii_whitespace":
                return ret(BOOL(c in " \t\n\x0c\r"))
            if sn in ("is_ascii_digit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_punctuation", "is_ascii_control", "is_ascii"):
                a = c.isascii()
                return ret(BOOL({"is_ascii": a, "is_ascii_digit": a and c.isdigit(), "is_ascii_alphabetic": a and c.isalpha(),
                                 "is_ascii_alphanumeric": a and c.isalnum(), "is_ascii_control": a and (c < " " or c == "\x7f"),
                                 "is_ascii_punctuation": a and c.isprintable() and not c.isalnum() and c != " "}[sn]))
            if sn == "to_string":
                return ret(STR(c))
            if sn in ("from", "into") and dty is not None and e.prog.types[dty]["s"] in ("u32", "u64"):
                return ret(INT(ord(c)))
    if v.op == "ci" and v.a[0] == "list" and sn == "as_slice" and n == 1:
        return ret(mk("list", *v.a[1].a[v.a[2].a[0]:]))
    if v.op in ("int", "char") and a1 is not None and a1.op == v.op and sn in ("cmp", "partial_cmp") and n == 2:
        x, y = (v.a[0], a1.a[0]) if v.op == "int" else (ord(v.a[0]), ord(a1.a[0]))
        r = order((x > y) - (x < y))
        return ret(r if sn == "cmp" else SOME(r))
    if v.op == "int" and sn in ("from", "into") and n == 1 and dty is not None and e.prog.types[dty]["s"] == "char" and v.a[0] < 128:
        return ret(CH(chr(v.a[0])))
    if v.op == "adt" and v.a[0] == ORDER:
        i = v.a[1] - 1
        if n == 1:
            if sn == "reverse":
                return ret(order(-i))
            t = {"is_eq": i == 0, "is_ne": i != 0, "is_lt": i < 0, "is_gt": i > 0, "is_le": i <= 0, "is_ge": i >= 0}.get(sn)
            if t is not None:
                return ret(BOOL(t))
        if sn == "then":
            return ret(v if i else D(1))
        if sn == "then_with":
            return ret(v) if i else e.call_value(fn, b, vals[1], [], st.copy(), dty)
    return None
