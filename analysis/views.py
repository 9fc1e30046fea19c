"""Blocks of text, spans over them and iterators through them, as the code builds and walks them.

A text is a sequence of characters, each either given or standing for any one
character (of any width in bytes).  Byte positions are linear expressions over
the widths.  The code of the text types themselves is analysed over such texts
with any given division into parts; nothing about the types is assumed but the
names of their operations.  Iterators are followed step by step, so adaptors
mean what the standard library says they mean."""
from .absint import mk, app, proj, sym, show, T, INT, BOOL, STR, CH, UNIT, TRUE, FALSE, Outcome, State, Undecided, t_not, t_and, t_eq
from .mir import strip_generics
from .models import SOME, NONE, OK, RESULT, OPTION, START, succ, short
from .shape import ShapeEngine, FIXED, blen, shape, chunk, Cls, CLASSES, items, ulen, plus, minus, sign, total, cut, lin, unlin

ANYCH = Cls("any character but a line end", excl="\n\r", single=True)


def ch(n):
    return chunk("%s" % n, ANYCH)


def pieces(sh):
    """the characters of a text, one by one"""
    out = []
    for p in sh.a:
        if p.op == "str":
            out += [STR(c) for c in p.a[0]]
        elif p.op == "chunk":
            out.append(p)
    return out


def of_char(c):
    if c.op == "char":
        return STR(c.a[0])
    if c.op == "rep" and c.a[1] == "1":
        return mk("chunk", c.a[0])
    raise Undecided("text of the character %s" % show(c))


# characters the code compared with ones that could be any
TESTED = set()


class Stop(Exception):
    pass


class Many(Exception):
    """more than one outcome where one was expected"""


def unread(t):
    """Whether a number is made from the outcome of an operation that has not been followed."""
    if t.op != "app":
        return t.op not in ("int", "sym", "proj")
    if t.a[0] in ("Add", "Sub", "Mul", "Div", "Rem", "Neg"):
        return any(unread(x) for x in t.a[1:])
    if t.a[0] in ("blen", "boff", "blast", "at"):
        return False
    if t.a[0] == "len":
        return t.a[1].op == "app"
    return True


class Views(ShapeEngine):
    def __init__(self, prog, **kw):
        kw.setdefault("opaque", lambda name, cal: False)
        super().__init__(prog, **kw)
        self.hooks = [self.view_op] + self.hooks
        self.max_rec = 12
        self.max_depth = 120
        self.nexts = {}
        for f in prog.local.values():
            if strip_generics(f.path).endswith("std::iter::Iterator>::next") and "{" not in f.path:
                t = prog.types[f.locals[1]]
                t = prog.types[t["inner"]] if t["k"] in ("ref", "ptr") and "inner" in t else t
                if t.get("path"):
                    self.nexts[t["path"]] = f
        self.tmp = 0

    # -- running
    def go(self, f, vals, st):
        """The only outcome of a call: (value, state); a panic raises Stop."""
        outs = self.run(f, vals, st) if not isinstance(f, str) else None
        if len(outs) != 1:
            raise Many("%d outcomes of %s" % (len(outs), f.path))
        o = outs[0]
        if o.kind == "panic":
            raise Stop(o.msg or "panic")
        return o.ret, o.st

    def outs(self, f, vals, st):
        outs = self.run(f, vals, st)
        for o in outs:
            if o.kind == "panic":
                raise Stop(o.msg or "panic")
        return [(o.ret, o.st) for o in outs]

    def cell(self, st, v):
        self.tmp += 1
        c = ("h", "t%d" % self.tmp)
        st.mem[c] = v
        return mk("ref", c, ())

    # -- what a path knows about the width of characters
    def widths(self, st):
        out = {}
        for k, v in st.facts.items():
            if v is True and isinstance(k, T) and k.op == "app" and k.a[0] == "Eq":
                x, c = k.a[1], k.a[2]
                if x.op in ("char", "int") and c.op not in ("char", "int"):
                    x, c = c, x
                if x.op == "rep" and c.op == "char":
                    out[x.a[0]] = len(c.a[0].encode())
                elif x.op == "app" and x.a[0] == "width" and c.op == "int":
                    out[x.a[1].a[0]] = c.a[0]
        return out

    def known(self, st, t):
        w = self.widths(st)
        if not w:
            return t
        c, at = lin(t)
        for a in list(at):
            if a.op == "app" and a.a[0] == "blen" and a.a[1] in w:
                c += at.pop(a) * w[a.a[1]]
        return unlin([c, at])

    def decide(self, st, b):
        if b.op == "app" and b.a[0] == "Eq":
            x, y = b.a[1], b.a[2]
            if y.op == "rep":
                x, y = y, x
            if x.op == "rep" and y.op == "char" and CLASSES[x.a[0]].single and CLASSES[x.a[0]].chars is None:
                if CLASSES[x.a[0]].eq(y.a[0]) is False:
                    return False
                w = None
                for k, v in st.facts.items():
                    if v is True and isinstance(k, T) and k.op == "app" and k.a[0] == "Eq" and x in k.a[1:]:
                        return k is b or y in k.a[1:]
                    if v is True and isinstance(k, T) and k.op == "app" and k.a[0] == "Eq" and app("width", x) in k.a[1:]:
                        w = k.a[2].a[0] if k.a[2].op == "int" else k.a[1].a[0]
                if w is not None and w != len(y.a[0].encode()):
                    return False
                if b not in st.facts and len(TESTED) < 8:
                    TESTED.add(y.a[0])
                return st.facts.get(b)
        return super().decide(st, b)

    def cmp(self, st, x, y):
        for t in (x, y):
            if t.op not in ("int", "app") or (t.op == "app" and t.a[0] not in ("Add", "Sub", "blen", "Mul")):
                return None
        return sign(self.known(st, minus(x, y)))

    def bytes_of(self, x, st):
        """[(bytes, state)]: of any character, by its width"""
        if x.op == "char":
            return [([INT(b) for b in x.a[0].encode()], st)]
        if x.op != "rep":
            raise Undecided("bytes of %s" % show(x)[:60])
        w = app("width", x)
        k = FIXED[0](x.a[0]) if FIXED[0] is not None else self.widths(st).get(x.a[0])
        res = []
        for n in (1, 2, 3, 4) if k is None else (k,):
            s = st.copy()
            if k is None and not self.assume(s, t_eq(w, INT(n)), True):
                continue
            res.append(([app("byte", x, INT(i), INT(n)) for i in range(n)], s))
        return res

    def same_bytes(self, xs, ys):
        r = TRUE
        for a, b in zip(xs, ys):
            if a.op == "int":
                a, b = b, a
            if a is b or (a.op == "int" and b.op == "int"):
                e = BOOL(a is b)
            elif a.op == "app" and a.a[0] == "byte" and b.op == "int":
                x, i, n = a.a[1:]
                v, i, n = b.a[0], i.a[0], n.a[0]
                if n == 1:
                    e = t_eq(x, CH(chr(v))) if v < 128 else FALSE
                else:
                    lead = {2: (0xC2, 0xDF), 3: (0xE0, 0xEF), 4: (0xF0, 0xF4)}[n]
                    lo, hi = lead if i == 0 else (0x80, 0xBF)
                    e = app("Eq", a, b) if lo <= v <= hi else FALSE
            else:
                raise Undecided("bytes %s and %s" % (show(a)[:40], show(b)[:40]))
            r = t_and(r, e)
            if r is FALSE:
                return r
        return r

    # -- subtraction must not go below zero
    def binop(self, op, a, b):
        if op in ("Eq", "Ne") and any(t.op == "app" and t.a[0] == "byte" for t in (a, b)):
            r = self.same_bytes([a], [b])
            return r if op == "Eq" else t_not(r)
        r = super().binop(op, a, b)
        if op == "SubWithOverflow" and r.op == "tuple" and r.a[0].op in ("int", "app") and sign(r.a[0]) not in (0, 0.5, 1):
            return mk("tuple", r.a[0], app("below", r.a[0]))
        return r

    def on_assert(self, fn, fr, b, t, st, outs):
        v = self.deref_val(st, self.operand(st, fr, fn, t[1]))
        if v.op == "app" and v.a[0] == "below":
            d = self.known(st, v.a[1])
            if sign(d) in (0, 0.5, 1):
                return [(t[3], st)]
            if sign(d) not in (-1,):
                if unread(d):
                    raise Undecided("whether %s is below zero" % show(d)[:120])
                known = [k for k in st.facts if isinstance(k, T) and k.op == "app" and k.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne")]
                if known:
                    raise Undecided("whether %s is below zero" % show(d)[:120])
            outs.append(Outcome("panic", None, st, msg="%s, which may be below zero, is computed" % show(d)))
            return []
        return [(t[3], st)]

    # -- where a given text is (that the code finds it is decided on its own)
    finds = False

    def found(self, fn, b, f, vals, st):
        t = self.deref_val(st, vals[1]).a[0]
        m = [g for g in self.prog.local.values() if strip_generics(g.path) == "evaluated::block_span::BlockSpan::char_indices"]
        if not m:
            return None
        r = self.run(m[0], [vals[0]], st.copy())
        if len(r) != 1 or r[0].kind != "ret":
            return None
        xs = self.all_items(fn, b, r[0].ret, r[0].st)
        if len(xs) != 1:
            return None
        cs = [x.a for x in xs[0][0]]
        for i in range(len(cs) - len(t) + 1):
            ds = [self.decide(st, t_eq(cs[i + j][1], CH(z))) for j, z in enumerate(t)]
            if None in ds and False not in ds:
                return None
            if False not in ds:
                return SOME(cs[i][0])
        return NONE()

    # -- iterators
    def is_iter(self, v):
        return v.op == "ci" or (v.op == "it" and (v.a[0].op == "list" or (v.a[0].op == "app" and v.a[0].a[0] in ("spanchars", "mutsrc")))) \
            or (v.op == "adt" and v.a[0] in self.nexts) or \
            (v.op == "adt" and (v.a[0] == "std::ops::Range" or v.a[0] == "std::ops::RangeInclusive" and all(x.op == "int" for x in v.a[4][:2])
                                and v.a[4][2:] in ((), (FALSE,))))

    def backwards(self, fn, b, v, st):
        """The same items from the last to the first, where asking for them has no effects"""
        if v.op == "ci" and v.a[0] in ("map", "filter", "filter_map", "inspect") and len(v.a) == 3:
            w = self.backwards(fn, b, v.a[1], st)
            return None if w is None else mk("ci", v.a[0], w, v.a[2])
        xs = self.settled(fn, b, v, st)
        return None if xs is None else mk("ci", "list", mk("list", *xs[::-1]), INT(0))

    def settled(self, fn, b, v, st):
        """The items, where asking for them has no effects"""
        w = v
        while w.op == "ci" and w.a[0] in ("enumerate", "skip", "take", "chain", "zip", "step_by"):
            if w.a[0] in ("chain", "zip") and self.settled(fn, b, w.a[2], st) is None:
                return None
            w = w.a[1]
        if not (w.op == "ci" and w.a[0] in ("list", "mut") or w.op == "it" or w.op == "adt" and w.a[0].startswith("std::ops::Range")):
            return None
        if w.op == "adt" and any(x.op != "int" for x in w.a[4][:2]):
            return None
        alls = self.all_items(fn, b, v, st)
        return alls[0][0] if len(alls) == 1 else None

    def step(self, fn, b, v, st):
        """[(item or None, iterator after, state)]"""
        if v.op == "adt" and v.a[0] == "std::ops::RangeInclusive":
            lo, hi = v.a[4][:2]
            if lo.op != "int" or hi.op != "int":
                raise Undecided("range %s" % show(v)[:80])
            return self.step(fn, b, mk("ci", "list", mk("list", *[INT(i) for i in range(lo.a[0], hi.a[0] + 1)][:500]), INT(0)), st)
        if v.op == "adt" and v.a[0] == "std::ops::Range":
            lo, hi = v.a[4]
            if lo.op != "int" or hi.op != "int":
                raise Undecided("range %s" % show(v)[:80])
            if lo.a[0] >= hi.a[0]:
                return [(None, v, st)]
            return [(lo, mk("adt", v.a[0], v.a[1], v.a[2], v.a[3], (INT(lo.a[0] + 1), hi)), st)]
        if v.op == "adt":
            s = st.copy()
            r = self.cell(s, v)
            res = []
            for o in self.call_body(self.nexts[v.a[0]], [r], s):
                if o.kind == "panic":
                    raise Stop(o.msg or "panic")
                x = o.ret
                if x.op != "adt":
                    raise Undecided("next gives %s" % show(x)[:80])
                nv = self.read(o.st, r.a[0], ())
                res.append((x.a[4][0] if x.a[1] == 1 else None, nv, o.st))
            return res
        if v.op == "it":
            src, pos = v.a
            if src.op == "list":
                k = 0
                while pos.op == "app" and pos.a[0] == "succ":
                    k, pos = k + 1, pos.a[1]
                v = mk("ci", "list", src, INT(k))
            elif src.a[0] == "mutsrc":
                v = mk("ci", "mut", src.a[1], INT(0))
            else:
                its = items(src.a[1])
                k = pos.a[0].a[0]
                if any(x[2] for x in its):
                    raise Undecided("steps through a chunk")
                if k >= len(its):
                    return [(None, v, st)]
                x = its[k]
                return [(mk("tuple", x[0], x[1]) if src.a[2].a[0] == "i" else x[1], mk("it", src, mk("sp", INT(k + 1))), st)]
        k = v.a[0]
        if k == "list":
            i = v.a[2].a[0]
            if i >= len(v.a[1].a):
                return [(None, v, st)]
            return [(v.a[1].a[i], mk("ci", "list", v.a[1], INT(i + 1)), st)]
        if k == "mut":
            l = self.deref_val(st, v.a[1])
            i = v.a[2].a[0]
            if l.op != "list":
                raise Undecided("iterating %s" % show(l)[:60])
            if i >= len(l.a):
                return [(None, v, st)]
            r = v.a[1]
            while self.read(st, r.a[0], r.a[1]).op == "ref":
                r = self.read(st, r.a[0], r.a[1])
            return [(mk("ref", r.a[0], r.a[1] + (("idx", INT(i)),)), mk("ci", "mut", v.a[1], INT(i + 1)), st)]
        if k == "once":
            return [(v.a[1], mk("ci", "list", mk("list"), INT(0)), st)]
        if k == "map_while":
            res = []
            for x, nv, s in self.step(fn, b, v.a[1], st):
                if x is None:
                    res.append((None, mk("ci", k, nv, v.a[2]), s))
                    continue
                for o in self.call_value(fn, b, v.a[2], [x], s):
                    if o.kind == "panic":
                        raise Stop(o.msg or "panic")
                    y = self.deref_val(o.st, o.ret)
                    if y.op != "adt":
                        raise Undecided("map_while gives %s" % show(y)[:60])
                    res.append((y.a[4][0] if y.a[1] == 1 else None, mk("ci", k, nv, v.a[2]), o.st))
            return res
        if k == "step_by":
            n = v.a[2].a[0]
            res = []
            for x, nv, s in self.step(fn, b, v.a[1], st):
                res.append((x, mk("ci", k, nv if x is None or n == 1 else mk("ci", "skip", nv, INT(n - 1)), v.a[2]), s))
            return res
        if k in ("map", "filter_map", "filter", "inspect", "take_while", "skip_while", "flat_map"):
            res = []
            f = v.a[2]
            cur = v.a[3] if k == "flat_map" and len(v.a) > 3 else None
            if cur is not None:
                for x, nv, s in self.step(fn, b, cur, st):
                    if x is not None:
                        res.append((x, mk("ci", k, v.a[1], f, nv), s))
                    else:
                        res += self.step(fn, b, mk("ci", k, v.a[1], f), s)
                return res
            for x, nv, s in self.step(fn, b, v.a[1], st):
                again = mk("ci", k, nv, f)
                if x is None:
                    res.append((None, again, s))
                    continue
                s = s.copy()
                arg = x if k in ("map", "filter_map", "flat_map") else self.cell(s, x)
                for o in self.call_value(fn, b, f, [arg], s):
                    if o.kind == "panic":
                        raise Stop(o.msg or "panic")
                    y = o.ret
                    if k == "map":
                        res.append((y, again, o.st))
                    elif k == "flat_map":
                        y = self.deref_val(o.st, y)
                        if y.op == "list":
                            y = mk("ci", "list", y, INT(0))
                        res += self.step(fn, b, mk("ci", k, nv, f, y), o.st)
                    elif k == "filter_map":
                        if y.op != "adt":
                            raise Undecided("filter_map gives %s" % show(y)[:80])
                        if y.a[1] == 1:
                            res.append((y.a[4][0], again, o.st))
                        else:
                            res += self.step(fn, b, again, o.st)
                    else:
                        for d, s2 in self.truth(y, o.st):
                            if k == "filter":
                                res += [(x, again, s2)] if d else self.step(fn, b, again, s2)
                            elif k == "take_while":
                                res.append((x if d else None, again if d else mk("ci", "list", mk("list"), INT(0)), s2))
                            elif k == "skip_while":
                                res += self.step(fn, b, again, s2) if d else [(x, nv, s2)]
                            else:
                                res.append((x, again, s2))
            return res
        if k == "enumerate":
            return [(None if x is None else mk("tuple", v.a[2], x), mk("ci", k, nv, INT(v.a[2].a[0] + 1)), s)
                    for x, nv, s in self.step(fn, b, v.a[1], st)]
        if k == "zip":
            res = []
            for x, nv, s in self.step(fn, b, v.a[1], st):
                if x is None:
                    res.append((None, mk("ci", k, nv, v.a[2]), s))
                    continue
                for y, nw, s2 in self.step(fn, b, v.a[2], s):
                    res.append((None if y is None else mk("tuple", x, y), mk("ci", k, nv, nw), s2))
            return res
        if k == "chain":
            res = []
            for x, nv, s in self.step(fn, b, v.a[1], st):
                if x is not None:
                    res.append((x, mk("ci", k, nv, v.a[2]), s))
                else:
                    res += self.step(fn, b, v.a[2], s)
            return res
        if k == "skip":
            if v.a[2].op != "int":
                raise Undecided("skipping %s items" % show(v.a[2])[:40])
            n = v.a[2].a[0]
            if n == 0:
                return self.step(fn, b, v.a[1], st)
            res = []
            for x, nv, s in self.step(fn, b, v.a[1], st):
                res += [(None, nv, s)] if x is None else self.step(fn, b, mk("ci", k, nv, INT(n - 1)), s)
            return res
        if k == "take":
            if v.a[2].op != "int":
                raise Undecided("taking %s items" % show(v.a[2])[:40])
            n = v.a[2].a[0]
            if n == 0:
                return [(None, v, st)]
            return [(x, mk("ci", k, nv, INT(n - 1)), s) for x, nv, s in self.step(fn, b, v.a[1], st)]
        if k == "peekable":
            if len(v.a) > 2:
                x = v.a[2]
                return [(None if x.op == "ended" else x, mk("ci", k, v.a[1]), st)]
            return [(x, mk("ci", k, nv), s) for x, nv, s in self.step(fn, b, v.a[1], st)]
        if k == "by_ref":
            r = v.a[1]
            res = []
            for x, nv, s in self.step(fn, b, self.deref_val(st, r), st):
                s = s.copy()
                self.put(s, r, nv)
                res.append((x, v, s))
            return res
        raise Undecided("iterator %s" % show(v)[:80])

    def truth(self, y, st):
        d = y.a[0] if y.op == "bool" else self.decide(st, y)
        if d is not None:
            return [(d, st)]
        out = []
        for val in (True, False):
            s = st.copy()
            if self.assume(s, y, val):
                out.append((val, s))
        return out

    def put(self, s, r, nv):
        while self.read(s, r.a[0], r.a[1]).op == "ref":
            r = self.read(s, r.a[0], r.a[1])
        self.write(s, r.a[0], r.a[1], nv)

    def all_items(self, fn, b, v, st):
        """[(items, iterator after, state)]"""
        done, work = [], [([], v, st)]
        n = 0
        while work:
            n += 1
            if n > 400:
                raise Undecided("an iterator that does not end")
            xs, v, st = work.pop()
            for x, nv, s in self.step(fn, b, v, st):
                if x is None:
                    done.append((xs, nv, s))
                else:
                    work.append((xs + [x], nv, s))
        return done

    def iter_op(self, fn, b, sn, vals, v, st, dty, D):
        def ret(x, s=None):
            return [Outcome("ret", x, s if s is not None else st.copy())]
        n = len(vals)
        ref = vals[0] if vals[0].op == "ref" else None
        if sn in ("into_iter", "iter", "fuse", "cloned", "copied", "clone", "borrow", "by_ref"):
            return ret(mk("ci", "by_ref", ref) if sn == "by_ref" and ref is not None else v)
        if sn in ("map", "filter_map", "filter", "inspect", "take_while", "skip_while", "flat_map") and n == 2:
            return ret(mk("ci", sn, v, vals[1]))
        if sn == "enumerate":
            return ret(mk("ci", sn, v, INT(0)))
        if sn in ("zip", "chain") and n == 2:
            w = D(1)
            if w.op == "list":
                w = mk("ci", "list", w, INT(0))
            if not self.is_iter(w):
                return None
            return ret(mk("ci", sn, v, w))
        if sn in ("skip", "take") and n == 2:
            return ret(mk("ci", sn, v, D(1)))
        if sn == "map_while" and n == 2:
            return ret(mk("ci", sn, v, vals[1]))
        if sn == "step_by" and n == 2 and D(1).op == "int" and D(1).a[0] > 0:
            return ret(mk("ci", sn, v, D(1)))
        if sn == "rev" and n == 1:
            w = self.backwards(fn, b, v, st)
            return None if w is None else ret(w)
        if sn == "next_back" and n == 1 and ref is not None:
            xs = self.settled(fn, b, v, st)
            if xs is None:
                return None
            s = st.copy()
            self.put(s, ref, mk("ci", "list", mk("list", *xs[:-1]), INT(0)))
            return ret(SOME(xs[-1]) if xs else NONE(), s)
        if sn in ("rfind", "rfold") and n > 1:
            w = self.backwards(fn, b, v, st)
            if w is None:
                return None
            # what is left of the iterator is not kept
            return self.iter_op(fn, b, sn[1:], [w] + list(vals[1:]), w, st, dty, D)
        if sn == "rposition" and n == 2:
            xs = self.settled(fn, b, v, st)
            if xs is None:
                return None
            w = mk("ci", "list", mk("list", *xs[::-1]), INT(0))
            outs = self.iter_op(fn, b, "position", [w, vals[1]], w, st, dty, D)
            return [Outcome("ret", SOME(INT(len(xs) - 1 - o.ret.a[4][0].a[0])), o.st) if o.kind == "ret" and o.ret.a[1] == 1 else o for o in outs]
        if sn in ("eq", "ne") and n == 2:
            w = D(1)
            w = mk("ci", "list", w, INT(0)) if w.op == "list" else w
            if not self.is_iter(w):
                return None
            xs, ys = self.settled(fn, b, v, st), self.settled(fn, b, w, st)
            if xs is None or ys is None:
                return None
            r = BOOL(len(xs) == len(ys))
            for x, y in zip(xs, ys) if len(xs) == len(ys) else []:
                r = t_and(r, t_eq(self.deref_val(st, x), self.deref_val(st, y)))
            return ret(r if sn == "eq" else t_not(r))
        if sn in ("max", "min", "product", "len") and n == 1:
            xs = self.settled(fn, b, v, st)
            if xs is None:
                return None
            if sn == "len":
                return ret(INT(len(xs)))
            ks = [self.deref_val(st, x) for x in xs]
            if any(k.op != "int" for k in ks):
                return None
            if sn == "product":
                r = 1
                for k in ks:
                    r *= k.a[0]
                return ret(INT(r))
            if not xs:
                return ret(NONE())
            i = (min if sn == "min" else max)(range(len(xs)), key=lambda i: (ks[i].a[0], i))
            return ret(SOME(xs[i]))
        if sn == "partition" and n == 2 and dty is not None and "Vec" in self.prog.types[dty]["s"]:
            res = []
            for xs, nv, s in self.all_items(fn, b, v, st):
                todo = [([], [], s)]
                for x in xs:
                    nx = []
                    for p, q, s0 in todo:
                        s1 = s0.copy()
                        for o in self.call_value(fn, b, vals[1], [self.cell(s1, x)], s1):
                            if o.kind == "panic":
                                res.append(o)
                                continue
                            for d, s2 in self.truth(o.ret, o.st):
                                nx.append((p + [x], q, s2) if d else (p, q + [x], s2))
                    todo = nx
                res += [Outcome("ret", mk("tuple", mk("list", *p), mk("list", *q)), s2) for p, q, s2 in todo]
            return res
        if sn == "peekable":
            return ret(mk("ci", sn, v))
        if sn == "flatten":
            return ret(mk("ci", "flat_map", v, mk("ident")))
        if sn == "next" and n == 1:
            res = []
            for x, nv, s in self.step(fn, b, v, st):
                s = s.copy()
                if ref is not None:
                    self.put(s, ref, nv)
                res.append(Outcome("ret", NONE() if x is None else SOME(x), s))
            return res
        if sn == "peek" and ref is not None and v.op == "ci" and v.a[0] == "peekable":
            res = []
            if len(v.a) > 2:
                todo = [(None if v.a[2].op == "ended" else v.a[2], v, st)]
            else:
                todo = [(x, mk("ci", "peekable", nv, x if x is not None else mk("ended")), s) for x, nv, s in self.step(fn, b, v.a[1], st)]
            for x, nv, s in todo:
                s = s.copy()
                self.put(s, ref, nv)
                res.append(Outcome("ret", NONE() if x is None else SOME(self.cell(s, x)), s))
            return res
        if sn in ("find", "position", "any", "all", "find_map"):
            res = []
            work = [(0, v, st)]
            while work:
                k, w, s0 = work.pop()
                for x, nv, s in self.step(fn, b, w, s0):
                    if x is None:
                        end = {"find": NONE(), "position": NONE(), "find_map": NONE(), "any": FALSE, "all": TRUE}[sn]
                        s = s.copy()
                        if ref is not None:
                            self.put(s, ref, nv)
                        res.append(Outcome("ret", end, s))
                        continue
                    s = s.copy()
                    arg = self.cell(s, x) if sn == "find" else x
                    for o in self.call_value(fn, b, vals[1], [arg], s):
                        if o.kind == "panic":
                            res.append(o)
                            continue
                        if sn == "find_map":
                            if o.ret.op != "adt":
                                raise Undecided("find_map gives %s" % show(o.ret)[:60])
                            tr = [(o.ret.a[1] == 1, o.st)]
                        else:
                            tr = self.truth(o.ret, o.st)
                        for d, s2 in tr:
                            if d == (sn != "all"):
                                s2 = s2.copy()
                                if ref is not None:
                                    self.put(s2, ref, nv)
                                r = {"find": SOME(x), "position": SOME(INT(k)), "any": TRUE, "all": FALSE, "find_map": o.ret}[sn]
                                res.append(Outcome("ret", r, s2))
                            else:
                                work.append((k + 1, nv, s2))
            return res
        ty = self.prog.types[dty] if dty is not None else None
        if sn in ("try_for_each", "try_fold") or sn in ("collect", "sum") and ty is not None and ty.get("path") in (OPTION, RESULT):
            return self.tries(fn, b, sn, v, ref, vals, st, ty)
        if sn in ("collect", "sum", "count", "last", "nth", "for_each", "fold", "from_iter", "max", "min"):
            res = []
            for xs, nv, s in self.all_items(fn, b, v, st):
                s = s.copy()
                if ref is not None:
                    self.put(s, ref, nv)
                if sn in ("collect", "from_iter"):
                    ty = self.prog.types[dty]["s"] if dty is not None else ""
                    if ty.endswith("String"):
                        x = shape(*[of_char(self.deref_val(s, y)) if self.deref_val(s, y).op in ("char", "rep") else self.deref_val(s, y) for y in xs])
                    elif "HashSet" in ty:
                        x = mk("cset", *sorted({self.deref_val(s, y) for y in xs}, key=lambda t: t.id))
                    else:
                        x = mk("list", *xs)
                elif sn == "sum":
                    x = INT(0)
                    for y in xs:
                        x = plus(x, self.deref_val(s, y))
                elif sn == "count":
                    x = INT(len(xs))
                elif sn == "last":
                    x = SOME(xs[-1]) if xs else NONE()
                elif sn == "nth" and D(1).op == "int":
                    # steps beyond the item are taken back
                    k = D(1).a[0]
                    cur = [(v, st)]
                    for i in range(k + 1):
                        cur = [(nv2, s2, x2) for w, s0, *_ in [c if len(c) == 3 else c + (None,) for c in cur]
                               for x2, nv2, s2 in self.step(fn, b, w, s0)]
                    for w, s2, x2 in cur:
                        s2 = s2.copy()
                        if ref is not None:
                            self.put(s2, ref, w)
                        res.append(Outcome("ret", NONE() if x2 is None else SOME(x2), s2))
                    return res
                elif sn in ("fold", "for_each"):
                    accs = [(vals[1] if sn == "fold" else UNIT, s)]
                    f = vals[2] if sn == "fold" else vals[1]
                    for y in xs:
                        nx = []
                        for a, s2 in accs:
                            for o in self.call_value(fn, b, f, [a, y] if sn == "fold" else [y], s2):
                                if o.kind == "panic":
                                    res.append(o)
                                else:
                                    nx.append((o.ret, o.st))
                        accs = nx
                    res += [Outcome("ret", a if sn == "fold" else UNIT, s2) for a, s2 in accs]
                    continue
                else:
                    return None
                res.append(Outcome("ret", x, s))
            return res
        return None

    def tries(self, fn, b, sn, v, ref, vals, st, ty):
        """Iteration that ends at the first failure"""
        gather = sn == "collect"
        if sn == "sum" or gather and not any(x in ty["s"] for x in ("std::vec::Vec", "()")):
            raise Undecided("%s into %s" % (sn, ty["s"][:60]))
        acc = vals[1] if sn == "try_fold" else mk("list") if gather else UNIT
        f = None if gather else vals[-1]
        work, res = [(v, st, acc, None)], []
        while work:
            w, s0, acc, like = work.pop()
            for x, nv, s in self.step(fn, b, w, s0):
                s = s.copy()
                if x is None:
                    if ref is not None:
                        self.put(s, ref, nv)
                    res.append(Outcome("ret", self.good(ty, acc if not gather or "std::vec::Vec" in ty["s"] else UNIT), s))
                    continue
                outs = [Outcome("ret", x, s)] if gather else self.call_value(fn, b, f, [acc, x] if sn == "try_fold" else [x], s)
                for o in outs:
                    if o.kind == "panic":
                        res.append(o)
                        continue
                    r = self.deref_val(o.st, o.ret)
                    ways = []
                    if r.op == "adt":
                        ways = [(r, o.st)]
                    else:
                        names = {OPTION: ("None", "Some"), RESULT: ("Ok", "Err")}.get(ty.get("path"))
                        if names is None:
                            raise Undecided("%s: the step gives %s" % (sn, show(r)[:60]))
                        for i, nm in enumerate(names):
                            s2 = o.st.copy()
                            if self.assume(s2, app("is", r, i, 2), True):
                                ways.append((mk("adt", ty["path"], i, nm, () if nm == "None" else ("0",), () if nm == "None" else (proj(r, (nm, 0)),)), s2))
                    for r, s2 in ways:
                        if r.a[2] in ("Ok", "Some", "Continue"):
                            y = r.a[4][0] if r.a[4] else UNIT
                            work.append((nv, s2, mk("list", *acc.a, y) if gather else y, r))
                        else:
                            s2 = s2.copy()
                            if ref is not None:
                                self.put(s2, ref, nv)
                            res.append(Outcome("ret", r, s2))
        return res

    def good(self, ty, x):
        p = ty.get("path")
        if p == OPTION:
            return SOME(x)
        if p == RESULT:
            return OK(x)
        raise Undecided("success as %s" % ty["s"][:60])

    # -- operations
    def set_of(self, v):
        if v.op == "cset":
            return v.a
        if v.op == "app" and v.a[0] == "set0":
            return ()
        return None

    def set_op(self, sn, vals, v, st, D):
        xs = self.set_of(v)
        if xs is None:
            return None

        def ret(x, s=None):
            return [Outcome("ret", x, s if s is not None else st.copy())]

        def cset(ys):
            return mk("cset", *sorted(set(ys), key=lambda t: t.id))
        ref = vals[0] if vals[0].op == "ref" else None
        if sn in ("iter", "into_iter"):
            return ret(mk("ci", "list", mk("list", *xs), INT(0)))
        if sn == "clone":
            return ret(v)
        if sn == "len":
            return ret(INT(len(xs)))
        if sn == "is_empty":
            return ret(BOOL(not xs))
        if sn in ("update", "without", "insert", "remove", "contains") and len(vals) == 2:
            x = D(1)
            if any(t.op != "sym" for t in xs + (x,)):
                raise Undecided("set of %s" % show(v)[:60])
            if sn == "contains":
                return ret(BOOL(x in xs))
            nv = cset(xs + (x,)) if sn in ("update", "insert") else cset([t for t in xs if t is not x])
            if sn in ("update", "without"):
                return ret(nv)
            s = st.copy()
            self.put(s, ref, nv)
            return ret(SOME(x) if x in xs else NONE(), s)
        if sn in ("union", "extend", "intersection") and len(vals) == 2:
            w = D(1)
            ys = self.set_of(w)
            if ys is None and self.is_iter(w):
                r = self.all_items(None, None, w, st)
                if len(r) == 1:
                    st, ys = r[0][2], tuple(self.deref_val(r[0][2], t) for t in r[0][0])
            if ys is None:
                return None
            if sn == "extend":
                s = st.copy()
                self.put(s, ref, cset(xs + tuple(ys)))
                return ret(UNIT, s)
            return ret(cset(xs + tuple(ys)) if sn == "union" else cset([t for t in xs if t in ys]))
        return None

    def view_op(self, e, fn, b, name, callee, vals, st, dty):
        sn = short(name)

        def ret(x, s=None):
            return [Outcome("ret", x, s if s is not None else st.copy())]
        key = callee.get("key")
        f = self.prog.fns.get(key or "")
        if f is not None and f.local and sn == "deref" and not vals[0].op == "shape":
            init = [g for g in self.prog.local.values() if g.path == f.path + "::__static_ref_initialize"]
            if init:
                c = ("h", "static", f.path)
                if c in st.mem:
                    return ret(mk("ref", c, ()))
                res = []
                for o in self.call_body(init[0], [], st.copy()):
                    if o.kind == "panic":
                        return None
                    s = o.st.copy()
                    s.mem[c] = o.ret
                    res.append(Outcome("ret", mk("ref", c, ()), s))
                return res
        if f is not None and f.local and sn == "find_substring" and self.finds and len(vals) == 2 and self.deref_val(st, vals[1]).op == "str":
            r = self.found(fn, b, f, vals, st)
            if r is not None:
                return ret(r)
        if f is not None and f.local and not (callee.get("raw") or "").startswith(("std::iter::Iterator::", "std::ops::Fn")):
            return self.local(f, vals, st)
        if sn == "default" and not vals and dty is not None:
            ty = self.prog.types[dty]["s"]
            while ty.startswith(("std::sync::Arc<", "std::boxed::Box<", "std::rc::Rc<")):
                ty = ty[ty.index("<") + 1:-1]
            if ty.startswith("std::vec::Vec<"):
                return ret(mk("list"))
            if "HashSet<" in ty:
                return ret(app("set0"))
            g = [g for g in self.prog.local.values() if g.path == "<%s as std::default::Default>::default" % ty]
            if g and f is not g[0]:
                return self.call_body(g[0], [], st)
        if not vals:
            if name.endswith(("String::new", "String::default")):
                return ret(shape())
            return None
        if name.endswith("String::with_capacity"):
            return ret(shape())
        if sn == "with_capacity" and ("VecDeque" in name or "Vec" in name):
            return ret(mk("list"))
        v = self.deref_val(st, vals[0])

        def D(i):
            return self.deref_val(st, vals[i])
        if v.op == "adt" and v.a[0].endswith("BlockSpan"):
            if sn in ("need_more", "need_more_err"):
                k = D(2) if sn == "need_more_err" else self.eof_kind()
                er = self.mk_adt("nom::Err", 1, [self.mk_adt("nom::Context", 0, [v, k])])
                return ret(mk("adt", RESULT, 1, "Err", ("0",), (er,)))
            if name == "nom::rest":
                sl = [g for g in self.prog.local.values() if g.path.endswith("::slice") and "RangeFrom<usize>" in
                      self.prog.tystr(g.locals[2])] if True else []
                sl = [g for g in sl if "BlockSpan" in self.prog.tystr(g.locals[1])]
                lf = [g for g in self.prog.local.values() if strip_generics(g.path) == "evaluated::block_span::BlockSpan::len"]
                s = st.copy()
                r = self.cell(s, v)
                n, s = self.go(lf[0], [r], s)
                x, s = self.go(sl[0], [r, mk("adt", "std::ops::RangeFrom", 0, None, ("start",), (n,))], s)
                return ret(OK(mk("tuple", x, v)), s)
        if sn == "into_error_kind" and v.op == "adt":
            while v.op == "adt" and v.a[0].startswith("nom::") and v.a[2] in ("Error", "Failure"):
                v = v.a[4][0]
            if v.op == "adt" and v.a[2] == "Code":
                return ret(v.a[4][1])
        if sn == "convert" and len(vals) == 1 and v.op == "adt" and v.a[0].endswith("ErrorKind") and v.a[2] != "Custom":
            return ret(v)
        if v.op == "fn" and sn in ("call", "call_mut", "call_once"):
            return None
        r = self.set_op(sn, vals, v, st, D)
        if r is not None:
            return r
        if sn in ("from_iter",) and self.is_iter(v):
            return self.iter_op(fn, b, sn, vals, v, st, dty, D)
        if self.is_iter(v):
            r = self.iter_op(fn, b, sn, vals, v, st, dty, D)
            if r is not None:
                return r
        if sn in ("iter", "into_iter") and v.op == "adt" and v.a[0] in (OPTION, RESULT) and dty is not None and "IterMut" not in self.prog.types[dty]["s"]:
            some = v.a[2] in ("Some", "Ok")
            return ret(mk("ci", "list", mk("list", *v.a[4][:1]) if some else mk("list"), INT(0)))
        if name == "std::iter::once" and len(vals) == 1:
            return ret(mk("ci", "list", mk("list", vals[0]), INT(0)))
        if sn in ("iter_mut",) and v.op == "list" and vals[0].op == "ref":
            return ret(mk("ci", "mut", vals[0], INT(0)))
        if sn in ("iter", "into_iter") and v.op == "list":
            if sn == "into_iter" and dty is not None and "IterMut" in self.prog.types[dty]["s"]:
                return ret(mk("ci", "mut", vals[0], INT(0)))
            return ret(mk("ci", "list", v, INT(0)))
        if sn in ("extend", "extend_from_slice") and v.op == "list" and len(vals) == 2:
            w = D(1)
            w = mk("ci", "list", w, INT(0)) if w.op == "list" else w
            if self.is_iter(w):
                res = []
                for xs, nv, s in self.all_items(fn, b, w, st):
                    s = s.copy()
                    self.put(s, vals[0], mk("list", *(v.a + tuple(xs))))
                    res.append(Outcome("ret", UNIT, s))
                return res
        if v.op in ("str", "shape") and dty is not None and sn in ("push", "push_str") and len(vals) == 2 and vals[0].op == "ref":
            w = D(1)
            w = of_char(w) if w.op in ("char", "rep") else w
            s = st.copy()
            self.put(s, vals[0], shape(v, w))
            return ret(UNIT, s)
        if sn == "encode_utf8" and v.op in ("char", "rep"):
            return ret(app("utf8", v))
        if v.op == "app" and v.a[0] == "utf8" and sn in ("bytes", "as_bytes", "len", "iter"):
            if sn == "len":
                return ret(blen(STR(v.a[1].a[0]) if v.a[1].op == "char" else mk("chunk", v.a[1].a[0])))
            return [Outcome("ret", mk("list", *xs) if sn[0] == "a" else mk("ci", "list", mk("list", *xs), INT(0)), s)
                    for xs, s in self.bytes_of(v.a[1], st)]
        if v.op == "shape" and sn in ("as_bytes", "bytes", "into_bytes"):
            todo = [([], st)]
            for p in v.a:
                cs = [CH(z) for z in p.a[0]] if p.op == "str" else [mk("rep", p.a[0], "1")] if CLASSES[p.a[0]].single else None
                if cs is None:
                    raise Undecided("bytes of %s" % show(v)[:60])
                for c in cs:
                    todo = [(xs + ys, s2) for xs, s in todo for ys, s2 in self.bytes_of(c, s)]
                    if len(todo) > 4:
                        raise Undecided("bytes of %s" % show(v)[:60])
            return [Outcome("ret", mk("ci", "list", mk("list", *xs), INT(0)) if sn == "bytes" else mk("list", *xs), s) for xs, s in todo]
        if v.op == "str" and sn == "as_bytes":
            return ret(mk("list", *[INT(x) for x in v.a[0].encode()]))
        if v.op == "list" and sn in ("eq", "ne") and len(vals) == 2 and D(1).op == "list":
            w = D(1)
            if len(v.a) != len(w.a):
                return ret(BOOL(sn == "ne"))
            if all(t.op == "int" or (t.op == "app" and t.a[0] == "byte") for t in v.a + w.a):
                r = self.same_bytes(v.a, w.a)
                return ret(r if sn == "eq" else t_not(r))
        if sn == "pop_front" and v.op == "list" and vals[0].op == "ref":
            s = st.copy()
            self.put(s, vals[0], mk("list", *v.a[1:]))
            return ret(SOME(v.a[0]) if v.a else NONE(), s)
        if sn == "push_back" and v.op == "list" and vals[0].op == "ref":
            s = st.copy()
            self.put(s, vals[0], mk("list", *(v.a + (vals[1],))))
            return ret(UNIT, s)
        if v.op == "str" and sn in ("chars", "char_indices", "bytes"):
            v = shape(v)
            if sn == "bytes":
                return ret(mk("ci", "list", mk("list", *[INT(x) for p in v.a for x in p.a[0].encode()]), INT(0)))
            return ret(mk("it", app("spanchars", v, STR("i" if "indices" in sn else "c")), mk("sp", INT(0))))
        if v.op == "str" and sn == "index" and len(vals) == 2 and D(1).op == "adt" and "ops::Range" in D(1).a[0]:
            return self.on_shape(fn, b, sn, name, callee, shape(v), vals, st, dty, D, ret)
        if v.op in ("str", "shape") and sn in ("reserve", "shrink_to_fit"):
            return ret(UNIT)
        if sn in ("chars", "char_indices") and v.op == "shape":
            return None
        if v.op in ("char", "rep") and sn in ("to_lowercase", "to_uppercase", "to_ascii_lowercase"):
            if v.op == "char":
                w = getattr(v.a[0], "upper" if "upper" in sn else "lower")()
                return ret(mk("ci", "list", mk("list", *[CH(x) for x in w]), INT(0)) if "ascii" not in sn else CH(w))
            # one character, as nearly all have (the others are not looked for)
            x = app("lower" if "lower" in sn else "upper", v)
            return ret(mk("ci", "list", mk("list", x), INT(0)) if "ascii" not in sn else x)
        if sn == "index" and v.op == "list" and len(vals) == 2:
            r = D(1)
            if r.op == "adt" and "ops::Range" in r.a[0]:
                k = r.a[0].rsplit("::", 1)[-1]
                lo, hi = INT(0), INT(len(v.a))
                if k in ("Range", "RangeInclusive"):
                    lo, hi = r.a[4][:2]
                elif k == "RangeFrom":
                    lo = r.a[4][0]
                elif k == "RangeTo":
                    hi = r.a[4][0]
                if lo.op != "int" or hi.op != "int":
                    raise Undecided("part %s of a list" % show(r)[:60])
                lo, hi = lo.a[0], hi.a[0]
                if not 0 <= lo <= hi <= len(v.a):
                    return self.panic(fn, b, st, "range out of bounds")
                return ret(mk("list", *v.a[lo:hi]))
        if sn in ("split_first", "split_last", "first", "last") and v.op == "list" and len(vals) == 1:
            if not v.a:
                return ret(NONE())
            i = 0 if "first" in sn else len(v.a) - 1
            rest = v.a[1:] if i == 0 else v.a[:-1]
            return ret(SOME(mk("tuple", v.a[i], mk("list", *rest)) if "split" in sn else v.a[i]))
        if sn == "get" and v.op == "list" and len(vals) == 2 and D(1).op == "int":
            i = D(1).a[0]
            return ret(SOME(v.a[i]) if i < len(v.a) else NONE())
        if sn in ("index", "index_mut") and v.op == "list" and len(vals) == 2 and D(1).op == "int" and D(1).a[0] >= len(v.a):
            return self.panic(fn, b, st, "index out of bounds")
        if sn == "split_at" and v.op == "list" and D(1).op == "int":
            i = D(1).a[0]
            if i > len(v.a):
                return self.panic(fn, b, st, "split out of bounds")
            return ret(mk("tuple", mk("list", *v.a[:i]), mk("list", *v.a[i:])))
        if sn == "as_ptr" and v.op == "list":
            # lists here are ends of one list
            return ret(INT(8 * (1000 - len(v.a))))
        if sn in ("offset", "add", "wrapping_add", "wrapping_offset") and v.op == "int" and "ptr" in name and D(1).op == "int":
            return ret(INT(v.a[0] + 8 * D(1).a[0]))
        if sn in ("ptr_eq", "eq") and name.startswith(("std::ptr::eq", "core::ptr::eq")) or name.endswith("Arc::ptr_eq"):
            a, c = self.place(st, vals[0]), self.place(st, vals[1])
            if a is None or c is None:
                raise Undecided("identity of %s" % show(vals[0])[:60])
            return ret(BOOL(a == c))
        if sn in ("unwrap_or_default",) and v.op == "adt":
            return None
        if sn in ("saturating_sub", "checked_sub") and len(vals) == 2:
            d = minus(v, D(1))
            sg = sign(d)
            if sg in (0, 1, 0.5):
                return ret(d if sn[0] == "s" else SOME(d))
            if sg in (-1, -0.5):
                return ret(INT(0) if sn[0] == "s" else NONE())
            res = []
            for less, s in self.truth(app("Lt", v, D(1)), st):
                x = (INT(0) if less else d) if sn[0] == "s" else (NONE() if less else SOME(d))
                res.append(Outcome("ret", x, s))
            return res
        if sn in ("min", "max", "integer_min", "integer_max") and len(vals) == 2 and v.op in ("int", "app"):
            sg = sign(minus(v, D(1)))
            if sg is not None:
                return ret(D(1) if (sg > 0) == sn.endswith("min") else v)
            return [Outcome("ret", v if less == sn.endswith("min") else D(1), s)
                    for less, s in self.truth(app("Lt", v, D(1)), st)]
        if sn in ("eq", "ne") and v.op == "adt" and len(vals) == 2 and D(1).op == "adt":
            return None
        return None

    def place(self, st, v):
        if v.op != "ref":
            return ("value", v.id)
        while True:
            w = self.read(st, v.a[0], v.a[1])
            if w.op != "ref":
                return (v.a[0], v.a[1])
            v = w

    def local(self, f, vals, st):
        # the code itself
        return self.call_body(f, vals, st) if self.stack.count(f.key) < self.max_rec else None
