"""Parsers over text shapes: an abstract domain for pieces of makefile text.

A shape is a sequence of literal pieces and chunks.  A chunk stands for every
text over a character class (e.g. "any word", "any blanks").  Positions are
linear expressions over the lengths of chunks.  A loop over the characters of
a chunk is analysed for its first, an arbitrary middle and its last character,
to a fixpoint, so a result holds for chunks of every length.

The operations of text spans themselves (slicing, searching, iterating) are
given by this domain; that the code's own implementation of them is right is
a separate property (views of text)."""
import re
from .absint import (t_union, walk, Engine, State, Undecided, mk, app, sym, show, T, INT, BOOL, STR, CH, UNIT, TRUE, FALSE, Outcome,
                     t_not, t_eq, walk)
from .single import Single
from .models import START, SOME, NONE, OK, it, short, RESULT

PUNCT = "".join(chr(c) for c in range(1, 128) if not chr(c).isalnum())


class Cls:
    """A character class: a finite set, or everything but a set."""

    def __init__(self, name, chars=None, excl=None, ws=None, word=False, single=False):
        self.name, self.chars, self.excl, self.ws, self.word = name, chars, excl, ws, word
        # exactly one character, of any width
        self.single = single

    def eq(self, c):
        if self.chars is not None:
            return None if c in self.chars else False
        return False if c in self.excl else None


WORD = Cls("word", excl=PUNCT + "\0\ufeff", ws=False, word=True)
BLANKS = Cls("blanks", chars=" \t", ws=True)
SPACES = Cls("spaces", chars=" ", ws=True)
# anything that does not end a line, start a comment or escape
TEXT = Cls("text", excl="\n\r#\\\0\ufeff$\t :=?+!(){},", ws=False, word=True)
CLASSES = {}


def chunk(name, cls):
    while CLASSES.get(name, cls) is not cls:
        # another check uses this name for another class
        name += "~"
    CLASSES[name] = cls
    return mk("chunk", name)


def shape(*pieces):
    """Normalised shape; str pieces are literal text."""
    out = []
    for p in pieces:
        if isinstance(p, T) and p.op == "shape":
            for q in p.a:
                _add(out, q)
        else:
            _add(out, STR(p) if isinstance(p, str) else p)
    while out and out[-1].op == "seam":
        out.pop()
    while out and out[0].op == "seam":
        out.pop(0)
    return mk("shape", *out)


# a boundary between two stored segments of the text (of no width)
SEAM = mk("seam")


def unseam(sh):
    return shape(*[p for p in sh.a if p.op != "seam"]) if any(p.op == "seam" for p in sh.a) else sh


def segs(sh):
    out, cur = [], []
    for p in sh.a:
        if p.op == "seam":
            out.append(shape(*cur))
            cur = []
        else:
            cur.append(p)
    return out + ([shape(*cur)] if cur else [])


def _add(out, p):
    if p.op == "seam":
        if out and out[-1].op != "seam":
            out.append(p)
        return
    if p.op == "str":
        if not p.a[0]:
            return
        if out and out[-1].op == "str":
            out[-1] = STR(out[-1].a[0] + p.a[0])
            return
    out.append(p)


# widths in bytes of single characters, when they are taken to be given: width(name)
FIXED = [None]


def blen(p):
    if p.op == "seam":
        return INT(0)
    if p.op == "str":
        return INT(len(p.a[0].encode()))
    if FIXED[0] is not None and CLASSES[p.a[0]].single:
        return INT(FIXED[0](p.a[0]))
    if CLASSES[p.a[0]].chars is not None and len(p.a) > 1:
        return INT(1)
    return app("blen", p.a[0])


# ---- linear expressions
def lin(t, k=1, acc=None):
    """(constant, {atom: coefficient}) or None"""
    if acc is None:
        acc = [0, {}]
    if t.op == "int":
        acc[0] += k * t.a[0]
    elif t.op == "app" and t.a[0] in ("Add", "Sub") and len(t.a) == 3:
        lin(t.a[1], k, acc)
        lin(t.a[2], k if t.a[0] == "Add" else -k, acc)
    elif t.op == "app" and t.a[0] == "Mul" and t.a[2].op == "int":
        lin(t.a[1], k * t.a[2].a[0], acc)
    else:
        c = acc[1].get(t, 0) + k
        if c:
            acc[1][t] = c
        else:
            acc[1].pop(t, None)
    return acc


def unlin(l):
    c, at = l
    t = None
    for a in sorted((a for a in at if at[a] > 0), key=lambda x: x.id):
        x = a if at[a] == 1 else app("Mul", a, INT(at[a]))
        t = x if t is None else app("Add", t, x)
    neg = sorted((a for a in at if at[a] < 0), key=lambda x: x.id)
    if t is None and neg:
        t = INT(0)
    for a in neg:
        t = app("Sub", t, a if at[a] == -1 else app("Mul", a, INT(-at[a])))
    if t is None:
        return INT(c)
    if c > 0:
        return app("Add", t, INT(c))
    if c < 0:
        return app("Sub", t, INT(-c))
    return t


def plus(a, b):
    return unlin(lin(b, 1, lin(a)))


def minus(a, b):
    return unlin(lin(b, -1, lin(a)))


def sign(t):
    """-1, 0, 1 when the sign of the linear term is certain; None otherwise.
    "<=0" / ">=0" are returned as -0.5 / 0.5."""
    c, at = lin(t)
    if not at:
        return (c > 0) - (c < 0)
    at = dict(at)
    # blen(x) = blast(x) + 1.. ; blast(x) = boff(x) + 0.. ; boff(x) >= 1
    lo = {}
    for n in {a.a[1] for a in at if a.op == "app" and a.a[0] in ("blen", "blast", "boff")}:
        n_ = at.pop(app("blen", n), 0)
        l_ = at.pop(app("blast", n), 0)
        o_ = at.pop(app("boff", n), 0)
        # blen = r + last ; last = s + off ; r>=1, s>=0, off>=1
        if CLASSES[n].single:
            if n_:
                lo[(n, "r")] = (n_, 1)
            continue
        for nm, coef, low in (("r", n_, 1), ("s", n_ + l_, 0), ("o", n_ + l_ + o_, 1)):
            if coef:
                lo[(n, nm)] = (coef, low)
    for a in at:
        if a.op == "app" and a.a[0] == "len":
            lo[a] = (at[a], 0)
        else:
            return None
    mn = c + sum(k * low for k, low in lo.values())
    if all(k > 0 for k, _ in lo.values()):
        return 1 if mn > 0 else (0.5 if mn == 0 else None)
    if all(k < 0 for k, _ in lo.values()):
        return -1 if mn < 0 else (-0.5 if mn == 0 else None)
    if not lo:
        return (c > 0) - (c < 0)
    return None


def total(sh):
    t = INT(0)
    for p in sh.a:
        t = plus(t, blen(p))
    return t


def cut(sh, at):
    """(before, after) at the byte position `at`."""
    pos = INT(0)
    for i, p in enumerate(sh.a):
        d = minus(at, pos)
        s = sign(d)
        if s == 0:
            return shape(*sh.a[:i]), shape(*sh.a[i:])
        if p.op == "str":
            if d.op == "int" and 0 < d.a[0] < len(p.a[0].encode()):
                b = p.a[0].encode()
                try:
                    x, y = b[:d.a[0]].decode(), b[d.a[0]:].decode()
                except UnicodeDecodeError:
                    raise Undecided("cut inside a character")
                return shape(*(sh.a[:i] + (STR(x),))), shape(*((STR(y),) + sh.a[i + 1:]))
        elif p.op == "chunk":
            r = sign(minus(d, blen(p)))
            if CLASSES[p.a[0]].single and s == 1 and r == -1:
                raise Undecided("cut inside a character")
            if s in (1, 0.5) and r in (-1, -0.5):
                n = p.a[0]
                a, z = mk("chunk", "%s[..%s]" % (n, show(d)), "part"), mk("chunk", "%s[%s..]" % (n, show(d)), "part")
                CLASSES[a.a[0]] = CLASSES[z.a[0]] = CLASSES[n]
                return shape(*(sh.a[:i] + (a,))), shape(*((z,) + sh.a[i + 1:]))
        pos = plus(pos, blen(p))
    d = sign(minus(at, pos))
    if d == 0:
        return sh, shape()
    if d == 1:
        return None     # out of range
    raise Undecided("cut of %s at %s" % (show(sh), show(at)))


def cuts(sh, at):
    """Alternatives of cut: after the first character of a run of blanks there may be more of it or not."""
    pos = INT(0)
    for i, p in enumerate(sh.a):
        if p.op == "chunk" and len(p.a) == 1 and CLASSES[p.a[0]].ws and \
                sign(minus(minus(at, pos), app("boff", p.a[0]))) == 0:
            n = p.a[0]
            one = mk("chunk", "%s[..1]" % n, "part")
            CLASSES[one.a[0]] = CLASSES[n]
            more = chunk(n.rstrip("'") + "'", CLASSES[n])
            b = shape(*(sh.a[:i] + (one,)))
            return [(b, shape(*sh.a[i + 1:])), (b, shape(*((more,) + sh.a[i + 1:])))]
        pos = plus(pos, blen(p))
    c = cut(sh, at)
    return [] if c is None else [c]


def items(sh):
    """(position, character, repeat) of a shape; repeat marks the generic middle of a chunk."""
    out = []
    pos = INT(0)
    for p in sh.a:
        if p.op == "str":
            for c in p.a[0]:
                out.append((pos, CH(c), False))
                pos = plus(pos, INT(len(c.encode())))
        elif p.op == "chunk":
            n = p.a[0]
            if CLASSES[n].single:
                out.append((pos, mk("rep", n, "1"), False))
                pos = plus(pos, blen(p))
                continue
            out.append((pos, mk("rep", n, "f"), False))
            out.append((plus(pos, app("boff", n)), mk("rep", n, "i"), True))
            out.append((plus(pos, app("blast", n)), mk("rep", n, "l"), False))
            pos = plus(pos, blen(p))
    return out


def ulen(c):
    if c.op == "char":
        return INT(len(c.a[0].encode()))
    if c.op == "rep":
        n, role = c.a
        if role == "1":
            return blen(mk("chunk", n))
        if role == "f":
            return app("boff", n)
        if role == "i":
            return INT(0)
        return minus(app("blen", n), app("blast", n))
    return None


def e_cell(s, v):
    """A fresh place holding v."""
    c = ("h", "cell%d" % v.id)
    s.mem[c] = v
    return c


def litprefix(sh):
    sh = unseam(sh)
    return sh.a[0].a[0] if sh.a and sh.a[0].op == "str" else ""


COMPARE = "nom::CompareResult"


TRIMS = re.compile(r"(trim_(start|end|left|right)_matches|trim_matches|strip_(prefix|suffix))$")


class Unknown(Exception):
    pass


class ShapeEngine(Engine):
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.hooks = [self.span_op]
        self.unroll = 300
        self.max_rec = 6

    # -- conditions
    def decide(self, st, b):
        if b.op == "app" and b.a[0] == "Eq":
            x, y = b.a[1], b.a[2]
            if y.op == "rep":
                x, y = y, x
            if x.op == "rep" and y.op == "char":
                c = CLASSES[x.a[0]]
                r = c.eq(y.a[0])
                if r is None and c.chars is not None:
                    left = [z for z in c.chars if st.facts.get(app("Eq", x, CH(z))) is not False]
                    if left == [y.a[0]]:
                        return True
                    if any(st.facts.get(app("Eq", x, CH(z))) is True for z in c.chars if z != y.a[0]):
                        return False
                    return super().decide(st, b)
                if r is None:
                    raise Undecided("character class %s compared with %r" % (c.name, y.a[0]))
                return r
            if x.op != "rep" and y.op != "rep":
                r = self.cmp(st, x, y)
                if r is not None:
                    return r == 0 if r in (0, 1, -1) else super().decide(st, b)
        if b.op == "app" and b.a[0] == "Lt":
            r = self.cmp(st, b.a[1], b.a[2])
            if r in (1, 0, 0.5):
                return False
            if r == -1:
                return True
        if b.op == "app" and b.a[0] == "is_whitespace" and b.a[1].op == "rep":
            return CLASSES[b.a[1].a[0]].ws
        return super().decide(st, b)

    def cmp(self, st, x, y):
        """Sign of x - y."""
        for t in (x, y):
            if t.op not in ("int", "app"):
                return None
            if t.op == "app" and t.a[0] not in ("Add", "Sub", "blen", "blast", "boff", "Mul"):
                return None
        return sign(minus(x, y))

    def binop(self, op, a, b):
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        if o in ("Add", "Sub") and (a.op == "int" or a.op == "app") and (b.op == "int" or b.op == "app"):
            r = plus(a, b) if o == "Add" else minus(a, b)
            return mk("tuple", r, FALSE) if op.endswith("WithOverflow") else r
        return super().binop(op, a, b)

    # -- loops are followed, not widened, as long as that ends
    def gathers(self, fn, fr, h, body, st):
        """A loop that does nothing but put every element of some set into others: where it leads, else None."""
        live = fn.live_in()[h]
        its = [(c, v) for c, v in st.mem.items() if c[0] == "l" and c[1] == fr and c[2] in live and v.op == "it" and v.a[1] is START and (v.a[0].op == "sym" or v.a[0].op == "app" and v.a[0].a[0] in ("sens", "union", "single"))]
        if len(its) != 1:
            return None
        mine = []
        exits, backs = self.loop_region(fn, fr, h, body, st.copy(), mine)
        if mine or len(backs) != 1 or len({tb for tb, _ in exits}) != 1 or backs[0].ev != st.ev or any(s.ev != st.ev for _, s in exits):
            return None
        src = its[0][1].a[0]
        one = app("single", app("item", src, START))
        grown = []
        for c, v1 in backs[0].mem.items():
            v0 = st.mem.get(c)
            if v0 is v1 or c == its[0][0] or c[0] == "l" and (c[1] > fr or c[1] == fr and c[2] not in live):
                continue
            if v0 is None or v1 is not t_union(v0, one):
                return None
            grown.append((c, v0))
        if not grown or any(k not in st.facts and not (isinstance(k, T) and src in walk(k)) for k in backs[0].facts):
            return None
        res = []
        for tb, s in exits:
            s = s.copy()
            for c, v0 in grown:
                s.mem[c] = t_union(v0, src)
            s.facts = dict(st.facts)
            s.mem.pop(its[0][0], None)
            res.append((tb, s))
        return res[:1]

    def loop1(self, fn, fr, h, body, st, outs):
        r = self.gathers(fn, fr, h, body, st)
        if r is not None:
            return r
        seen = set()
        work = [st.copy()]
        res, mine = [], []
        rounds = 0
        while work:
            rounds += 1
            if rounds > self.unroll:
                return super().loop1(fn, fr, h, body, st, outs)
            nxt = []
            for s in work:
                exits, backs = self.loop_region(fn, fr, h, body, s, mine)
                res.extend(exits)
                nxt.extend(backs)
            work = []
            for s in nxt:
                k = (frozenset(s.mem.items()), frozenset(s.facts.items()),
                     frozenset((getattr(x, "name", x), getattr(x, "args", None)) for x in s.ev))
                if k not in seen:
                    seen.add(k)
                    work.append(s)
            if len(work) > self.max_states:
                raise Undecided("too many states in a loop of %s" % fn.path)
        outs.extend(mine)
        groups = {}
        for tb, s in res:
            groups.setdefault(tb, []).append(s)
        return [(tb, s) for tb, g in groups.items() for s in self.dedup(fn, fr, tb, g)]

    # -- span operations
    def span_op(self, e, fn, b, name, callee, vals, st, dty):
        sn = short(name)
        if not vals:
            for k, c in (("space", " "), ("newline", "\n"), ("semicolon", ";")):
                if name.endswith("ContentReference::" + k):
                    return self.ok(mk("sref", shape(c)), st.copy())
            if name.endswith("BlockSpan::empty"):
                return self.ok(shape(), st.copy())
            if name.endswith("Block::empty"):
                return self.ok(mk("sblock", shape(), app("sens", shape())), st.copy())
            return None
        v = self.deref_val(st, vals[0])

        def D(i):
            return self.deref_val(st, vals[i])

        def ret(x, s=None):
            return [Outcome("ret", x, s if s is not None else st.copy())]
        if sn in ("min", "max") and len(vals) == 2 and v.op in ("int", "app") and D(1).op in ("int", "app"):
            sg = self.cmp(st, v, D(1))
            if sg in (-1, -0.5, 0, 0.5, 1):
                return ret(D(1) if (sg > 0) == (sn == "min") else v)
        if sn in ("saturating_sub", "checked_sub") and len(vals) == 2 and v.op in ("int", "app") and D(1).op in ("int", "app"):
            sg = self.cmp(st, v, D(1))
            if sg in (0, 0.5, 1):
                d = minus(v, D(1))
                return ret(d if sn[0] == "s" else SOME(d))
            if sg in (-1, -0.5) and sn[0] == "s":
                return ret(INT(0))
        if sn in ("len_utf8", "len") and len(vals) == 1 and v.op in ("rep", "char") and not v.op == "str":
            return ret(ulen(v))
        if sn in ("as_char", "as_") and v.op == "rep":
            return ret(v)
        if v.op == "char" and sn == "is_whitespace":
            return ret(BOOL(v.a[0].isspace() and v.a[0] not in "\x1c\x1d\x1e\x1f"))
        if v.op == "char" and sn in ("is_alphanumeric", "is_alphabetic", "is_numeric", "is_ascii_alphanumeric",
                                     "is_ascii_digit", "is_control") and ord(v.a[0]) < 128:
            c = v.a[0]
            return ret(BOOL({"is_alphanumeric": c.isalnum(), "is_alphabetic": c.isalpha(), "is_numeric": c.isdigit(),
                             "is_ascii_alphanumeric": c.isalnum(), "is_ascii_digit": c.isdigit(),
                             "is_control": ord(c) < 32 or ord(c) == 127}[sn]))
        if name == "nom::rest" and v.op == "shape":
            return ret(OK(mk("tuple", shape(), v)))
        if sn == "retain" and v.op == "list" and len(vals) == 2 and vals[0].op == "ref":
            work, res = [(0, (), st.copy())], []
            while work:
                k, keep, s = work.pop()
                if k == len(v.a):
                    s = s.copy()
                    r = vals[0]
                    while self.read(s, r.a[0], r.a[1]).op == "ref":
                        r = self.read(s, r.a[0], r.a[1])
                    self.write(s, r.a[0], r.a[1], mk("list", *keep))
                    res.append(Outcome("ret", UNIT, s))
                    continue
                for o in self.call_value(fn, b, vals[1], [v.a[k]], s):
                    if o.kind != "ret":
                        return None
                    d = o.ret.a[0] if o.ret.op == "bool" else self.decide(o.st, o.ret)
                    for val in (True, False) if d is None else (d,):
                        s2 = o.st.copy()
                        if d is not None or self.assume(s2, o.ret, val):
                            work.append((k + 1, keep + ((v.a[k],) if val else ()), s2))
            return res
        if sn in ("need_more", "need_more_err") and v.op == "shape":
            k = D(2) if sn == "need_more_err" else self.eof_kind()
            er = self.mk_adt("nom::Err", 1, [self.mk_adt("nom::Context", 0, [v, k])])
            return ret(mk("adt", RESULT, 1, "Err", ("0",), (er,)))
        if v.op == "str" and sn in ("find", "contains", "rfind") and len(vals) == 2 and D(1).op in ("rep", "char"):
            if D(1).op == "char":
                k = v.a[0].find(D(1).a[0]) if sn != "rfind" else v.a[0].rfind(D(1).a[0])
                k = len(v.a[0][:k].encode()) if k > 0 else k
                return ret(BOOL(k >= 0) if sn == "contains" else SOME(INT(k)) if k >= 0 else NONE())
            if all(CLASSES[D(1).a[0]].eq(x) is False for x in v.a[0]):
                return ret(FALSE if sn == "contains" else NONE())
        if v.op == "rep" and sn == "is_whitespace":
            w = CLASSES[v.a[0]].ws
            return ret(BOOL(w)) if w is not None else None
        if v.op == "rep" and sn == "eq" and len(vals) == 2 and D(1).op in ("char", "rep"):
            return None
        if v.op == "shape":
            return self.on_shape(fn, b, sn, name, callee, v, vals, st, dty, D, ret)
        if v.op == "it" and v.a[0].op == "app" and v.a[0].a[0] in ("spanchars", "spanlist"):
            return self.on_iter(fn, b, sn, name, callee, v, vals, st, dty, D, ret)
        if v.op == "it" and v.a[0].op == "list" and sn in ("next", "into_iter") and len(vals) == 1 and \
                callee.get("crate") == "hastur":
            from .models import iter_next
            return iter_next(self, fn, b, vals[0], st, dty) if sn == "next" else ret(v)
        if sn == "raw_sensitivity" and len(vals) == 1 and v.op == "app" and v.a[0] == "parentof":
            return ret(app("sens", v))
        if v.op == "sblock":
            r = self.on_block(fn, b, sn, name, v, vals, st, D, ret)
            if r is not None:
                return r
        if sn == "new" and name.endswith("Block::new") and len(vals) == 2:
            l = D(1)
            if l.op == "list" and all(x.op == "sref" for x in l.a):
                return ret(mk("sblock", shape(*[x.a[0] for x in l.a]), D(0)))
        if sn == "into_error_kind" and v.op == "adt":
            while v.op == "adt" and v.a[0].startswith("nom::") and v.a[2] in ("Error", "Failure"):
                v = v.a[4][0]
            if v.op == "adt" and v.a[2] == "Code":
                return ret(v.a[4][1])
        if sn == "convert" and len(vals) == 1 and v.op == "adt" and v.a[0].endswith("ErrorKind") and v.a[2] != "Custom":
            return ret(v)
        if sn == "empty_with_parent":
            return ret(shape())
        if v.op == "sseg" and sn in ("into", "from", "clone", "to_owned"):
            return ret(v)
        if v.op == "sseg" and sn == "location":
            return ret(self.loc(v.a[0]))
        if sn in ("lt", "le", "gt", "ge") and v.op == "int":
            return None
        return None

    def eof_kind(self):
        for i, x in enumerate(self.prog.adts["nom::ErrorKind"]["variants"]):
            if x["n"] == "Eof":
                return self.mk_adt("nom::ErrorKind", i, [])
        raise Undecided("nom::ErrorKind::Eof")

    def loc(self, sh):
        p = sh.a[0]
        return app("locof", CH(p.a[0][0]) if p.op == "str" else p)

    def slice(self, sh, lo, hi, st):
        if hi is not None:
            c = cut(sh, hi)
            if c is None:
                return None
            sh = c[0]
        if lo is not None:
            c = cut(sh, lo)
            if c is None:
                return None
            sh = c[1]
        return sh

    def panic(self, fn, b, st, msg):
        return [Outcome("panic", mk("bot"), st.copy(), where=(self.where(fn, b), fn.loc(b)), msg=msg)]

    def pred(self, fn, b, f, c, st):
        """[(truth, state)] of a character predicate."""
        out = []
        for o in self.call_value(fn, b, f, [c], st.copy()):
            if o.kind == "panic":
                raise Undecided("a character predicate panics")
            r = o.ret
            d = self.decide(o.st, r) if r.op != "bool" else r.a[0]
            if d is not None:
                out.append((d, o.st))
                continue
            for val in (True, False):
                s = o.st.copy()
                if self.assume(s, r, val):
                    out.append((val, s))
        if c.op == "rep" and c.a[1] == "i" and any(s.mem != st.mem for _, s in out):
            raise Undecided("a character predicate keeps state over a chunk")
        # a predicate that has the same answer whatever else is assumed adds no facts
        if len({d for d, _ in out}) == 1 and len({frozenset(s.mem.items()) for _, s in out}) == 1:
            s = out[0][1]
            s.facts = dict(st.facts)
            return [(out[0][0], s)]
        if c.op == "rep":
            raise Undecided("a character predicate splits class %s" % CLASSES[c.a[0]].name)
        return out

    def search(self, fn, b, its, f, st):
        """[(index or None, state)] of the first item whose character satisfies f."""
        res = []
        work = [(0, st)]
        while work:
            k, s = work.pop()
            if k == len(its):
                res.append((None, s))
                continue
            for d, s2 in self.pred(fn, b, f, its[k][1], s):
                if d:
                    res.append((k, s2))
                else:
                    work.append((k + 1, s2))
        return res

    def on_shape(self, fn, b, sn, name, callee, v, vals, st, dty, D, ret):
        n = len(vals)
        if sn not in ("segments", "to_content_reference", "to_new_block", "location", "slice", "take", "take_split", "clone",
                      "slice_index", "offset", "eq", "ne", "into", "from", "borrow", "deref", "as_ref", "index", "to_owned") and not sn.startswith("split"):
            whole, v = v, unseam(v)
        if sn in ("len", "input_len") and n == 1:
            return ret(total(v))
        if sn == "is_empty":
            return ret(BOOL(not v.a))
        if sn in ("clone", "to_owned", "to_string", "into", "from", "borrow", "deref", "as_ref", "as_str", "into_string",
                  "to_str", "as_bytes"):
            return ret(v)
        if sn == "at_eof":
            return ret(TRUE)
        if sn == "slice" or sn == "index":
            r = D(1)
            if r.op == "adt" and "ops::Range" in r.a[0]:
                k = r.a[0].rsplit("::", 1)[-1]
                lo = hi = None
                if k == "Range":
                    lo, hi = r.a[4]
                elif k == "RangeFrom":
                    lo = r.a[4][0]
                elif k == "RangeTo":
                    hi = r.a[4][0]
                elif k != "RangeFull":
                    return None
                if lo is not None and hi is None:
                    cs = cuts(v, self.deref_val(st, lo))
                    if len(cs) > 1:
                        return [Outcome("ret", c[1], st.copy()) for c in cs]
                x = self.slice(v, self.deref_val(st, lo) if lo is not None else None,
                               self.deref_val(st, hi) if hi is not None else None, st)
                if x is None:
                    return self.panic(fn, b, st, "slice out of range")
                return ret(x)
        if sn == "take" and n == 2:
            x = self.slice(v, None, D(1), st)
            return ret(x) if x is not None else self.panic(fn, b, st, "take out of range")
        if sn in ("take_split", "split_at") and n == 2:
            cs = cuts(v, D(1))
            if not cs:
                return self.panic(fn, b, st, "split out of range")
            return [Outcome("ret", mk("tuple", c[1], c[0]) if sn == "take_split" else mk("tuple", c[0], c[1]), st.copy())
                    for c in cs]
        if sn in ("split_at_position", "split_at_position1"):
            res = []
            its = items(v)
            for k, s in self.search(fn, b, its, vals[1], st):
                if sn.endswith("1") and (k == 0 or (k is None and not v.a)):
                    ec = self.mk_adt("nom::Context", 0, [v, D(2)])
                    er = self.mk_adt("nom::Err", 1, [ec])
                    res += [Outcome("ret", mk("adt", RESULT, 1, "Err", ("0",), (er,)), s)]
                    continue
                if k is None:
                    res.append(Outcome("ret", OK(mk("tuple", shape(), v)), s))
                else:
                    x, y = cut(v, its[k][0])
                    res.append(Outcome("ret", OK(mk("tuple", y, x)), s))
            return res
        if sn in ("compare", "compare_no_case") and n == 2:
            t = D(1)
            if t.op == "str":
                return ret(self.compare(v, t.a[0], sn.endswith("case")))
            return None
        if sn == "starts_with" and n == 2 and D(1).op == "str":
            r = self.compare(v, D(1).a[0], False)
            return ret(BOOL(r.a[2] == "Ok"))
        if sn in ("find_substring", "find") and n == 2 and D(1).op in ("str", "char"):
            p = self.find_lit(v, D(1).a[0])
            return ret(NONE() if p is None else SOME(p))
        if sn in ("contains",) and n == 2 and D(1).op in ("str", "char"):
            return ret(BOOL(self.find_lit(v, D(1).a[0]) is not None))
        if sn in ("position", "find") and n == 2:
            its = items(v)
            return [Outcome("ret", NONE() if k is None else SOME(its[k][0]), s)
                    for k, s in self.search(fn, b, its, vals[1], st)]
        if sn == "slice_index" and n == 2 and D(1).op == "int":
            its = items(v)
            k = D(1).a[0]
            if any(x[2] for x in its[:k]):
                raise Undecided("n-th character of a chunk")
            return ret(SOME(its[k][0]) if k < len(its) else (SOME(total(v)) if k == len(its) else NONE()))
        if sn in ("chars", "iter_elements", "char_indices", "iter_indices"):
            return ret(it(app("spanchars", v, STR("i" if "indices" in sn else "c")), mk("sp", INT(0))))
        if sn == "location":
            return ret(SOME(self.loc(v)) if v.a else NONE())
        if sn == "segments":
            return ret(it(mk("list", *[mk("sseg", x) for x in segs(v)])))
        if sn == "to_new_block":
            return ret(mk("sblock", v, app("sens", v)))
        if sn == "to_content_reference":
            return ret(mk("sref", v))
        if sn == "parent":
            return ret(app("parentof", STR("input")))
        if sn in ("trim", "trim_start", "trim_end", "trim_left", "trim_right") and n == 1:
            ps = list(unseam(v).a)

            def strip(front):
                while ps:
                    p = ps[0] if front else ps[-1]
                    if p.op == "str":
                        t = p.a[0].lstrip() if front else p.a[0].rstrip()
                        if t:
                            ps[0 if front else -1] = STR(t)
                            return
                    elif CLASSES[p.a[0]].ws is not True:
                        if CLASSES[p.a[0]].ws is None:
                            raise Undecided("trimming class %s" % CLASSES[p.a[0]].name)
                        return
                    ps.pop(0 if front else -1)
            if sn in ("trim", "trim_start", "trim_left"):
                strip(True)
            if sn in ("trim", "trim_end", "trim_right"):
                strip(False)
            return ret(shape(*ps))
        if TRIMS.match(sn) and n == 2 and (D(1).op == "char" or (D(1).op == "str" and D(1).a[0])):
            t = D(1).a[0]
            ps = list(unseam(v).a)

            def cutoff(front):
                some = False
                while ps:
                    p = ps[0] if front else ps[-1]
                    if p.op != "str":
                        c = t[0 if front else -1]
                        if p.op != "chunk" or CLASSES[p.a[0]].eq(c) is not False:
                            raise Unknown
                        return some
                    x = p.a[0]
                    if not (x.startswith(t) if front else x.endswith(t)):
                        if len(t) > 1 and len(ps) > 1 and any(
                                x == t[:len(x)] if front else x == t[-len(x):] for _ in (0,)):
                            raise Unknown
                        return some
                    some = True
                    x = x[len(t):] if front else x[:-len(t)]
                    if x:
                        ps[0 if front else -1] = STR(x)
                    else:
                        ps.pop(0 if front else -1)
                    if sn.startswith("strip"):
                        return True
                return some
            try:
                if sn.startswith("strip"):
                    return ret(SOME(shape(*ps)) if cutoff(sn == "strip_prefix") else NONE())
                if sn in ("trim_matches", "trim_start_matches", "trim_left_matches"):
                    cutoff(True)
                if sn in ("trim_matches", "trim_end_matches", "trim_right_matches"):
                    cutoff(False)
                return ret(shape(*ps))
            except Unknown:
                # the character may or may not be there: another text
                return None
        if sn == "ends_with" and n == 2 and D(1).op in ("char", "str"):
            t, ps = D(1).a[0], list(unseam(v).a)
            if not t:
                return ret(TRUE)
            if not ps:
                return ret(FALSE)
            if ps[-1].op == "str":
                x = ps[-1].a[0]
                if x.endswith(t) or len(x) >= len(t) or not t.endswith(x) or len(ps) == 1:
                    return ret(BOOL(x.endswith(t)))
            elif ps[-1].op == "chunk" and CLASSES[ps[-1].a[0]].eq(t[-1]) is False:
                return ret(FALSE)
            raise Undecided("%s ends with %r" % (show(v), t))
        if sn == "offset" and n == 2:
            w = D(1)
            if len(w.a) <= len(v.a) and v.a[len(v.a) - len(w.a):] == w.a:
                return ret(minus(total(v), total(w)))
            if w.a and v.a and w.a[0].op == "str" and v.a[-len(w.a)].op == "str" and \
                    v.a[-len(w.a)].a[0].endswith(w.a[0].a[0]):
                return ret(minus(total(v), total(w)))
            raise Undecided("offset between unrelated spans")
        if sn in ("eq", "ne") and n == 2:
            w = D(1)
            w = shape(w) if w.op == "str" else w
            if w.op == "shape":
                d = self.same(v, w)
                if d is not None:
                    return ret(BOOL(d if sn == "eq" else not d))
                return ret(app("Eq", v, w) if sn == "eq" else t_not(app("Eq", v, w)))
        if sn == "compare" or sn == "fmt":
            return None
        return None

    def same(self, v, w):
        if v is w:
            return True
        if all(p.op == "str" for p in v.a) and all(p.op == "str" for p in w.a):
            return False
        if not v.a or not w.a:
            return False
        return None

    def compare(self, v, t, nocase):
        def res(k):
            return self.mk_adt(COMPARE, {"Ok": 0, "Incomplete": 1, "Error": 2}[k], [])
        i = 0
        for p in v.a:
            if i >= len(t):
                break
            if p.op == "str":
                for c in p.a[0]:
                    if i >= len(t):
                        break
                    if not (c == t[i] or (nocase and c.lower() == t[i].lower())):
                        return res("Error")
                    i += 1
            else:
                cl = CLASSES[p.a[0]]
                if cl.eq(t[i]) is False or cl.word:
                    # words stand for text that does not happen to match a keyword
                    return res("Error")
                raise Undecided("comparing %s with %r" % (show(v), t))
        return res("Ok" if i >= len(t) else "Incomplete")

    def find_lit(self, v, t):
        pos = INT(0)
        for i, p in enumerate(v.a):
            if p.op == "str":
                text = p.a[0]
                k = text.find(t)
                if k >= 0:
                    return plus(pos, INT(len(text[:k].encode())))
                # a match could only straddle pieces
                for j in range(1, len(t)):
                    if text.endswith(t[:j]) and i + 1 < len(v.a) and CLASSES[v.a[i + 1].a[0]].eq(t[j]) is not False:
                        raise Undecided("literal may straddle a chunk")
            else:
                c = CLASSES[p.a[0]]
                if all(c.eq(x) is not False for x in t[:1]):
                    raise Undecided("searching %r in class %s" % (t, c.name))
            pos = plus(pos, blen(p))
        return None

    def on_iter(self, fn, b, sn, name, callee, v, vals, st, dty, D, ret):
        src, pos = v.a
        if pos.op != "sp":
            return None
        if src.a[0] == "spanlist":
            mode = "v"
            its = [(None, x.a[0], x.a[1].a[0]) for x in src.a[1].a]
        else:
            mode = src.a[2].a[0]
            its = items(src.a[1])
        k = pos.a[0].a[0]

        def listed(xs):
            return it(app("spanlist", mk("list", *[mk("si", x, BOOL(r)) for x, r in xs])), mk("sp", INT(0)))

        def item(x):
            return mk("tuple", x[0], x[1]) if mode == "i" else x[1]

        def put(s, nk):
            if vals[0].op == "ref":
                # by_ref chains may hold the iterator behind several references
                r = vals[0]
                while self.read(s, r.a[0], r.a[1]).op == "ref":
                    r = self.read(s, r.a[0], r.a[1])
                self.write(s, r.a[0], r.a[1], it(src, mk("sp", INT(nk))))
        if sn in ("into_iter", "by_ref", "clone", "fuse", "iter", "peekable", "iter_mut"):
            return ret(vals[0] if sn == "by_ref" else v)
        if sn == "next":
            if k >= len(its):
                return ret(NONE())
            if its[k][2]:
                s1, s2 = st.copy(), st.copy()
                put(s2, min(k + 2, len(its)))
                if k + 1 < len(its) and its[k + 1][2]:
                    raise Undecided("two runs of characters in a row")
                return [Outcome("ret", SOME(item(its[k])), s1),
                        Outcome("ret", SOME(item(its[k + 1])) if k + 1 < len(its) else NONE(), s2)]
            s = st.copy()
            put(s, k + 1)
            return [Outcome("ret", SOME(item(its[k])), s)]
        if sn == "peek":
            if k >= len(its):
                return ret(NONE())
            s = st.copy()
            c = e_cell(s, item(its[k]))
            return ret(SOME(mk("ref", c, ())), s)
        rest = its[k:]
        if sn in ("last",):
            if rest and rest[-1][2]:
                raise Undecided("the last of a run of characters")
            return ret(SOME(item(rest[-1])) if rest else NONE())
        if sn == "rev" and len(vals) == 1:
            return ret(listed([(item(x), x[2]) for x in reversed(rest)]))
        if sn in ("map", "filter", "filter_map", "take_while") and len(vals) == 2:
            work, done = [(0, (), st)], []
            while work:
                j, got, s = work.pop()
                if j == len(rest):
                    done.append((got, s))
                    continue
                x = item(rest[j])
                if sn in ("filter", "take_while"):
                    for d, s2 in self.pred(fn, b, vals[1], x, s):
                        if d:
                            work.append((j + 1, got + ((x, rest[j][2]),), s2))
                        else:
                            work.append((j + 1 if sn == "filter" else len(rest), got, s2))
                    continue
                for o in self.call_value(fn, b, vals[1], [x], s.copy()):
                    if o.kind == "panic":
                        raise Undecided("a closure over characters panics")
                    if any(r[2] for r in rest) and any(o.st.mem.get(c) is not w for c, w in s.mem.items()):
                        raise Undecided("a closure keeps state over a chunk")
                    y = o.ret
                    if sn == "filter_map":
                        if y.op != "adt":
                            raise Undecided("filter_map gives %s" % show(y)[:80])
                        work.append((j + 1, got + (((y.a[4][0], rest[j][2]),) if y.a[1] == 1 else ()), o.st))
                    else:
                        work.append((j + 1, got + ((y, rest[j][2]),), o.st))
            return [Outcome("ret", listed(g), s) for g, s in done]
        if sn in ("count",) and mode == "c" and not any(x[2] for x in rest):
            return ret(INT(len(rest)))
        if sn in ("find", "any", "all", "position", "skip_while", "rfind", "rposition", "take_while"):
            res = []
            if sn in ("rfind", "take_while", "rposition"):
                return None

            def f_args(x):
                return item(x)
            work = [(0, st)]
            while work:
                j, s = work.pop()
                if j == len(rest):
                    if vals[0].op == "ref":
                        put(s, len(its))
                    end = {"find": NONE(), "any": FALSE, "all": TRUE, "position": NONE()}.get(sn)
                    if end is None:
                        end = it(src, mk("sp", INT(len(its))))
                    res.append(Outcome("ret", end, s))
                    continue
                for d, s2 in self.pred(fn, b, vals[1], f_args(rest[j]), s):
                    stop = (d is True) if sn in ("find", "any", "position") else (d is False)
                    if stop:
                        if vals[0].op == "ref":
                            put(s2, k + j + 1)
                        if sn == "find":
                            r = SOME(item(rest[j]))
                        elif sn == "any":
                            r = TRUE
                        elif sn == "all":
                            r = FALSE
                        elif sn == "position":
                            if any(x[2] for x in rest[:j + 1]):
                                raise Undecided("character count over a chunk")
                            r = SOME(INT(j))
                        else:
                            r = it(src, mk("sp", INT(k + j)))
                        res.append(Outcome("ret", r, s2))
                    else:
                        work.append((j + 1, s2))
            return res
        return None

    def on_block(self, fn, b, sn, name, v, vals, st, D, ret):
        sh = v.a[0]
        if sn in ("span", "into_string", "as_str"):
            return ret(sh)
        if sn == "len":
            return ret(total(sh))
        if sn == "is_empty":
            return ret(BOOL(not sh.a))
        if sn in ("clone", "deref", "as_ref", "borrow"):
            return ret(v)
        if sn in ("make_mut", "deref_mut", "get_mut", "as_mut") and vals[0].op == "ref":
            return ret(vals[0])
        if sn in ("simplify",):
            return ret(UNIT)
        if sn in ("raw_sensitivity", "sensitivity", "into_sensitivity"):
            return ret(v.a[1])
        if sn in ("push_all_contents", "push") and vals[0].op == "ref":
            w = D(1)
            if w.op in ("shape", "sref"):
                s = st.copy()
                r = vals[0]
                while self.read(s, r.a[0], r.a[1]).op == "ref":
                    r = self.read(s, r.a[0], r.a[1])
                nsh = shape(sh, w if w.op == "shape" else w.a[0])
                self.write(s, r.a[0], r.a[1], mk("sblock", nsh, v.a[1]))
                return ret(UNIT, s)
        if sn in ("eq", "ne") and len(vals) == 2 and D(1).op == "sblock":
            d = self.same(sh, D(1).a[0])
            if d is not None:
                return ret(BOOL(d if sn == "eq" else not d))
        return None


def run(prog, fn, args, opaque=None, state=None, max_states=400, budget=400000, hooks=(), inline=None):
    """Outcomes of fn with the given arguments by position; missing ones are arbitrary."""
    st = state or State()
    cells, vals = [], []
    for i in range(fn.argc):
        nm = "a%d" % i
        if i in args:
            vals.append(args[i])
            continue
        t = prog.types[fn.locals[i + 1]]
        if t["k"] == "ref" and t.get("mut"):
            if ("h", nm) not in st.mem:
                st.mem[("h", nm)] = sym(nm)
            cells.append(nm)
            vals.append(mk("ref", ("h", nm), ()))
        else:
            vals.append(sym(nm))
    def opq(name, callee):
        if re.match(r"<?evaluated::", name) and "ParserState" not in name and not (inline and re.search(inline, name)):
            return True
        return bool(opaque and opaque(name, callee))
    e = ShapeEngine(prog, opaque=opq, max_states=max_states, budget=budget)
    e.hooks = list(hooks) + e.hooks
    outs = e.run(fn, vals, st)
    return Single(prog, fn, e, outs, vals, cells)
