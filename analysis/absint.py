"""Path-sensitive dataflow over MIR ("property simulation").

The abstract value of a place is a hash-consed term: a value number that says
how the value is built from the function's inputs (field projections, variant
constructions, collection operations, results of calls that are kept opaque).
The abstract state is a memory of such terms, the set of enum-discriminant /
boolean facts the path has established, and the ordered list of opaque calls.
Loops are not unrolled: each natural loop is solved to a fixpoint by widening
every slot the body changes to a phi node, and is summarised by the transfer
of one generic iteration.  No solver is involved: facts are only looked up,
never derived by search.  What the engine cannot follow raises Undecided.
"""
import re
import sys
from .mir import strip_generics, Fn

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- terms

class T:
    __slots__ = ("op", "a", "id", "_s")
    table = {}

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = T.table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(T.table)
        t._s = None
        T.table[k] = t
    return t


def INT(n):
    return mk("int", int(n))


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("tuple")


def BOOL(b):
    return TRUE if b else FALSE


def STR(s):
    return mk("str", s)


def CH(c):
    return mk("char", c)


def adt(path, vidx, vname, names, vals):
    """Struct / variant value; a struct rebuilt from all the projections of one
    base is that base (eta)."""
    vals = tuple(vals)
    if vals and vals[0].op == "proj":
        b = vals[0].a[0]
        if all(v.op == "proj" and v.a[0] is b and v.a[1] == (vname, i)
               for i, v in enumerate(vals)) and b.op != "adt":
            key = (path, vidx)
            if ETA.get(b.id, key) == key:
                return b
    return mk("adt", path, vidx, vname, tuple(names), vals)


ETA = {}


def tup(*vals):
    return mk("tuple", *vals)


def app(f, *args):
    return mk("app", f, *args)


def sym(n):
    return mk("sym", n)


SKIP_ADTS = re.compile(r"^(std|core|alloc)::(boxed::Box|ptr::Unique|ptr::NonNull|mem::MaybeUninit|"
                       r"mem::ManuallyDrop|mem::MaybeDangling|ptr::unique::Unique|ptr::non_null::NonNull|"
                       r"mem::maybe_uninit::MaybeUninit|mem::manually_drop::ManuallyDrop|"
                       r"mem::maybe_dangling::MaybeDangling|boxed::ThinBox|mem::Maybe\w+)$")


def proj(base, key):
    """key = (variant name or None, index)"""
    v, i = key
    if base.op == "adt":
        if v is None or base.a[2] == v:
            if i < len(base.a[4]):
                return base.a[4][i]
        return mk("bot")
    if base.op in ("tuple", "array", "closure"):
        vals = base.a if base.op != "closure" else base.a[1:]
        if i < len(vals):
            return vals[i]
    return mk("proj", base, key)


def show(t, depth=0):
    if t is None:
        return "None"
    if not isinstance(t, T):
        return str(t)
    if t._s is not None and depth < 6:
        return t._s
    if depth > 14:
        return "…"
    d = depth + 1
    op, a = t.op, t.a
    if op in ("int", "bool"):
        s = str(a[0])
    elif op in ("str", "char"):
        s = repr(a[0])
    elif op == "adt":
        nm = a[0].split("::")[-1]
        if a[2] != nm and a[2]:
            nm += "::" + a[2]
        s = nm
        if a[4]:
            s += "{%s}" % ", ".join("%s:%s" % (n, show(v, d)) for n, v in zip(a[3], a[4]))
    elif op == "tuple":
        s = "(%s)" % ", ".join(show(x, d) for x in a)
    elif op == "array":
        s = "[%s]" % ", ".join(show(x, d) for x in a)
    elif op == "list":
        s = "vec[%s]" % ", ".join(show(x, d) for x in a)
    elif op == "proj":
        s = "%s.%s%s" % (show(a[0], d), (a[1][0] + ".") if a[1][0] else "", a[1][1])
    elif op == "app":
        s = "%s(%s)" % (str(a[0]).split("::")[-1], ", ".join(show(x, d) for x in a[1:]))
    elif op == "sym":
        s = str(a[0])
    elif op == "ref":
        s = "&mut %s%s" % (a[0], list(a[1]))
    elif op == "closure":
        s = "closure<%s>" % a[0]
    elif op == "phi":
        try:
            s = "φ%s.%s" % (a[0][1], a[1][0][-1])
        except Exception:
            s = "φ"
    else:
        s = "%s(%s)" % (op, ", ".join(show(x, d) for x in a))
    if depth == 0:
        t._s = s
    return s


def walk(t, seen=None):
    """All subterms."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def subst(t, m, memo=None):
    """Replace terms by the mapping m (term -> term)."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t.op == "phi":
        return t
    r = memo.get(t.id)
    if r is None:
        na = tuple(subst(x, m, memo) for x in t.a)
        if na == t.a:
            r = t
        elif t.op == "proj":
            r = proj(na[0], na[1])
        elif t.op == "adt":
            r = adt(na[0], na[1], na[2], na[3], na[4])
        elif t.op == "app":
            r = rebuild(na[0], na[1:])
        else:
            r = mk(t.op, *na)
        memo[t.id] = r
    return r


# ---- smart constructors of the functional collection algebra

def rebuild(f, args):
    g = SMART.get(f)
    if g:
        return g(*args)
    return app(f, *args)


def t_len(v):
    if v.op == "list":
        return INT(len(v.a))
    if v.op == "array":
        return INT(len(v.a))
    if v.op == "str":
        return INT(len(v.a[0].encode()))
    if v.op == "app":
        if v.a[0] == "push":
            return t_add(t_len(v.a[1]), INT(1))
        if v.a[0] == "setidx":
            return t_len(v.a[1])
        if v.a[0] == "pop":
            return t_sub(t_len(v.a[1]), INT(1))
        if v.a[0] in ("set0", "map0"):
            return INT(0)
    return app("len", v)


def t_push(v, x):
    if v.op == "list":
        return mk("list", *(v.a + (x,)))
    if v.op == "app" and v.a[0] == "pop":
        # something was taken off, so there was something
        return t_setidx(v.a[1], LAST, x)
    return app("push", v, x)


def t_pop(v):
    if v.op == "list":
        return mk("list", *v.a[:-1])
    if v.op == "app" and v.a[0] == "push":
        return v.a[1]
    return app("pop", v)


def t_last(v):
    if v.op == "list" and v.a:
        return v.a[-1]
    if v.op == "app" and v.a[0] == "push":
        return v.a[2]
    if v.op == "app" and v.a[0] == "setidx" and v.a[2] is LAST:
        return v.a[3]
    return app("index", v, LAST)


LAST = mk("lastidx")


def norm_idx(v, i):
    """index term i into v; len(v)-1 is canonically LAST."""
    if i is LAST:
        return i
    ln = t_len(v)
    if i is t_sub(ln, INT(1)):
        return LAST
    # a setidx'd vector has the same length as its base
    return i


def t_index(v, i):
    i = norm_idx(v, i)
    if i is LAST:
        return t_last(v)
    if v.op in ("list", "array") and i.op == "int":
        if i.a[0] < len(v.a):
            return v.a[i.a[0]]
    if v.op == "app" and v.a[0] == "setidx" and v.a[2] is i:
        return v.a[3]
    return app("index", v, i)


def t_setidx(v, i, x):
    i = norm_idx(v, i)
    if v.op == "list":
        if i is LAST and v.a:
            return mk("list", *(v.a[:-1] + (x,)))
        if i.op == "int" and i.a[0] < len(v.a):
            l = list(v.a)
            l[i.a[0]] = x
            return mk("list", *l)
    if v.op == "app" and v.a[0] == "push" and i is LAST:
        return t_push(v.a[1], x)
    if v.op == "app" and v.a[0] == "setidx" and v.a[2] is i:
        return t_setidx(v.a[1], i, x)
    if x is t_index(v, i):
        return v
    return app("setidx", v, i, x)


SET0 = app("set0")
MAP0 = app("map0")


def t_union(*parts):
    out = {}

    def add(p):
        if p.op == "app" and p.a[0] == "union":
            for q in p.a[1:]:
                add(q)
        elif p is SET0:
            pass
        else:
            out[p.id] = p
    for p in parts:
        add(p)
    if not out:
        return SET0
    if len(out) == 1:
        return next(iter(out.values()))
    return app("union", *[out[k] for k in sorted(out)])


def t_single(x):
    return app("single", x)


def t_minsert(m, k, v):
    if m.op == "app" and m.a[0] == "minsert" and m.a[2] is k:
        m = m.a[1]
    if m.op == "app" and m.a[0] == "mremove" and m.a[2] is k:
        m = m.a[1]
    if v is app("mval", m, k):
        return m
    return app("minsert", m, k, v)


def t_has(m, k):
    if m is MAP0 or m is SET0:
        return FALSE
    if m.op == "app" and m.a[0] == "minsert" and m.a[2] is k:
        return TRUE
    if m.op == "app" and m.a[0] == "mremove" and m.a[2] is k:
        return FALSE
    return app("has", m, k)


def t_mval(m, k):
    if m.op == "app" and m.a[0] == "minsert" and m.a[2] is k:
        return m.a[3]
    return app("mval", m, k)


def t_add(a, b):
    if a.op == "int" and b.op == "int":
        return INT(a.a[0] + b.a[0])
    if b.op == "int" and b.a[0] == 0:
        return a
    if a.op == "int" and a.a[0] == 0:
        return b
    if b.op == "int" and b.a[0] < 0:
        return t_sub(a, INT(-b.a[0]))
    if a.op == "app" and a.a[0] == "Sub" and a.a[2] is b:
        return a.a[1]
    if b.op == "app" and b.a[0] == "Sub" and b.a[2] is a:
        return b.a[1]
    if a.op == "int":
        a, b = b, a
    if b.op == "int":
        if a.op == "app" and a.a[0] == "Add" and a.a[2].op == "int":
            return t_add(a.a[1], INT(a.a[2].a[0] + b.a[0]))
        if a.op == "app" and a.a[0] == "Sub" and a.a[2].op == "int":
            d = a.a[2].a[0] - b.a[0]
            return t_sub(a.a[1], INT(d)) if d > 0 else t_add(a.a[1], INT(-d))
        return app("Add", a, b)
    if a.id > b.id:
        a, b = b, a
    return app("Add", a, b)


def t_sub(a, b):
    if a.op == "int" and b.op == "int":
        return INT(a.a[0] - b.a[0])
    if b.op == "int" and b.a[0] == 0:
        return a
    if a is b:
        return INT(0)
    if a.op == "app" and a.a[0] == "Add":
        if a.a[2] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[2]
        if b.op == "int" and a.a[2].op == "int":
            d = a.a[2].a[0] - b.a[0]
            return t_add(a.a[1], INT(d)) if d >= 0 else t_sub(a.a[1], INT(-d))
    if b.op == "int" and a.op == "app" and a.a[0] == "Sub" and a.a[2].op == "int":
        return app("Sub", a.a[1], INT(a.a[2].a[0] + b.a[0]))
    if a.op == "app" and a.a[0] == "Sub" and b.op == "app" and b.a[0] == "Sub" and a.a[1] is b.a[1]:
        return t_sub(b.a[2], a.a[2])
    return app("Sub", a, b)


def t_not(x):
    if x.op == "bool":
        return BOOL(not x.a[0])
    if x.op == "app" and x.a[0] == "Not":
        return x.a[1]
    return app("Not", x)


def is_const(x):
    return x.op in ("int", "bool", "str", "char") or \
        (x.op in ("tuple", "list") and all(is_const(y) for y in x.a)) or \
        (x.op == "adt" and all(is_const(y) for y in x.a[4]))


def nonneg(x):
    return x.op == "app" and x.a[0] in ("len",)


def t_eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return FALSE
    if a.op == "discv" and b.op == "discv" and a.a[0].op == "adt" and b.a[0].op == "adt" and a.a[0].a[0] == b.a[0].a[0]:
        return BOOL(a.a[0].a[1] == b.a[0].a[1])
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[4], b.a[4]):
            r = t_and(r, t_eq(x, y))
        return r
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = t_and(r, t_eq(x, y))
        return r
    if a.op == "int":
        a, b = b, a
    if b.op == "int" and a.op == "app":
        if a.a[0] == "BitAnd" and a.a[1].op == "int" and a.a[2].op == "int" and a.a[1].a[0] >= 0:
            return BOOL(a.a[1].a[0] & a.a[2].a[0] == b.a[0])
        # x + c == d
        if a.a[0] == "Add" and a.a[2].op == "int" and nonneg(a.a[1]):
            if a.a[2].a[0] > b.a[0]:
                return FALSE
            return t_eq(a.a[1], INT(b.a[0] - a.a[2].a[0]))
        if a.a[0] == "Sub" and a.a[2].op == "int":
            return t_eq(a.a[1], INT(b.a[0] + a.a[2].a[0]))
        if a.a[0] == "BitAnd" and a.a[2] is INT(1) and b.a[0] in (0, 1):
            # parity test, same as x % 2
            return t_eq(app("Rem", a.a[1], INT(2)), b)
        if a.a[0] == "Rem" and a.a[2] is INT(2) and b.a[0] == 1:
            return t_not(app("Eq", a, INT(0)))
    if b.op == "bool":
        return a if b.a[0] else t_not(a)
    if a.op == "bool":
        return b if a.a[0] else t_not(b)
    if not is_const(b) and (is_const(a) or a.id > b.id):
        a, b = b, a
    return app("Eq", a, b)


def t_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return app("And", a, b)


def t_or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return app("Or", a, b)


def t_lt(a, b):
    """a < b over integers"""
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return BOOL(a.a[0] < b.a[0])
    if b is INT(1) and unsigned(a):
        return t_eq(a, INT(0))
    if b is INT(0) and unsigned(a):
        return FALSE
    if a is INT(0) and unsigned(b):
        return t_not(t_eq(b, INT(0)))
    return app("Lt", a, b)


UNSIGNED = set()


def unsigned(x):
    return nonneg(x) or x.id in UNSIGNED or (x.op == "app" and x.a[0] == "Add" and unsigned(x.a[1]))


def t_cmp(op, a, b):
    if op == "Lt":
        return t_lt(a, b)
    if op == "Gt":
        return t_lt(b, a)
    if op == "Ge":
        return t_not(t_lt(a, b))
    return t_not(t_lt(b, a))


SMART = {"len": t_len, "push": t_push, "pop": t_pop, "union": t_union, "minsert": t_minsert,
         "mval": t_mval, "Add": t_add, "Sub": t_sub, "Eq": t_eq, "Not": t_not, "Lt": t_lt,
         "And": t_and, "Or": t_or, "index": t_index, "setidx": t_setidx, "has": t_has}


# ---------------------------------------------------------------- state

class State:
    __slots__ = ("mem", "facts", "ev")

    def __init__(self, mem=None, facts=None, ev=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.ev = ev

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.ev)


class Loop:
    """Summary of one natural loop at fixpoint."""

    def __init__(self, fn, header, ident):
        self.fn = fn
        self.header = header
        self.ident = ident
        self.phis = {}      # phi term -> (cell, path)
        self.init = {}      # phi term -> initial term
        self.body = []      # list of dict(facts, ev, next: {phi: term})
        self.pre_facts = {}

    def __repr__(self):
        return "Loop(%s bb%d)" % (self.fn.path, self.header)


class Outcome:
    def __init__(self, kind, ret, st, where=None, msg=None):
        self.kind = kind      # "ret" | "panic"
        self.ret = ret
        self.st = st
        self.where = where    # (local fn path, file:line) for panics
        self.msg = msg

    @property
    def facts(self):
        return self.st.facts

    @property
    def ev(self):
        return self.st.ev

    def __repr__(self):
        return "Outcome(%s, %s)" % (self.kind, self.ret)


class Ev:
    """An opaque call on a path."""
    __slots__ = ("name", "args", "ret", "posts", "where", "fn")

    def __init__(self, name, args, ret, posts, where, fn):
        self.name, self.args, self.ret, self.posts, self.where, self.fn = name, args, ret, posts, where, fn

    def key(self):
        return (self.name, self.args)

    def __eq__(self, o):
        return isinstance(o, Ev) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "%s(%s)" % (self.name.split("::")[-1], ", ".join(show(a) for a in self.args))


class LoopEv:
    __slots__ = ("loop",)

    def __init__(self, loop):
        self.loop = loop

    def __eq__(self, o):
        return isinstance(o, LoopEv) and o.loop is self.loop

    def __hash__(self):
        return hash(id(self.loop))

    def __repr__(self):
        return repr(self.loop)


# ---------------------------------------------------------------- engine

LOG = re.compile(r"\blog::|LevelFilter")
PANIC = re.compile(r"(core::panicking::|std::rt::(begin_panic|panic_fmt)|core::option::(expect|unwrap)_failed|"
                   r"std::option::(expect|unwrap)_failed|core::result::unwrap_failed|std::result::unwrap_failed|"
                   r"slice_index_fail|panic_bounds|std::process::(abort|exit)|core::panic::)")

IDENT = re.compile(
    r"(<std::(sync::Arc|rc::Rc|boxed::Box|string::String|vec::Vec)<?.*> as std::(ops::Deref|borrow::Borrow|"
    r"convert::AsRef)(<.*>)?>::(deref|borrow|as_ref)$)|"
    r"(^|[ :>])(to_owned|to_string|to_vec|into_boxed_slice|as_str|as_slice|into_vec|into_boxed_str|into_owned)$|"
    r"^<std::string::String as std::ops::Deref>::deref$|"
    r"^std::(sync::Arc|boxed::Box|rc::Rc)::new$|^std::sync::Arc::from$|"
    r"std::borrow::Borrow.*::borrow$|::as_ref$|"
    r"<.* as std::clone::Clone>::clone$|^std::clone::Clone::clone$|"
    r"^std::convert::identity$|<I as std::iter::IntoIterator>::into_iter$|"
    r"<.* as std::borrow::ToOwned>::to_owned$|^std::str::from_utf8_unchecked$|"
    r"^<std::(boxed::Box|sync::Arc)<T> as std::convert::From<T>>::from$|"
    r"^<std::string::String as std::convert::From<&.*str>>::from$|"
    r"std::iter::Iterator::by_ref$|std::iter::Iterator::(cloned|copied|fuse)$|"
    r"std::option::Option::(cloned|copied)$")

IDENT_MUT = re.compile(
    r"::(deref_mut|borrow_mut|as_mut_slice|make_mut|as_mut_ptr|get_mut_unchecked)$")


class Engine:
    def __init__(self, prog, opaque=None, inline=None, budget=200000, max_states=600, max_depth=40):
        self.prog = prog
        self.opaque = opaque or (lambda name, callee: False)
        self.inline = inline or (lambda name, callee: True)
        self.budget = budget
        self.steps = 0
        self.max_states = max_states
        self.max_depth = max_depth
        self.loops = []
        self.loop_memo = {}
        self.analysed = set()
        self.unmodelled = set()
        self.stack = []
        self.hooks = []
        self.max_rec = 1
        self.heap = 0

    def seen_fns(self):
        r = set()
        for k in self.analysed:
            f = self.prog.fns.get(k)
            if f is not None and f.local:
                r.add("%s (%s)" % (f.path, f.loc()))
        return r

    # -- memory
    def read(self, st, cell, path=()):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == "d":
                v = cell[1]
            else:
                v = mk("undef")
        for k in path:
            v = self.get_key(v, k)
        return v

    def get_key(self, v, k):
        if k[0] == "f":
            if k[3]:
                return v
            return proj(v, (k[1], k[2]))
        if k[0] == "idx":
            return t_index(v, k[1])
        if k[0] == "key":
            return t_mval(v, k[1])
        if k[0] == "each":
            return app("item", v, k[1])
        return app("get?", v)

    def set_path(self, v, path, val, st):
        if not path:
            return val
        k = path[0]
        if k[0] == "f":
            if k[3]:
                return self.set_path(v, path[1:], val, st)
            old = proj(v, (k[1], k[2]))
            new = self.set_path(old, path[1:], val, st)
            if new is old:
                return v
            if v.op == "adt":
                vals = list(v.a[4])
                if k[2] < len(vals):
                    vals[k[2]] = new
                return adt(v.a[0], v.a[1], v.a[2], v.a[3], vals)
            if v.op == "tuple":
                vals = list(v.a)
                while len(vals) <= k[2]:
                    vals.append(mk("undef"))
                vals[k[2]] = new
                return mk("tuple", *vals)
            if v.op == "closure":
                vals = list(v.a)
                vals[k[2] + 1] = new
                return mk("closure", *vals)
            # opaque base: expand by its type
            ty = self.prog.types[k[4]]
            if ty["k"] == "tuple":
                n = len(ty.get("args", []))
                vals = [proj(v, (None, i)) for i in range(max(n, k[2] + 1))]
                vals[k[2]] = new
                return mk("tuple", *vals)
            a = self.prog.adts.get(ty.get("path", ""))
            if a is None:
                return app("upd?", v, new)
            vi = 0
            if k[1] is not None:
                vi = next((i for i, x in enumerate(a["variants"]) if x["n"] == k[1]), 0)
            var = a["variants"][vi]
            vals = [proj(v, (k[1], i)) for i in range(len(var["fields"]))]
            for q in vals:
                pass
            vals[k[2]] = new
            # struct variants are named None in keys of structs
            return self.mk_adt(ty["path"], vi, vals, struct_key=k[1] is None)
        if k[0] == "idx":
            old = t_index(v, k[1])
            return t_setidx(v, k[1], self.set_path(old, path[1:], val, st))
        if k[0] == "key":
            old = t_mval(v, k[1])
            return t_minsert(v, k[1], self.set_path(old, path[1:], val, st))
        if k[0] == "each":
            old = app("item", v, k[1])
            return app("seteach", v, k[1], self.set_path(old, path[1:], val, st))
        return app("upd?", v, val)

    def mk_adt(self, path, vi, vals, struct_key=False):
        a = self.prog.adts.get(path)
        if a is None:
            return mk("adt", path, vi, "?", tuple(str(i) for i in range(len(vals))), tuple(vals))
        var = a["variants"][vi]
        names = tuple(f["n"] for f in var["fields"])
        if a.get("kind") == "enum" or len(a["variants"]) > 1:
            vname = var["n"]
        else:
            vname = None
        vals = tuple(vals)
        if vals and vals[0].op == "proj" and vals[0].a[0].op != "adt":
            b = vals[0].a[0]
            if all(v.op == "proj" and v.a[0] is b and v.a[1] == (vname, i) for i, v in enumerate(vals)):
                return b
        return mk("adt", path, vi, vname, names, vals)

    def write(self, st, cell, path, val):
        if path:
            base = self.read(st, cell)
            st.mem[cell] = self.set_path(base, path, val, st)
        else:
            st.mem[cell] = val

    # -- places
    def is_skip(self, tyid):
        ty = self.prog.types[tyid]
        return ty["k"] == "adt" and bool(SKIP_ADTS.match(ty.get("path", "")))

    def lval(self, st, fr, place):
        """(cell, path) of a place."""
        cell, path = ("l", fr, place[0]), ()
        variant = None
        for e in place[1:]:
            if e[0] == "*":
                v = self.read(st, cell, path)
                if v.op == "ref":
                    cell, path = v.a[0], v.a[1]
                else:
                    # pointee of a snapshot or an opaque pointer
                    c2 = ("d", v)
                    cell, path = c2, ()
                variant = None
            elif e[0] == "f":
                cur_skip = self.is_skip(e[3])
                if cur_skip:
                    v = self.read(st, cell, path)
                    path = path + (("f", None, e[1], True, e[3]),) if False else path
                else:
                    path = path + (("f", variant, e[1], False, e[3]),)
                variant = None
            elif e[0] == "v":
                variant = e[2]
            elif e[0] == "i":
                iv = self.read(st, ("l", fr, e[1]))
                base = self.read(st, cell, path)
                path = path + (("idx", norm_idx(base, iv)),)
            elif e[0] == "c":
                base = self.read(st, cell, path)
                if len(e) > 2 and e[2]:
                    idx = LAST if e[1] == 1 else t_sub(t_len(base), INT(e[1]))
                else:
                    idx = INT(e[1])
                path = path + (("idx", idx),)
            elif e[0] == "s":
                path = path + (("sub", tuple(e[1:])),)
            else:
                path = path + (("?",),)
        return cell, path

    def rd(self, st, fr, place):
        v = st.mem.get(("l", fr, place[0]))
        if len(place) == 1:
            return v if v is not None else mk("undef")
        cell, path = self.lval(st, fr, place)
        return self.read(st, cell, path)

    def operand(self, st, fr, fn, o):
        if o[0] in "cm":
            v = self.rd(st, fr, o[1])
            if o[0] == "c" and v.op != "ref":
                # a "copy" of a Box is the drop elaborator aliasing it
                tyid = self.place_ty(fn, o[1])
                if tyid is not None and self.is_skip(tyid):
                    cell, path = self.lval(st, fr, o[1])
                    if cell[0] != "d" or cell in st.mem:
                        return mk("ref", cell, path)
            if o[0] == "c" and fn is not None and len(o[1]) == 1:
                if self.prog.types[fn.locals[o[1][0]]]["s"] in ("usize", "u32", "u64", "u8", "u16"):
                    UNSIGNED.add(v.id)
            return v
        return self.const(st, fr, fn, o[1])

    def place_ty(self, fn, place):
        if len(place) == 1:
            return fn.locals[place[0]]
        e = place[-1]
        if e[0] == "f":
            return e[4]
        if e[0] == "*":
            t = self.prog.types[e[1]]
            return t.get("inner", e[1]) if t["k"] in ("ref", "ptr") else e[1]
        return None

    def const(self, st, fr, fn, c):
        k = c.get("k")
        if k == "fn":
            cal = c["callee"]
            if "ctor" in cal:
                return mk("ctorfn", cal["ctor"][0], cal["ctor"][1])
            return mk("fn", self.callee_name(cal), cal.get("key") or "")
        if k == "scalar":
            ty = self.prog.types[c["t"]]["s"] if "t" in c else ""
            v = c["v"]
            if isinstance(v, bool):
                return BOOL(v)
            if ty == "bool":
                return BOOL(bool(v))
            if ty == "char":
                return CH(v if isinstance(v, str) else chr(v))
            if isinstance(v, str):
                return CH(v) if ty == "char" else STR(v)
            return INT(v)
        if k == "adt":
            vals = [self.const(st, fr, fn, x) for x in c["fields"]]
            if SKIP_ADTS.match(c["path"]) and vals:
                return vals[0]
            return self.mk_adt(c["path"], c["variant"], vals)
        if k == "str":
            return STR(c["v"])
        if k == "zst":
            ty = self.prog.types[c["t"]]
            if ty["k"] == "closure":
                return mk("closure", ty.get("key") or ty.get("path"))
            if ty["k"] == "fndef" and ty.get("callee"):
                cal = ty["callee"]
                if "ctor" in cal:
                    return mk("ctorfn", cal["ctor"][0], cal["ctor"][1])
                return mk("fn", self.callee_name(cal), cal.get("key") or "")
            if ty["k"] == "adt":
                return mk("adt", ty["path"], 0, None, (), ())
            return UNIT
        if k == "promoted":
            idx = c["idx"]
            owner = fn
            if idx < len(owner.promoted):
                pf = owner.promoted[idx]
                outs = self.run_body(pf, State({}, {}, ()), self.new_frame(pf), [])
                if len(outs) == 1 and outs[0].kind == "ret":
                    r = outs[0].ret
                    if r.op == "ref":
                        r = self.read(outs[0].st, r.a[0], r.a[1])
                    return r
            return sym("promoted:%s:%d" % (owner.path, idx))
        if k == "static":
            return sym("static:" + str(c.get("v") or c.get("path")))
        return sym("const:%s" % (c.get("s") or c.get("v") or c,))

    def callee_name(self, cal):
        return strip_generics(cal.get("res") or cal.get("raw") or "?")

    # -- facts
    def decide(self, st, b):
        if b.op == "bool":
            return b.a[0]
        v = st.facts.get(b)
        if v is not None:
            return v
        if b.op == "app":
            f = b.a[0]
            if f == "Not":
                d = self.decide(st, b.a[1])
                return None if d is None else not d
            if f == "And":
                x, y = self.decide(st, b.a[1]), self.decide(st, b.a[2])
                if x is False or y is False:
                    return False
                if x and y:
                    return True
                return None
            if f == "Or":
                x, y = self.decide(st, b.a[1]), self.decide(st, b.a[2])
                if x or y:
                    return True
                if x is False and y is False:
                    return False
                return None
            if f == "Eq" and b.a[1].op == "discv" and b.a[2].op == "int":
                x, vi, nv = self.discv_case(b)
                if vi is not None:
                    vs = self.disc_set(st, x, nv)
                    if vi not in vs:
                        return False
                    if len(vs) == 1:
                        return True
                    return None
            if f == "Eq":
                # x == c with x known to equal another constant
                x, c = b.a[1], b.a[2]
                if is_const(c):
                    known = st.facts.get(("val", x))
                    if known is not None:
                        return known is c
                    if c.op == "adt":
                        vs = st.facts.get(("disc", x))
                        if vs is not None and c.a[1] not in vs:
                            return False
                        if vs is not None and len(vs) == 1 and not c.a[4]:
                            return True
            if f == "Lt":
                # a<b decided by b<a
                if st.facts.get(app("Lt", b.a[2], b.a[1])) is True:
                    return False
                x, c = b.a[1], b.a[2]
                ka, kb = st.facts.get(("val", x)), st.facts.get(("val", c))
                if ka is not None or kb is not None:
                    t = t_lt(ka or x, kb or c)
                    if t.op == "bool":
                        return t.a[0]
            if f == "is":
                vs = st.facts.get(("disc", b.a[1]))
                if vs is not None:
                    if vs == frozenset([b.a[2]]):
                        return True
                    if b.a[2] not in vs:
                        return False
        return None

    def assume(self, st, b, val):
        """Extend the facts in place; False when contradictory."""
        d = self.decide(st, b)
        if d is not None:
            return d == val
        if b.op == "app":
            f = b.a[0]
            if f == "Not":
                return self.assume(st, b.a[1], not val)
            if f == "And":
                if val:
                    return self.assume(st, b.a[1], True) and self.assume(st, b.a[2], True)
                if self.decide(st, b.a[1]) is True:
                    return self.assume(st, b.a[2], False)
                if self.decide(st, b.a[2]) is True:
                    return self.assume(st, b.a[1], False)
            if f == "Or" and not val:
                return self.assume(st, b.a[1], False) and self.assume(st, b.a[2], False)
            if f == "Eq" and b.a[1].op == "discv" and b.a[2].op == "int":
                x, vi, nv = self.discv_case(b)
                if vi is not None:
                    cur = self.disc_set(st, x, nv)
                    new = cur & {vi} if val else cur - {vi}
                    if not new:
                        return False
                    st.facts[("disc", x)] = frozenset(new)
                    return True
            if f == "Eq" and is_const(b.a[2]):
                x, c = b.a[1], b.a[2]
                if c.op == "adt" and not c.a[4]:
                    nv = len(self.prog.adts.get(c.a[0], {"variants": []})["variants"])
                    cur = st.facts.get(("disc", x), frozenset(range(nv)))
                    new = cur & {c.a[1]} if val else cur - {c.a[1]}
                    if not new:
                        return False
                    st.facts[("disc", x)] = new
                    return True
                if val:
                    st.facts[("val", x)] = c
                    st.facts[b] = True
                    return True
            if f == "is":
                x, vi, nv = b.a[1], b.a[2], b.a[3]
                cur = st.facts.get(("disc", x), frozenset(range(nv)))
                new = cur & {vi} if val else cur - {vi}
                if not new:
                    return False
                st.facts[("disc", x)] = new
                return True
        st.facts[b] = val
        return True

    def discv_case(self, b):
        """(value, variant index, number of variants) of a discriminant test."""
        x, path = b.a[1].a
        a = self.prog.adts.get(x.a[0] if x.op == "adt" else path)
        if a is None:
            return x, None, 0
        vi = next((i for i, q in enumerate(a["variants"]) if q["d"] == b.a[2].a[0]), None)
        return x, vi, len(a["variants"])

    def disc_set(self, st, x, nv):
        if x.op == "adt":
            return frozenset([x.a[1]])
        return st.facts.get(("disc", x), frozenset(range(nv)))

    # -- rvalues
    def rvalue(self, st, fr, fn, r, dty=None):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, fn, r[1])
        if k == "ref":
            if r[1]:
                cell, path = self.lval(st, fr, r[2])
                return mk("ref", cell, path)
            cell, path = self.lval(st, fr, r[2])
            v = self.read(st, cell, path)
            return v
        if k == "raw":
            cell, path = self.lval(st, fr, r[1])
            return mk("ref", cell, path)
        if k == "cast":
            v = self.operand(st, fr, fn, r[2])
            ty = self.prog.types[r[3]]["s"] if len(r) > 3 else ""
            if v.op == "char" and ty in ("u32", "u64", "usize", "i32", "i64"):
                return INT(ord(v.a[0]))
            if v.op == "int" and ty == "char" and 0 <= v.a[0] < 128:
                return CH(chr(v.a[0]))
            return v
        if k == "bin":
            a = self.deref_val(st, self.operand(st, fr, fn, r[2]))
            b = self.deref_val(st, self.operand(st, fr, fn, r[3]))
            return self.binop(r[1], a, b)
        if k == "un":
            a = self.operand(st, fr, fn, r[2])
            if r[1] == "Not":
                return t_not(a) if True else a
            if r[1] == "PtrMetadata":
                return t_len(self.deref_val(st, a))
            if r[1] == "Neg" and a.op == "int":
                return INT(-a.a[0])
            return app(r[1], a)
        if k == "disc":
            cell, path = self.lval(st, fr, r[1])
            v = self.read(st, cell, path)
            return mk("discv", v, self.prog.types[r[2]].get("path", "") if len(r) > 2 else "")
        if k == "agg":
            kind = r[1]
            vals = [self.operand(st, fr, fn, o) for o in r[2]]
            if kind[0] == "adt":
                if SKIP_ADTS.match(kind[1]) and len(vals) >= 1:
                    return vals[0]
                if len(kind) > 4 and len(kind[4]) == len(vals):
                    return self.mk_adt(kind[1], kind[2], vals)
                return self.mk_adt(kind[1], kind[2], vals)
            if kind[0] == "tuple":
                return mk("tuple", *vals)
            if kind[0] == "array":
                return mk("list", *vals)
            if kind[0] == "closure":
                return mk("closure", kind[1], *vals)
            return app("agg?", *vals)
        if k == "repeat":
            return app("repeat", self.operand(st, fr, fn, r[1]))
        return app("rv?", STR(str(r[:2])))

    def deref_val(self, st, v):
        n = 0
        while v.op == "ref" and n < 8:
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        return v

    def known_disc(self, d):
        """the discriminant of a value whose variant is known, where it is what the variant's number says"""
        if d.op != "discv" or d.a[0].op != "adt":
            return d
        n, i = d.a[0].a[0], d.a[0].a[1]
        if n == "std::cmp::Ordering":
            return INT(i - 1)
        if n in ("std::option::Option", "std::result::Result"):
            return INT(i)
        return d

    def binop(self, op, a, b):
        if op in ("Eq", "Ne"):
            a, b = self.known_disc(a), self.known_disc(b)
        wo = op.endswith("WithOverflow")
        if wo:
            op = op[:-len("WithOverflow")]
        if op.endswith("Unchecked"):
            op = op[:-len("Unchecked")]
        if op == "Add":
            r = t_add(a, b)
        elif op == "Sub":
            r = t_sub(a, b)
        elif op == "Eq":
            r = t_eq(a, b)
        elif op == "Ne":
            r = t_not(t_eq(a, b))
        elif op in ("Lt", "Le", "Gt", "Ge"):
            r = t_cmp(op, a, b)
        elif op == "BitAnd" and a.op == "bool":
            r = t_and(a, b)
        elif op == "BitAnd" and b.op == "bool":
            r = t_and(a, b)
        elif op == "BitOr" and (a.op == "bool" or b.op == "bool"):
            r = t_or(a, b)
        elif op in ("Mul", "Div", "Rem") and a.op == "int" and b.op == "int" and (op == "Mul" or b.a[0] > 0):
            x, y = a.a[0], b.a[0]
            r = INT(x * y if op == "Mul" else (x // y if op == "Div" else x % y))
        elif op in ("BitAnd", "BitOr", "Shl", "Shr") and a.op == "int" and b.op == "int" and \
                a.a[0] >= 0 and 0 <= b.a[0] < 64:
            x, y = a.a[0], b.a[0]
            r = INT({"BitAnd": x & y, "BitOr": x | y, "Shl": x << y, "Shr": x >> y}[op])
        else:
            r = app(op, a, b)
        if wo:
            return mk("tuple", r, FALSE)
        return r

    # -- function execution
    def new_frame(self, fn):
        return len(self.stack) + 1000 * 0 + (fn.key,).__hash__() * 0

    def run(self, fn, args, st=None):
        """Analyse fn from the given argument values."""
        st = st or State()
        return self.call_body(fn, args, st)

    def call_body(self, fn, args, st):
        if len(self.stack) >= self.max_depth:
            raise Undecided("inlining depth at %s" % fn.path)
        self.stack.append(fn.key)
        self.analysed.add(fn.key)
        fr = len(self.stack)
        try:
            st = st.copy()
            # purge stale cells of this frame depth
            for c in [c for c in st.mem if c[0] == "l" and c[1] == fr]:
                del st.mem[c]
            for i, a in enumerate(args):
                st.mem[("l", fr, i + 1)] = a
            outs = self.run_body(fn, st, fr, args)
        finally:
            self.stack.pop()
        for o in outs:
            mem = o.st.mem
            for c in [c for c in mem if c[0] == "l" and c[1] >= fr]:
                del mem[c]
        return self.merge_outcomes(outs)

    def merge_outcomes(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        res = []
        for o in outs:
            k = (o.kind, o.ret, o.where, frozenset(o.st.mem.items()), o.st.ev,
                 frozenset(o.st.facts.items()))
            if k not in seen:
                seen[k] = o
                res.append(o)
        return res

    def run_body(self, fn, st, fr, args):
        outs = []
        exits, backs = self.region(fn, fr, 0, [st], set(fn.rpo()), None, outs)
        return outs

    def dedup(self, fn, fr, b, states):
        if len(states) == 1:
            return states
        live = fn.live_in()[b]
        groups = {}
        for s in states:
            for c in [c for c in s.mem if c[1] == fr and c[0] == "l" and c[2] not in live and c[2] != 0]:
                del s.mem[c]
            k = (frozenset(s.mem.items()), s.ev)
            groups.setdefault(k, []).append(s)
        res = []
        for g in groups.values():
            uniq = []
            seenf = set()
            for s in g:
                fk = frozenset(s.facts.items())
                if fk in seenf:
                    continue
                seenf.add(fk)
                uniq.append(s)
            uniq = self.join_facts(uniq)
            res.extend(uniq)
        if len(res) > self.max_states:
            raise Undecided("too many paths in %s (%d)" % (fn.path, len(res)))
        return res

    def join_facts(self, ss):
        """States equal but for facts: join pairs that differ in exactly one fact
        (exhausted case split) or when one is implied by the other."""
        changed = True
        while changed and len(ss) > 1:
            changed = False
            for i in range(len(ss)):
                for j in range(i + 1, len(ss)):
                    m = self.try_join(ss[i].facts, ss[j].facts)
                    if m is not None:
                        s = ss[i]
                        s.facts = m
                        ss = ss[:j] + ss[j + 1:]
                        ss[i] = s
                        changed = True
                        break
                if changed:
                    break
        return ss

    def try_join(self, a, b):
        ka, kb = set(a.items()), set(b.items())
        if ka <= kb:
            return dict(a)
        if kb <= ka:
            return dict(b)
        da = {k for k, _ in ka - kb}
        db = {k for k, _ in kb - ka}
        if da == db and len(da) == 1:
            k = next(iter(da))
            va, vb = a[k], b[k]
            m = dict(a)
            if isinstance(va, bool) and isinstance(vb, bool):
                del m[k]
                return m
            if isinstance(va, frozenset) and isinstance(vb, frozenset):
                m[k] = va | vb
                return m
        return None

    def region(self, fn, fr, entry, states, blocks, header, outs):
        """Run the acyclic part of `blocks` from entry. Returns exits and back-edge states."""
        rpo = fn.rpo()
        loops = fn.loops()
        pend = {entry: list(states)}
        exits, backs = [], []

        def push(b, s):
            if b == header:
                backs.append(s)
            elif b not in blocks:
                exits.append((b, s))
            else:
                pend.setdefault(b, []).append(s)

        while pend:
            b = min(pend, key=lambda x: rpo[x])
            ss = self.dedup(fn, fr, b, pend.pop(b))
            if b in loops and b != header:
                ex = self.loop(fn, fr, b, loops[b], ss, outs)
                for tb, s in ex:
                    push(tb, s)
                continue
            for s in ss:
                for tb, s2 in self.block(fn, fr, b, s, outs):
                    push(tb, s2)
        return exits, backs

    # -- loops
    def loop(self, fn, fr, h, body, states, outs):
        res = []
        for s in states:
            res.extend(self.loop1(fn, fr, h, body, s, outs))
        return res

    def loop1(self, fn, fr, h, body, st, outs):
        ident = (tuple(self.stack[-3:]), fn.key, h)
        live = fn.live_in()[h]
        st = st.copy()
        for c in [c for c in st.mem if c[0] == "l" and c[1] == fr and c[2] not in live and c[2] != 0]:
            del st.mem[c]
        W = {}   # cell -> set of paths (tuples) widened
        for rnd in range(12):
            s0 = st.copy()
            phis, init = {}, {}
            for c, paths in W.items():
                base = s0.mem.get(c)
                if base is None:
                    continue
                s0.mem[c] = self.widen_term(base, paths, (), ident, c, phis, init)
            s0.ev = ()
            souts = []
            facts0 = dict(s0.facts)
            exits, backs = self.region(fn, fr, h, [s0.copy()], set(body), None if False else h, souts) \
                if False else self.loop_region(fn, fr, h, body, s0.copy(), souts)
            grew = False
            for b in backs:
                for c, v0 in s0.mem.items():
                    if c[0] == "l" and c[1] == fr and c[2] not in live:
                        continue
                    if c[0] == "l" and c[1] > fr:
                        continue
                    v1 = b.mem.get(c)
                    if v1 is None or v1 is v0:
                        continue
                    for p in self.diff_paths(v0, v1, (), phis, c):
                        ps = W.setdefault(c, set())
                        if not any(q == p[:len(q)] for q in ps):
                            W[c] = {q for q in ps if q[:len(p)] != p} | {p}
                            grew = True
                for c, v1 in b.mem.items():
                    if c in s0.mem or c[0] == "l":
                        continue
                    # a dereferenced opaque pointer first touched in the body
                    if c[0] == "d":
                        pass
            if not grew:
                break
        else:
            raise Undecided("loop in %s does not stabilise" % fn.path)
        L = Loop(fn, h, ident)
        L.phis, L.init, L.pre_facts = phis, init, facts0
        L.pre_ev = st.ev
        for b in backs:
            nxt = {}
            for ph, (c, p) in phis.items():
                nxt[ph] = self.term_at(b.mem.get(c, mk("undef")), p)
            L.body.append({"facts": {k: v for k, v in b.facts.items() if facts0.get(k) != v},
                           "ev": b.ev, "next": nxt, "where": fn.loc(h)})
        sig = (ident, tuple(sorted((p.id, init[p].id) for p in phis)),
               tuple((frozenset(x["facts"].items()), x["ev"], frozenset(x["next"].items())) for x in L.body))
        L = self.loop_memo.setdefault(sig, L)
        if L not in self.loops:
            self.loops.append(L)
        lev = (LoopEv(L),)
        pre = st.ev
        res = []
        for tb, s in exits:
            s.ev = pre + lev + s.ev
            res.append((tb, s))
        for o in souts:
            o.st.ev = pre + lev + o.st.ev
            outs.append(o)
        return res

    def loop_region(self, fn, fr, h, body, s0, souts):
        """One generic iteration: run from the header until the back edge or an exit."""
        rpo = fn.rpo()
        loops = fn.loops()
        pend = {}
        exits, backs = [], []

        def push(b, s):
            if b == h:
                backs.append(s)
            elif b not in body:
                exits.append((b, s))
            else:
                pend.setdefault(b, []).append(s)
        for tb, s2 in self.block(fn, fr, h, s0, souts):
            push(tb, s2)
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            ss = self.dedup(fn, fr, b, pend.pop(b))
            if b in loops:
                for tb, s in self.loop(fn, fr, b, loops[b], ss, souts):
                    push(tb, s)
                continue
            for s in ss:
                for tb, s2 in self.block(fn, fr, b, s, souts):
                    push(tb, s2)
        live = fn.live_in()[h]
        for s in backs:
            for c in [c for c in s.mem if c[1] == fr and c[0] == "l" and c[2] not in live and c[2] != 0]:
                del s.mem[c]
        if len(backs) > 1:
            backs = self.dedup(fn, fr, h, backs)
        return exits, backs

    def term_at(self, v, path):
        for i in path:
            if i == "src":
                v = v.a[0]
            elif v.op == "adt":
                v = v.a[4][i] if i < len(v.a[4]) else mk("undef")
            elif v.op in ("tuple", "it", "list"):
                v = v.a[i]
            else:
                return mk("undef")
        return v

    def widen_term(self, v, paths, at, ident, cell, phis, init):
        if at in paths:
            if v.op == "phi" and v.a[0] == ident:
                return v
            ph = mk("phi", (ident[1], ident[2], ident[0]), (cell, at), v)
            phis[ph] = (cell, at)
            init[ph] = v
            return ph
        if not any(p[:len(at)] == at for p in paths):
            return v
        if v.op == "adt":
            vals = [self.widen_term(x, paths, at + (i,), ident, cell, phis, init) for i, x in enumerate(v.a[4])]
            return mk("adt", v.a[0], v.a[1], v.a[2], v.a[3], tuple(vals))
        if v.op in ("tuple", "it", "list"):
            vals = [self.widen_term(x, paths, at + (i,), ident, cell, phis, init) if isinstance(x, T) else x
                    for i, x in enumerate(v.a)]
            return mk(v.op, *vals)
        return v

    def diff_paths(self, a, b, at, phis, cell):
        if a is b:
            return []
        if a in phis:
            return []      # already a phi of this loop
        if a.op == b.op == "adt" and a.a[:3] == b.a[:3] and len(at) < 6:
            r = []
            for i, (x, y) in enumerate(zip(a.a[4], b.a[4])):
                r += self.diff_paths(x, y, at + (i,), phis, cell)
            return r
        if a.op == b.op and a.op in ("tuple", "it") and len(a.a) == len(b.a) and len(at) < 6:
            r = []
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                if isinstance(x, T) and isinstance(y, T):
                    r += self.diff_paths(x, y, at + (i,), phis, cell)
                elif x != y:
                    return [at]
            return r
        return [at]

    # -- one block
    def block(self, fn, fr, b, st, outs):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("budget exhausted in %s" % fn.path)
        blk = fn.blocks[b]
        st = st.copy()
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, fn, s[2])
                if s[2][0] == "use" and s[2][1][0] == "m":
                    pass
                pl = s[1]
                if len(pl) == 1:
                    st.mem[("l", fr, pl[0])] = v
                else:
                    cell, path = self.lval(st, fr, pl)
                    self.write(st, cell, path, v)
            elif s[0] == "disc":
                cell, path = self.lval(st, fr, s[1])
                self.write(st, cell, path, app("setdisc", INT(s[2])))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            outs.append(Outcome("ret", st.mem.get(("l", fr, 0), UNIT), st))
            return []
        if k in ("unreachable", "abort"):
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "assert":
            # bounds / overflow / alignment checks: a failing assert is a panic,
            # recorded only as such
            return self.on_assert(fn, fr, b, t, st, outs)
        if k == "switch":
            return self.switch(fn, fr, b, t, st)
        if k == "call":
            return self.do_call(fn, fr, b, t, st, outs)
        raise Undecided("terminator %s" % k)

    def on_assert(self, fn, fr, b, t, st, outs):
        return [(t[3], st)]

    def switch(self, fn, fr, b, t, st):
        v = self.operand(st, fr, fn, t[1])
        v = self.deref_val(st, v)
        res = []
        targets, other = t[3], t[4]
        if v.op == "discv":
            x, path = v.a
            a = self.prog.adts.get(path)
            if x.op == "adt":
                a = self.prog.adts.get(x.a[0]) or a
            if a is None:
                if x.op == "adt":
                    for val, tb in targets:
                        if val == x.a[1]:
                            return [(tb, st)]
                    return [(other, st)]
                return self.fork_val(st, v, targets, other)
            nv = len(a["variants"])
            rest = self.disc_set(st, x, nv)
            for val, tb in targets:
                vi = next((i for i, q in enumerate(a["variants"]) if q["d"] == val), None)
                if vi is None or vi not in rest:
                    continue
                rest = rest - {vi}
                s2 = st.copy()
                if x.op != "adt":
                    s2.facts[("disc", x)] = frozenset([vi])
                res.append((tb, s2))
            if rest and fn.blocks[other]["t"][0] != "unreachable":
                s2 = st.copy()
                if x.op != "adt":
                    s2.facts[("disc", x)] = rest
                res.append((other, s2))
            return res
        ty = None
        if len(t) > 2:
            ty = self.prog.types[t[2]]["s"] if isinstance(t[2], int) else t[2]
        if ty == "bool" or v.op == "bool":
            d = self.decide(st, v)
            f_t = next((tb for val, tb in targets if val in (0, False)), other)
            t_t = next((tb for val, tb in targets if val in (1, True) and val is not False and val != 0), other)
            if d is True:
                return [(t_t, st)]
            if d is False:
                return [(f_t, st)]
            for val, tb in ((True, t_t), (False, f_t)):
                s2 = st.copy()
                if self.assume(s2, v, val):
                    res.append((tb, s2))
            return res
        return self.fork_val(st, v, targets, other, ty)

    def fork_val(self, st, v, targets, other, ty=None):
        res = []
        rest = st
        alive = True
        for val, tb in targets:
            if ty == "char":
                c = CH(val if isinstance(val, str) else chr(val))
            elif ty == "bool":
                c = BOOL(val)
            else:
                c = INT(val)
            e = t_eq(v, c)
            s2 = rest.copy()
            if self.assume(s2, e, True):
                res.append((tb, s2))
            s3 = rest.copy()
            if not self.assume(s3, e, False):
                alive = False
                break
            rest = s3
        if alive:
            res.append((other, rest))
        return res

    # -- calls
    def where(self, fn, b):
        for key in reversed(self.stack):
            f = self.prog.fns.get(key)
            if f is not None and f.local:
                return f.path
        return fn.path

    def do_call(self, fn, fr, b, t, st, outs):
        func, args, dest, target = t[1], t[2], t[3], t[4]
        dty = t[5] if len(t) > 5 else None
        vals = [self.operand(st, fr, fn, a) for a in args]
        callee = None
        fv = None
        if func[0] == "k" and func[1].get("k") == "fn":
            callee = func[1]["callee"]
        else:
            fv = self.operand(st, fr, fn, func)
        results = self.invoke(fn, b, callee, fv, vals, st, dty)
        res = []
        for r in results:
            if r.kind == "panic":
                outs.append(r)
                continue
            if target < 0:
                continue
            s2 = r.st
            if r.ret.op == "app" and dty is not None and self.prog.types[dty]["s"] in ("usize", "u32", "u8", "u64"):
                UNSIGNED.add(r.ret.id)
            if len(dest) == 1:
                s2.mem[("l", fr, dest[0])] = r.ret
            else:
                cell, path = self.lval(s2, fr, dest)
                self.write(s2, cell, path, r.ret)
            res.append((target, s2))
        return res

    def ok(self, v, st):
        return [Outcome("ret", v, st)]

    def call_value(self, fn, b, f, vals, st, dty=None):
        """Call a closure / fn value with unpacked args."""
        f = self.deref_fn(st, f)
        if f.op == "closure":
            body = self.prog.fns.get(f.a[0])
            if body is None:
                return self.opaque_call(fn, b, "closure?" + str(f.a[0]), vals, st, dty)
            # does the body take the closure by reference?
            ty = self.prog.types[body.locals[1]]
            env = f
            if ty["k"] in ("ref", "ptr"):
                if ty.get("mut"):
                    self.heap += 1
                    cell = ("h", "env", f.a[0], len(self.stack))
                    st = st.copy()
                    st.mem[cell] = f
                    env = mk("ref", cell, ())
            return self.call_body(body, [env] + list(vals), st)
        if f.op == "fn":
            body = self.prog.fns.get(f.a[1])
            nm = f.a[0]
            cal = {"res": nm, "raw": nm, "key": f.a[1], "kind": "item"}
            return self.invoke(fn, b, cal, None, list(vals), st, dty)
        if f.op == "ctorfn":
            return self.ok(self.mk_adt(f.a[0], f.a[1], vals), st)
        return self.opaque_call(fn, b, "callvalue", [f] + list(vals), st, dty)

    def deref_fn(self, st, f):
        n = 0
        while f.op == "ref" and n < 5:
            f = self.read(st, f.a[0], f.a[1])
            n += 1
        return f

    def invoke(self, fn, b, callee, fv, vals, st, dty):
        from .more import more
        if callee is None:
            return self.call_value(fn, b, fv, vals, st, dty)
        if "ctor" in callee:
            return self.ok(self.mk_adt(callee["ctor"][0], callee["ctor"][1], vals), st)
        name = self.callee_name(callee)
        raw = callee.get("raw") or ""
        for h in self.hooks:
            r = h(self, fn, b, name, callee, vals, st, dty)
            if r is not None:
                return r
        if PANIC.search(name):
            msg = None
            for a in vals:
                for x in walk(self.deref_val(st, a)):
                    if x.op == "str":
                        msg = x.a[0]
                        break
            return [Outcome("panic", mk("bot"), st, where=(self.where(fn, b), fn.loc(b)), msg=msg or name)]
        if raw.startswith("std::ops::Fn") and raw.endswith(("call_once", "call_mut", "call")) and \
                not (callee.get("key") or "").startswith("<"):
            f = self.deref_fn(st, vals[0])
            packed = self.deref_val(st, vals[1]) if len(vals) > 1 else UNIT
            if f.op in ("closure", "fn", "ctorfn"):
                inner = list(packed.a) if packed.op == "tuple" else [packed]
                if f.op == "closure" and vals[0].op == "ref":
                    # FnMut through a reference: keep the environment's identity
                    body = self.prog.fns.get(f.a[0])
                    if body is not None and self.prog.types[body.locals[1]].get("mut"):
                        return self.call_body(body, [vals[0]] + inner, st)
                return self.call_value(fn, b, f, inner, st, dty)
            return self.opaque_call(fn, b, "callvalue", [f] + (list(packed.a) if packed.op == "tuple" else [packed]),
                                    st, dty)
        from . import models
        key = callee.get("key")
        if not (key in self.prog.fns and self.prog.fns[key].local):
            r = more(self, fn, b, name, vals, st, dty, callee)
            if r is not None:
                return r
        r = models.apply(self, fn, b, name, raw, callee, vals, st, dty)
        if r is not None:
            return r
        key = callee.get("key")
        if key and key in self.prog.fns:
            body = self.prog.fns[key]
            if not self.opaque(name, callee) and self.inline(name, callee) and \
                    self.stack.count(key) < self.max_rec:
                return self.call_body(body, vals, st)
        return self.opaque_call(fn, b, name, vals, st, dty, callee)

    def resolve(self, st, v, depth=0):
        """A value as seen by an opaque callee: mutable refs become their pointee's value."""
        if v.op == "ref":
            return self.resolve(st, self.read(st, v.a[0], v.a[1]), depth + 1)
        if depth > 6:
            return v
        if v.op in ("tuple", "closure", "list") and any(isinstance(x, T) and has_ref(x) for x in v.a):
            return mk(v.op, *[self.resolve(st, x, depth + 1) if isinstance(x, T) else x for x in v.a])
        if v.op == "adt" and any(has_ref(x) for x in v.a[4]):
            return mk("adt", v.a[0], v.a[1], v.a[2], v.a[3], tuple(self.resolve(st, x, depth + 1) for x in v.a[4]))
        if v.op in ("occ", "vac"):
            return app(v.op, self.resolve(st, v.a[0], depth + 1), v.a[1])
        return v

    def opaque_call(self, fn, b, name, vals, st, dty=None, callee=None):
        st = st.copy()
        rargs = tuple(self.resolve(st, v) for v in vals)
        local = callee is not None and callee.get("crate") == "hastur"
        if not local:
            self.unmodelled.add(name)
            if name != "callvalue" and any(x.op == "closure" for v in vals for x in walk(v)):
                # it may call what it is given, any number of times
                raise Undecided("%s, given a closure, is not modelled" % strip_generics(name))
        ret = app(name, *rargs)
        posts = []
        for i, v in enumerate(vals):
            for r in refs_in(v):
                post = app("post", name, INT(i), *rargs)
                old = self.read(st, r.a[0], r.a[1])
                posts.append((i, post))
                self.write(st, r.a[0], r.a[1], post)
        if dty is not None:
            ty = self.prog.types[dty]
            if ty["s"] == "()":
                ret = UNIT
            elif ty["k"] == "ref" and ty.get("mut"):
                # returned exclusive borrow of something inside the first &mut argument
                pass
        ev = Ev(name, rargs, ret, tuple(posts), fn.loc(b), self.where(fn, b))
        if local or posts or name == "callvalue":
            st.ev = st.ev + (ev,)
        if dty is not None and self.prog.types[dty]["s"] == "!":
            return []
        return [Outcome("ret", ret, st)]


def has_ref(v, depth=0):
    if v.op == "ref":
        return True
    if depth > 6:
        return False
    if v.op in ("tuple", "closure", "list", "occ", "vac", "it"):
        return any(isinstance(x, T) and has_ref(x, depth + 1) for x in v.a)
    if v.op == "adt":
        return any(has_ref(x, depth + 1) for x in v.a[4])
    return False


def refs_in(v, depth=0):
    if v.op == "ref":
        return [v]
    out = []
    if depth > 6:
        return out
    if v.op in ("tuple", "closure", "list", "it"):
        for x in v.a:
            if isinstance(x, T):
                out += refs_in(x, depth + 1)
    elif v.op == "adt":
        for x in v.a[4]:
            out += refs_in(x, depth + 1)
    return out
