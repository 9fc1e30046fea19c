"""Line parsers and their handlers, found by signature, run on shapes."""
import re
from .absint import State, mk, sym, show, proj, Undecided
from .shape import shape, chunk, run, Cls, WORD, BLANKS, TEXT, SPACES
from .line import parser_kind, arg_types
from .report import AnchorMissing

ANY = Cls("any", excl="")
MUT = [("NameCache", "N"), ("Engine", "E"), ("ParserState", "S")]


def nm(t):
    """last path segment of a type string without references and generics"""
    t = re.sub(r"^&(mut )?('\w+ )?(mut )?", "", t)
    return re.sub(r"<.*", "", t).split("::")[-1]


def parser(prog, kind):
    """The outermost parser of that kind."""
    c = [f for f in prog.fns.values() if f.local and "{" not in f.path and parser_kind(prog, f) == kind
         and "BlockSpan" in arg_types(prog, f)[0]]
    # the entry is the one called from outside the group (closures count as their parent)
    grp = {f.key for f in c}
    paths = [f.path for f in c]
    used = set()
    for f in prog.fns.values():
        if f.key in grp or any(f.path.startswith(p + "::{") for p in paths):
            continue
        for b, cal, t in f.calls():
            used.add((cal or {}).get("key"))
    top = [f for f in c if f.key in used]
    if kind == "ast":
        top = [f for f in top if f.argc == 1]
    if len(top) > 1:
        # helpers are reached from the entry, not the other way round
        def reach(f):
            seen, work = set(), [f.key]
            while work:
                g = prog.fns.get(work.pop())
                if g is None:
                    continue
                for b, cal, t in g.calls():
                    k = (cal or {}).get("key")
                    if k and k not in seen:
                        seen.add(k)
                        work.append(k)
            return seen
        r = {f.key: reach(f) for f in top}
        top = [f for f in top if not any(f.key in r[g.key] for g in top if g is not f)]
    if len(top) != 1:
        raise AnchorMissing("parser for %s (%d candidates)" % (kind, len(top)))
    return top[0]


def handler(prog, ty):
    """The ParserState method taking what a parser produced."""
    c = [f for f in prog.fns.values() if f.local and "{" not in f.path and
         any(nm(a) == ty for a in arg_types(prog, f)) and any(nm(a) == "ParserState" for a in arg_types(prog, f))]
    called = set()
    for f in c:
        for b, cal, t in f.calls():
            called.add((cal or {}).get("key"))
    top = [f for f in c if f.key not in called]
    if len(top) != 1:
        raise AnchorMissing("handler of %s (%d candidates)" % (ty, len(top)))
    return top[0]


def bind(prog, f, given):
    """Arguments by type: given maps a type's last segment to a term; the mutable contexts are N, E, S."""
    args = {}
    for i, a in enumerate(arg_types(prog, f)):
        n = nm(a)
        if n in given:
            args[i] = given[n]
        else:
            for ty, cell in MUT:
                if n == ty:
                    args[i] = mk("ref", ("h", cell), ()) if a.startswith("&") else sym(cell)
    return args


def fresh():
    s = State()
    for _, c in MUT:
        s.mem[("h", c)] = sym(c)
    return s


def runf(prog, f, given, opaque, state=None, **kw):
    rx = re.compile(opaque) if isinstance(opaque, str) else None
    op = (lambda n, c: bool(rx.search(n))) if rx else opaque
    return run(prog, f, bind(prog, f, given), opaque=op, state=state or fresh(), **kw)


def ok(o):
    """(rest, value) of an Ok IResult outcome, None otherwise."""
    if o.kind == "ret" and o.ret.op == "adt" and o.ret.a[1] == 0 and o.ret.a[4] and o.ret.a[4][0].op == "tuple":
        return o.ret.a[4][0].a
    return None


def attempt(R, rule, where, what, thunk):
    """what an analysis gives, or None and an undecided obligation if it gives up"""
    try:
        return thunk()
    except Undecided as e:
        R.undecided(rule, where, "%s: %s" % (what, e))
        return None
