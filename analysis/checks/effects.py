"""C21: what is read depends on nothing but the texts, the names and the database."""
import re
from .includes import handler
from ..mir import rv_operands, strip_generics

# what lies outside the texts read and the values passed in
AMBIENT = [
    ("the process's environment", r"^std::env::(?!current_dir$)"),
    ("the clock", r"^std::time::|SystemTime|Instant::now"),
    ("other processes", r"^std::process::|^std::os::unix::process"),
    ("threads", r"^std::thread::(?!panicking)|^rayon::"),
    ("the network", r"^std::net::|^std::os::unix::net"),
    ("random numbers", r"^rand|RandomState::new|BuildHasher::build_hasher|getrandom"),
    ("the process's own input or output", r"^std::io::(stdio::)?(stdin|stdout|stderr|_print|_eprint|print|eprint)"),
    ("files, other than to read them", r"^std::fs::(?!File::open$|read)|^std::os::unix::fs"),
    ("what changes behind shared references",
     r"^(std|core|alloc)::(cell::(RefCell|Cell|OnceCell|UnsafeCell|LazyCell)|sync::(Mutex|RwLock|Once|OnceLock|LazyLock|atomic|mpsc|Condvar|nonpoison|poison))|"
     r"std::sync::atomic::|LocalKey"),
    ("memory left behind", r"mem::(forget|transmute)|Box::leak|ManuallyDrop"),
]
FILES = [r"^std::env::current_dir$", r"^std::fs::(File::open|read)"]
HASHED = re.compile(r"(HashMap|HashSet|hash_map|hash_set|hashmap|hashset)")
ITER = re.compile(r"::(iter|into_iter|keys|values|drain|into_keys|into_values|difference|intersection|symmetric_difference|iter_mut|values_mut)$")
# what it makes no difference to in which order elements come
UNORDERED = re.compile(r"(HashSet|HashMap|BTreeSet|BTreeMap|OrdSet|OrdMap)\S*::(insert|update|contains|contains_key|remove|extend|union|from_iter)$|"
                       r"::(clone|eq|ne|hash|cmp|fmt|borrow|as_ref|deref|len|count|all|any|max|min|map|cloned|copied|filter|into_iter|next|size_hint|is_empty|drop)$")
ORDERED = re.compile(r"(Vec|String|VecDeque|str|Block|\[T\])\S*::(push|push_str|push_back|push_front|extend|insert|insert_str|join|concat|write_str|push_all_contents)$|"
                     r"::(last|nth|fold|for_each|zip|enumerate|take|skip|position|find|find_map|rev)$")


def name_of(c):
    return strip_generics(c.get("res") or c["raw"])


def plain(c):
    """`<std::collections::HashSet<T> as X>::f` -> std::collections::HashSet::f"""
    n = c.get("res") or c["raw"]
    m = re.match(r"<(?:&'?\w* ?(?:mut )?)?([\w:]+).* as .*>::(\w+)$", n)
    return "%s::%s" % (m.group(1), m.group(2)) if m else strip_generics(n)


def c21(ctx, R):
    prog = ctx.prog
    R.rule("ambient", "no function uses the environment, the clock, processes, threads, the network, random numbers, standard streams, files other than to "
                      "read what is included, or state shared behind references")
    R.rule("files", "files are opened, and the working directory asked for, only on behalf of an include directive (the directory also for a fresh engine or fresh options)")
    R.rule("order", "the order in which a hash table lists its elements reaches no result")
    R.rule("static", "no global can change: none is mutable or has interior mutability, except to be initialised once")
    R.rule("logging", "what is done only to write a log message changes nothing")
    fns = [f for f in prog.local.values()]
    users = callers(prog)
    n = 0
    for f in fns:
        for b, c, t in f.calls():
            where = "%s %s" % (f.path, f.loc())
            if c is None:
                continue
            if c.get("crate") == "hastur":
                continue
            n += 1
            nm = plain(c)
            hit = next((w for w, r in AMBIENT if re.search(r, nm)), None)
            if hit and "lazy_static" not in nm:
                R.violation("ambient", where, "calls %s: depends on or changes %s" % (nm, hit), key="ambient:%s:%s" % (f.path, nm))
                continue
            R.ok("ambient", where, "calls %s" % nm)
            if any(re.search(r, nm) for r in FILES):
                who = roots(prog, f, users, nm)
                ok = who and all(allowed(prog, g, nm) for g in who)
                R.check("files", where, bool(ok), "%s, for %s" % (nm, ", ".join(sorted(g.path for g in who))[:200]), key="files:%s:%s" % (f.path, nm))
            if HASHED.search(c.get("res") or c["raw"]) and ITER.search(nm):
                order(prog, R, f, b, c, t, where, nm)
        logs(prog, R, f)
    for s in prog.statics:
        ty = prog.tystr(s["t"])
        where = "%s %s:%s" % (s["path"], s["span"][0], s["span"][1])
        bad = s["mut"] or (re.search(r"\b(Cell|RefCell|Mutex|RwLock|Atomic\w+|OnceCell|OnceLock|UnsafeCell|LocalKey)\b", ty) and "lazy_static" not in ty)
        R.check("static", where, not bad, "%sof type %s" % ("mutable, " if s["mut"] else "", ty[:120]), key="static:" + s["path"])
    R.fns |= {f.path for f in fns}
    R.floor("ambient", 800)
    R.floor("files", 2)
    R.floor("logging", 20)


def callers(prog):
    up = {}
    for f in prog.local.values():
        for b, c, t in f.calls():
            if c and c.get("crate") == "hastur":
                up.setdefault(c.get("res") or c["raw"], set()).add(f)
                up.setdefault(strip_generics(c.get("res") or c["raw"]), set()).add(f)
        # a function that makes a closure may run it
        if f.closure_of:
            up.setdefault(f.path, set()).add(("owner", f.closure_of))
    return up


def is_default(f):
    """builds a value out of nothing: an engine, or the options of a search"""
    return f.argc == 0 and not f.closure_of


def allowed(prog, f, what):
    return f.key == handler(prog)[1].key or (what.endswith("current_dir") and is_default(f))


def roots(prog, f, users, what):
    """the functions, going up from f, that are allowed to touch files, or that nobody calls"""
    seen, todo, out = set(), [f], set()
    while todo:
        g = todo.pop()
        if g.key in seen:
            continue
        seen.add(g.key)
        if allowed(prog, g, what):
            out.add(g)
            continue
        up = set()
        for x in users.get(g.path, ()) | users.get(strip_generics(g.path), set()):
            if isinstance(x, tuple):
                up |= {h for h in prog.local.values() if h.path == x[1] or h.key == x[1]}
            else:
                up.add(x)
        if not up or g.pub:
            out.add(g)
        todo.extend(up)
    return out


def read_locals(rv):
    return {(x[1][0] if kind == "op" and x[0] in "cm" else x[0] if kind != "op" else None) for kind, x in rv_operands(rv)}


def arg_locals(t):
    return {a[1][0] for a in t[2] if a[0] in "cm"}


IDOM = {}


def chain(f, b):
    """b and its dominators, nearest first"""
    d = IDOM.get(f.key)
    if d is None:
        d = IDOM[f.key] = f.dominators()
    out = [b]
    while d.get(b) is not None and d[b] != b:
        b = d[b]
        out.append(b)
    return out


def order(prog, R, f, b, c, t, where, nm):
    """follow what comes out of a hash table's iterator"""
    out = prog.tystr(f.locals[0])
    tainted = {t[3][0]} if isinstance(t[3], list) and t[3] and isinstance(t[3][0], int) else set()
    if not tainted:
        R.undecided("order", where, "the listing of %s could not be followed" % nm)
        return
    bad = unknown = None
    grow = True
    while grow:
        grow = False
        for i, bl in enumerate(f.blocks):
            for s in bl["s"]:
                if s[0] == "=" and read_locals(s[2]) & tainted and s[1][0] not in tainted:
                    tainted.add(s[1][0])
                    grow = True
            x = bl["t"]
            if x[0] == "call":
                if not arg_locals(x) & tainted:
                    continue
                cc = callee(x)
                if cc is None:
                    unknown = unknown or "an indirect call"
                    continue
                m = plain(cc)
                if ORDERED.search(m):
                    bad = m
                elif m.endswith("::collect") and re.search(r"Vec<|String", prog.tystr(f.locals[x[3][0]])):
                    bad = m
                elif UNORDERED.search(m) or m.endswith("::collect"):
                    if not re.search(r"::(insert|update|contains|len|count|all|any|eq|ne|fmt)$", m) and x[3][0] not in tainted:
                        tainted.add(x[3][0])
                        grow = True
                else:
                    unknown = unknown or m
    if bad:
        R.violation("order", where, "the elements of %s, in the order the table lists them, go into %s" % (nm, bad), key="order:%s:%s" % (f.path, bad))
    elif unknown and 0 not in tainted:
        R.undecided("order", where, "the elements of %s go into %s" % (nm, unknown))
    else:
        R.ok("order", where, "the elements of %s %s" % (nm, "are handed out as a listing" if 0 in tainted and "terator" in out or "Iter" in out else "go into sets only"))


def logs(prog, R, f):
    """blocks run only if a message is logged"""
    sites = [b for b, c, t in f.calls() if c and c.get("crate") == "log" and plain(c).endswith("::log")]
    if not sites:
        return
    where = "%s %s" % (f.path, f.loc())
    for s in sites:
        # the branch that decides it: on the nearest test of the log level
        up = chain(f, s)
        lv = [i for i, x in enumerate(up) if f.blocks[x]["t"][0] == "call" and callee(f.blocks[x]["t"]) and plain(callee(f.blocks[x]["t"])).endswith("max_level")]
        if not lv:
            R.undecided("logging", where, "no test of the level before a message")
            continue
        sw = [i for i, x in enumerate(up[:lv[0]]) if f.blocks[x]["t"][0] == "switch"]
        if not sw or sw[-1] == 0:
            R.undecided("logging", where, "no branch on the level before a message")
            continue
        head = up[sw[-1] - 1]
        reg = {x for x in f.rpo() if head in chain(f, x) and reach(f, x, s)}
        bad = None
        for x in reg:
            t = f.blocks[x]["t"]
            if t[0] != "call":
                continue
            c = callee(t)
            m = plain(c) if c else "an indirect call"
            for a in t[2]:
                if a[0] in ("k",):
                    continue
                ty = prog.tystr(f.locals[a[1][0]]) if len(a[1]) == 1 else ""
                if ty.startswith("&mut ") and not re.search(r"fmt::|Formatter|Iter|Chars", ty):
                    bad = m
            if c and any(re.search(r, m) for _, r in AMBIENT):
                bad = m
        R.check("logging", where, not bad, "only to log: %s" % (bad or "%d blocks, which read only" % len(reg)), key="logging:%s:%s" % (f.path, bad))


def callee(t):
    g = t[1]
    return g[1]["callee"] if g[0] == "k" and g[1].get("k") == "fn" else None


def reach(f, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo.extend(f.succ(x))
    return False


CHECKS = {"C21": c21}
