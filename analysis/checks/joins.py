"""C20: a line and the lines its backslashes continue it with are read as one."""
import itertools
from ..absint import mk, sym, show, Undecided, STR, BOOL
from ..report import AnchorMissing
from ..views import Many, Stop
from .blocks import with_widths, SPAN, Lab, pr
from ..shape import Cls, chunk

BL = " \t"
# \r stands before line ends, and is tried there
LETTER = Cls("one ordinary character", excl="#\\\n\r \t\0\x0b\x0c", single=True)


def ch(n):
    return chunk(n + "'l", LETTER)



def joined(s):
    """(the line, how many characters of the text it takes): what GNU make reads"""
    i, out = 0, ""
    while i < len(s) and s[i] in BL:
        i += 1
    while i < len(s):
        c = s[i]
        if c == "#":
            return out, i
        if c == "\\":
            n = 0
            while i + n < len(s) and s[i + n] == "\\":
                n += 1
            e = i + n + (s[i + n:i + n + 2] == "\r\n")
            if e < len(s) and s[e] == "\n" and n % 2:
                out += "\\" * (n // 2)
                i = e + 1
                while i < len(s) and s[i] in BL:
                    i += 1
                out = out.rstrip(BL) + " "
                continue
            out += "\\" * n
            i += n
            continue
        if c == "\n" or s[i:i + 2] == "\r\n":
            return out, i + 1 + (c == "\r")
        out += c
        i += 1
    return out, i


def texts(deep):
    n = 7 if deep else 5
    for k in range(1, n + 1):
        for t in itertools.product("A \\\n", repeat=k):
            yield "".join(t)
    for t in ("A \\\n\tB\nC", "\tA\\\n B \\\n C\n", "A\\\n\\\n\\\nB\nC", "A\\\\\\\nB", "A\t \\\n\t B\\\n\nC", "AB\\\n \t\n", "A\\B \\\nC\\\\D\n", "A #B\nC", "A\\\nB #C\nA", "#A\\\nB",
              "A\\\r\nB", "A\r\nB", "A\\ \\\nB"):
        yield t


def wanted(s):
    # a backslash at the very end continues nothing; what becomes of it is left open
    t = s.rstrip("\\")
    return (len(s) - len(t)) % 2 == 0 and "\\#" not in s


def c20(ctx, R):
    prog = ctx.prog
    R.rule("line", "a line ends at the first line end not preceded by an odd number of backslashes; each such pair of backslash and line end, "
                   "with the blanks around it, reads as one blank, and the other backslashes before it come in pairs that stand for one")
    R.rule("rest", "what follows that line end is left to read")
    c = [f for f in prog.local.values() if "{" not in f.path and parser_line(prog, f)]
    if len(c) != 1:
        raise AnchorMissing("the parser of logical lines (%d candidates)" % len(c))
    f = c[0]
    where = "%s %s" % (f.path, f.loc())
    todo = [s for s in texts(ctx.tier == "thorough") if wanted(s)]

    def one(R, s):
        with_widths(R, s, one_)
        if len(s) < 5:
            with_widths(R, s, lambda R, s, note="": one_(R, s, note + ", leading blanks kept", False))

    def one_(R, s, note="", skip=True):
        L = Lab(prog)
        st = L.start()
        # letters stand for any character
        names, body = {}, []
        for i, x in enumerate(s):
            if x.isalpha():
                k = ch("ABCDEF"[len(names) % 6] + (str(len(names) // 6) if len(names) > 5 else ""))
                names[i] = k
                body.append(k)
            else:
                body.append(STR(x))
        lab = "`%s`%s" % (s.replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r"), note)
        back = {}
        try:
            blk, cs, st = L.block([("text", body)], st, "new")
            sp, st = L.go(L.method("span", "evaluated::Block"), [L.ref(st, blk)], st)
            args = []
            for i in range(f.argc):
                t = prog.tystr(f.locals[i + 1])
                if t == "bool":
                    args.append(BOOL(skip))
                elif "ParserCompliance" in t:
                    vs = prog.adts[t]["variants"]
                    j = [v["n"] for v in vs].index("GNU")
                    args.append(mk("adt", t, j, "GNU", (), ()))
                else:
                    args.append(sp)
            outs = L.e.run(f, args, st)
            R.fns |= L.e.seen_fns()
            # the text with its letters told apart
            want, used = joined("".join(chr(0xe000 + i) if i in names else x for i, x in enumerate(s)))
            wp = [names[ord(x) - 0xe000] if 0xe000 <= ord(x) < 0xf000 else STR(x) for x in want.lstrip(BL)]
            if not outs:
                raise Undecided("no way through")
            for o in outs:
                if o.kind == "panic":
                    R.violation("line", where, "%s: panics: %s" % (lab, o.msg), key="line:panic")
                    continue
                r = L.e.deref_val(o.st, o.ret)
                if not (r.op == "adt" and r.a[1] == 0 and r.a[4][0].op == "tuple"):
                    R.check("line", where, False if r.op == "adt" and r.a[1] == 1 else None, "%s: gives %s" % (lab, show(r)[:100]), key="line:refused")
                    continue
                rest, line = (L.e.deref_val(o.st, x) for x in r.a[4][0].a)
                s1 = o.st.copy()
                x, s1 = L.go(L.method("into_string", "evaluated::Block"), [L.ref(s1, line)], s1)
                got = L.text(x)
                while got and got[0].op == "str" and got[0].a[0] in BL:
                    got = got[1:]
                R.check("line", where, got == wp, "%s: reads as `%s`%s" % (lab, pr(got), "" if got == wp else ", not `%s`" % pr(wp)),
                        key="line:" + kind(s))
                x, s1 = L.go(L.method("into_string", SPAN), [L.ref(s1, rest)], s1)
                left = L.text(x)
                R.check("rest", where, left == body[used:], "%s: leaves `%s`%s" % (lab, pr(left), "" if left == body[used:] else ", not `%s`" % pr(body[used:])),
                        key="rest:" + kind(s))
        except (Undecided, Many) as u:
            R.undecided("line", where, "%s: %s" % (lab, u))
        except Stop as u:
            R.violation("line", where, "%s: panics: %s" % (lab, u), key="line:panic")
    R.fork(todo, one, per=10)
    R.floor("line", 900)
    R.floor("rest", 900)


def kind(s):
    return "comment" if "#" in s else "cr" if "\r" in s else "continued" if "\\\n" in s else "plain"


def parser_line(prog, f):
    from ..line import iresult_out
    a = [prog.tystr(f.locals[i + 1]) for i in range(f.argc)]
    return iresult_out(prog, f) == "std::sync::Arc<evaluated::Block>" and any("BlockSpan" in x for x in a) and \
        all("BlockSpan" in x or x == "bool" or "ParserCompliance" in x for x in a)


CHECKS = {"C20": c20}
