"""Loader for the facts the rustc driver dumps: functions (monomorphic MIR),
control flow, loops, liveness, types and ADTs."""
import functools
import json
import re


@functools.lru_cache(maxsize=None)
def strip_generics(p):
    """`std::vec::Vec::<T, A>::push` -> `std::vec::Vec::push`."""
    out, depth, i = [], 0, 0
    n = len(p)
    while i < n:
        if depth == 0 and p.startswith("::<", i):
            # `::<impl X for Y>::` is a path segment, keep it
            if p.startswith("::<impl", i):
                # copy verbatim up to matching >
                j, d = i + 2, 0
                while j < n:
                    if p[j] == "<":
                        d += 1
                    elif p[j] == ">" and p[j - 1] != "-":
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                out.append(p[i:j + 1])
                i = j + 1
                continue
            depth = 1
            i += 3
            continue
        c = p[i]
        if depth:
            if c == "<":
                depth += 1
            elif c == ">" and p[i - 1] != "-":
                depth -= 1
            i += 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


class Fn:
    def __init__(self, prog, key, j):
        self.prog = prog
        self.key = key
        self.path = j.get("path", key)
        self.crate = j.get("crate", "hastur")
        self.generic = j.get("generic", False)
        self.span = j.get("span", ["?", 0])
        self.pub = j.get("pub", False)
        self.selfty = j.get("selfty", "")
        self.trait = j.get("trait", "")
        self.derived = j.get("derived", False)
        self.intrait = j.get("intrait", "")
        self.closure_of = j.get("closure_of", "")
        self.locals = j["locals"]
        self.argc = j["argc"]
        self.names = j["names"]
        self.blocks = j["blocks"]
        self.promoted = [Fn(prog, "%s::promoted[%d]" % (key, i), dict(p, span=self.span, crate=self.crate))
                         for i, p in enumerate(j.get("promoted", []))]
        self._succ = None
        self._live = None
        self._loops = None
        self._rpo = None

    def __repr__(self):
        return "Fn(%s)" % self.key

    @property
    def local(self):
        return self.crate == "hastur"

    def ty(self, local):
        return self.prog.types[self.locals[local]]

    def loc(self, bb=None):
        sp = self.span if bb is None else self.blocks[bb]["sp"]
        return "%s:%s" % (sp[0], sp[1])

    # -- control flow (unwind edges are not part of the analysed flow)
    def succ(self, b):
        if self._succ is None:
            self._succ = [term_succ(x["t"]) for x in self.blocks]
        return self._succ[b]

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(0, iter(self.succ(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo

    def dominators(self):
        rpo = self.rpo()
        order = sorted(rpo, key=rpo.get)
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ(b):
                preds[s].append(b)
        idom = {0: 0}
        changed = True

        def inter(a, b):
            while a != b:
                while rpo[a] > rpo[b]:
                    a = idom[a]
                while rpo[b] > rpo[a]:
                    b = idom[b]
            return a
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else inter(p, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        return idom

    def dominates(self, a, b, idom=None):
        idom = idom or self.dominators()
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]

    def loops(self):
        """header -> set of blocks in the natural loop."""
        if self._loops is None:
            idom = self.dominators()
            rpo = self.rpo()
            preds = {b: [] for b in rpo}
            for b in rpo:
                for s in self.succ(b):
                    preds[s].append(b)
            loops = {}
            for b in rpo:
                for s in self.succ(b):
                    if rpo[s] <= rpo[b] and self.dominates(s, b, idom):
                        body = loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(preds[x])
            self._loops = loops
        return self._loops

    def live_in(self):
        """Locals live at block entry; borrowed locals are always live."""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            dfn = [set() for _ in range(n)]
            borrowed = set()

            def up(bi, l):
                if l not in dfn[bi]:
                    use[bi].add(l)

            def place_use(bi, p):
                up(bi, p[0])
                for e in p[1:]:
                    if e[0] == "i":
                        up(bi, e[1])

            def op_use(bi, o):
                if o[0] in "cm":
                    place_use(bi, o[1])

            def dst(bi, p):
                if len(p) == 1:
                    dfn[bi].add(p[0])
                else:
                    place_use(bi, p)

            for bi, b in enumerate(self.blocks):
                for s in b["s"]:
                    if s[0] == "=":
                        for kind, x in rv_operands(s[2]):
                            if kind == "op":
                                op_use(bi, x)
                            else:
                                place_use(bi, x)
                        if s[2][0] in ("ref", "raw"):
                            pl = s[2][-1]
                            mut = s[2][0] == "raw" or s[2][1]
                            if mut and not any(e[0] == "*" for e in pl[1:]):
                                borrowed.add(pl[0])
                        dst(bi, s[1])
                    else:
                        place_use(bi, s[1])
                t = b["t"]
                if t[0] == "switch":
                    op_use(bi, t[1])
                elif t[0] == "call":
                    op_use(bi, t[1])
                    for a in t[2]:
                        op_use(bi, a)
                    dst(bi, t[3])
                elif t[0] == "assert":
                    op_use(bi, t[1])
                elif t[0] == "return":
                    up(bi, 0)
            live = [set() for _ in range(n)]
            changed = True
            order = sorted(self.rpo(), key=self.rpo().get, reverse=True)
            while changed:
                changed = False
                for b in order:
                    o = set()
                    for s in self.succ(b):
                        o |= live[s]
                    v = use[b] | (o - dfn[b])
                    if v != live[b]:
                        live[b] = v
                        changed = True
            self._live = [x | borrowed for x in live]
        return self._live

    def calls(self):
        """(bb, callee dict or None, term) of every call terminator reachable from entry."""
        for b in sorted(self.rpo()):
            t = self.blocks[b]["t"]
            if t[0] == "call":
                f = t[1]
                c = f[1]["callee"] if f[0] == "k" and f[1].get("k") == "fn" else None
                yield b, c, t


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        out = []
        for _, b in t[3]:
            if b not in out:
                out.append(b)
        if t[4] not in out:
            out.append(t[4])
        return out
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[3]]
    return []


def rv_operands(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [("op", r[1])]
    if k == "ref":
        return [("pl", r[2])]
    if k == "raw":
        return [("pl", r[1])]
    if k == "cast":
        return [("op", r[2])]
    if k == "bin":
        return [("op", r[2]), ("op", r[3])]
    if k == "un":
        return [("op", r[2])]
    if k == "disc":
        return [("pl", r[1])]
    if k == "agg":
        return [("op", o) for o in r[2]]
    return []


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.adts = d["adts"]
        self.statics = d["statics"]
        self.unsafe = d["unsafe"]
        self.impls = d["impls"]
        self.fns = {k: Fn(self, k, j) for k, j in d["fns"].items()}
        self.local = {k: f for k, f in self.fns.items() if f.local}

    def find(self, pat, generic=None):
        r = re.compile(pat)
        return [f for k, f in self.local.items() if r.search(strip_generics(k))
                and (generic is None or f.generic == generic)]

    def one(self, pat, generic=None):
        fs = self.find(pat, generic)
        return fs[0] if len(fs) == 1 else None

    def tystr(self, t):
        return self.types[t]["s"]

    def variant_by_discr(self, path, val):
        for i, v in enumerate(self.adts[path]["variants"]):
            if v["d"] == val:
                return i
        return None
