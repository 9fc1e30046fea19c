"""Reading syntax-tree terms: a node as a flat list of leaves."""
from .absint import proj, T, show
from .report import AnchorMissing


class Nodes:
    def __init__(self, prog):
        a = prog.adts.get("ast::AstNode")
        c = prog.adts.get("ast::AstChildren")
        if not a or not c:
            raise AnchorMissing("ast::AstNode / ast::AstChildren")
        self.prog = prog
        fs = a["variants"][0]["fields"]
        self.i_ch = next((i for i, f in enumerate(fs) if "AstChildren" in prog.tystr(f["t"])), None)
        self.i_loc = next((i for i, f in enumerate(fs) if i != self.i_ch), None)
        if self.i_ch is None:
            raise AnchorMissing("children field of AstNode")
        self.names = [v["n"] for v in c["variants"]]
        for n in ("Empty", "Constant", "PreEvaluated", "Concat", "VariableReference", "Eval"):
            if n not in self.names:
                raise AnchorMissing("AstChildren::" + n)

    def kind(self, t):
        """(variant name, fields) of a node built on this path, or None."""
        if t.op == "adt" and t.a[0] == "ast::AstNode":
            c = t.a[4][self.i_ch]
            if c.op == "adt":
                return c.a[2], c.a[4]
        return None

    def flat(self, t, out=None):
        """Leaves in order: ("text", term), ("eval", block term), ("node", term), ("ref", [..]), ..."""
        if out is None:
            out = []
        k = self.kind(t)
        if t.op == "app" and isinstance(t.a[0], str) and t.a[0].endswith("collapsing_concat") and t.a[2].op == "list":
            for x in t.a[2].a:
                self.flat(x, out)
        elif k is None:
            out.append(("node", t))
        elif k[0] == "Empty":
            pass
        elif k[0] == "Concat" and k[1][0].op == "list":
            for x in k[1][0].a:
                self.flat(x, out)
        elif k[0] == "Constant":
            c = k[1][0]
            txt = c
            if c.op == "adt":
                for x in c.a[4]:
                    if x.op in ("str", "shape"):
                        txt = x
            if txt.op == "str":
                txt = txt.a[0]
                if not txt:
                    return out
            if out and out[-1][0] == "text" and isinstance(txt, str) and isinstance(out[-1][1], str):
                out[-1] = ("text", out[-1][1] + txt)
            else:
                out.append(("text", txt))
        elif k[0] == "PreEvaluated":
            out.append(("done", k[1][0]))
        else:
            out.append((k[0],) + tuple(self.flat(x) for x in k[1]))
        return out


def fshow(fl):
    r = []
    for x in fl:
        if x[0] == "text":
            r.append(repr(x[1]) if isinstance(x[1], str) else show(x[1])[:80])
        elif isinstance(x[1], list):
            r.append("%s(%s)" % (x[0], "; ".join(fshow(y) for y in x[1:])))
        else:
            r.append("%s %s" % (x[0], show(x[1])[:160]))
    return " . ".join(r) if r else "nothing"
