"""Rules about what a change of a function does to error behaviour and to state left by earlier calls.

Both look only at functions whose meaning is known to differ from the reference.
"""
import ast

from . import cmp as C
from . import terms as T
from .core import VIOL
from .rules import Finding, dedupe, rule
from .vg import Summary, map_leaves

P0 = T.raw("sym", "p", 0)


def differing(cx):
    for f in cx.funcs:
        q = cx.eng.rename.get(f.qual, f.qual) if hasattr(cx.eng, "rename") else f.qual
        if cx.eng.identical(q) or cx.eng.ref_func(q) is None:
            continue
        v = cx.eng.verdict(q)
        if v.status == VIOL and getattr(v, "sums", None) and v.sums[0] is not None:
            yield q, f, v


def errors_of(s):
    """when a function fails and with which kind of error; everything it returns is forgotten."""
    def leaf(l):
        if l.op == "raise":
            x = l.args[0]
            return T.raw("raise", x.args[0] if x.op == "call" else x)
        return T.NONE
    return map_leaves(s.outcome, leaf)


@rule("raising")
def raising(cx):
    """a changed function still refuses what it refused, with the same kind of error, and nothing else."""
    out, n = [], 0
    for q, f, v in differing(cx):
        n += 1
        a, b = errors_of(v.sums[0]), errors_of(v.sums[1])
        if a is b:
            continue
        m, c = Summary(), Summary()
        m.outcome, c.outcome = a, b
        r = C.compare(m, c, cx.ref)
        if r.verdict == "DIFFERENT":
            out.append(Finding("raising", q, f.where, "the cases in which an error is raised changed: " + r.notes[0]))
    return out, {"changed functions compared": n}


@rule("kept_state")
def kept_state(cx):
    """an attribute that every call set anew does not keep what an earlier call left in it."""
    out, n = [], 0
    for q, f, v in differing(cx):
        n += 1
        if f.cls is None or f.name == "__init__":
            continue
        a, b = v.sums
        for k, ta in a.attrs.items():
            if not k.startswith("p:0."):
                continue
            name = k[4:]
            own = T.attr(P0, name)
            if any(x is own for x in T.subterms(ta)):
                continue
            tb = b.attrs.get(k)
            if tb is None:
                fam = [d for d in cx.cur.all_classes() if f.cls in cx.cur.mro(d) or d in cx.cur.mro(f.cls)]
                if not any(isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load)
                           for d in fam for g in d.methods.values() for x in ast.walk(g.node)):
                    continue
                out.append(Finding("kept_state", "%s:%s" % (q, name), f.where,
                                   "no longer sets %s, which keeps what earlier calls left in it" % name))
            elif tb is not ta and any(x is own for x in T.subterms(tb)) and "op:opaque" not in T.feats(tb):
                out.append(Finding("kept_state", "%s:%s" % (q, name), f.where,
                                   "%s used to be set anew and now depends on what earlier calls left in it: %s" % (name, C.short(tb))))
    return dedupe(out), {"changed functions compared": n}
