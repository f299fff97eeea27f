"""Three-valued comparison of value graphs.

EQUAL      - the two graphs are the same interned term
DIFFERENT  - they differ at sub-terms that the analysis fully understands
UNDECIDED  - the differing region uses a construct or a callable the analysis
             has no rule for; nothing may be concluded
"""
from . import terms as T

LOOPY = {"op:fold", "op:while", "op:map", "op:flatmap", "op:exists", "op:first", "op:sumof", "op:dictmap", "op:last",
         "op:loopev", "op:foldstore", "op:prodof"}
# vocabulary by which a loop can be replaced with a library operation
VECTOR = {"g:sum", "g:any", "g:all", "g:max", "g:min", "g:dict", "g:set", "g:sorted", "g:map", "g:filter", "g:zip", "g:next",
          "g:enumerate", "op:in", "op:concat", "op:star", "op:dict", "op:set"}


P0 = T.raw("sym", "p", 0)


def loosen(t):
    """one spelling for things that may well agree: two sides that fall together here are not told apart."""
    mp = {}
    for x in T.subterms(t):
        if x.op != "call" or x.args[0].op != "glob" or not x.args[1]:
            continue
        g = x.args[0].args[0]
        if g in ("numpy.ndim", "numpy.size", "numpy.shape") and not x.args[2]:
            mp[id(x)] = T.attr(x.args[1][0], g[6:])
        elif g in ("numpy.full_like", "numpy.full") and len(x.args[1]) == 1 and [k for k, _ in x.args[2]] == ["fill_value"]:
            fv = x.args[2][0][1]
            v = T.numval(fv)
            if v is not None and v.zero():
                mp[id(x)] = T.call(T.glob(g.replace("full", "zeros")), x.args[1], ())
            else:
                mp[id(x)] = T.mul(T.call(T.glob(g.replace("full", "ones")), x.args[1], ()), fv)
        elif g == "numpy.isscalar":
            mp[id(x)] = T.isinst(x.args[1][0], T.glob("numbers.Number"))
    return T.subst(t, mp) if mp else t


def together(x, y):
    """zip over sequences of one length, or an index into them."""
    if x.op != y.op or "op:" + x.op not in LOOPY or x.args[1:] != y.args[1:] or not isinstance(x.args[0], tuple):
        return False
    a, b = x.args[0], y.args[0]
    a, b = (a, b) if len(a) < len(b) else (b, a)
    extra = [e for e in b if e not in a]
    if not a or len(extra) + len(a) != len(b):
        return False
    used = {z.args[0] for r in x.args[1:] for q in (r if isinstance(r, tuple) else (r,)) if isinstance(q, T.Term)
            for z in T.subterms(q) if z.op in ("elem", "idx")}
    return all(e in used or e.op == "rng" and any(z.op == "call" and T.gname(z.args[0]) == "len" and z.args[1] and z.args[1][0] in used
                                                  for z in T.subterms(e)) for e in extra)


def fall_together(x, y):
    if x is None or y is None:
        return False
    if together(x, y):
        return True
    for _ in range(3):
        nx, ny = loosen(x), loosen(y)
        if nx is ny:
            return True
        if nx is x and ny is y:
            return False
        x, y = nx, ny
    return False


BINDERS = {"map", "flatmap", "exists", "first", "sumof", "prodof", "dictmap", "last", "loopev", "fold", "pick", "lam", "while"}


def _free(a):
    """loop variables and accumulators an atom speaks of."""
    return {x for x in T.subterms(a) if x.op in ("bv", "accref", "exc")}     # a try may end differently in every turn


def _at(o, v, k):
    """what condition o is worth when v is k, if that settles it."""
    r = T.subst(T.atom_bool(o), {id(v): k})
    return r if r is T.TRUE or r is T.FALSE else None


def _numeq(a):
    if a.op == "eq":
        for v, k in (a.args, a.args[::-1]):
            if k.op == "num" and v.op not in ("num", "const", "poly"):
                return v, k
    return None


def _implied(a, pol, others):
    mp = {id(a): T.TRUE if pol else T.FALSE}
    if a.op == "isinstance" and a.args[1].op == "glob":
        for o in others:
            if o is not a and o.op == "isinstance" and o.args[0] is a.args[0] and o.args[1].op == "glob":
                A, B = a.args[1].args[0], o.args[1].args[0]
                if pol:
                    r = T.related(A, B)
                    if r is not None:
                        mp[id(o)] = T.TRUE if r else T.FALSE
                elif T.related(B, A):
                    mp[id(o)] = T.FALSE
    if pol:
        e = _numeq(a)
        for o in others:
            if o is a:
                continue
            if e is not None and o.op in ("lt0", "eq", "truth"):
                r = _at(o, *e)
            elif a.op == "lt0" and _numeq(o) is not None and _at(a, *_numeq(o)) is T.FALSE:
                r = T.FALSE
            else:
                continue
            if r is not None:
                mp[id(o)] = r
    if pol and a.op in ("eq", "is"):
        ks = [z for z in a.args if z.op in ("num", "const")]
        if len(ks) == 1:
            k = ks[0]
            v = a.args[0] if a.args[1] is k else a.args[1]
            if a.op == "is" and k is T.NONE and v.op in ("sym", "attr", "idx", "elem", "call"):
                mp[id(v)] = T.NONE
            for o in others:
                if o is a:
                    continue
                if o.op in ("eq", "is") and v in o.args:
                    w = o.args[0] if o.args[1] is v else o.args[1]
                    if w.op in ("num", "const") and w is not k and (w.op == k.op and w.args[:1] == k.args[:1] or T.NONE in (w, k)):
                        mp[id(o)] = T.FALSE
                elif o.op == "truth" and o.args[0] is v and (T.isstr(k) and k.args[1] or k is T.NONE):
                    mp[id(o)] = T.FALSE if k is T.NONE else T.TRUE
    return mp


def joined(x, y):
    """x with a concatenation written the way y has it: the sum of things not known to be lists."""
    cs = [z for z in T.subterms(x) if z.op == "concat"]
    if not cs:
        return x
    have = T.subterms(y)
    have = {id(z) for z in have if z.op == "poly"}
    mp = {}
    for z in cs:
        t = T.subst(z.args[0], mp)
        for w in z.args[1:]:
            t = T.add(t, T.subst(w, mp))
        if id(t) in have and not any(w is z for w in T.subterms(y)):
            mp[id(z)] = t
    return T.subst(x, mp) if mp else x


def same(x, y, budget=None, scope=frozenset(), memo=None):
    """equality by cases: conditions met anywhere in the two graphs are settled one way and then the other."""
    if x is y:
        return True
    if x is None or y is None:
        return False
    if budget is None:
        budget = [250]
        memo = {}
        x, y = joined(x, y), joined(y, x)
    k = (id(x), id(y))
    if k in memo:
        return memo[k]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    sx, sy = T.subterms(x), T.subterms(y)
    ats = {}
    for z in list(sx) + list(sy):
        if z.op == "ite":
            ats[id(z.args[0])] = z.args[0]
    ok = [a for a in ats.values() if _free(a) <= scope and not any(z.op == "ite" for z in T.subterms(a))]
    r = False
    if ok:
        okid = {id(a) for a in ok}
        tops = [z.args[0] for z in (x, y) if z.op == "ite" and id(z.args[0]) in okid]
        a = tops[0] if tops else min(ok, key=lambda t: t.dig)
        r = True
        for pol in (True, False):
            mp = _implied(a, pol, ok)
            if not same(T.subst(x, mp), T.subst(y, mp), budget, scope, memo):
                r = False
                break
    elif x.op == y.op and x.op not in ("num", "const", "glob", "sym", "bv", "poly", "method") and _shape(x.args) == _shape(y.args):
        ps = []
        if _pairs(x.args, y.args, ps) and len(ps) <= 6:
            sc = scope
            if x.op in BINDERS:
                hs = {z for z in x.args if isinstance(z, T.Term) and z.op == "bv"}
                sc = scope | hs
                if x.op == "fold":
                    sc = sc | {z for z in list(sx) + list(sy) if z.op == "accref" and z.args[0] == x.args[4]}
            r = all(same(p, q, budget, sc, memo if sc is scope else {}) for p, q in ps)
    memo[k] = r
    return r


def diff(m, c, out, path=(), limit=40):
    """collect minimal differing pairs (model, current)."""
    if m is c or len(out) >= limit:
        return
    if m.op == c.op and m.op == "ite":
        if m.args[0] is c.args[0]:
            diff(m.args[1], c.args[1], out, path + ("then",), limit)
            diff(m.args[2], c.args[2], out, path + ("else",), limit)
            return
    if m.op == c.op and m.op == "poly":
        dm, dc = T._mono_of(m), T._mono_of(c)
        em = {k: v for k, v in dm.items() if dc.get(k) != v}
        ec = {k: v for k, v in dc.items() if dm.get(k) != v}
        if len(em) == 1 and len(ec) == 1:
            (mm, cm), (mc, cc) = list(em.items())[0], list(ec.items())[0]
            if cm == cc and len(mm) == len(mc):
                am = [p for p in mm if p not in mc]
                ac = [p for p in mc if p not in mm]
                if len(am) == 1 and len(ac) == 1 and am[0][1] == ac[0][1]:
                    diff(am[0][0], ac[0][0], out, path + ("factor",), limit)
                    return
        out.append((path, T._mk_poly(em), T._mk_poly(ec)))
        return
    if m.op == c.op and m.op not in ("num", "const", "glob", "sym", "bv", "poly", "ite", "method") and _shape(m.args) == _shape(c.args):
        pairs = []
        if _pairs(m.args, c.args, pairs):
            for i, (x, y) in enumerate(pairs):
                diff(x, y, out, path + (m.op,), limit)
            return
    out.append((path, m, c))


def _shape(a):
    if isinstance(a, tuple):
        return tuple(_shape(x) for x in a)
    return "T" if isinstance(a, T.Term) else ("v", a)


def _pairs(a, b, out):
    for x, y in zip(a, b):
        if isinstance(x, T.Term):
            if x is not y:
                out.append((x, y))
        elif isinstance(x, tuple):
            if not _pairs(x, y, out):
                return False
        elif x != y:
            return False
    return True


# callables whose meaning the normaliser knows; disagreement on them is real
WELLKNOWN = {
    "numpy." + n for n in
    ("real imag abs conj sum max min prod mean sqrt exp log log10 sin cos tan arctan arctan2 arccos arcsin floor ceil round rint "
     "sign zeros ones empty full zeros_like ones_like array asarray copy flatten ravel reshape transpose moveaxis flip "
     "cumsum concatenate append stack hstack vstack roll cross dot outer linalg.norm any all isclose allclose iscomplexobj "
     "isrealobj argmax argmin argsort sort unique diff linspace arange where pi inf nan angle tanh cosh sinh diag eye squeeze "
     "expand_dims repeat tile clip maximum minimum swapaxes astype median std var nanmax nanmin trunc fix mod kron count_nonzero "
     "float32 complex64 int32 isfinite isnan array_equal logical_and logical_or logical_not invert equal not_equal searchsorted digitize "
     "isscalar ndim size shape full_like empty_like ndarray").split()
} | {
    "numbers.Number", "numbers.Real", "numbers.Complex", "numbers.Integral",
    "len", "list", "tuple", "set", "dict", "range", "enumerate", "zip", "reversed", "sorted", "str", "int", "float", "bool",
    "complex", "min", "max", "sum", "any", "all", "id", "type", "isinstance", "hash", "repr", "round", "divmod", "getattr",
    "hasattr", "ValueError", "KeyError", "TypeError", "RuntimeError", "NotImplementedError", "IndexError", "AttributeError",
    "Exception", "AssertionError", "StopIteration", "NotImplemented", "copy.copy", "copy.deepcopy", "operator.floordiv",
    "operator.mod", "operator.bitand", "operator.bitor", "operator.invert", "open", "frozenset", "slice", "iter", "next",
    "pickle.dump", "pickle.load", "json.dumps", "json.loads", "json.dump", "json.load", "os.path.join", "os.path.exists",
    "BaseException", "object", "map", "filter", "callable", "issubclass", "OSError", "FileNotFoundError", "FileExistsError",
    "ImportError", "ArithmeticError", "ZeroDivisionError", "LookupError", "OverflowError", "NameError", "Warning",
    "PermissionError", "EOFError", "TimeoutError", "ConnectionError",
}
WELLMETHODS = {
    "append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "setdefault", "items", "keys",
    "values", "get", "copy", "format", "join", "split", "index", "count", "discard", "popleft", "popitem", "startswith",
    "endswith", "strip", "lower", "upper", "replace", "dot", "setdiag", "tocsr", "tocsc", "tolist", "item", "fill",
}


class Vocab:
    def __init__(self, summary_terms):
        self.f = set()
        for t in summary_terms:
            self.f |= T.feats(t)

    def foreign(self, t, known_global=None, known_method=None, known_attr=None):
        out = set()
        for x in T.feats(t):
            if x in self.f or x.startswith("op:"):
                continue
            n = x[2:]
            if x.startswith("g:"):
                if n in WELLKNOWN or (n.startswith("spins") and known_global and known_global(n)):
                    continue
                out.add(x)
            elif x.startswith("m:"):
                if n in WELLMETHODS or (known_method and known_method(n)):
                    continue
                out.add(x)
            elif x.startswith("a:"):
                if known_attr and known_attr(n):
                    continue
                out.add(x)
        return out


def nested_gate(t):
    """a gate hidden below a non-gate operator (a cap stopped hoisting)."""
    seen = set()

    def go(x, top):
        if (id(x), top) in seen:
            return False
        seen.add((id(x), top))
        if x.op == "ite":
            if not top:
                return True
            return go(x.args[1], True) or go(x.args[2], True)
        if x.op in ("boolv", "map", "flatmap", "exists", "fold", "sumof", "dictmap", "loopev", "event", "lam", "fn", "last", "upd"):
            return any(go(c, True) for c in T.children(x))
        return any(go(c, False) for c in T.children(x))
    return go(t, True)


class Result:
    def __init__(self, verdict, notes=(), undecided=()):
        self.verdict = verdict
        self.notes = list(notes)
        self.undecided = list(undecided) or (self.notes if verdict == "UNDECIDED" else [])


def all_terms(s):
    return [s.outcome] + list(s.attrs.values()) + list(s.params.values()) + list(s.events) + list(s.objs)


def compare(m, c, tree_m, ignore_events=False, strict_loops=False, state=None):
    """m, c: Summary."""
    notes = []
    und = []
    T.DEFAULTS = {k: v for k, v in m.defmap.items() if c.defmap.get(k) == v}
    voc = Vocab(all_terms(m))

    def kg(n):
        return tree_m.find(n) is not None or (tree_m.find(n.rsplit(".", 1)[0]).__class__.__name__ == "Class" and
                                              (n.rsplit(".", 1)[1] in ("Grad", "ConstFlags", "Schema", "node_type") or
                                               tree_m.class_attr(tree_m.find(n.rsplit(".", 1)[0]), n.rsplit(".", 1)[1])))

    def km(n):
        return bool(tree_m.methods_named(n))

    attrs_m = tree_m.attr_writers()
    fm = voc.f
    fc = Vocab(all_terms(c)).f

    ns, fn = state if state else (None, None)
    newattr = ns.new if ns else frozenset()

    def ka(n):
        return n in attrs_m or tree_known_attr(tree_m, n)

    capped = bool({"diagram-cap", "poly-cap", "loop-fixpoint"} & (m.flags | c.flags))

    def judge(what, tm, tc):
        out = []
        if tm is None or tc is None:
            out = [((), tm, tc)]
        elif same(tm, tc):
            return
        else:
            diff(tm, tc, out)
        for path, x, y in out:
            fx = T.feats(x) if x is not None else frozenset()
            fy = T.feats(y) if y is not None else frozenset()
            desc = "%s: expected %s, found %s" % (what, short(x), short(y))
            if "op:opaque" in fx | fy:
                und.append("opaque construct in " + desc)
                continue
            if strict_loops and not (same_loops(x, y) and not fold_below(path, x, y)):
                und.append("loop form changed in " + desc)
                continue
            fo = voc.foreign(y, kg, km, ka) if y is not None else set()
            if y is not None and newattr:
                fo |= {"a:" + z.args[1] for z in T.subterms(y) if z.op == "attr" and z.args[1] in newattr and z.args[0] is P0}
            if fo:
                und.append("unmodelled %s in %s" % (sorted(fo)[:3], desc))
                continue
            # a loop rewritten into a form the normaliser does not unify
            nl = (fy & LOOPY) - fm
            if nl == {"op:last"} and not fx & {"op:first", "op:exists", "op:fold", "op:while"}:
                pass    # the value a loop variable happens to have after the loop
            elif nl:
                und.append("loop form changed in " + desc)
                continue
            elif (fx & LOOPY) - fc and any(f in VECTOR or f.startswith(("g:numpy", "g:itertools", "g:functools", "m:"))
                                           for f in fc - fm):
                und.append("loop form changed in " + desc)
                continue
            if capped and ((x is not None and nested_gate(x)) or (y is not None and nested_gate(y))):
                und.append("size cap in " + desc)
                continue
            if fall_together(x, y):
                und.append("another spelling in " + desc)
                continue
            notes.append(desc)

    if m.outcome is not c.outcome:
        judge("result", m.outcome, c.outcome)
    for k in sorted(set(m.attrs) | set(c.attrs)):
        a, b = m.attrs.get(k), c.attrs.get(k)
        if a is b:
            continue
        if a is None and k.startswith("p:0.") and k[4:] in newattr:
            at = T.attr(P0, k[4:])
            if id(at) in ns.defs() or not (ns.read_elsewhere(fn, k[4:]) or any(
                    x is at for q, t in list(c.attrs.items()) + list(enumerate([c.outcome] + list(c.params.values()) + list(c.events)
                                                                               + list(c.objs))) if q != k for x in T.subterms(t))):
                continue      # nothing sees it, or it stands for a value that is known
            und.append("new attribute " + k)
            continue
        if a is None and not ka(k.split(".")[-1]):
            und.append("new attribute " + k)
            continue
        judge("attribute " + k, a, b)
    for k in sorted(set(m.params) | set(c.params), key=str):
        a, b = m.params.get(k), c.params.get(k)
        if a is not b:
            judge("argument %s" % k, a, b)
    if m.objs != c.objs:
        for a, b in zip_longest_terms(m.objs, c.objs):
            judge("object state", a, b)
    if not ignore_events:
        em, ec = list(m.events), list(c.events)
        mo = [e for e in em if e not in ec]
        co = [e for e in ec if e not in em]
        if mo or co:
            for a, b in pair_events(mo, co):
                judge("effect", a, b)
    known = {id(t) for t in m.augs}
    for t in c.augs:
        if id(t) in known or (t.op == "sym" and t.args[1] in m.params):
            continue
        if array_like(t, m, c):
            notes.append("in place: %s is changed in place, the reference leaves it alone" % short(t))
        else:
            und.append("in-place operator on %s, which may be shared" % short(t))
    if m.defaults != c.defaults:
        dm, dc = dict(m.defaults), dict(c.defaults)
        for k in dm:
            if k in dc and dm[k] is not dc[k]:
                judge("default of parameter %s" % k, dm[k], dc[k])
            elif k not in dc:
                notes.append("parameter %s lost its default" % k)
    if notes:
        # a difference next to something not understood is not conclusive
        if und:
            return Result("UNDECIDED", und + notes, und)
        return Result("DIFFERENT", notes)
    if und:
        return Result("UNDECIDED", und, und)
    return Result("EQUAL")


ARRAYISH = {"array", "array_grad", "fields", "eps", "eps_grad", "grad", "x", "vec", "dxes", "epsilon", "permittivity", "J", "E", "H"}


def array_like(t, m, c):
    """evidence that t is an array or list: it is indexed, has methods called or array functions applied to it."""
    if t.op == "attr" and t.args[1] in ARRAYISH:
        return True
    if id(t) in m.array_params or id(t) in c.array_params:
        return True
    for s in (m, c):
        for root in all_terms(s):
            for x in T.subterms(root):
                if x.op in ("idx", "elem", "store", "matmul") and x.args and x.args[0] is t:
                    return True
                if x.op == "matmul" and t in x.args:
                    return True
                if x.op == "attr" and x.args[0] is t and x.args[1] in ("shape", "size", "dtype", "T", "ndim", "real", "imag"):
                    return True
                if x.op == "call" and x.args[1] and any(a is t for a in x.args[1]):
                    f = x.args[0]
                    if f.op == "method" and x.args[1][0] is t:
                        return True
                    n = T.gname(f) or ""
                    if n.startswith(("numpy.", "scipy.")) and n not in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.sqrt",
                                                                        "numpy.abs", "numpy.arange", "numpy.linspace", "numpy.exp"):
                        return True
                    if n == "len":
                        return True
    return False


def tree_known_attr(tree, n):
    c = getattr(tree, "_all_attr_names", None)
    if c is None:
        import ast
        c = set()
        for md in tree.modules.values():
            for x in ast.walk(md.tree):
                if isinstance(x, ast.Attribute):
                    c.add(x.attr)
        tree._all_attr_names = c
    return n in c


def loops_of(t):
    return [x for x in T.subterms(t) if ("op:" + x.op) in LOOPY] if t is not None else []


def same_loops(x, y):
    """both sides hold the same loops (a changed turn of one of them is reached by diff before this)."""
    return {id(t) for t in loops_of(x)} == {id(t) for t in loops_of(y)}


def fold_below(path, x, y):
    return any(t is not None and t.op in ("fold", "loopev", "map", "dictmap", "exists", "first", "last") for t in (x, y))


def zip_longest_terms(a, b):
    a = [x for x in a]
    b = [x for x in b]
    ao = [x for x in a if x not in b]
    bo = [x for x in b if x not in a]
    return pair_events(ao, bo)


def _head(e):
    for x in (e.args[0],) if e.op == "event" else (e,):
        while x.op == "under":
            x = x.args[1]
        if x.op == "call":
            f = x.args[0]
            return (f.op,) + tuple(a for a in f.args if isinstance(a, str))
        return (x.op,)


def pair_events(mo, co):
    pairs = []
    co = list(co)
    for a in mo:
        best = None
        for b in co:
            if _head(a) == _head(b):
                best = b
                break
        if best is not None:
            co.remove(best)
            pairs.append((a, best))
        else:
            pairs.append((a, None))
    # leftovers: pair arbitrarily so that a replacement is seen as such
    out = []
    for a, b in pairs:
        if b is None and co:
            b = co.pop(0)
        out.append((a, b))
    for b in co:
        out.append((None, b))
    return out


def short(t, n=260):
    if t is None:
        return "nothing"
    s = T.show(t, 7)
    return s if len(s) <= n else s[:n] + "..."
