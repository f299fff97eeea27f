"""Obligation engine: one obligation per function / class table / constant table.

The reference semantics (/verif/model) and the working tree are brought to the
same normal form (value graphs) and compared; see DESIGN.md.
"""
import ast
import os
import signal
import sys
import time

from . import cmp as C
from . import terms as T
from .repo import Class, Func, Module, Tree, walk_scope
from .vg import VG

sys.setrecursionlimit(20000)

PAIR_LIMIT = float(os.environ.get("SA_PAIR_LIMIT", "60"))
CALLERS_LIMIT = float(os.environ.get("SA_CALLERS_LIMIT", "120"))


class OutOfTime(BaseException):
    pass


class Limit:
    """CPU-time limit for one comparison (CPU time, so that load does not change verdicts)."""

    def __init__(self, secs):
        self.secs = max(secs, 0.5)

    def _fire(self, *_):
        raise OutOfTime()

    def __enter__(self):
        self.old = signal.signal(signal.SIGPROF, self._fire)
        signal.setitimer(signal.ITIMER_PROF, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


OK, VIOL, UND = "holds", "violated", "undecided"


class Verdict:
    __slots__ = ("status", "how", "notes", "where", "qual", "sums")

    def __init__(self, qual, status, how, notes=(), where=""):
        self.qual, self.status, self.how, self.notes, self.where = qual, status, how, list(notes), where
        self.sums = None

    def __reduce__(self):       # terms are interned per process
        return Verdict, (self.qual, self.status, self.how, self.notes, self.where)


def strip_doc(node):
    """dump of a node without docstrings, positions, annotations and pass statements."""
    import copy
    n = copy.deepcopy(node)
    for x in ast.walk(n):
        for blk in ("body", "orelse", "finalbody"):
            b = getattr(x, blk, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                b2 = [y for y in b if not (isinstance(y, ast.Pass) or (isinstance(y, ast.Expr) and isinstance(y.value, ast.Constant)))]
                setattr(x, blk, b2 or ([ast.Pass()] if blk == "body" else []))
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            x.returns = None
            for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs + [x.args.vararg, x.args.kwarg]:
                if a is not None:
                    a.annotation = None
    return ast.dump(n)


def env_dump(mod):
    """everything at module level except function and class bodies."""
    out = []
    for st in mod.tree.body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(st, ast.ClassDef):
            out.append("class %s(%s)" % (st.name, ",".join(ast.dump(b) for b in st.bases)))
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        out.append(ast.dump(st))
    return "\n".join(out)


def is_private(qual):
    n = qual.split(".")[-1].split("!")[0]
    return n.startswith("_") and not (n.startswith("__") and n.endswith("__"))


def hierarchy(tree):
    out = {}
    for c in tree.all_classes():
        ms = tree.mro(c)
        whole = not any("__new__" in m.methods or "__instancecheck__" in m.methods for m in ms) and \
            all(isinstance(b, Class) or b[1] in ("object", "abc.ABC", "ABC") for m in ms for b in tree.bases(m))
        out[c.qual] = (frozenset(m.qual for m in ms), whole)
    return out


class Engine:
    def __init__(self, ref_root, cur_root, full=False):
        self.full = full
        self.ref = Tree(ref_root)
        self.cur = Tree(cur_root)
        T.HIER.clear()
        here, there = hierarchy(self.ref), hierarchy(self.cur)
        T.HIER.update({k: v for k, v in here.items() if there.get(k, v) == v})
        T.HIER.update({k: v for k, v in there.items() if k not in here})
        self.ref_names = {f.qual for f in self.ref.all_funcs()} | {c.qual for c in self.ref.all_classes()}
        self.rename = {}
        self._ident = {}
        self._shallow = {}
        self._v = {}
        self._env = {}
        self._dump = {}
        self.stats = {"functions": 0, "ast_identical": 0, "graph_equal": 0, "inlined_equal": 0, "undecided": 0,
                      "violated": 0, "via_callers": 0, "terms": 0}
        for f in self.ref.all_funcs():
            g = self.cur_func(f.qual)
            if g is not None and g.qual != f.qual:
                self.rename[g.qual] = f.qual

    # ------------------------------------------------------------ lookup
    def ref_func(self, q):
        return self._find(self.ref, q)

    def cur_func(self, q):
        return self._find(self.cur, q)

    def _find(self, tree, q):
        if q.endswith("!setter"):
            c = tree.find(q[:-len("!setter")].rsplit(".", 1)[0])
            return c.methods.get(q.split(".")[-1]) if isinstance(c, Class) else None
        r = tree.find(q)
        return r if isinstance(r, Func) else None

    def same_env(self, a, b):
        k = (a.name, b.name)
        if k not in self._env:
            self._env[k] = env_dump(a) == env_dump(b)
        return self._env[k]

    def identical(self, q):
        if q not in self._ident:
            f, g = self.ref_func(q), self.cur_func(q)
            r = False
            if f is not None and g is not None and f.qual == g.qual and strip_doc(f.node) == strip_doc(g.node):
                r = self.same_env(f.module, g.module) and (f.cls is None or [c.qual for c in self.ref.mro(f.cls)] ==
                                                           [c.qual for c in self.cur.mro(g.cls)])
            self._ident[q] = r
        return self._ident[q]

    # --------------------------------------------------------- summaries
    def summ(self, tree, f, inline=frozenset(), arity=None, raw_loops=False):
        known = (lambda q: q in self.ref_names and q not in inline)
        vg = VG(tree, known=known, rename=(self.rename if tree is self.cur else None))
        if inline:
            vg.known = lambda q: (q in vg.rename or q in self.ref_names) and q not in inline and vg.rename.get(q) not in inline
        vg.arity = arity
        vg.raw_loops = raw_loops
        s = vg.summarize(f)
        return s

    def pair(self, q, inline=frozenset(), limit=None):
        try:
            with Limit(PAIR_LIMIT if limit is None else min(limit, PAIR_LIMIT)):
                return self._pair(q, inline)
        except OutOfTime:
            return None, None, C.Result("UNDECIDED", ["comparison of %s ran out of time" % q])

    def _pair(self, q, inline):
        f, g = self.ref_func(q), self.cur_func(q)
        try:
            a = self.summ(self.ref, f, inline)
            b = self.summ(self.cur, g, inline, arity=(len(f.pos), set(f.kwonly)))
        except RecursionError:
            return None, None, C.Result("UNDECIDED", ["term too deep"])
        except Exception as e:   # a construct the engine has no rule for
            if os.environ.get("SA_DEBUG"):
                raise
            return None, None, C.Result("UNDECIDED", ["analysis gave up: %s: %s" % (type(e).__name__, e)])
        from .stale import new_state
        ns = new_state(self, g.cls)
        r = C.compare(a, b, self.ref, state=(ns, g) if ns else None)
        if r.verdict == "UNDECIDED" and ns is not None:
            b2 = ns.apply(b)
            if b2 is not None:
                r2 = C.compare(a, b2, self.ref, state=(ns, g))
                if r2.verdict == "EQUAL" or (r2.verdict == "DIFFERENT" and self._same_init_outcome(f, g)):
                    r = r2
        if r.verdict == "UNDECIDED":
            r = self._loops(f, g, inline, r)
        sig = self.signature(f, g)
        db, du = self.decorator_notes(f, g)
        sig = sig + db
        if du and not db and r.verdict != "UNDECIDED":
            r = C.Result("UNDECIDED", du + r.notes)
        if sig and r.verdict != "UNDECIDED":
            r = C.Result("DIFFERENT", sig + r.notes)
        return a, b, r

    def _same_init_outcome(self, f, g):
        """construction fails in the same cases as before (nothing that can fail was moved into it)."""
        i, j = self.ref.method(f.cls, "__init__"), self.cur.method(g.cls, "__init__")
        if i is None or j is None:
            return i is j
        try:
            return self.summ(self.ref, i).outcome is self.summ(self.cur, j).outcome
        except Exception:
            return False

    def _loops(self, f, g, inline, r):
        """a loop that had a closed form no longer has one: compare what one turn of it does.

        Conclusive only when both loops run over the same domain with the same number of accumulators.
        """
        if not all(n.startswith("loop form changed") for n in r.undecided):
            return r
        try:
            a = self.summ(self.ref, f, inline, raw_loops=True)
            b = self.summ(self.cur, g, inline, arity=(len(f.pos), set(f.kwonly)), raw_loops=True)
        except (RecursionError, Exception):
            return r
        r2 = C.compare(a, b, self.ref, strict_loops=True)
        return r2 if r2.verdict == "DIFFERENT" else r

    def signature(self, f, g):
        """call-compatibility: every call accepted by the reference is still accepted the same way."""
        out = []
        fp, gp = f.pos, g.pos
        for i, n in enumerate(fp):
            if i >= len(gp):
                if not g.vararg:
                    out.append("parameter %s removed" % n)
            elif gp[i] != n and not (i == 0 and f.cls is not None) and not is_private(f.qual) and not n.startswith("_"):
                if n in gp or n in g.kwonly:
                    out.append("parameter %s moved" % n)
        for n in gp[len(fp):]:
            if n not in g.defaults and not (f.vararg and False):
                out.append("new required parameter %s" % n)
        for n in f.kwonly:
            if n not in g.kwonly and n not in gp and not g.kwarg:
                out.append("keyword parameter %s removed" % n)
        return out

    def callees(self, s):
        out = set()
        for t in C.all_terms(s):
            for x in T.feats(t):
                if x.startswith("g:spins"):
                    out.add(x[2:])
                elif x.startswith("m:"):
                    out.add("." + x[2:])
        return out

    def changed(self):
        """functions of the reference whose current code is not the same tree."""
        if not hasattr(self, "_changed"):
            self._changed = {f.qual for f in self.ref.all_funcs() if not self.identical(f.qual)}
        return self._changed

    # ----------------------------------------------------------- verdict
    def verdict(self, q):
        if q not in self._v:
            self._v[q] = self._verdict(q)
        return self._v[q]

    def shallow(self, q):
        if q not in self._shallow:
            if self.identical(q):
                self._shallow[q] = C.Result("EQUAL", ["identical"])
            elif self.cur_func(q) is None:
                self._shallow[q] = C.Result("MISSING")
            else:
                a, b, r = self.pair(q)
                r.sums = (a, b)
                self._shallow[q] = r
        return self._shallow[q]

    def _verdict(self, q):
        f, g = self.ref_func(q), self.cur_func(q)
        if f is None:
            return Verdict(q, UND, "no such function in the reference", where="?")
        if self.identical(q):
            if self.full:
                r = self.pair(q)[2]
                if r.verdict == "EQUAL":
                    return Verdict(q, OK, "equal value graphs", where=g.where)
                if r.verdict == "DIFFERENT":
                    raise AssertionError("normalisation is not deterministic for %s: %s" % (q, r.notes[:2]))
            return Verdict(q, OK, "identical syntax tree", where=g.where)
        if g is None:
            if is_private(q):
                return Verdict(q, OK, "private helper gone; its callers carry the obligation", where=f.module.relpath)
            if f.cls is not None and self.cur.find(f.cls.qual) is None:
                # the whole class: moved or removed?
                return Verdict(q, VIOL, "removed", ["public %s no longer exists" % q], where=f.module.relpath)
            return Verdict(q, VIOL, "removed", ["public %s no longer exists" % q], where=f.module.relpath)
        r = self.shallow(q)
        if r.verdict == "EQUAL":
            return Verdict(q, OK, "equal value graphs", where=g.where)
        # inline what changed around it, and what only one side calls
        inl = self.inline_set(q, r)
        r2 = r
        if inl:
            a, b, r2 = self.pair(q, frozenset(inl))
            if r2.verdict == "EQUAL":
                return Verdict(q, OK, "equal value graphs after inlining %d callees" % len(inl), where=g.where)
        if "DIFFERENT" == r2.verdict or (r.verdict == "DIFFERENT" and not inl):
            notes = (r2 if r2.verdict == "DIFFERENT" else r).notes
            if is_private(q):
                self._deadline = time.process_time() + CALLERS_LIMIT
                v = self.by_callers(q)
                if v == "undecided":
                    return Verdict(q, UND, "differs, and its changed callers are not decided", notes, where=g.where)
                if v is not None:
                    return v
            vd = Verdict(q, VIOL, "value graphs differ", notes, where=g.where)
            vd.sums = (a, b) if inl and r2.verdict == "DIFFERENT" else getattr(r, "sums", None)
            return vd
        return Verdict(q, UND, "not decided", r2.notes, where=g.where)

    def inline_set(self, q, r):
        a, b = getattr(r, "sums", (None, None))
        inl = set()
        if a is None:
            return inl
        ca, cb = self.callees(a), self.callees(b)
        for n in ca ^ cb:
            if n.startswith("."):
                for m in self.ref.methods_named(n[1:]):
                    inl.add(m.qual)
            elif self.ref_func(n) is not None:
                inl.add(n)
        for n in ca & cb:
            for m in ([m.qual for m in self.ref.methods_named(n[1:])] if n.startswith(".") else [n]):
                if m in self.changed() and m != q and self.shallow(m).verdict != "EQUAL":
                    inl.add(m)
        # inherited/overridden methods reached through self
        inl.discard(q)
        return inl

    def callers(self, q):
        name = q.split(".")[-1].split("!")[0]
        out = []
        for f in self.ref.all_funcs():
            if f.qual == q:
                continue
            for n in ast.walk(f.node):
                if (isinstance(n, ast.Attribute) and n.attr == name) or (isinstance(n, ast.Name) and n.id == name):
                    out.append(f.qual)
                    break
        return out

    def by_callers(self, q, seen=()):
        """a private function may change if no caller can tell.

        Verdict when that is shown, None when it is not, "undecided" when a caller changed as well and the pair
        could not be compared.
        """
        cs = self.callers(q)
        if not cs or q in seen:
            return None
        for c in cs:
            if self.cur_func(c) is None:
                if is_private(c):
                    continue
                return None
            inl = {q} | set(seen)
            r = self.shallow(c)
            if r.verdict != "EQUAL":
                inl |= self.inline_set(c, r)
            left = self._deadline - time.process_time()
            if left <= 0:
                return None if self.identical(c) else "undecided"
            a, b, r2 = self.pair(c, frozenset(inl), limit=left)
            if r2.verdict == "EQUAL":
                # make sure the helper really was expanded, otherwise equality says nothing
                for h in (q,) + tuple(seen):
                    if h not in a.inlined or (self.cur_func(h) is not None and self.cur_func(h).qual not in b.inlined):
                        return None
                    nm = h.split(".")[-1]
                    if any(("m:" + nm) in T.feats(t) or ("g:" + h) in T.feats(t) for t in C.all_terms(a) + C.all_terms(b)):
                        return None
                continue
            if is_private(c):
                v = self.by_callers(c, seen + (q,))
                if isinstance(v, Verdict):
                    continue
                if v == "undecided":
                    return v
            if r2.verdict == "UNDECIDED" and not self.identical(c):
                return "undecided"
            return None
        return Verdict(q, OK, "changed, but all %d callers are equal with it expanded" % len(cs),
                       where=self.cur_func(q).where)

    # ------------------------------------------------------------- tables
    PROTOCOL = {"__eq__", "__ne__", "__hash__", "__bool__", "__len__", "__copy__", "__deepcopy__", "__getattr__",
                "__getattribute__", "__setattr__", "__delattr__", "__iter__", "__getitem__", "__contains__", "__new__",
                "__array_ufunc__", "__array__", "__array_priority__", "__getstate__", "__setstate__", "__reduce__", "__lt__",
                "__call__", "__del__", "__post_init__", "__init_subclass__"}

    def term(self, tree, module, node, cls=None):
        vg = VG(tree, known=lambda q: q in self.ref_names, rename=(self.rename if tree is self.cur else None))
        return vg.expression(node, module)

    def judge(self, what, a, b):
        """compare two terms outside any function."""
        from .vg import Summary
        m, c = Summary(), Summary()
        m.outcome, c.outcome = a, b
        r = C.compare(m, c, self.ref)
        return r.verdict, [what + ": " + n for n in r.notes]

    def class_obligations(self, q):
        """verdicts for the declarative part of a class: bases, attributes, decorators, schema annotations, overrides."""
        key = ("class", q)
        if key in self._v:
            return self._v[key]
        out = []
        a, b = self.ref.find(q), self.cur.find(q)
        if not isinstance(a, Class):
            out = []
        elif not isinstance(b, Class):
            priv = q.split(".")[-1].startswith("_")
            out = [Verdict(q + "@class", UND if priv else VIOL, "removed", ["class %s no longer exists" % q], a.module.relpath)]
        elif not self.full and self.same_class_shell(a, b):
            out = [Verdict(q + "@class", OK, "identical declarations", where=self.cls_where(b))]
        else:
            out = [self._class_table(q, a, b)] + self._new_overrides(q, a, b)
        self._v[key] = out
        return out

    def cls_where(self, c):
        return "%s:%d" % (c.module.relpath, c.node.lineno)

    def same_class_shell(self, a, b):
        def shell(c):
            out = [",".join(ast.dump(x) for x in c.node.bases), ",".join(ast.dump(x) for x in c.node.keywords),
                   ",".join(sorted(ast.dump(x) for x in c.node.decorator_list))]
            for st in c.node.body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.append("def %s %s %s" % (st.name, [ast.dump(d) for d in st.decorator_list], ast.dump(st.args)))
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    pass
                elif isinstance(st, (ast.ClassDef, ast.Pass)):
                    pass
                else:
                    out.append(ast.dump(st))
            return out
        return shell(a) == shell(b) and self.same_env(a.module, b.module)

    def _class_table(self, q, a, b):
        bad, und = [], []

        def note(v, ns):
            (bad if v == "DIFFERENT" else und if v == "UNDECIDED" else []).extend(ns)
        # ancestry, ignoring classes the reference does not have
        names = {c.qual for c in self.ref.all_classes()}

        def anc(tree, c):
            out = []
            for x in tree.mro(c):
                out.append(self.rename.get(x.qual, x.qual))
                out += ["ext:" + e[1].split(".")[-1] for e in tree.bases(x) if isinstance(e, tuple)]
            return [x for x in out if x in names or x.startswith("ext:")]
        ra, rb = anc(self.ref, a), anc(self.cur, b)
        if ra[1:] != rb[1:]:
            miss = [x for x in ra[1:] if x not in rb]
            if miss or [x for x in rb[1:] if x in ra] != ra[1:]:
                note("DIFFERENT", ["bases: expected %s, found %s" % (ra[1:], rb[1:])])
            else:
                note("UNDECIDED", ["new bases %s" % [x for x in rb if x not in ra]])
        # attributes
        for n, v in a.attrs.items():
            w = b.attrs.get(n, "gone")
            if isinstance(w, str):
                r = self.cur.class_attr(b, n)
                if r is None:
                    if n in b.methods or n in b.inner:
                        note("UNDECIDED", ["attribute %s is now a method or class" % n])
                    else:
                        note("DIFFERENT", ["class attribute %s removed" % n])
                    continue
                bm, w = r[0].module, r[1]
            else:
                bm = b.module
            if (v is None) != (w is None):
                note("DIFFERENT", ["class attribute %s: default %s" % (n, "added" if v is None else "removed")])
                continue
            if v is None:
                continue
            try:
                ta, tb = self.term(self.ref, a.module, v), self.term(self.cur, bm, w)
            except Exception as e:
                note("UNDECIDED", ["class attribute %s: %s" % (n, e)])
                continue
            if ta is not tb:
                note(*self.judge("class attribute " + n, ta, tb))
        # positional order of fields (dataclasses, flows, enums with auto numbering)
        order = [n for n in b.attrs if n in a.attrs]
        if order != [n for n in a.attrs if n in b.attrs] and a.ann:
            note("DIFFERENT", ["field order: expected %s, found %s" % (list(a.attrs), list(b.attrs))])
        for n in b.attrs:
            if n not in a.attrs and n in b.ann and a.ann:
                note("UNDECIDED", ["new field " + n])
            elif n not in a.attrs:
                r = self.ref.class_attr(a, n)
                if r is not None and r[0] is not a:
                    ta = self.term(self.ref, r[0].module, r[1]) if r[1] is not None else None
                    tb = self.term(self.cur, b.module, b.attrs[n]) if b.attrs[n] is not None else None
                    if ta is not tb and ta is not None and tb is not None:
                        note(*self.judge("class attribute " + n, ta, tb))
        # decorators
        da = [self.term(self.ref, a.module, d) for d in a.node.decorator_list]
        db = [self.term(self.cur, b.module, d) for d in b.node.decorator_list]
        for x in da:
            if x not in db:
                note("DIFFERENT", ["class decorator %s lost or changed" % C.short(x)])
        for x in db:
            if x not in da and not bad:
                note("UNDECIDED", ["new class decorator %s" % C.short(x)])
        # constructor annotations are the schema of goos graph nodes
        if any(c.qual.endswith("goos.optplan.optplan.ProblemGraphNode") for c in self.ref.mro(a)):
            note(*self._schema_params(a, b))
        if bad:
            return Verdict(q + "@class", VIOL, "declarations differ", bad, self.cls_where(b))
        if und:
            return Verdict(q + "@class", UND, "not decided", und, self.cls_where(b))
        return Verdict(q + "@class", OK, "equal declarations", where=self.cls_where(b))

    def _schema_params(self, a, b):
        f, g = a.methods.get("__init__"), self.cur.method(b, "__init__")
        if f is None or g is None:
            return "EQUAL", []
        bad = []

        def params(fn, tree):
            out = {}
            ar = fn.node.args
            for x in (ar.posonlyargs + ar.args)[1:] + ar.kwonlyargs:
                an = x.annotation
                if isinstance(an, ast.Constant) and isinstance(an.value, str):
                    try:
                        an = ast.parse(an.value, mode="eval").body
                    except SyntaxError:
                        pass
                out[x.arg] = None if an is None else self.term(tree, fn.module, an)
            return out
        pa, pb = params(f, self.ref), params(g, self.cur)
        for n in pa:
            if n not in pb:
                bad.append("serialised parameter %s removed" % n)
            elif pa[n] is not pb[n]:
                bad.append("serialised parameter %s: type %s, found %s" % (n, C.short(pa[n]), C.short(pb[n])))
        return ("DIFFERENT" if bad else "EQUAL"), bad

    def _new_overrides(self, q, a, b):
        out = []
        for n, g in b.methods.items():
            if n in a.methods:
                continue
            f = self.ref.method(a, n)
            if f is not None:
                v = self._pair_verdict(q + "." + n, f, g)
                if v is not None:
                    out.append(v)
            elif n in self.PROTOCOL and not any(n in x.methods for x in self.ref.mro(a)):
                out.append(Verdict(q + "." + n, VIOL, "new object protocol", ["%s gives %s a new protocol method" % (n, q)], g.where))
        return out

    def _pair_verdict(self, label, f, g):
        """compare an inherited method of the reference with a new override."""
        try:
            with Limit(PAIR_LIMIT):
                r = C.compare(self.summ(self.ref, f), self.summ(self.cur, g, arity=(len(f.pos), set(f.kwonly))), self.ref)
        except OutOfTime:
            return Verdict(label, UND, "new override, not decided", where=g.where)
        except Exception as e:
            return Verdict(label, UND, "new override, not decided", [str(e)], where=g.where)
        if r.verdict == "EQUAL":
            return None
        body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and "super()" in ast.unparse(body[0]):
            return None
        return Verdict(label, VIOL if r.verdict == "DIFFERENT" else UND, "new override of an inherited method", r.notes, g.where)

    def module_obligation(self, name):
        key = ("module", name)
        if key not in self._v:
            self._v[key] = self._module(name)
        return self._v[key]

    def _module(self, name):
        a, b = self.ref.modules.get(name), self.cur.modules.get(name)
        label = name + "@module"
        if b is None:
            public = [x for x in list(a.funcs) + list(a.classes) if not x.startswith("_")]
            if not public:
                return Verdict(label, OK, "empty module", where=a.relpath)
            return Verdict(label, VIOL, "removed", ["module %s no longer exists" % name], a.relpath)
        if not self.full and self.same_env(a, b):
            return Verdict(label, OK, "identical module level", where=b.relpath)
        bad, und = [], []
        for n, vs in a.consts.items():
            r = self.cur.lookup(name, n)
            if r is None:
                continue          # uses of it are judged where they occur
            if not (isinstance(r, tuple) and r[0] == "const"):
                und.append("constant %s is now something else" % n)
                continue
            ws = r[1].consts[r[2]]
            if len(vs) != 1 or len(ws) != 1 or vs[0] is None or ws[0] is None:
                if [v and ast.dump(v) for v in vs] != [w and ast.dump(w) for w in ws]:
                    und.append("constant %s assigned several times" % n)
                continue
            try:
                ta, tb = self.term(self.ref, a, vs[0]), self.term(self.cur, r[1], ws[0])
            except Exception as e:
                und.append("constant %s: %s" % (n, e))
                continue
            if ta is not tb:
                v, ns = self.judge("constant " + n, ta, tb)
                (bad if v == "DIFFERENT" else und if v == "UNDECIDED" else []).extend(ns)
        # effects of importing the module
        ea = [self.term(self.ref, a, s.value) for s in a.tree.body if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)]
        eb = [self.term(self.cur, b, s.value) for s in b.tree.body if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)]
        for x in ea:
            if ea.count(x) > eb.count(x):
                (und if any(isinstance(s, (ast.For, ast.While, ast.With)) for s in b.tree.body) else bad).append(
                    "import-time call %s lost" % C.short(x))
        # exported names
        for n in set(a.imports) - set(b.imports):
            if self.cur.lookup(name, n) is None and a.is_pkg:
                bad.append("exported name %s lost" % n)
        for s in a.stars:
            if s not in b.stars and a.is_pkg:
                und.append("star import of %s lost" % s)
        if bad:
            return Verdict(label, VIOL, "module level differs", bad, b.relpath)
        if und:
            return Verdict(label, UND, "not decided", und, b.relpath)
        return Verdict(label, OK, "equal module level", where=b.relpath)

    def decorator_notes(self, f, g):
        bad, und = [], []
        da = [self.term(self.ref, f.module, d) for d in f.node.decorator_list]
        db = [self.term(self.cur, g.module, d) for d in g.node.decorator_list]
        for x in da:
            if x not in db:
                if x.op == "glob" and x.args[0] in ("staticmethod", "classmethod") and is_private(f.qual):
                    continue
                bad.append("decorator %s lost or changed" % C.short(x))
        for x in db:
            if x not in da:
                fe = T.feats(x)
                if any(n in fe for n in ("g:functools.lru_cache", "g:functools.cache", "g:property", "g:functools.cached_property",
                                         "g:contextlib.contextmanager")) or any(n.startswith("g:spins") and n[2:] in self.ref_names for n in fe):
                    bad.append("new decorator %s" % C.short(x))
                elif x.op == "glob" and x.args[0] in ("staticmethod", "classmethod"):
                    pass     # the call sites and the binding of the first parameter decide
                else:
                    und.append("new decorator %s" % C.short(x))
        return bad, und
