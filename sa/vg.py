"""Gated value-graph construction: one forward dataflow pass per function.

Every function body is abstracted to
  outcome  - decision diagram over {return value, exception type}
  attrs    - value left in every attribute it assigns
  params   - value left in every argument object it mutates
  events   - calls made for effect, with their guards, partially ordered by
             conflict
No path is enumerated and nothing is run: branches are merged with gates, loops
are summarised as maps / sums / folds over their extent.
"""
import ast
import builtins
import itertools
import math
import string

from . import terms as T
from .repo import Func, Class, walk_scope
from .terms import (raw, const, num, sym, glob, ite, truth, b_and, b_or, b_not, TRUE, FALSE, NONE,
                    map_leaves, leaf_guards, lift)

FALL = raw("sym", "$fall")
BRK = raw("sym", "$break")
CONT = raw("sym", "$continue")
UNDEF = raw("sym", "$undef")
RAISED = raw("sym", "$raised")
NOELEM = raw("sym", "$noelem")
NOEV = raw("sym", "$noevent")

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add",
            "setdefault", "popitem", "discard", "appendleft", "popleft", "difference_update",
            "fill", "resize"}
PURE_BUILTINS = {n for n in dir(builtins)} - {"print", "setattr", "delattr", "exec", "eval", "open", "input", "next"}
LOGGERS = ("logger", "logging", "_logger", "LOGGER", "log")


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("env", "heap", "pc", "events", "alias", "mods", "pmut", "origin", "ver", "slot")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.pc = TRUE
        self.events = []
        self.alias = {}
        self.mods = ()
        self.pmut = {}
        self.origin = {}   # variable -> location of the object it still denotes
        self.ver = {}      # object -> the last call made on it for effect
        self.slot = {}     # variable -> container expression it was read from

    def clone(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.events = self.events
        s.alias = dict(self.alias)
        s.mods = self.mods
        s.pmut = dict(self.pmut)
        s.origin = dict(self.origin)
        s.ver = dict(self.ver)
        s.slot = dict(self.slot)
        return s

    def take(self, o):
        self.env, self.heap, self.alias, self.mods, self.pmut = o.env, o.heap, o.alias, o.mods, o.pmut
        self.origin = o.origin
        self.ver = o.ver
        self.slot = o.slot


class Frame:
    def __init__(self, func, module, cls, selfterm, parent=None, selfname=None):
        self.func = func
        self.module = module
        self.cls = cls
        self.selfterm = selfterm
        self.parent = parent     # lexically enclosing (env-State, Frame)
        self.globals = set()
        self.nonlocals = set()
        self.yields = False
        self.undef = set()       # locals read before any assignment was seen


def unfuture(c):
    """a collection of futures -> the collection of their results (in the same, or no particular, order)."""
    if c.op == "map" and all(l.op == "future" for l, _ in leaf_guards(c.args[2])):
        return T.raw("map", c.args[0], c.args[1], map_leaves(c.args[2], lambda l: l.args[0]), c.args[3])
    if c.op == "list" and c.args and all(x.op == "future" for x in c.args):
        return T.raw("list", *[x.args[0] for x in c.args])
    if c.op == "anyorder" or (c.op == "call" and T.gname(c.args[0]) == "set" and len(c.args[1]) == 1 and not c.args[2]):
        i = unfuture(c.args[0] if c.op == "anyorder" else c.args[1][0])
        return None if i is None else T.raw("anyorder", i)
    return None


class Unsupported(Exception):
    pass


class Event:
    __slots__ = ("leaf", "guard", "locs", "preds")

    def __init__(self, leaf, guard, locs):
        self.leaf = leaf
        self.guard = guard
        self.locs = locs
        self.preds = []


class Summary:
    def __init__(self):
        self.outcome = None
        self.attrs = {}
        self.params = {}
        self.events = ()
        self.objs = ()
        self.defaults = ()
        self.flags = set()
        self.augs = []
        self.array_params = set()
        self.defmap = {}


_uid = itertools.count()


def fresh():
    return raw("fresh", next(_uid))


class VG:
    def __init__(self, tree, known=None, deep=0, rename=None):
        self.tree = tree
        self.rename = rename or {}
        kn = known or (lambda q: True)
        self.known = lambda q: q in self.rename or kn(q)
        self.deep = deep
        self.stack = []
        self.raised = []
        self.exits = []
        self.withs = []
        self.flags = set()
        self.inlined = set()
        self._mr = {}
        self._locs = {}
        self.augs = {}
        self.acc_init = {}
        self._keep = []
        self.cur_fr = None
        self.top_init = False
        self.tries, self.sites = {}, []
        self.defmap = {}
        self.raw_loops = False    # leave loops as folds, see Engine._loops

    # ----------------------------------------------------------------- API
    def summarize(self, f):
        self.stack = [f.qual]
        self.exits = []
        self.raised = []
        self.withs = []
        self.flags = set()
        self.augs, self.acc_init, self._keep = {}, {}, []
        self.tries, self.sites = {}, []
        self.defmap = T.DEFAULTS = {}
        T.FLAGS.clear()
        global _uid
        _uid = itertools.count()   # numbering is local to a summary, so it is reproducible
        st = State()
        self.top_init = f.cls is not None and f.node.name == "__init__"
        fr = Frame(f, f.module, f.cls, None)
        self.bind_params(f, st, fr, top=True)
        out = self.body(f, st, fr)
        s = Summary()
        s.outcome = out
        objw = {}
        for (bid, name), (b, n, v) in st.heap.items():
            if v is T.attr(b, n):
                continue
            r = b
            while r.op in ("attr", "idx", "elem") and isinstance(r.args[0], T.Term):
                r = r.args[0]
            if (r.op == "sym" and r.args[0] in ("p", "k", "va", "kw")) or r.op == "glob":
                s.attrs[path_name(b) + "." + n] = v
            else:
                objw.setdefault(id(b), (b, []))[1].append((n, v))
        if objw:
            mp = {}
            used = set()
            for bid, (b, ws) in objw.items():   # in order of first write
                b2 = b
                if mp:
                    args = T.subst(raw("tmp", b), mp).args
                    b2 = args[0]
                mp[bid] = raw("obj", b2, tuple(n for n, _ in sorted(ws, key=lambda x: x[0])),
                              tuple(T.subst(v, mp) for _, v in sorted(ws, key=lambda x: x[0])))
                used.add(bid)
            roots = [s.outcome] + list(s.attrs.values()) + [v[1] for v in st.pmut.values()]
            reach = set()
            for t in roots:
                for x in T.subterms(t):
                    if id(x) in used:
                        reach.add(id(x))
            s.outcome = T.subst(s.outcome, mp)
            s.attrs = {k: T.subst(v, mp) for k, v in s.attrs.items()}
            st.pmut = {k: (o, T.subst(v, mp)) for k, (o, v) in st.pmut.items()}
            rest = [raw("w", mp[bid]) for bid in objw if bid not in reach]
            s.objs = tuple(sorted(rest, key=lambda t: t.dig))
        s.outcome = T.contextual(s.outcome)
        s.attrs = {k: T.contextual(v) for k, v in s.attrs.items()}
        for k, v in st.pmut.items():
            s.params[k] = T.contextual(v[1])
        s.events = self.canon_events(st.events)
        s.defaults = self.defaults(f, st, fr)
        s.defmap = dict(self.defmap)
        s.flags = set(self.flags) | set(T.FLAGS)
        s.inlined = set(self.inlined)
        s.array_params = array_params(f)
        s.augs = [t for t in self.augs.values() if not (t.op == "attr" and len(t.args) == 2 and path_name(t) in s.attrs)]
        return s

    def expression(self, node, module):
        """the value of an expression at module or class level."""
        self.stack, self.exits, self.raised, self.withs, self.flags = ["<module>"], [], [], [], set()
        T.FLAGS.clear()
        global _uid
        _uid = itertools.count()
        return self.ev(node, State(), Frame(None, module, None, None))

    def defaults(self, f, st, fr):
        out = []
        st0 = State()
        for i, n in enumerate(f.pos):
            if n in f.defaults:
                out.append((i, self.ev(f.defaults[n], st0, fr)))
        for n in f.kwonly:
            if n in f.defaults:
                out.append((n, self.ev(f.defaults[n], st0, fr)))
        return tuple(out)

    def bind_params(self, f, st, fr, top):
        extra = getattr(self, "extra_params", 0)
        for i, n in enumerate(f.pos):
            st.env[n] = sym("p", i)
        for n in f.kwonly:
            st.env[n] = sym("k", n)
        if f.vararg:
            st.env[f.vararg] = sym("va")
        if f.kwarg:
            st.env[f.kwarg] = sym("kw")
        for n, v in st.env.items():
            if v.op == "sym" and v.args[0] in ("p", "k"):
                st.origin[n] = ("p", v.args[1])
        keep = getattr(self, "arity", None)
        if keep is not None:  # parameters added with defaults: old callers see the default
            for i, n in enumerate(f.pos):
                if i >= keep[0] and n in f.defaults:
                    st.env[n] = self.ev(f.defaults[n], State(), fr)
            for n in f.kwonly:
                if n not in keep[1] and n in f.defaults:
                    st.env[n] = self.ev(f.defaults[n], State(), fr)
        if f.cls is not None and not f.is_static and f.pos:
            fr.selfterm = st.env[f.pos[0]]

    def body(self, f, st, fr):
        node = f.node
        gen = f.is_generator() if isinstance(f, Func) else False
        if gen:
            st.env["$yield"] = raw("list")
        saved, self.exits = self.exits, []
        o = self.run(node.body, st, fr)
        self.join_exits(self.exits, st)
        self.exits = saved
        if gen:
            y = st.env["$yield"]
            return map_leaves(o, lambda l: raw("ret", raw("gen", y)) if l is FALL or l.op == "ret" else l)
        o = map_leaves(o, lambda l: raw("ret", NONE) if l is FALL else l)
        return o

    # ------------------------------------------------------------- events
    def add_event(self, st, leaf, locs):
        if self.cur_fr is not None:
            leaf = self.materialize(leaf, st, self.cur_fr)
        for ctx in reversed(self.withs):
            leaf = map_leaves(leaf, lambda l, c=ctx: raw("under", c, l))
        d = ite(st.pc, leaf, NOEV)
        for l, g in leaf_guards(d):
            if l is NOEV:
                continue
            # merge with an equal, exclusive earlier event with no conflict between
            merged = False
            for e in reversed(st.events):
                if e.leaf is l and b_and(e.guard, g) is FALSE:
                    e.guard = b_or(e.guard, g)
                    merged = True
                    break
                if conflict(e.locs, locs) and b_and(e.guard, g) is not FALSE:
                    break
            if not merged:
                st.events.append(Event(l, g, locs))

    def canon_events(self, events):
        out = []
        events = [Event(T.assume(e.leaf, e.guard), e.guard, e.locs) for e in events]
        for i, e in enumerate(events):
            preds = []
            for p in events[:i]:
                if conflict(p.locs, e.locs) and b_and(p.guard, e.guard) is not FALSE:
                    preds.append(raw("pr", p.leaf, p.guard))
            preds.sort(key=lambda t: t.dig)
            out.append(raw("event", e.leaf, e.guard, tuple(preds)))
        out.sort(key=lambda t: t.dig)
        return tuple(out)

    def locs_of(self, t):
        """location path strings touched when t is handed to a call."""
        out = set()

        def path(x):
            if x.op == "sym" and x.args[0] in ("p", "k", "va", "kw"):
                return ("/%s" % (x.args[-1],),)
            if x.op == "attr":
                b = path(x.args[0])
                return b + (x.args[1],) if b else None
            if x.op in ("idx", "elem", "ver"):
                return path(x.args[0])
            if x.op in ("acc",):
                return ("acc%s" % x.args[0],)
            if x.op == "call" and x.args[0].op != "glob":
                return None
            if x.op == "ctx":
                return ("ctx", x.dig.hex()[:8])
            return None

        def go(x, d):
            p = path(x)
            if p:
                out.add(p)
                return
            if d > 4:
                return
            if x.op in ("tuple", "list", "dict", "ite", "star", "call", "store"):
                for c in T.children(x):
                    go(c, d + 1)

        go(t, 0)
        return out

    # ---------------------------------------------------------- statements
    def run(self, stmts, st, fr):
        out = FALL
        pc0 = st.pc
        for s in stmts:
            fr.state = st
            self.cur_fr = fr
            save = self.raised
            self.raised = []
            o = self.stmt(s, st, fr)
            for g, l in reversed(self.raised):
                o = ite(g, l, o)
            self.raised = save
            if o is not FALL:
                out = map_leaves(out, lambda l, o=o: o if l is FALL else l)
                fall = map_leaves(out, lambda l: TRUE if l is FALL else FALSE)
                st.pc = b_and(pc0, fall)
                if fall is FALSE:
                    break
        return out

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.flags.add("stmt:" + type(s).__name__)
            self.add_event(st, raw("opaque", ast.dump(s)), {("*",)})
            return FALL
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return FALL

    def s_Expr(self, s, st, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return FALL
        if isinstance(v, ast.Call):
            self.call(v, st, fr, stmt=True)
            return FALL
        self.ev(v, st, fr)
        return FALL

    def s_Import(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = glob(a.name if a.asname else a.name.split(".")[0])
        return FALL

    def s_ImportFrom(self, s, st, fr):
        m = fr.module._abs(s)
        for a in s.names:
            st.env[a.asname or a.name] = self.canon_glob(m + "." + a.name)
        return FALL

    def join_exits(self, exits, st):
        """fold the states at early returns into the final state."""
        for g, heap, pmut, ver, _, _ in reversed(exits):
            if g is FALSE:
                continue
            hk = {}
            for k in set(heap) | set(st.heap):
                b, n = (heap.get(k) or st.heap.get(k))[:2]
                v1 = heap[k][2] if k in heap else T.attr(b, n)
                v2 = st.heap[k][2] if k in st.heap else T.attr(b, n)
                hk[k] = (b, n, v1 if v1 is v2 else ite(g, v1, v2))
            st.heap = hk
            pm = {}
            for k in set(pmut) | set(st.pmut):
                o = (pmut.get(k) or st.pmut.get(k))[0]
                v1 = pmut[k][1] if k in pmut else o
                v2 = st.pmut[k][1] if k in st.pmut else o
                pm[k] = (o, v1 if v1 is v2 else ite(g, v1, v2))
            st.pmut = pm
            vr = {}
            for k in set(ver) | set(st.ver):
                b = (ver.get(k) or st.ver.get(k))[0]
                v1 = ver[k][1] if k in ver else NONE
                v2 = st.ver[k][1] if k in st.ver else NONE
                vr[k] = (b, v1 if v1 is v2 else ite(g, v1, v2))
            st.ver = vr

    def s_Return(self, s, st, fr):
        r = self._return(s, st, fr)
        self.note_exit(st, TRUE)
        return r

    def note_exit(self, st, g):
        """the function may be left here, under g, with the state as it is now."""
        self.exits.append((b_and(st.pc, g), dict(st.heap), dict(st.pmut), dict(st.ver), False, dict(st.env)))

    def _return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        v = self.materialize(v, st, fr)
        return map_leaves(v, lambda l: raw("ret", l))

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            self.note_raise(st, TRUE)
            return raw("raise", sym("$reraise"))
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        r = map_leaves(self.ev(e, st, fr), lambda l: raw("raise", l))
        self.note_raise(st, TRUE)
        return r

    def note_raise(self, st, g):
        heap = dict(st.heap)
        if self.top_init:   # the half-built object is discarded
            for k, (b, n, v) in st.heap.items():
                if b.op == "sym" and b.args == ("p", 0):
                    del heap[k]
        self.exits.append((b_and(st.pc, g), heap, dict(st.pmut), dict(st.ver), True, None))

    def s_Assert(self, s, st, fr):
        c = truth(self.ev(s.test, st, fr))
        if c is not TRUE:
            self.note_raise(st, b_not(c))
        return ite(c, FALL, raw("raise", glob("AssertionError")))

    def s_Break(self, s, st, fr):
        fr.brk.append((st.pc, st.clone()))
        return BRK

    def s_Continue(self, s, st, fr):
        fr.cont.append((st.pc, st.clone()))
        return CONT

    def s_Global(self, s, st, fr):
        fr.globals |= set(s.names)
        return FALL

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)
        return FALL

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                self.assign_into(t.value, lift(lambda b, k: raw("delkey", b, k), (b, k)), st, fr, mutate=b)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                self.ev(t.value, st, fr)
                self.assign(t, raw("sym", "$deleted"), st, fr)
        return FALL

    def s_FunctionDef(self, s, st, fr):
        f = Func((fr.func.qual if fr.func else "?") + ".<locals>." + s.name, s, fr.module, cls=None)
        f.lex = (st, fr)
        self.locals_ = getattr(self, "locals_", {})
        k = len(self.locals_)
        st.env[s.name] = raw("localfunc", fr.func.qual if fr.func else "?", s.name, k)
        self.locals_[k] = f
        return FALL

    def s_ClassDef(self, s, st, fr):
        items = []
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                f = Func((fr.func.qual if fr.func else "?") + ".<locals>." + s.name + "." + x.name, x, fr.module, cls=None)
                f.lex = (st, fr)
                items.append((x.name, self.closure(f, st, fr)))
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                items.append((x.targets[0].id, self.ev(x.value, st, fr)))
            elif isinstance(x, ast.Pass) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                continue
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                items.append((x.target.id, self.ev(x.value, st, fr) if x.value is not None else NONE))
            else:
                items.append(("?", raw("opaque", ast.dump(x))))
        items.sort(key=lambda x: x[0])
        bases = [self.ev(b, st, fr) for b in s.bases]
        st.env[s.name] = raw("localclass", tuple(n for n, _ in items), tuple(bases), tuple(v for _, v in items))
        return FALL

    def s_Assign(self, s, st, fr):
        if isinstance(s.value, ast.Call) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and fr.func is not None \
                and s.targets[0].id not in fr.globals | fr.nonlocals and s.targets[0].id not in _used_names(fr.func.node):
            # the value is never used: the call is made for its effect
            self.call(s.value, st, fr, stmt=True)
            return FALL
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, src=s.value)
        return FALL

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr, src=s.value)
        return FALL

    def s_AugAssign(self, s, st, fr):
        cur = self.ev(_load(s.target), st, fr)
        v = self.ev(s.value, st, fr)
        n = self.binop(s.op, cur, v)
        if isinstance(s.target, ast.Name) and s.target.id in getattr(fr, "ltargets", ()) and cur.op in ("idx", "elem"):
            # elements of the iterated container are updated in place
            leaf = lift(lambda a, b: raw("call", raw("method", "$i" + type(s.op).__name__), (a, b), ()), (cur, v))
            self.add_event(st, leaf, self.locs_of(cur) or {("?", cur.dig.hex()[:8])})
        elif isinstance(s.target, ast.Name):
            self.in_place(cur, fr, s.target.id)
        self.assign(s.target, n, st, fr)
        return FALL

    def in_place(self, v, fr=None, name=None):
        """v may be changed in place: note the caller-visible objects it may be."""
        if fr is not None and fr.func is not None and name is not None and _scalar_param(fr.func, name):
            return
        for r in self.alias_roots(v):
            self.augs[id(r)] = r

    def alias_roots(self, v, d=0):
        out = []
        if d > 8:
            return out
        if v.op == "ite":
            for l, _ in leaf_guards(v):
                out += self.alias_roots(l, d + 1)
        elif v.op == "acc":
            i = self.acc_init.get(id(v))
            if i is not None:
                out += self.alias_roots(i, d + 1)
        elif v.op == "sym" and v.args[0] in ("p", "k"):
            out.append(v)
        elif v.op in ("attr", "idx", "elem") and isinstance(v.args[0], T.Term):
            b = v
            while b.op in ("attr", "idx", "elem") and isinstance(b.args[0], T.Term):
                b = b.args[0]
            if b.op == "sym" or (b.op == "call" and not is_fresh(b)):
                out.append(v)
            elif b is not v and b.op in ("call", "ite", "acc"):
                out += self.alias_roots(b, d + 1)
        elif v.op == "call" and T.gname(v.args[0]) in VIEWS and v.args[1]:
            out += self.alias_roots(v.args[1][0], d + 1)
        return out

    def s_If(self, s, st, fr):
        c = truth(self.ev(s.test, st, fr))
        if c is TRUE:
            return self.run_seq(s.body, st, fr)
        if c is FALSE:
            return self.run_seq(s.orelse, st, fr)
        s1, s2 = st.clone(), st.clone()
        pc0 = st.pc
        s1.pc = b_and(pc0, c)
        s2.pc = b_and(pc0, b_not(c))
        o1 = self.run(s.body, s1, fr)
        o2 = self.run(s.orelse, s2, fr)
        self.merge(c, st, s1, s2, o1, o2)
        st.pc = pc0
        return ite(c, o1, o2)

    def run_seq(self, body, st, fr):
        pc0 = st.pc
        o = self.run(body, st, fr)
        st.pc = pc0
        return o

    def merge(self, c, st, s1, s2, o1, o2):
        f1 = any(l is FALL for l, _ in leaf_guards(o1))
        f2 = any(l is FALL for l, _ in leaf_guards(o2))
        if not f1:
            st.take(s2)
            return
        if not f2:
            st.take(s1)
            return
        st.env = self.merge_map(c, s1.env, s2.env)
        hk = {}
        for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
            b, n, _ = (s1.heap.get(k) or s2.heap.get(k))
            v1 = s1.heap[k][2] if k in s1.heap else T.attr(b, n)
            v2 = s2.heap[k][2] if k in s2.heap else T.attr(b, n)
            hk[k] = (b, n, ite(c, v1, v2))
        st.heap = hk
        pm = {}
        for k in set(s1.pmut) | set(s2.pmut):
            o = (s1.pmut.get(k) or s2.pmut.get(k))[0]
            v1 = s1.pmut[k][1] if k in s1.pmut else o
            v2 = s2.pmut[k][1] if k in s2.pmut else o
            pm[k] = (o, ite(c, v1, v2))
        st.pmut = pm
        vr = {}
        for k in set(s1.ver) | set(s2.ver):
            b = (s1.ver.get(k) or s2.ver.get(k))[0]
            v1 = s1.ver[k][1] if k in s1.ver else NONE
            v2 = s2.ver[k][1] if k in s2.ver else NONE
            vr[k] = (b, v1 if v1 is v2 else ite(c, v1, v2))
        st.ver = vr
        st.alias = s1.alias
        st.origin = {k: v for k, v in s1.origin.items() if s2.origin.get(k) == v}
        st.slot = {k: v for k, v in s1.slot.items() if s2.slot.get(k) is v}
        k1, k2 = {(n, id(t)) for n, t in s1.mods}, {(n, id(t)) for n, t in s2.mods}
        st.mods = tuple((n, t if (n, id(t)) in k2 else ite(c, t, NONE)) for n, t in s1.mods) \
            + tuple((n, ite(c, NONE, t)) for n, t in s2.mods if (n, id(t)) not in k1)

    def merge_map(self, c, a, b):
        if a == b:
            return a
        out = {}
        for k in a:
            if k in b:
                out[k] = a[k] if a[k] is b[k] else ite(c, a[k], b[k])
            else:
                out[k] = ite(c, a[k], UNDEF)
        for k in b:
            if k not in a:
                out[k] = ite(c, UNDEF, b[k])
        return out

    def s_Try(self, s, st, fr):
        pc0 = st.pc
        tries = self.tries
        k = tries.setdefault((id(s), tuple(self.sites)), len(tries))   # which try this is, in the order they are met
        if not s.handlers:
            o = self.run(s.body, st, fr)
            st.pc = pc0
            return self.then_final(o, s.finalbody, st, fr, pc0)
        sb = st.clone()
        n0 = len(self.exits)
        ob = self.run(s.body + s.orelse, sb, fr)
        res, out = sb, ob
        n1 = len(self.exits)
        for h in reversed(s.handlers):
            ty = self.ev(h.type, st, fr) if h.type is not None else glob("BaseException")
            c = T.atom_bool(raw("exc", ty, k))
            for i in range(n0, n1):
                self.exits[i] = (b_and(self.exits[i][0], b_not(c)),) + self.exits[i][1:]
            n1 = len(self.exits)
            sh = st.clone()
            sh.pc = b_and(pc0, c)
            if h.name:
                sh.env[h.name] = raw("caught", ty)
            oh = self.run(h.body, sh, fr)
            m = st.clone()
            self.merge(c, m, sh, res, oh, out)
            out = ite(c, oh, out)
            res = m
        st.take(res)
        st.pc = pc0
        return self.then_final(out, s.finalbody, st, fr, pc0)

    s_TryStar = s_Try

    def then_final(self, o, fin, st, fr, pc0):
        if not fin:
            return o
        f = self.run(fin, st, fr)
        st.pc = pc0
        if f is FALL:
            return o
        return map_leaves(f, lambda l: o if l is FALL else l)

    def s_With(self, s, st, fr):
        n = 0
        pre, pc0 = TRUE, st.pc
        for it in s.items:
            c = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, map_leaves(c, lambda l: raw("ctx", l)), st, fr)
            if c.op == "call" and T.gname(c.args[0]) == "concurrent.futures.ThreadPoolExecutor":
                w = dict(c.args[2]).get("max_workers", c.args[1][0] if c.args[1] else None)
                if w is not None and w.op == "call" and T.gname(w.args[0]) == "len":
                    pre = b_and(pre, truth(w))      # a pool of no threads is refused
                    st.pc = b_and(st.pc, pre)
            else:
                self.withs.append(c)
                n += 1
        o = self.run_seq(s.body, st, fr)
        for _ in range(n):
            self.withs.pop()
        if pre is not TRUE:
            st.pc = pc0
            return ite(pre, o, raw("raise", glob("ValueError")))
        return o

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        fr.ltargets = getattr(fr, "ltargets", set()) | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        lit = self.literal_iter(it)
        if lit is not None and not _has_break(s.body):
            out = FALL
            pc0 = st.pc
            for i, x in enumerate(lit):
                self.bind_turn(s.target, x, _turn_src(s.iter, i), s.body, st, fr)
                o, st2 = self.loop_body(self.with_writeback(s, x, num(i)), st, fr)
                o = map_leaves(o, lambda l: FALL if l is CONT else l)
                st.take(st2)
                out = map_leaves(out, lambda l, o=o: o if l is FALL else l)
                fall = map_leaves(out, lambda l: TRUE if l is FALL else FALSE)
                st.pc = b_and(pc0, fall)
                if fall is FALSE:
                    break
            if s.orelse:
                o = self.run_seq(s.orelse, st, fr)
                out = map_leaves(out, lambda l, o=o: o if l is FALL else l)
            st.pc = pc0
            return out
        some = or_empty(it)
        if some is not None:            # nothing to go over in one of the cases
            loop = ast.copy_location(ast.For(target=s.target, iter=TermExpr(some[1]), body=s.body, orelse=s.orelse), s)
            return self.s_If(ast.copy_location(ast.If(test=TermExpr(some[0]), body=[loop], orelse=s.orelse), s), st, fr)
        some = a_literal(it)
        if some is not None:            # a list known by its elements in one of the cases
            loops = [ast.copy_location(ast.For(target=s.target, iter=TermExpr(x), body=s.body, orelse=s.orelse), s) for x in some[1:]]
            return self.s_If(ast.copy_location(ast.If(test=TermExpr(some[0]), body=loops[:1], orelse=loops[1:]), s), st, fr)
        fv = fresh()
        if it.op == "map" and it.args[1] is not TRUE and isinstance(s.target, (ast.Name, ast.Tuple)):
            # for x in [y for y in Y if c]: the turns for which c does not hold do nothing
            mp = {id(it.args[3]): fv}
            ext, elem, c = tuple(T.subst(x, mp) for x in it.args[0]), T.subst(it.args[2], mp), T.subst(it.args[1], mp)
            body = [ast.copy_location(ast.If(test=TermExpr(c), body=s.body, orelse=[]), s)]
            return self.loop(ext, fv, body, st, fr, bind=lambda q: self.assign(s.target, elem, q, fr),
                             orelse=s.orelse, target=s.target)
        ext, elem = self.iter_spec(it, fv)
        return self.loop(ext, fv, self.with_writeback(s, elem, fv), st, fr, bind=lambda q: self.assign(s.target, elem, q, fr),
                         orelse=s.orelse, target=s.target)

    def bind_turn(self, t, x, src, body, st, fr):
        """bind the target of one turn of a loop over a literal; a variable listed there is the same object."""
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(src, (ast.Tuple, ast.List)) and len(t.elts) == len(src.elts) \
                and not any(isinstance(e, ast.Starred) for e in t.elts + src.elts):
            for k, (a, b) in enumerate(zip(t.elts, src.elts)):
                self.bind_turn(a, T.idx(x, num(k)), b, body, st, fr)
        elif isinstance(t, ast.Name) and isinstance(src, ast.Name) and src.id in st.env and src.id != t.id \
                and not any(_rebinds(b, src.id) for b in body):
            self.assign(t, st.env[src.id], st, fr, src=src)
        else:
            self.assign(t, x, st, fr)

    def with_writeback(self, s, elem, index):
        """a loop that changes its (locally built) elements in place changes the container it runs over."""
        def conts(e, t):
            if isinstance(t, ast.Name) and isinstance(e, (ast.Name, ast.Attribute)):
                yield e, t.id, ()
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and isinstance(t, ast.Tuple):
                if e.func.id == "enumerate" and len(t.elts) == 2 and e.args:
                    for a, b, p in conts(e.args[0], t.elts[1]):
                        yield a, b, (1,) + p
                elif e.func.id == "zip" and len(t.elts) == len(e.args):
                    for k, (a, b) in enumerate(zip(e.args, t.elts)):
                        for a, b, p in conts(a, b):
                            yield a, b, (k,) + p
        post = []
        for e, name, path in conts(s.iter, s.target):
            v = elem
            for k in path:
                v = T.idx(v, num(k))
            if not is_fresh(v) or name not in _mutated_in(s.body) or any(_rebinds(x, name) for x in s.body):
                continue
            if any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
                self.flags.add("stmt:element-writeback")
                continue
            sub = ast.Subscript(value=e, slice=TermExpr(index), ctx=ast.Store())
            post.append(ast.Assign(targets=[sub], value=ast.Name(id=name, ctx=ast.Load()), lineno=s.lineno))
        return list(s.body) + post if post else s.body

    def e_TermExpr(self, e, st, fr):
        return e.term

    def loop_body(self, body, st, fr):
        """run a loop body on a clone; returns outcome and the joined end state."""
        sb, sc = getattr(fr, "brk", None), getattr(fr, "cont", None)
        fr.brk, fr.cont = [], []
        q = st.clone()
        o = self.run(body, q, fr)
        q.pc = st.pc
        for g, cs in fr.cont + fr.brk:
            # guard relative to the loop body
            r = State()
            self.merge(g, r, cs, q, FALL, FALL)
            r.pc, r.events = st.pc, q.events
            q = r
        fr.brk, fr.cont = sb, sc
        return o, q

    def s_While(self, s, st, fr):
        if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse:
            b = [x for x in s.body if not isinstance(x, ast.Pass)]
            if len(b) > 1 and isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1 \
                    and isinstance(b[0].body[0], ast.Break):   # while True: if c: break  ->  while not c
                t = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=b[0].test), b[0].test)
                s = ast.copy_location(ast.While(test=t, body=b[1:], orelse=[]), s)
        s = self.until(s, st, fr)
        n = self.literal_while(s, st, fr)
        if n is not None:
            out = FALL
            pc0 = st.pc
            for _ in range(n):
                o, st2 = self.loop_body(s.body, st, fr)
                st.take(st2)
                out = map_leaves(out, lambda l, o=o: o if l is FALL else l)
                fall = map_leaves(out, lambda l: TRUE if l is FALL else FALSE)
                st.pc = b_and(pc0, fall)
                if fall is FALSE:
                    break
            st.pc = pc0
            return out
        fv = fresh()
        return self.loop(None, fv, s.body, st, fr, bind=lambda q: None, orelse=s.orelse, test=s.test)

    def until(self, s, st, fr):
        """a loop run until what its turn found out: `while not step(): pass`, `while not done: ...; done = c`."""
        if s.orelse:
            return s
        stop = None
        t = s.test
        yes = ast.copy_location(ast.Constant(value=True), t)
        if all(isinstance(x, ast.Pass) for x in s.body):
            stop, body = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=t), t), []
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                stop = t.operand
            if not any(isinstance(x, ast.Call) for x in ast.walk(t)):
                return s
        else:
            neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)
            v = t.operand if neg else t
            last = s.body[-1]
            if not isinstance(v, ast.Name) or fr.func is None or v.id not in st.env or len(s.body) < 2 \
                    or not (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name)
                            and last.targets[0].id == v.id):
                return s
            if truth(st.env[v.id]) is not (FALSE if neg else TRUE):
                return s
            if any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
                return s
            uses = [x for x in ast.walk(fr.func.node) if isinstance(x, ast.Name) and x.id == v.id]
            inside = [x for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == v.id]
            if len(inside) != 2 or sum(isinstance(x.ctx, ast.Load) for x in uses) != 1:
                return s
            stop = last.value if neg else ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=last.value), last)
            body = s.body[:-1]
        end = ast.copy_location(ast.If(test=stop, body=[ast.copy_location(ast.Break(), t)], orelse=[]), s)
        return ast.copy_location(ast.While(test=yes, body=body + [end], orelse=[]), s)

    def literal_while(self, s, st, fr):
        """i = 0; while i < 3: ...; i += 1  -> the number of turns."""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)):
            return None
        last = s.body[-1]
        inc = None
        if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name):
            inc = (last.target.id, last.value)
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) \
                and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) \
                and last.value.left.id == last.targets[0].id:
            inc = (last.targets[0].id, last.value.right)
        if inc is None or inc[0] != t.left.id or not (isinstance(inc[1], ast.Constant) and inc[1].value == 1):
            return None
        b = t.comparators[0]
        if any(_rebinds(x, t.left.id) for x in s.body[:-1]) or any(isinstance(x, (ast.Break, ast.Continue)) for y in s.body for x in ast.walk(y)):
            return None
        if isinstance(b, ast.Name) and any(_rebinds(x, b.id) for x in s.body):
            return None
        if not isinstance(b, (ast.Name, ast.Constant)):
            return None
        lo, hi = self.ev(t.left, st, fr), self.ev(b, st, fr)
        lo, hi = T.intval(lo), T.intval(hi)
        if lo is None or hi is None or not hi - lo <= 12:
            return None
        return max(0, hi - lo)

    def loop(self, ext, fv, body, st, fr, bind, orelse=(), test=None, target=None):
        carried = set()   # names
        rebound = set()   # names that stop denoting the object they denoted before the loop
        hcar = set()      # heap keys
        pcar = set()
        tnames = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)} if target is not None else set()
        pc0 = st.pc
        for _ in range(8):
            q = st.clone()
            q.pc = TRUE
            q.events = []
            accs = {}
            origin0 = {v: l for v, l in st.origin.items() if v not in rebound}
            q.origin = dict(origin0)
            groups = {}
            for v in sorted(carried):
                loc = origin0.get(v)
                ck = ("h", loc[1]) if loc and loc[0] == "h" else (("p", loc[1]) if loc else ("v", v))
                grp = st.alias.get(v)
                if not loc and grp and not grp & rebound and grp <= carried:
                    ck = ("v", min(grp))    # one object, several names
                groups.setdefault(ck, []).append(v)
            for k in hcar:
                groups.setdefault(("h", k), [])
            for k in pcar:
                groups.setdefault(("p", k), [])
            for ck, vs in groups.items():
                init = self.loc_value(ck, st)
                a = raw("acc", next(_uid), "seq" if T.is_seq(init) else "x")
                accs[ck] = a
                self.acc_init[id(a)] = init
                self._keep.append(a)
                for v, l in origin0.items():
                    if (ck[0] == l[0] and ck[1] == l[1]) and v in q.env:
                        q.env[v] = a
                for v in vs:
                    q.env[v] = a
                if init.op in ("attr", "sym"):
                    for v, x in q.env.items():
                        if x.op in ("tuple", "list", "dict") and _holds(x, init):
                            q.env[v] = T.subst(x, {id(init): a})
                if ck[0] == "h":
                    b, n = self._locs[ck[1]]
                    q.heap[ck[1]] = (b, n, a)
                elif ck[0] == "p":
                    q.pmut[ck[1]] = (sym("p" if isinstance(ck[1], int) else "k", ck[1]), a)
            begin_env = dict(q.env)
            begin_heap = dict(q.heap)
            begin_pm = dict(q.pmut)
            saved_raised, self.raised = self.raised, []
            cond = truth(self.ev(test, q, fr)) if test is not None else TRUE
            bind(q)
            q.pc = TRUE
            saved_exits, self.exits = self.exits, []
            undef0, fr.undef = fr.undef, set()
            o, q2 = self.loop_body(body, q, fr)
            # a variable one iteration hands to the next without being set before the loop
            hot = {v for v in fr.undef if v in q2.env and v not in st.env}
            fr.undef = undef0 | fr.undef
            self.exits = saved_exits
            # objects that belong to one iteration are written, not carried
            elemw = [(k, t) for k, t in q2.heap.items()
                     if k not in hcar and (T.occurs(t[0], fv) or any(x.op == "acc" for x in T.subterms(t[0])))
                     and t[2] is not (begin_heap[k][2] if k in begin_heap else T.attr(*t[:2]))]
            for k, _ in elemw:
                del q2.heap[k]
            for g, l in reversed(self.raised):
                o = ite(g, l, o)
            self.raised = saved_raised
            new = {v for v in begin_env if v in q2.env and q2.env[v] is not begin_env[v]
                   and v not in tnames and v in st.env} - carried
            newh = {k for k in q2.heap if (q2.heap[k][2] is not (begin_heap[k][2] if k in begin_heap
                                           else T.attr(*q2.heap[k][:2])))} - hcar
            newp = {k for k in q2.pmut if k not in begin_pm or q2.pmut[k][1] is not begin_pm[k][1]} - pcar
            newr = {v for v in (carried | new) if v in origin0 and q2.origin.get(v) != origin0[v]} - rebound
            newr |= {v for v in carried if len(st.alias.get(v, ())) > 1 and q2.alias.get(v) != st.alias[v]} - rebound
            for v in hot:
                st.env[v] = UNDEF
            new |= hot
            if not (new or newh or newp or newr):
                break
            rebound |= newr
            for k in newh:
                self._locs[k] = q2.heap[k][:2]
            carried |= new
            hcar |= newh
            pcar |= newp
        else:
            self.flags.add("loop-fixpoint")
        for _, (b, n, v) in sorted(elemw, key=lambda kt: (kt[1][1], kt[1][0].dig)):
            self.add_event(q2, lift(lambda b, v, n=n: raw("w", b, n, v), (b, v)), self.locs_of(b) or {("?", b.dig.hex()[:8])})
        # ---- counting while loop -> range
        if test is not None:
            r = self.count_while(cond, accs, st, q2, o)
            if r is not None:
                (ckey, acc, lo, hi) = r
                n = T.sub(hi, lo)
                c = len_of(n)
                ext = (c,) if c is not None else (raw("rng", n),)
                mp = {id(acc): T.add(lo, fv)}
                o = T.subst(o, mp)
                q2 = self.subst_state(q2, mp)
                ev = [Event(T.subst(e.leaf, mp), T.subst(e.guard, mp), e.locs) for e in q2.events]
                q2.events = ev
                del accs[ckey]
                if map_leaves(o, lambda l: TRUE if l is BRK else FALSE) is not FALSE:
                    st.env[ckey[1]] = self.close(lambda e, x, bv: raw("last", e, x, bv), ext, T.add(lo, fv), fv)
                else:
                    st.env[ckey[1]] = lift(lambda a, b: raw("call", glob("max"), (a, b), ()), (lo, hi)) \
                        if not self._pos(lo, hi) else hi
                carried.discard(ckey[1])
                cond = TRUE
            else:
                ext = (raw("whilecond", cond),)
        # ---- close
        inits, outs = {}, {}
        for key, a in accs.items():
            inits[key] = self.loc_value(key, st)
            outs[key] = self.loc_value(key, q2)
        brk = map_leaves(o, lambda l: TRUE if l is BRK else FALSE)
        exits = map_leaves(o, lambda l: l if l.op in ("ret", "raise") else FALL)
        exitc = map_leaves(exits, lambda l: FALSE if l is FALL else TRUE)
        closed = self.close_accs(ext, fv, accs, inits, outs, brk, exitc)
        accmap = {id(a): raw("during", closed[key]) if closed[key].op == "fold" else raw("during", closed[key])
                  for key, a in accs.items()}
        # new locals defined by the loop
        for v, val in q2.env.items():
            if v in carried:
                continue
            if v not in st.env or (v in tnames and st.env.get(v) is not val):
                if v.startswith("$"):
                    continue
                vv = T.subst(val, accmap)
                st.env[v] = self.close(lambda e, x, bv: raw("last", e, x, bv), ext, vv, fv)
        for k in rebound:
            st.origin.pop(k, None)
        for key, val in closed.items():
            kind, k = key
            init = inits[key]
            if init.op in ("attr", "sym"):
                for v, x in st.env.items():
                    if x.op in ("tuple", "list", "dict") and _holds(x, init):
                        st.env[v] = T.subst(x, {id(init): val})
            if kind == "v":
                for n in groups.get(key) or (k,):
                    st.env[n] = val
            else:
                self.set_loc(key, val, st)
        self.carry(st, q2, ext, fv, accmap)
        # ---- events
        if q2.events:
            evs = self.canon_events(q2.events)
            evs = tuple(T.subst(e, accmap) for e in evs)
            locs = set()
            for e in q2.events:
                locs |= e.locs
            h = fv
            bv = raw("bv", 1 + max([e.bh for e in evs] + [T._bh(ext)]))
            mp = {id(h): bv}
            evs = tuple(sorted((T.subst(e, mp) for e in evs), key=lambda t: t.dig))
            ext2 = tuple(T.subst(T.subst(e, accmap), mp) for e in ext)
            self.add_event(st, raw("loopev", ext2, evs, T.subst(T.subst(brk, accmap), mp), bv), locs)
        # ---- outcome
        out = FALL
        if exitc is not FALSE:
            exits = T.subst(exits, accmap)
            exitc = T.subst(exitc, accmap)
            leaves = [l for l, _ in leaf_guards(exits) if l is not FALL]
            bv = raw("bv", 1 + max(exits.bh, exitc.bh, T._bh(ext)))
            mp = {id(fv): bv}
            E = T.exists(tuple(T.subst(T.subst(e, accmap), mp) for e in ext), bv, T.subst(exitc, mp))
            if len(leaves) == 1 and not T.occurs(leaves[0], fv) and not any(x.op == "during" for x in T.subterms(leaves[0])):
                leaf = leaves[0]
            elif all(l.op == "raise" for l in leaves):
                leaf = leaves[0] if len(leaves) == 1 else raw("raise", raw("first", T.subst(exits, mp)))
            else:
                leaf = raw("ret", raw("first", tuple(T.subst(T.subst(e, accmap), mp) for e in ext), T.subst(exits, mp), bv))
            out = ite(E, leaf, FALL)
            st.pc = pc0
            for l, g in leaf_guards(out):
                if l.op == "raise":
                    self.note_raise(st, g)
                elif l is not FALL:
                    self.note_exit(st, g)
        st.pc = pc0
        if orelse:
            bc = FALSE
            if brk is not FALSE:
                b2 = T.subst(brk, accmap)
                bv = raw("bv", 1 + max(b2.bh, T._bh(ext)))
                bc = T.exists(tuple(T.subst(e, {id(fv): bv}) for e in ext), bv, T.subst(b2, {id(fv): bv}))
            s1 = st.clone()
            s1.pc = b_and(pc0, b_not(bc))
            oe = self.run(orelse, s1, fr)
            s0 = st.clone()
            self.merge(bc, st, s0, s1, FALL, oe)
            st.pc = pc0
            out = map_leaves(out, lambda l: ite(bc, FALL, oe) if l is FALL else l)
        return out

    def carry(self, st, q2, ext, fv, accmap):
        """what the turns of a loop did to objects known only by their version."""
        nm = []
        for names, t in q2.mods:
            t = T.subst(t, accmap)
            if T.occurs(t, fv):
                t = self.close(lambda e, x, bv: raw("loopmod", e, x, bv), tuple(T.subst(e, accmap) for e in ext), t, fv)
            nm.append((names, t))
        st.mods = tuple(nm)
        for k, (b, v) in q2.ver.items():
            if k in st.ver and st.ver[k][1] is v:
                continue
            v = T.subst(v, accmap)
            b = T.subst(b, accmap)
            if T.occurs(b, fv) or b.op == "during":
                continue
            if T.occurs(v, fv):
                v = self.close(lambda e, x, bv: raw("last", e, x, bv), tuple(T.subst(e, accmap) for e in ext), v, fv)
            st.ver[id(b)] = (b, v)

    def loc_value(self, key, st):
        kind, k = key
        if kind == "v":
            return st.env.get(k, UNDEF)
        if kind == "h":
            if k in st.heap:
                return st.heap[k][2]
            return T.attr(*self._locs[k])
        if k in st.pmut:
            return st.pmut[k][1]
        return sym("p" if isinstance(k, int) else "k", k)

    def _pos(self, lo, hi):
        return lo is T.ZERO

    def count_while(self, cond, accs, st, q2, o):
        """recognise i=lo; while i<hi: ...; i+=1"""
        def bound(c, a):
            """hi, when c is a < hi for a possibly gated hi."""
            if c.op != "ite":
                return None
            if c.args[0].op == "lt0" and c.args[1] is TRUE and c.args[2] is FALSE and T.occurs(c.args[0], a):
                return T.sub(a, c.args[0].args[0])     # a - hi < 0
            g = next((x.args[0] for x in T.diagram_nodes(c) if not T.occurs(x.args[0], a)), None)
            if g is None:
                return None
            x, y = bound(T.restrict(c, g, True), a), bound(T.restrict(c, g, False), a)
            return ite(T.atom_bool(g), x, y) if x is not None and y is not None else None
        if cond.leaves > 4096:
            return None
        brk = map_leaves(o, lambda l: TRUE if l is BRK else FALSE)
        for key, a in accs.items():
            if key[0] != "v":
                continue
            fin = q2.env.get(key[1])
            if fin is not None and brk is not FALSE:   # a turn that breaks off does not count
                ls = [l for l, _ in leaf_guards(ite(brk, UNDEF, fin)) if l is not UNDEF]
                fin = ls[0] if len(ls) == 1 else None
            if fin is None or fin is not T.add(a, T.ONE):
                continue
            hi = bound(cond, a)
            if hi is None or any(T.occurs(hi, x) for x in accs.values()):
                continue
            return key, a, st.env[key[1]], hi
        return None

    def subst_state(self, q, mp):
        r = q.clone()
        r.env = {k: T.subst(v, mp) for k, v in q.env.items()}
        r.heap = {k: (b, n, T.subst(v, mp)) for k, (b, n, v) in q.heap.items()}
        r.pmut = {k: (o, T.subst(v, mp)) for k, (o, v) in q.pmut.items()}
        r.mods = tuple((n, T.subst(t, mp)) for n, t in q.mods)
        r.ver = {}
        for b, v in q.ver.values():
            b2 = T.subst(b, mp)
            r.ver[id(b2)] = (b2, T.subst(v, mp))
        return r

    def close(self, mk, ext, body, fv):
        bv = raw("bv", 1 + max(body.bh, T._bh(ext)))
        mp = {id(fv): bv}
        return mk(tuple(T.subst(e, mp) for e in ext), T.subst(body, mp), bv)

    def mkmap(self, ext, body, fv):
        """body: diagram whose NOELEM leaves are skipped iterations."""
        leaves = leaf_guards(body)
        cond = map_leaves(body, lambda l: FALSE if l is NOELEM else TRUE)
        if cond is FALSE:
            return raw("list")
        if cond is TRUE and len(ext) == 1 and body.op in ("num", "const") and ext[0].op != "whilecond":
            e = ext[0]
            n = e.args[0] if e.op == "rng" and len(e.args) == 1 else T.call(glob("len"), (e,), ()) if e.op != "rng" else None
            if n is not None:
                return T.rep(raw("list", body), n)
        if cond is TRUE and len(ext) == 1 and body.op == "elem" and body.args[0] is ext[0] and body.args[1] is fv:
            return T.call(glob("list"), (ext[0],), ())
        bv = raw("bv", 1 + max(body.bh, T._bh(ext)))
        mp = {id(fv): bv}
        return raw("map", tuple(T.subst(e, mp) for e in ext), T.subst(cond, mp), T.subst(body, mp), bv)

    def close_accs(self, ext, fv, accs, inits, outs, brk, exitc):
        res = {}
        general = []
        others = {k: a for k, a in accs.items()}
        ext, outs, brk = self.before_break(ext, accs, inits, outs, brk)
        outs, brk = self.own_slots(ext, fv, accs, inits, outs, brk)
        for key, a in accs.items():
            t, init = outs[key], inits[key]
            dep = {k for k, b in others.items() if T.occurs(t, b)}
            extdep = any(T.occurs(e, b) for e in ext for b in others.values())
            if t is a:
                res[key] = init
                continue
            if brk is FALSE and not extdep and not (dep - {key}) and not self.raw_loops:
                r = self.closed_form(ext, fv, a, t, init)
                if r is not None:
                    res[key] = r
                    continue
            if exitc is FALSE and not extdep and not self.raw_loops and not any(T.occurs(brk, b) for b in others.values()):
                r = self.flag_form(ext, fv, a, t, init, brk)
                if r is not None:
                    res[key] = r
                    continue
            general.append(key)
        if general:
            # replace accumulators that have closed forms by their running value
            run = {id(accs[k]): raw("running", v) for k, v in res.items() if outs[k] is not accs[k]}
            run.update({id(accs[k]): inits[k] for k in res if outs[k] is accs[k]})
            g_out = {k: T.subst(outs[k], run) for k in general}
            b2 = T.subst(brk, run)
            ext_r = tuple(T.subst(e, run) for e in ext)
            def blind(t, extra):
                mp = dict(extra)
                for x in T.subterms(t):
                    if x.op in ("fresh", "acc") and id(x) not in mp:
                        mp[id(x)] = raw("sym", "$ph")
                return T.subst(t, mp)
            color = {k: "" for k in general}
            seen = 0
            for _ in range(min(8, max(3, len(general))) if len(general) > 2 else 0):
                nc = {}
                for k in general:
                    ex = {id(accs[u]): raw("sym", "$c", color[u]) for u in general}
                    ex[id(accs[k])] = raw("sym", "$self")
                    ex[id(fv)] = raw("sym", "$i")
                    nc[k] = raw("h", blind(g_out[k], ex), blind(inits[k], {})).dig.hex()[:16]
                color = nc
                if len(set(nc.values())) in (seen, len(general)):
                    break
                seen = len(set(nc.values()))
            for k in general:
                # reachable accumulators
                reach, stk = (set(general) if self.raw_loops else {k}), [k]
                bdeps = [u for u in general if T.occurs(b2, accs[u])] + \
                        [u for u in general if any(T.occurs(e, accs[u]) for e in ext_r)]
                for u in bdeps:
                    if u not in reach:
                        reach.add(u)
                        stk.append(u)
                while stk:
                    x = stk.pop()
                    for u in general:
                        if u not in reach and T.occurs(g_out[x], accs[u]):
                            reach.add(u)
                            stk.append(u)
                h = 1 + max([_acc_h(g_out[u]) for u in reach] + [_acc_h(inits[u]) for u in reach] +
                            [_acc_h(b2)] + [_acc_h(e) for e in ext_r])
                order = [k] + sorted((u for u in reach if u != k), key=lambda u: (color[u], str(u)))
                mp = {id(accs[u]): raw("accref", h, i) for i, u in enumerate(order)}
                parts = tuple(raw("upd", inits[u], T.subst(g_out[u], mp)) for u in order)
                bb = T.subst(b2, mp)
                ee = tuple(T.subst(e, mp) for e in ext_r)
                bv = raw("bv", 1 + max([p.bh for p in parts] + [bb.bh, T._bh(ee)]))
                m2 = {id(fv): bv}
                res[k] = raw("fold", tuple(T.subst(e, m2) for e in ee),
                             tuple(T.subst(p, m2) for p in parts), T.subst(bb, m2), bv, h)
        return res

    def before_break(self, ext, accs, inits, outs, brk):
        """what only the turn that breaks changes is, at the start of every turn, what it was before the loop."""
        if brk is FALSE or self.raw_loops:
            return ext, outs, brk
        mp = {}
        for k, a in accs.items():
            t = outs[k]
            if t is not a and ite(brk, a, t) is a:
                mp[id(a)] = inits[k]
        if not mp:
            return ext, outs, brk
        outs = dict(outs)
        b2 = T.subst(brk, mp)
        for k, a in accs.items():
            if id(a) in mp:
                outs[k] = ite(b2, T.subst(outs[k], mp), a)
            else:
                outs[k] = T.subst(outs[k], mp)
        return tuple(T.subst(e, mp) for e in ext), outs, b2

    def own_slots(self, ext, fv, accs, inits, outs, brk):
        """a loop whose turn i only ever changes slot i of a list still finds there what was there before the loop."""
        if self.raw_loops or ext and ext[0].op == "whilecond":
            return outs, brk
        outs = dict(outs)
        for key, a in accs.items():
            t = outs[key]
            if t is a or T.is_seq(inits[key]) and False:
                continue
            ks = set()

            def base(l):
                while l.op == "store":
                    ks.add(l.args[1])
                    l = l.args[0]
                return l
            if not all(base(l) is a for l, _ in leaf_guards(t)) or len(ks) != 1:
                continue
            k = ks.pop()
            if k is not fv and not (k.op == "poly" and T.intval(T.sub(k, fv)) is not None):
                continue
            slot = T._idx(a, k)
            if slot.op not in ("elem", "idx") or slot.args[0] is not a:
                continue
            mark = raw("sym", "$slot")
            stripped = [T.subst(x, {id(slot): mark}) for x in [map_leaves(t, lambda l: self._vals(l, a))] +
                        [o for u, o in outs.items() if u != key] + [brk]]
            if any(T.occurs(x, a) for x in stripped) or any(T.occurs(e, a) for e in ext):
                continue
            mp = {id(slot): T.idx(inits[key], k)}
            for u in outs:
                outs[u] = T.subst(outs[u], mp)
            brk = T.subst(brk, mp)
        return outs, brk

    def _vals(self, l, a):
        vs = []
        while l.op == "store":
            vs.append(l.args[2])
            l = l.args[0]
        return raw("tuple", *vs)

    def closed_form(self, ext, fv, a, t, init):
        leaves = [l for l, _ in leaf_guards(t)]
        conds = [x for x in T.subterms(t) if x.op == "ite"]
        if any(T.occurs(x.args[0], a) for x in conds):
            return None
        # last value
        if not any(T.occurs(l, a) for l in leaves):
            return self.close(lambda e, x, bv: raw("last", e, x, bv, init), ext, t, fv)

        def strip_cat(l):
            if l is a:
                return raw("list")
            if l.op == "concat" and l.args[0] is a:
                r = l.args[1:]
                out = r[0]
                for x in r[1:]:
                    out = T.concat(out, x)
                return out
            return None
        if all(l is a or (l.op == "concat" and l.args[0] is a) for l in leaves):
            m = map_leaves(t, strip_cat)
            if not T.occurs(m, a):
                ml = [l for l, _ in leaf_guards(m)]
                if all(l.op == "list" and len(l.args) <= 1 and not any(x.op == "star" for x in l.args) for l in ml):
                    body = map_leaves(m, lambda l: l.args[0] if l.args else NOELEM)
                    mm = self.mkmap(ext, body, fv)
                else:
                    mm = self.close(lambda e, x, bv: raw("flatmap", e, x, bv), ext, m, fv)
                return T.add(init, mm) if T.is_seq(init) else lift(T.concat, (init, mm))
        # sums
        def strip_sum(l):
            if l is a:
                return T.ZERO
            d = T._sub(l, a) if not T.is_seq(l) else None
            return d
        if not T.is_seq(init) and all(l is a or l.op == "poly" for l in leaves):
            m = map_leaves(t, strip_sum)
            if not T.occurs(m, a):
                return T.add(init, self.close(lambda e, x, bv: T.sumof(e, TRUE, x, bv), ext, m, fv))
            m = map_leaves(t, lambda l: T.ONE if l is a else T._div(l, a))
            if not T.occurs(m, a):
                return T.mul(init, self.close(lambda e, x, bv: raw("prodof", e, x, bv), ext, m, fv))
        # stores
        if all(l is a or (l.op == "store" and l.args[0] is a) for l in leaves):
            m = map_leaves(t, lambda l: NOELEM if l is a else raw("kv", l.args[1], l.args[2]))
            if not T.occurs(m, a):
                return self.mkdictmap(ext, m, fv, init)
        return None

    def flag_form(self, ext, fv, a, t, init, brk):
        """a variable one turn sets: to a fixed value (found = True), or to that turn's value before it breaks."""
        if ext and ext[0].op == "whilecond" or T.is_seq(init):
            return None
        if brk is not FALSE:    # the turn that breaks is the only one that matters
            hit = ite(brk, t, a)
            if t is not hit:
                return None
        else:
            hit = t
        ls = [l for l, _ in leaf_guards(hit) if l is not a]
        cond = map_leaves(hit, lambda l: FALSE if l is a else TRUE)
        if not ls or T.occurs(cond, a) or any(T.occurs(l, a) for l in ls):
            return None
        if brk is not FALSE and cond is not brk:
            return None
        if len(ls) == 1 and not T.occurs(ls[0], fv):
            k = ls[0]
            r = self.close(lambda e, x, bv: T.exists(e, bv, x), ext, cond, fv)
            return ite(r, k, init)
        if brk is FALSE:
            return None
        return self.close(lambda e, x, bv: raw("pick", e, x, bv, init), ext, map_leaves(hit, lambda l: NOELEM if l is a else l), fv)

    def mkdictmap(self, ext, m, fv, init):
        bv = raw("bv", 1 + max(m.bh, T._bh(ext)))
        mp = {id(fv): bv}
        d = raw("dictmap", tuple(T.subst(e, mp) for e in ext), T.subst(m, mp), bv)
        if init.op == "dict" and not init.args:
            return d
        if init.op == "map" and init.args[1] is TRUE and init.args[0] == tuple(T.subst(e, mp) for e in ext) and \
                all(l is NOELEM or l.op == "kv" and l.args[0] is fv for l, _ in leaf_guards(m)):
            return self.mkmap(ext, map_leaves(m, lambda l: T.idx(init, fv) if l is NOELEM else l.args[1]), fv)
        return lift(lambda i: raw("foldstore", i, d), (init,))

    def literal_iter(self, it):
        """list of element terms when the iterable has a small literal length."""
        if it.op in ("tuple", "list") and len(it.args) <= 12 and not any(x.op == "star" for x in it.args):
            return list(it.args)
        if T.isstr(it) and len(it.args[1]) <= 12:
            return [const(x) for x in it.args[1]]
        if it.op == "call":
            g = T.gname(it.args[0])
            a = it.args[1]
            if g == "range" and not it.args[2]:
                v = [T.intval(x) for x in a]
                if all(x is not None for x in v) and v:
                    r = list(range(*v))
                    if len(r) <= 12:
                        return [num(x) for x in r]
            if g == "enumerate" and a:
                l = self.literal_iter(a[0])
                if l is not None:
                    kw = dict(it.args[2])
                    s = a[1] if len(a) > 1 else kw.get("start", T.ZERO)
                    return [T.tup(T.add(s, num(i)), x) for i, x in enumerate(l)]
            if g == "zip" and a:
                ls = [self.literal_iter(x) for x in a]
                lens = [len(x) for x in ls if x is not None]
                if lens:
                    n = min(lens)
                    return [T.tup(*[(l[i] if l is not None else T.idx(x, num(i))) for l, x in zip(ls, a)])
                            for i in range(n)]
            if g == "reversed" and len(a) == 1:
                l = self.literal_iter(a[0])
                if l is not None:
                    return l[::-1]
            if g in ("list", "tuple", "iter") and len(a) == 1:
                return self.literal_iter(a[0])
            if g == "itertools.product" and a and not it.args[2]:
                ls = [self.literal_iter(x) for x in a]
                if all(x is not None for x in ls) and math.prod(map(len, ls)) <= 12:
                    return [T.tup(*x) for x in itertools.product(*ls)]
            n = None
            if g == "numpy.split" and len(a) + len(it.args[2]) == 2:
                n = T.intval(a[1] if len(a) > 1 else dict(it.args[2]).get("indices_or_sections", NONE))
            elif g == "numpy.roll" and a and "axis" not in dict(it.args[2]):
                l = self.literal_iter(a[0])
                n = len(l) if l is not None and not any(T.is_seq(x) for x in l) else None
            elif g == "numpy.meshgrid" and a and not any(x.op == "star" for x in a):
                n = len(a)
            if n is not None and 0 < n <= 12:
                return [T.idx(it, num(i)) for i in range(n)]
            if it.args[0].op == "method" and it.args[0].args[0] in ("items", "keys", "values") and len(a) == 1 and a[0].op == "dict" and len(a[0].args) <= 12:
                d = a[0].args
                return [T.tup(k, v) if it.args[0].args[0] == "items" else (k if it.args[0].args[0] == "keys" else v) for k, v in d]
        if it.op == "dict" and 0 < len(it.args) <= 12:
            return [k for k, _ in it.args]
        return None

    def iter_spec(self, it, fv):
        it = unlift_call(it)
        if it.op == "call":
            g = T.gname(it.args[0])
            a, kw = it.args[1], dict(it.args[2])
            if g == "range" and not kw:
                if len(a) == 1:
                    lo, hi, step = T.ZERO, a[0], T.ONE
                elif len(a) == 2:
                    lo, hi, step = a[0], a[1], T.ONE
                else:
                    lo, hi, step = a
                if step is T.ONE:
                    n = T.sub(hi, lo)
                    c = len_of(n)
                    if c is not None:
                        return (c,), T.add(lo, fv)
                    return (raw("rng", n),), T.add(lo, fv)
                if T.intval(step) == -1:
                    return (raw("rng", T.sub(lo, hi)),), T.sub(lo, fv)
                return (raw("rng", lo, hi, step),), T.add(lo, T.mul(step, fv))
            if g == "enumerate" and a:
                e, x = self.iter_spec(a[0], fv)
                s = a[1] if len(a) > 1 else kw.get("start", T.ZERO)
                return e, T.tup(T.add(s, fv), x)
            if g == "zip" and a and not kw:
                exts, xs = [], []
                for y in a:
                    e, x = self.iter_spec(y, fv)
                    for z in e:
                        if z not in exts:
                            exts.append(z)
                    xs.append(x)
                exts.sort(key=lambda t: t.dig)
                return tuple(exts), T.tup(*xs)
            if g == "reversed" and len(a) == 1 and a[0].op == "call" and not a[0].args[2] and len(a[0].args[1]) == 1:
                y = a[0]
                if T.gname(y.args[0]) in ("list", "tuple"):
                    return self.iter_spec(T.call(glob("reversed"), (y.args[1][0],), ()), fv)
                if y.args[0].op == "method" and y.args[0].args[0] in ("items", "keys", "values"):
                    return self.rev_dict(y.args[0].args[0], y.args[1][0], fv)
            if g in ("list", "tuple", "iter") and len(a) == 1 and not kw:
                return self.iter_spec(a[0], fv)
            if g == "reversed" and len(a) == 1:
                x = a[0]
                if x.op == "call" and T.gname(x.args[0]) == "range" and len(x.args[1]) == 1:
                    n = x.args[1][0]
                    return (raw("rng", n),), T.sub(T.sub(n, T.ONE), fv)
                return (raw("rev", x),), T.idx(raw("rev", x), fv)
            if it.args[0].op == "method" and len(a) == 1 and not kw:
                m, d = it.args[0].args[0], a[0]
                if m == "keys":
                    return (d,), T.idx(d, fv)
                if m == "items":
                    return (d,), T.tup(T.idx(d, fv), T.idx(d, T.idx(d, fv)))
                if m == "values":
                    return (d,), T.idx(d, T.idx(d, fv))
        if it.op == "idx" and it.args[1].op == "slice" and T.intval(it.args[1].args[2]) == -1 \
                and it.args[1].args[0] is NONE and it.args[1].args[1] is NONE:
            y = it.args[0]
            if y.op == "call" and T.gname(y.args[0]) in ("list", "tuple") and len(y.args[1]) == 1 and not y.args[2]:
                return self.iter_spec(T.call(glob("reversed"), (y.args[1][0],), ()), fv)
            return (raw("rev", it.args[0]),), T.idx(raw("rev", it.args[0]), fv)
        if it.op == "map" and it.args[1] is TRUE:
            e, _, body, bv = it.args
            return tuple(T.subst(x, {id(bv): fv}) for x in e), T.subst(body, {id(bv): fv})
        if it.op == "idx" and it.args[1].op == "slice" and it.args[1].args[2] in (NONE, T.ONE):
            lo, hi, _ = it.args[1].args
            lo = T.ZERO if lo is NONE else lo
            a, b = T.intval(lo), T.intval(hi)
            x = it.args[0]
            if a is not None and a >= 0 and (hi is NONE or b is not None and b < 0):
                n = T.sub(T.call(glob("len"), (x,), ()), num(a - (b or 0)))
                return (raw("rng", n),) if a or b else (x,), T.idx(x, T.add(lo, fv))
        return (it,), T.idx(it, fv)

    def rev_dict(self, m, d, fv):
        r = raw("rev", d)
        k = T.idx(r, fv)
        v = T.idx(d, k)
        return (r,), {"keys": k, "values": v, "items": T.tup(k, v)}[m]

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, st, fr, src=None):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                b = glob(fr.module.name)
                st.heap[(id(b), t.id)] = (b, t.id, v)
                return
            if t.id in fr.nonlocals and t.id not in st.env:
                p = fr.parent
                while p is not None:
                    if t.id in p[0].env:
                        p[0].env[t.id] = v
                        return
                    p = p[1].parent
            st.env[t.id] = v
            g = st.alias.pop(t.id, None)
            if g:
                for n in g:
                    if n in st.alias:
                        st.alias[n] = g - {t.id}
            st.origin.pop(t.id, None)
            st.slot.pop(t.id, None)
            if isinstance(src, ast.Subscript) and (is_fresh(v) or v.op == "ite" or v.op in ("idx", "elem") and is_fresh(v.args[0])) and not any(
                    isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(src)):
                st.slot[t.id] = src
            elif isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "setdefault" \
                    and len(src.args) == 2 and not src.keywords and not any(
                        isinstance(x, (ast.Call, ast.NamedExpr)) for a in (src.func.value, src.args[0]) for x in ast.walk(a)):
                st.slot[t.id] = ast.Subscript(value=src.func.value, slice=src.args[0], ctx=ast.Load())
            elif isinstance(src, ast.Name) and src.id in st.slot:
                st.slot[t.id] = st.slot[src.id]
            if isinstance(src, ast.Name) and src.id in st.origin:
                st.origin[t.id] = st.origin[src.id]
            elif isinstance(src, ast.Attribute):
                if any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(src.value)):
                    b = v.args[0] if v.op == "attr" and v.args[1] == src.attr else NONE   # not evaluated twice
                else:
                    b = self.ev(src.value, st, fr)
                if b is not NONE and b.op != "ite" and (b.op != "glob" or self.container(b.args[0] + "." + src.attr)):
                    self._locs[(id(b), src.attr)] = (b, src.attr)
                    st.origin[t.id] = ("h", (id(b), src.attr))
            elif src is None or isinstance(src, ast.Call):
                if v.op == "attr" and len(v.args) == 2 and v.args[0].op not in ("ite", "glob"):
                    k = (id(v.args[0]), v.args[1])
                    if k not in st.heap or st.heap[k][2] is v:
                        self._locs[k] = v.args
                        st.origin[t.id] = ("h", k)
                elif v.op == "sym" and v.args[0] in ("p", "k") and v.args[1] not in st.pmut:
                    st.origin[t.id] = ("p", v.args[1])
                elif v.op == "acc":
                    for k, h in st.heap.items():
                        if h[2] is v:
                            self._locs[k] = h[:2]
                            st.origin[t.id] = ("h", k)
            if isinstance(src, ast.Name) and src.id not in st.env and v.op == "glob" and self.container(v.args[0]):
                b = glob(v.args[0].rsplit(".", 1)[0])
                k = (id(b), v.args[0].rsplit(".", 1)[1])
                self._locs[k] = (b, k[1])
                st.origin[t.id] = ("h", k)
            if isinstance(src, ast.Name) and src.id in st.env and is_fresh(v):
                g = st.alias.get(src.id)
                if g is None:
                    g = frozenset([src.id, t.id])
                else:
                    g = g | {t.id}
                for n in g:
                    st.alias[n] = g
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if star:
                    k = star[0]
                    if i < k:
                        self.assign(e, T.idx(v, num(i)), st, fr)
                    elif i == k:
                        hi = NONE if k == n - 1 else num(k - n + 1)
                        self.assign(e.value, T.idx(v, raw("slice", num(k) if k else NONE, hi, NONE)), st, fr)
                    else:
                        self.assign(e, T.idx(v, num(i - n)), st, fr)
                else:
                    self.assign(e, T.idx(v, num(i)), st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.set_attr(b, t.attr, v, st, fr)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            if b.op == "call":
                self.in_place(b)
            self.assign_into(t.value, T.store(b, k, v), st, fr, mutate=b)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def set_attr(self, b, name, v, st, fr):
        v = self.materialize(v, st, fr)
        self._locs[(id(b), name)] = (b, name)
        for n, l in list(st.origin.items()):   # the attribute now denotes another object
            if l == ("h", (id(b), name)):
                del st.origin[n]
        # property setters are ordinary attribute writes at this level
        st.heap[(id(b), name)] = (b, name, v)

    def assign_into(self, expr, new, st, fr, mutate=None):
        """the object denoted by expr now has value `new` (old value: mutate)."""
        old = mutate
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Attribute) and expr.func.attr == "setdefault" \
                and len(expr.args) == 2:    # d.setdefault(k, [])  denotes  d[k]
            expr = ast.Subscript(value=expr.func.value, slice=expr.args[0], ctx=ast.Store())
        if isinstance(expr, ast.Name):
            nm = expr.id
            if nm in st.env:
                grp = st.alias.get(nm)
                st.env[nm] = new
                if grp:
                    for n in grp:
                        st.env[n] = new
                sl = st.slot.get(nm)
                if sl is not None and not getattr(self, "_inslot", False):
                    if self.ev(sl, st, fr) is old:
                        self._inslot = True
                        self.assign_into(sl, new, st, fr, mutate=old)
                        self._inslot = False
                    else:
                        st.slot.pop(nm)
                loc = st.origin.get(nm)
                if loc is not None:
                    self.set_loc(loc, new, st)
                    return
            else:
                p = fr.parent
                done = False
                while p is not None and not done:
                    if nm in p[0].env:
                        p[0].env[nm] = new
                        done = True
                    p = p[1].parent
                if not done:
                    b = glob(fr.module.name)
                    st.heap[(id(b), nm)] = (b, nm, new)
            self.propagate(old, new, st, fr)
        elif isinstance(expr, ast.Attribute):
            b = self.ev(expr.value, st, fr)
            self._locs[(id(b), expr.attr)] = (b, expr.attr)
            self.set_loc(("h", (id(b), expr.attr)), new, st)
            if old is not None and (old.op == "sym" and old.args[0] in ("p", "k") or any(v is old for _, v in st.pmut.values())):
                # the attribute holds an object the caller handed in
                for k, (hb, hn, hv) in list(st.heap.items()):
                    if hv is old:
                        st.heap[k] = (hb, hn, new)
                self.propagate(old, new, st, fr)
        elif isinstance(expr, ast.Subscript):
            b = self.ev(expr.value, st, fr)
            k = self.ev(expr.slice, st, fr)
            if st.slot and old is not None:
                d = ast.dump(expr)
                for n, x in st.slot.items():
                    if st.env.get(n) is old and ast.dump(x) == d:
                        st.env[n] = new
            self.assign_into(expr.value, T.store(b, k, new), st, fr, mutate=b)
            if old is not None and (old.op in ("idx", "elem", "attr") and old.args[0] is not b or
                                    old.op == "sym" and old.args[0] in ("p", "k")):
                self.propagate(old, new, st, fr)    # the element is an object held elsewhere too
        else:
            self.propagate(old, new, st, fr, outer=True)

    def set_loc(self, loc, new, st):
        """the object at a location changed: update it and every variable denoting it."""
        if loc[0] == "h":
            b, n = self._locs[loc[1]]
            st.heap[loc[1]] = (b, n, new)
        else:
            st.pmut[loc[1]] = (sym("p" if isinstance(loc[1], int) else "k", loc[1]), new)
        for n, l in st.origin.items():
            if l == loc and n in st.env:
                st.env[n] = new

    def propagate(self, old, new, st, fr, skip_attr=False, outer=False):
        if old is None or old is new:
            return
        if old.op == "ite":
            return
        if is_fresh(old):
            return
        for n, v in list(st.env.items()):
            if v is old:
                st.env[n] = new
        if old.op == "attr" and not skip_attr and len(old.args) == 2:
            b, n = old.args
            st.heap[(id(b), n)] = (b, n, new)
        elif old.op == "sym" and old.args[0] in ("p", "k"):
            st.pmut[old.args[1]] = (old, new)
        elif old.op in ("idx", "elem"):
            base, k = old.args
            cur = self.current(base, st)
            nb = T.store(cur, k, new)
            for n, v in list(st.env.items()):
                if v is cur:
                    st.env[n] = nb
            self.propagate(base, nb, st, fr)
        elif old.op in ("call", "fresh", "ctx", "acc", "store", "mut"):
            root = old
            while root.op in ("store", "mut") and isinstance(root.args[0], T.Term):
                root = root.args[0]
            for k, (o, v) in list(st.pmut.items()):
                if v is old:
                    st.pmut[k] = (o, new)
            for k, (b, n, v) in list(st.heap.items()):
                if v is old:
                    st.heap[k] = (b, n, new)

    def current(self, t, st):
        if t.op == "attr" and len(t.args) == 2:
            h = st.heap.get((id(t.args[0]), t.args[1]))
            if h:
                return h[2]
        if t.op == "sym" and t.args[0] in ("p", "k") and t.args[1] in st.pmut:
            return st.pmut[t.args[1]][1]
        return t

    # ---------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.flags.add("expr:" + type(e).__name__)
            return raw("opaque", ast.dump(e))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.name(e.id, st, fr)

    def name(self, n, st, fr):
        if n in fr.globals:
            b = glob(fr.module.name)
            h = st.heap.get((id(b), n))
            if h:
                return h[2]
        elif n in st.env:
            return st.env[n]
        else:
            p = fr.parent
            while p is not None:
                if n in p[0].env:
                    return p[0].env[n]
                p = p[1].parent
        r = self.tree.lookup(fr.module.name, n)
        if r is None:
            if hasattr(builtins, n):
                return glob(n)
            if fr.func is not None and n in _stored_names(fr.func.node):
                fr.undef.add(n)
                return UNDEF
            return raw("unresolved", n)
        return self.of_symbol(r, st)

    def of_symbol(self, r, st=None):
        if isinstance(r, (Func, Class)):
            return glob(self.rename.get(r.qual, r.qual))
        if r[0] == "mod":
            return glob(r[1])
        if r[0] == "ext":
            if r[1] == "numpy.newaxis":
                return NONE
            return glob(T.NPALIAS.get(r[1], r[1]) if r[1] not in ("numpy.conjugate",) else "numpy.conj")
        if r[0] == "const":
            m, n = r[1], r[2]
            if st is not None:
                b = glob(m.name)
                h = st.heap.get((id(b), n))
                if h:
                    return h[2]
            vs = m.consts[n]
            if len(vs) == 1 and vs[0] is not None and simple_literal(vs[0]) and not (
                    isinstance(vs[0], ast.List) and (not vs[0].elts or n in mutated_consts(self.tree))):
                return self.ev(vs[0], State(), Frame(None, m, None, None))
            if len(vs) == 1 and isinstance(vs[0], (ast.Attribute, ast.Name)) and _dotted(vs[0]):   # another name for it
                v = self.ev(vs[0], State(), Frame(None, m, None, None))
                if v.op == "glob" and v is not glob(m.name + "." + n) or v.op == "num":
                    return v
            return glob(m.name + "." + n)
        return raw("unresolved", str(r))

    def canon_glob(self, dotted):
        if dotted == "numpy.newaxis":
            return NONE
        if dotted.startswith("spins"):
            parts = dotted.rsplit(".", 1)
            if dotted in self.tree.modules:
                return glob(dotted)
            if len(parts) == 2 and parts[0] in self.tree.modules:
                r = self.tree.lookup(parts[0], parts[1])
                if r is not None:
                    return self.of_symbol(r)
        return glob(T.NPALIAS.get(dotted, dotted))

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        return lift(lambda x: self.getattr(x, e.attr, st, fr), (b,))

    def getattr(self, b, name, st, fr):
        if b.op == "glob":
            h = st.heap.get((id(b), name))
            if h:
                return h[2]
            if name == "value" and b.args[0].startswith("spins"):
                r = self.enum_value(b.args[0])
                if r is not None:
                    return r
            return self.canon_glob(b.args[0] + "." + name)
        h = st.heap.get((id(b), name))
        if h:
            return h[2]
        if fr.cls is not None and b is fr.selfterm:
            m = self.tree.method(fr.cls, name)
            if m is not None and m.is_property and not self.known(m.qual):
                r = self.inline(m, {m.pos[0]: b}, st, fr, b)
                if r is not None:
                    return r
            if m is None and name.isupper() or (m is None and name.startswith("_") and name[1:].isupper()):
                ca = self.tree.class_attr(fr.cls, name)
                if ca and ca[1] is not None and simple_literal(ca[1]) and name not in self.tree.attr_writers():
                    return self.ev(ca[1], State(), Frame(None, ca[0].module, None, None))
            vers = tuple(c for names, c in st.mods if name in names)
            if vers:
                def at(*vs):
                    vs = [v for v in vs if v is not NONE]
                    return raw("attr", b, name, raw("ver", *vs)) if vs else T.attr(b, name)
                return lift(at, vers)
        if b.op == "call" and b.args[0].op == "glob" and not any(a.op == "star" for a in b.args[1]):
            r = self.record_field(b, name)
            if r is not None:
                return r
        return T.attr(b, name)

    def enum_value(self, q):
        """E.MEMBER.value, for an enumeration of literals."""
        c = self.tree.find(q.rsplit(".", 1)[0])
        if not isinstance(c, Class) or "value" in c.methods or not any("Enum" in ast.dump(b) for b in c.node.bases):
            return None
        ca = self.tree.class_attr(c, q.rsplit(".", 1)[1])
        if not ca or not isinstance(ca[1], ast.Constant):
            return None
        return self.ev(ca[1], State(), Frame(None, ca[0].module, None, None))

    def by_field(self, g, args, kw):
        """the arguments of a record's constructor, by name."""
        fs = self.tree.record_fields(g) if args and g.startswith("spins") else None
        if fs and len(args) <= len(fs) and not any(a.op == "star" for a in args) and not set(fs[:len(args)]) & set(kw):
            kw = dict(kw, **dict(zip(fs, args)))
            args = []
        return args, kw

    def record_field(self, b, name):
        """a field of a record that was just made, when no code ever assigns that field of an existing record."""
        c = self.tree.find(b.args[0].args[0]) if b.args[0].args[0].startswith("spins") else None
        if not isinstance(c, Class) or "__post_init__" in c.methods or "__init__" in c.methods:
            return None
        if not any("dataclass" in ast.dump(d) for d in c.node.decorator_list) or c.node.bases:
            return None
        fs = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        if name not in fs or name in self.tree.foreign_stores():
            return None
        i = fs.index(name)
        if i < len(b.args[1]):
            return b.args[1][i]
        return dict(b.args[2]).get(name)

    def e_Subscript(self, e, st, fr):
        return T.idx(self.ev(e.value, st, fr), self.ev(e.slice, st, fr))

    def e_Slice(self, e, st, fr):
        f = lambda x: self.ev(x, st, fr) if x is not None else NONE
        return lift(lambda *a: raw("slice", *a), (f(e.lower), f(e.upper), f(e.step)))

    def e_Index(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Tuple(self, e, st, fr):
        return self.seq("tuple", e, st, fr)

    def e_List(self, e, st, fr):
        return self.seq("list", e, st, fr)

    def seq(self, op, e, st, fr):
        xs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                if v.op in ("list", "tuple"):
                    xs.extend(v.args)
                else:
                    xs.append(raw("star", v))
            else:
                xs.append(self.ev(x, st, fr))
        if any(x.op == "star" for x in xs) and op == "list":
            r = raw("list")
            for x in xs:
                r = T.concat(r, x.args[0] if x.op == "star" else raw("list", x))
            return r
        return lift(lambda *a: raw(op, *a), tuple(xs)) if xs else raw(op)

    def e_Set(self, e, st, fr):
        xs = sorted((self.ev(x, st, fr) for x in e.elts), key=lambda t: t.dig)
        return lift(lambda *a: raw("set", *a), tuple(xs))

    def e_Dict(self, e, st, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, st, fr)
                if x.op == "dict":
                    items.extend(x.args)
                else:
                    items.append((raw("star"), x))
            else:
                items.append((self.ev(k, st, fr), self.ev(v, st, fr)))
        if not items:
            return raw("dict")
        n = len(items)
        return lift(lambda *a: T.mkdict(list(zip(a[:n], a[n:]))), tuple(k for k, _ in items) + tuple(v for _, v in items))

    def e_Starred(self, e, st, fr):
        return raw("star", self.ev(e.value, st, fr))

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.USub):
            return T.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            return b_not(truth(v))
        return lift(lambda x: raw("call", glob("operator.invert"), (x,), ()), (v,))

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        if isinstance(e.op, ast.Mod) and (T.isstr(a) or a.op == "strfmt"):
            return self.percent(a, b)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        n = type(op).__name__
        f = {"Add": T.add, "Sub": T.sub, "Mult": T.mul, "Div": T.div, "Pow": T.power, "MatMult": T.matmul}.get(n)
        if f:
            return f(a, b)
        def g(x, y):
            ix, iy = T.intval(x), T.intval(y)
            if ix is not None and iy:
                if n == "FloorDiv":
                    return num(ix // iy)
                if n == "Mod":
                    return num(ix % iy)
            if n in ("BitAnd", "BitOr", "BitXor"):
                x, y = sorted((x, y), key=lambda t: t.dig)
            return raw("call", glob("operator." + n.lower()), (x, y), ())
        return lift(g, (a, b))

    def e_BoolOp(self, e, st, fr):
        conj = isinstance(e.op, ast.And)

        def go(i, q):
            v = self.ev(e.values[i], q, fr)
            if i == len(e.values) - 1:
                return v
            c = truth(v)
            if c is (TRUE if conj else FALSE):
                return go(i + 1, q)
            if c is (FALSE if conj else TRUE):
                return v
            if conj:
                return self.choose(c, q, lambda s: go(i + 1, s), lambda s: v, e.values[i + 1:])
            return self.choose(c, q, lambda s: v, lambda s: go(i + 1, s), e.values[i + 1:])
        return go(0, st)

    def choose(self, c, st, fa, fb, exprs):
        """evaluate one of two expressions; effects and exceptions happen only on their side."""
        if not any(isinstance(x, (ast.Call, ast.NamedExpr)) for e in exprs for x in ast.walk(e)):
            return ite(c, fa(st), fb(st))
        s1, s2 = st.clone(), st.clone()
        s1.pc, s2.pc = b_and(st.pc, c), b_and(st.pc, b_not(c))
        saved, self.raised = self.raised, []
        a = fa(s1)
        ra, self.raised = self.raised, []
        b = fb(s2)
        rb, self.raised = self.raised, saved
        self.raised += [(b_and(c, g), l) for g, l in ra] + [(b_and(b_not(c), g), l) for g, l in rb]
        self.merge(c, st, s1, s2, FALL, FALL)
        st.pc = b_or(s1.pc, s2.pc)
        return ite(c, a, b)

    def e_IfExp(self, e, st, fr):
        c = truth(self.ev(e.test, st, fr))
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        return self.choose(c, st, lambda q: self.ev(e.body, q, fr), lambda q: self.ev(e.orelse, q, fr), [e.body, e.orelse])

    def e_Compare(self, e, st, fr):
        l = self.ev(e.left, st, fr)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            x = self.ev(c, st, fr)
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                l2, x2 = self.by_value(l, x, st, fr)
                r = b_and(r, self.cmp(op if l2 is l else ast.Eq() if isinstance(op, (ast.Eq, ast.Is)) else ast.NotEq(), l2, x2))
            else:
                r = b_and(r, self.cmp(op, l, x))
            l = x
        return r

    def by_value(self, a, b, st, fr):
        """x == E.MEMBER, for an enumeration of different literals, is x.value == the literal."""
        for x, g, sw in ((a, b, False), (b, a, True)):
            if g.op == "glob" and g.args[0].startswith("spins") and x.op in ("sym", "attr", "idx", "elem"):
                v = self.enum_value(g.args[0])
                c = self.tree.find(g.args[0].rsplit(".", 1)[0]) if v is not None else None
                if c is None:
                    continue
                vs = [n.value.value for n in c.node.body if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant)]
                if len(set(vs)) != len(vs):
                    continue
                y = self.getattr(x, "value", st, fr)
                return (v, y) if sw else (y, v)
        return a, b

    def cmp(self, op, a, b):
        n = type(op).__name__
        if n == "Lt":
            return T.lt(a, b)
        if n == "Gt":
            return T.lt(b, a)
        if n == "LtE":
            return b_not(T.lt(b, a))
        if n == "GtE":
            return b_not(T.lt(a, b))
        if n == "Eq":
            return T.eq(a, b)
        if n == "NotEq":
            return b_not(T.eq(a, b))
        if n == "Is":
            return T.is_(a, b)
        if n == "IsNot":
            return b_not(T.is_(a, b))
        if n == "In":
            return T.in_(a, b)
        return b_not(T.in_(a, b))

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                sp = ""
                if v.format_spec is not None:
                    s = self.ev(v.format_spec, st, fr)
                    sp = s.args[1] if T.isstr(s) else T.show(s)
                if v.conversion not in (-1, 115):
                    sp = "!" + chr(v.conversion) + sp
                parts.append(self.fmt(self.ev(v.value, st, fr), sp))
        return lift(T.strfmt, tuple(parts)) if parts else const("")

    def fmt(self, v, spec):
        def f(x):
            if spec in ("", "d") and T.isstr(x):
                return x
            if spec in ("", "d") and T.intval(x) is not None:
                return const(str(T.intval(x)))
            if x.op == "strfmt" and spec == "":
                return x
            return raw("fmt", x, "" if spec == "d" else spec)
        return lift(f, (v,))

    def percent(self, a, b):
        s = a.args[1] if T.isstr(a) else None
        args = list(b.args) if b.op == "tuple" else [b]
        if s is None:
            return raw("call", glob("operator.mod"), (a, b), ())
        parts, i, cur = [], 0, ""
        import re
        pos = 0
        for m in re.finditer(r"%([-+ #0]*\d*(?:\.\d+)?)([sdrfgexi%])", s):
            cur += s[pos:m.start()]
            pos = m.end()
            if m.group(2) == "%":
                cur += "%"
                continue
            if i >= len(args):
                return raw("call", glob("operator.mod"), (a, b), ())
            parts.append(const(cur))
            cur = ""
            sp = m.group(1) + ("" if m.group(2) in "sdi" else ("!r" if m.group(2) == "r" else m.group(2)))
            parts.append(self.fmt(args[i], sp))
            i += 1
        cur += s[pos:]
        parts.append(const(cur))
        return lift(T.strfmt, tuple(parts))

    def format(self, s, args, kwargs):
        parts = []
        auto = 0
        kw = dict(kwargs)
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                parts.append(self.fmt(v, ("!" + conv if conv and conv != "s" else "") + (spec or "")))
        except (ValueError, IndexError):
            return None
        return lift(T.strfmt, tuple(parts)) if parts else const("")

    # comprehension -------------------------------------------------------
    def comp(self, gens, i, st, fr, leaf):
        """-> diagram term: list-valued; leaf(st) gives the element term."""
        g = gens[i]
        it = self.ev(g.iter, st, fr)
        last = i == len(gens) - 1
        some = or_empty(it)
        some = some + (raw("list"),) if some is not None else a_literal(it)
        if some is not None:            # a list known by its elements in one of the cases
            rs = []
            for c, x in ((some[0], some[1]), (b_not(some[0]), some[2])):
                if x.op == "list" and not x.args:
                    rs.append(raw("list"))
                    continue
                gen = ast.comprehension(target=g.target, iter=TermExpr(x), ifs=g.ifs, is_async=0)
                pc0, n0 = st.pc, len(self.raised)
                st.pc = b_and(pc0, c)
                rs.append(self.comp(gens[:i] + [gen] + gens[i + 1:], i, st, fr, leaf))
                st.pc = b_and(pc0, ite(c, st.pc, TRUE)) if st.pc is not b_and(pc0, c) else pc0
                for j in range(n0, len(self.raised)):
                    self.raised[j] = (b_and(c, self.raised[j][0]),) + tuple(self.raised[j][1:])
            return ite(some[0], *rs)

        def one(q):
            c = TRUE
            for x in g.ifs:
                c = b_and(c, truth(self.ev(x, q, fr)))
            return c
        lit = self.literal_iter(it)
        if lit is not None:
            out = raw("list")
            for x in lit:
                q = st.clone()
                self.assign(g.target, x, q, fr)
                c = one(q)
                inner = NONE if last else self.comp(gens, i + 1, q, fr, leaf)
                if last:
                    v = leaf(q)
                    inner = map_leaves(v, lambda l: raw("list", l)) if c is not TRUE else raw("list", v)
                out = lift(T.concat, (out, ite(c, inner, raw("list"))))
            return out
        fv = fresh()
        pre = TRUE
        if it.op == "map" and it.args[1] is not TRUE:
            mp = {id(it.args[3]): fv}
            ext, elem, pre = tuple(T.subst(x, mp) for x in it.args[0]), T.subst(it.args[2], mp), T.subst(it.args[1], mp)
        else:
            ext, elem = self.iter_spec(it, fv)
        q = st.clone()
        q.events = []
        q.pc = pre
        self.assign(g.target, elem, q, fr)
        bound = {x.id for h in gens[i:] for x in ast.walk(h.target) if isinstance(x, ast.Name)}
        saved_raised, self.raised = self.raised, []
        saved_exits, self.exits = self.exits, []
        c = b_and(pre, one(q))
        q.pc = c
        if last:
            r = self.mkmap(ext, ite(c, leaf(q), NOELEM), fv)
        else:
            inner = self.comp(gens, i + 1, q, fr, leaf)
        for n, v in st.env.items():
            w = q.env.get(n)
            if w is not v and n not in bound and not (v is None or w is None):
                raise Unsupported("%s is changed inside a comprehension" % n)
        self.carry(st, q, ext, fv, {})
        mine, self.raised = self.raised, saved_raised
        self.exits = saved_exits
        if mine:
            bad = FALSE
            for gd, l in mine:
                bad = b_or(bad, gd)
            bv = raw("bv", 1 + max(bad.bh, T._bh(ext), max(l.bh for _, l in mine)))
            mp = {id(fv): bv}
            E = T.exists(tuple(T.subst(x, mp) for x in ext), bv, T.subst(bad, mp))
            self.raised.append((E, T.subst(mine[0][1], mp)))
            self.note_raise(st, E)
            st.pc = b_and(st.pc, b_not(E))
        if q.events:
            evs = self.canon_events(q.events)
            locs = set()
            for x in q.events:
                locs |= x.locs
            bv = raw("bv", 1 + max([x.bh for x in evs] + [T._bh(ext)]))
            mp = {id(fv): bv}
            self.add_event(st, raw("loopev", tuple(T.subst(x, mp) for x in ext), tuple(T.subst(x, mp) for x in evs), FALSE, bv), locs)
        if last:
            return r
        return self.close(lambda e, x, bv: raw("flatmap", e, x, bv), ext, ite(c, inner, raw("list")), fv)

    def e_ListComp(self, e, st, fr):
        def leaf(q):
            v = self.ev(e.elt, q, fr)
            return T.boolv(v) if v.op == "ite" and T.is_bool(v) else v
        return self.comp0(e.generators, st, fr, leaf)

    def comp0(self, gens, st, fr, leaf):
        q = st.clone()
        r = self.comp(gens, 0, q, fr, leaf)
        st.ver, st.mods = q.ver, q.mods
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        return T.call(glob("set"), (self.e_ListComp(e, st, fr),), ())

    def e_DictComp(self, e, st, fr):
        m = self.comp0(e.generators, st, fr,
                      lambda q: lift(lambda k, v: raw("kv", k, v), (self.ev(e.key, q, fr), self.ev(e.value, q, fr))))
        if m.op == "list" and all(x.op == "kv" for x in m.args):
            return T.mkdict([x.args for x in m.args])
        if m.op == "map":
            ext, cond, body, bv = m.args
            return raw("dictmap", ext, body, bv)
        some = or_empty(m)
        if some is not None and some[1].op == "map":
            e, cond, body, bv = some[1].args
            if body.op == "kv" and cond is TRUE:
                return ite(some[0], raw("dictmap", e, body, bv), T.mkdict([]))
        return raw("dictof", m)

    def e_Lambda(self, e, st, fr):
        f = Func((fr.func.qual if fr.func else "?") + ".<lambda%d>" % len(getattr(self, "locals_", {})), _as_def(e), fr.module, cls=None)
        f.lex = (st, fr)
        self.locals_ = getattr(self, "locals_", {})
        k = len(self.locals_)
        self.locals_[k] = f
        return raw("localfunc", fr.func.qual if fr.func else "?", "<lambda>", k)

    def closure(self, f, st, fr):
        """the function as a value: its behaviour with the environment it sees now."""
        if f.qual + str(f.node.lineno) in self.stack or len(self.stack) > 12:
            k = f.qual + str(f.node.lineno)
            return raw("recfn", len(self.stack) - self.stack.index(k) if k in self.stack else 99)
        self.stack.append(f.qual + str(f.node.lineno))
        q = State()
        q.heap = dict(st.heap)
        q.ver = dict(st.ver)
        lst, lfr = f.lex
        lst = st if lfr is fr else getattr(lfr, "state", lst)
        nfr = Frame(f, f.module, lfr.cls, lfr.selfterm, parent=(lst, lfr))
        ps = []
        for n in f.pos + f.kwonly:
            d = f.defaults.get(n)
            if d is not None and isinstance(d, ast.Name) and not f.vararg:
                q.env[n] = self.ev(d, lst, lfr)     # def g(x, item=item): a variable the function keeps hold of
                continue
            v = fresh()
            q.env[n] = v
            ps.append(v)
        if f.vararg:
            q.env[f.vararg] = sym("va", "lam")
        if f.kwarg:
            q.env[f.kwarg] = sym("kw", "lam")
        saved, self.raised = self.raised, []
        savedw, self.withs = self.withs, []
        # bodies see captured variables; in the probe they live in the probe's own state, so that
        # branches and loops join as usual, and the enclosing state is left alone
        snap = dict(lst.env)
        own = _stored_names(f.node) | set(q.env)
        caps = {}
        p = (lst, lfr)
        while p is not None:
            for k, v in p[0].env.items():
                if k not in own and k not in caps and not k.startswith("$"):
                    caps[k] = v
            p = p[1].parent
        q.env.update(caps)
        out = self.body(f, q, nfr)
        heapw = []
        for k, v in caps.items():
            if q.env.get(k) is not v and q.env.get(k) is not None:
                heapw.append(raw("w", v, "$captured", q.env[k]))
        for k, (o, v) in q.pmut.items():
            if v is not o:
                w = raw("w", o, "$captured", v)
                if not any(x.args[0] is o for x in heapw):
                    heapw.append(w)
        lst.env.clear()
        lst.env.update(snap)
        self.raised, self.withs = saved, savedw
        evs = self.canon_events(q.events)
        for k, (b, n, v) in q.heap.items():
            o = st.heap[k][2] if k in st.heap else T.attr(b, n)
            if v is not o:
                heapw.append(raw("w", b, n, v))
        body = raw("fn", out, evs, tuple(sorted(heapw, key=lambda t: t.dig)))
        mp = {}
        h = body.bh
        for i, v in enumerate(ps):
            mp[id(v)] = raw("bv", h + len(ps) - i)
        self.stack.pop()
        return raw("lam", len(ps), T.subst(body, mp))

    def materialize(self, v, st, fr):
        """local functions that escape become closures."""
        if not any(x.op == "localfunc" for x in T.subterms(v)):
            return v
        mp = {}
        for x in T.subterms(v):
            if x.op == "localfunc":
                f = self.locals_.get(x.args[2])
                if f is None:
                    continue
                mp[id(x)] = self.closure(f, st, fr)
        return T.subst(v, mp)

    # calls ---------------------------------------------------------------
    def e_Call(self, e, st, fr):
        return self.call(e, st, fr)

    def call(self, e, st, fr, stmt=False):
        f = e.func
        # logging is not behaviour
        if isinstance(f, ast.Attribute):
            root = f.value
            rn = root.id if isinstance(root, ast.Name) else (root.attr if isinstance(root, ast.Attribute) else None)
            if rn in LOGGERS and f.attr in ("debug", "info", "warning", "error", "exception", "critical", "warn", "log"):
                return NONE
            if rn == "warnings" and f.attr == "warn":
                return NONE
        if isinstance(f, ast.Name) and f.id == "print":
            return NONE
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "super":
            args, kw = self.args(e, st, fr)
            m = None
            if fr.cls is not None:
                for c in self.tree.mro(fr.cls)[1:]:
                    if f.attr in c.methods:
                        m = c.methods[f.attr]
                        break
            if m is not None and not self.known(m.qual):
                b = self.bind(m, [fr.selfterm] + args, kw)
                if b is not None:
                    r = self.inline(m, b, st, fr, fr.selfterm, call=e, off=1)
                    if r is not None:
                        return r
            a2, k2 = self.norm_args(m, [fr.selfterm or NONE] + args, kw) if m is not None else (args, kw)
            t = T.call(raw("supercall", f.attr), tuple(a2), tuple(k2.items()))
            self.effect(st, t, fr, [fr.selfterm] if fr.selfterm is not None else [], args, stmt, impure=True)
            return t
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, st, fr)
            if base.op == "glob" and not self.container(base.args[0]):
                fn = self.getattr(base, f.attr, st, fr)
                return self.call_fn(fn, e, st, fr, stmt)
            return self.method_call(base, f.attr, f.value, e, st, fr, stmt)
        if isinstance(f, ast.Name) and fr.func is not None:
            a = _method_alias(fr.func, f.id)
            if a is not None:   # m = obj.method; m(...)  ->  obj.method(...)
                return self.call(ast.copy_location(ast.Call(func=a, args=e.args, keywords=e.keywords), e), st, fr, stmt)
        fn = self.ev(f, st, fr)
        if fn.op == "attr" and isinstance(f, ast.Name) and fn.args[1] not in MUTATORS:
            return self.method_call(fn.args[0], fn.args[1], TermExpr(fn.args[0]), e, st, fr, stmt)
        return self.call_fn(fn, e, st, fr, stmt)

    def container(self, q):
        """is q a module variable that starts as an empty or literal dict or list?"""
        if "." not in q or not q.startswith("spins"):
            return False
        m = self.tree.modules.get(q.rsplit(".", 1)[0])
        v = m.consts.get(q.rsplit(".", 1)[1]) if m is not None else None
        v = v[0] if v and len(v) == 1 else None
        return isinstance(v, (ast.Dict, ast.List)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list")

    def args(self, e, st, fr):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                if v.op in ("list", "tuple"):
                    args.extend(v.args)
                else:
                    args.append(lift(lambda x: raw("star", x), (v,)))
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                if v.op == "dict" and all(T.isstr(x) for x, _ in v.args):
                    for x, y in v.args:
                        kw[x.args[1]] = y
                    continue
                ks = {tuple(x for x, _ in l.args) if l.op == "dict" else None for l, _ in leaf_guards(v)} if v.op == "ite" else {None}
                ks = ks.pop() if len(ks) == 1 else None
                if ks is not None and all(T.isstr(x) for x in ks):
                    for i, x in enumerate(ks):
                        kw[x.args[1]] = map_leaves(v, lambda l, i=i: l.args[i][1])
                else:
                    kw["**" + str(len(kw))] = v
            else:
                kw[k.arg] = v
        return args, kw

    def spread(self, f, kw):
        """**options, where options is one of several literals: what is missing from one has its default."""
        out = {}
        for k, v in kw.items():
            ls = [l for l, _ in leaf_guards(v)] if k.startswith("**") else []
            if not ls or not all(l.op == "dict" and all(T.isstr(x) for x, _ in l.args) for l in ls):
                out[k] = v
                continue
            names = sorted({x.args[1] for l in ls for x, _ in l.args})
            if f.kwarg or any(n not in f.pos + f.kwonly or n in kw for n in names):
                out[k] = v
                continue
            dv = {n: self.ev(f.defaults[n], State(), Frame(None, f.module, None, None)) if n in f.defaults else None for n in names}
            got = {}
            for n in names:
                if any(dv[n] is None and n not in {x.args[1] for x, _ in l.args} for l in ls):
                    break
                got[n] = map_leaves(v, lambda l, n=n: {x.args[1]: y for x, y in l.args}.get(n, dv[n]))
            else:
                out.update(got)
                continue
            out[k] = v
        return out

    def bind(self, f, args, kw):
        """-> dict param->term or None."""
        if any(k.startswith("**") for k in kw):
            kw = self.spread(f, kw)
        if any(a.op == "star" for a in args) or any(k.startswith("**") for k in kw):
            return None
        b = {}
        if len(args) > len(f.pos):
            if not f.vararg:
                return None
            b[f.vararg] = raw("tuple", *args[len(f.pos):])
            args = args[:len(f.pos)]
        elif f.vararg:
            b[f.vararg] = raw("tuple")
        for n, a in zip(f.pos, args):
            b[n] = a
        extra = {}
        for k, v in kw.items():
            if k in f.pos or k in f.kwonly:
                if k in b:
                    return None
                b[k] = v
            elif f.kwarg:
                extra[k] = v
            else:
                return None
        if f.kwarg:
            b[f.kwarg] = T.mkdict([(const(k), v) for k, v in extra.items()])
        for n in f.pos + f.kwonly:
            if n not in b:
                if n in f.defaults:
                    b[n] = self.ev(f.defaults[n], State(), Frame(None, f.module, None, None))
                else:
                    return None
        return b

    def norm_args(self, f, args, kw):
        """positional/keyword/default spelling -> one canonical form."""
        if f is None:
            return args, kw
        b = self.bind(f, args, kw)
        if b is None:
            return args, kw
        out = []
        for n in f.pos:
            out.append(b[n])
        k2 = {n: b[n] for n in f.kwonly}
        # drop trailing defaults so adding defaulted parameters is invisible
        while out and f.pos[len(out) - 1] in f.defaults:
            d = self.ev(f.defaults[f.pos[len(out) - 1]], State(), Frame(None, f.module, None, None))
            if out[-1] is d:
                out.pop()
            else:
                break
        for n in f.kwonly:
            if n in f.defaults and k2[n] is self.ev(f.defaults[n], State(), Frame(None, f.module, None, None)):
                del k2[n]
        if f.vararg:
            va = b[f.vararg]
            out += list(va.args)
        if f.kwarg and b[f.kwarg].op == "dict":
            for k, v in b[f.kwarg].args:
                k2[k.args[1]] = v
        return out, k2

    def note_defaults(self, g, f, off):
        """defaults of the trailing parameters, for calls whose arguments are only settled case by case."""
        if g not in self.defmap:
            self.defmap[g] = tuple(self.ev(f.defaults[n], State(), Frame(None, f.module, None, None)) if n in f.defaults else None
                                   for n in f.pos[off:])

    def inline(self, f, b, st, fr, selfterm, lex=None, call=None, off=0):
        key = f.qual
        if self.stack.count(key) >= 1 or len(self.stack) > 14:
            return None
        if f.is_generator():
            return None
        self.stack.append(key)
        self.sites.append((getattr(call, "lineno", 0), getattr(call, "col_offset", 0)))
        self.inlined.add(key)
        argx = {}     # parameter -> the caller's expression for it
        if call is not None:
            for i, a in enumerate(call.args):
                if isinstance(a, ast.Starred):
                    break
                if i + off < len(f.pos):
                    argx[f.pos[i + off]] = a
            for k in call.keywords:
                if k.arg is not None:
                    argx[k.arg] = k.value
        q = State()
        own = set(b)
        if lex is not None:
            own |= _stored_names(f.node)
            q.env = {k: v for k, v in lex[0].env.items() if k not in own}
            q.alias = {k: g for k, g in lex[0].alias.items() if k not in own}
            q.origin = {k: g for k, g in lex[0].origin.items() if k not in own}
        q.env.update(b)
        q.heap, q.pc, q.events, q.mods, q.pmut = st.heap, st.pc, st.events, st.mods, st.pmut
        q.ver = st.ver
        for n, v in b.items():
            # arguments that denote caller objects keep their location
            for n2, l in st.origin.items():
                if st.env.get(n2) is v and v.op not in ("num", "const"):
                    q.origin[n] = l
        tracked = set(q.origin)
        nfr = Frame(f, f.module, f.cls if f.cls is not None else (lex[1].cls if lex else None),
                    selfterm if f.cls is not None else (lex[1].selfterm if lex else None), parent=lex)
        if f.cls is None and lex is None and fr.selfterm is not None and any(v is fr.selfterm for v in b.values()):
            nfr.cls, nfr.selfterm = fr.cls, fr.selfterm    # a helper handed the object itself
        saved, self.raised = self.raised, []
        savedx, self.exits = self.exits, []
        out = self.run(f.node.body, q, nfr)
        rets = [x for x in self.exits if not x[4]]
        self.join_exits(rets, q)
        self.exits = savedx + [x for x in self.exits if x[4]]
        out = map_leaves(out, lambda l: raw("ret", NONE) if l is FALL else l)
        self.raised = saved
        st.heap, st.mods, st.pmut, st.ver = q.heap, q.mods, q.pmut, q.ver
        if lex is not None:
            for k in list(lex[0].env):
                if k not in own and k in q.env:
                    lex[0].env[k] = q.env[k]
        for n, l in st.origin.items():
            if l[0] == "h" and l[1] in st.heap:
                st.env[n] = st.heap[l[1]][2]
            elif l[0] == "p" and l[1] in st.pmut:
                st.env[n] = st.pmut[l[1]][1]
        # objects the callee mutated in place are visible to the caller
        for n, v0 in b.items():
            if n in tracked or _rebinds(f.node, n):
                continue
            v1 = q.env.get(n)
            for x in reversed(rets):
                if v1 is not None and x[0] is not FALSE:
                    v1 = ite(x[0], x[5].get(n, v0), v1)
            if v1 is not None and v1 is not v0:
                x = argx.get(n)
                if isinstance(x, ast.Name) and x.id in st.env and st.env[x.id] is v1:
                    continue
                if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and not any(
                        isinstance(y, (ast.Call, ast.NamedExpr)) for y in ast.walk(x)):
                    self.assign_into(x, v1, st, fr, mutate=v0)
                elif not is_fresh(v0):
                    for n2, v2 in list(st.env.items()):
                        if v2 is v0:
                            st.env[n2] = v1
        rg = map_leaves(out, lambda l: TRUE if l.op == "raise" else FALSE)
        if rg is not FALSE:
            for l, g in leaf_guards(out):
                if l.op == "raise":
                    self.raised.append((g, l))
            st.pc = b_and(st.pc, b_not(rg))
        self.stack.pop()
        self.sites.pop()
        return drop_raised(map_leaves(out, lambda l: l.args[0] if l.op == "ret" else RAISED))

    def overridden(self, cls, name):
        """some subclass replaces the method: which body runs is not known statically."""
        c = self.tree.__dict__.setdefault("_overridden", {})
        k = (cls.qual, name)
        if k not in c:
            c[k] = any(name in d.methods and d is not cls and any(x.qual == cls.qual for x in self.tree.mro(d))
                       for d in self.tree.all_classes())
        return c[k]

    def should_inline(self, f):
        if not self.known(f.qual):
            return True
        if self.deep:
            n = sum(1 for _ in walk_scope(f.node))
            return n < self.deep and len(self.stack) < 6 and not any(
                "abstract" in d or "contextmanager" in d or "lru_cache" in d for d in f.decorators)
        return False

    def call_fn(self, fn, e, st, fr, stmt):
        if fn.op == "localfunc":
            f = self.locals_.get(fn.args[2])
            args, kw = self.args(e, st, fr)
            if f is not None:
                if args and args[-1].op == "star" and not f.vararg and not kw and not f.defaults and not f.kwonly:
                    v = args[-1].args[0]   # f(*v) with a fixed arity: v has exactly that many elements
                    args = args[:-1] + [T.idx(v, num(i)) for i in range(len(f.pos) - len(args) + 1)]
                b = self.bind(f, args, kw)
                if b is not None:
                    # writes to captured state happen in the enclosing env
                    lst, lfr = f.lex
                    use = (st, lfr) if lfr is fr else (getattr(lfr, "state", lst), lfr)
                    r = self.inline(f, b, st, fr, None, lex=use, call=e)
                    if r is not None:
                        return r
            if f is not None and f.qual in self.stack:
                tgt = raw("recfn", len(self.stack) - self.stack.index(f.qual))
            else:
                tgt = self.materialize(fn, st, fr) if f is not None else raw("opaque", "localcall")
            t = T.call(tgt, tuple(args), tuple(kw.items()))
            if stmt:
                self.effect(st, t, fr, [], list(args) + list(kw.values()), stmt)
            return t
        if fn.op == "glob":
            g = fn.args[0]
            if g == "map" and len(e.args) == 2 and not e.keywords:
                fake = self._map_call(e, st, fr)
                if fake is not None:
                    return fake
            if g == "filter" and len(e.args) == 2 and not e.keywords and not isinstance(e.args[0], ast.Starred):
                x = ast.Name(id="$f", ctx=ast.Load())
                none = isinstance(e.args[0], ast.Constant) and e.args[0].value is None
                test = x if none else ast.Call(func=e.args[0], args=[x], keywords=[])
                comp = ast.ListComp(elt=x, generators=[ast.comprehension(
                    target=ast.Name(id="$f", ctx=ast.Store()), iter=e.args[1], ifs=[test], is_async=0)])
                return self.ev(ast.fix_missing_locations(ast.copy_location(comp, e)), st, fr)
            if g == "dict" and len(e.args) == 1 and not e.keywords:
                a = e.args[0]
                comp = None
                if isinstance(a, (ast.GeneratorExp, ast.ListComp)) and isinstance(a.elt, (ast.Tuple, ast.List)) and len(a.elt.elts) == 2:
                    comp = ast.DictComp(key=a.elt.elts[0], value=a.elt.elts[1], generators=a.generators)
                elif isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("zip", "enumerate") \
                        and not a.keywords:
                    ns = [ast.Name(id=n, ctx=c) for c in (ast.Store(), ast.Load()) for n in ("$k", "$v")]
                    comp = ast.DictComp(key=ns[2], value=ns[3], generators=[ast.comprehension(
                        target=ast.Tuple(elts=ns[:2], ctx=ast.Store()), iter=a, ifs=[], is_async=0)])
                if comp is not None:
                    return self.ev(ast.fix_missing_locations(ast.copy_location(comp, e)), st, fr)
            args, kw = self.args(e, st, fr)
            if g == "concurrent.futures.as_completed" and len(args) == 1 and not kw and unfuture(args[0]) is not None:
                return raw("anyorder", args[0])
            if g.startswith("spins"):
                tgt = self.tree.find(g)
                if tgt is None and "." in g:   # method reached through the class object
                    tgt = None
                if isinstance(tgt, Func):
                    if self.should_inline(tgt):
                        b = self.bind(tgt, args, kw)
                        if b is not None and (tgt.cls is None or True):
                            r = self.inline(tgt, b, st, fr, args[0] if tgt.cls is not None and args else None, call=e)
                            if r is not None:
                                return r
                    if tgt.is_classmethod:
                        pass
                    else:
                        args, kw = self.norm_args(tgt, args, kw)
                    args = [self.versioned(self.materialize(a, st, fr), st) for a in args]
                    kw = {k: self.versioned(self.materialize(v, st, fr), st) for k, v in kw.items()}
                    if not tgt.vararg:
                        self.note_defaults(g, tgt, 0)
                    t = T.call(fn, tuple(args), tuple(kw.items()))
                    self.effect(st, t, fr, [], list(args) + list(kw.values()), stmt, impure=None, callee=tgt)
                    return t
                if isinstance(tgt, Class):
                    init = self.tree.method(tgt, "__init__")
                    if init is not None:
                        a2, k2 = self.norm_args(init, [NONE] + args, kw)
                        if a2 and a2[0] is NONE:
                            args, kw = a2[1:], k2
                            if not init.vararg:
                                self.note_defaults(g, init, 1)
                    args = [self.materialize(a, st, fr) for a in args]
                    kw = {k: self.materialize(v, st, fr) for k, v in kw.items()}
                    args, kw = self.by_field(g, args, kw)
                    t = T.call(fn, tuple(args), tuple(kw.items()))
                    if stmt:
                        self.effect(st, t, fr, [], args, stmt)
                    return t
            args = [self.materialize(a, st, fr) for a in args]
            kw = {k: self.materialize(v, st, fr) for k, v in kw.items()}
            args, kw = self.by_field(g, args, kw)
            if g == "collections.deque" and not kw and len(args) < 2:   # a list that is cheap to pop on the left
                return T.call(glob("list"), tuple(args), ())
            if "out" in kw and g.startswith("numpy."):
                self.in_place(kw["out"])
            if g in ("numpy.copyto", "numpy.put", "numpy.place", "numpy.fill_diagonal", "numpy.putmask", "numpy.add.at",
                     "numpy.subtract.at", "random.shuffle", "numpy.random.shuffle") and args:
                self.in_place(args[0])
            if g == "setattr" and len(args) == 3:
                if T.isstr(args[1]):
                    self.set_attr(args[0], args[1].args[1], args[2], st, fr)
                    return NONE
            if g == "operator.getitem" and len(args) == 2:
                return T.idx(*args)
            if g == "getattr" and len(args) == 2 and T.isstr(args[1]):
                return self.getattr(args[0], args[1].args[1], st, fr)
            if g == "next" and len(args) == 2 and not kw and args[0].op == "map" and isinstance(e.args[0], ast.GeneratorExp):
                x, c, body, bv = args[0].args
                vals = [l for l, _ in leaf_guards(body) if l is not NOELEM]
                if len(vals) == 1 and not T.occurs(vals[0], bv):
                    return ite(T.exists(x, bv, c), vals[0], args[1])
                return raw("pick", x, body, bv, args[1])
            t = T.call(fn, tuple(args), tuple(kw.items()))
            if g == "next" and e.args and isinstance(e.args[0], ast.Name):
                self.assign_into(e.args[0], lift(lambda x: raw("mut", x, "next", ()), (args[0],)), st, fr, mutate=args[0])
            elif stmt and g not in PURE_BUILTINS:
                self.effect(st, t, fr, [], list(args) + list(kw.values()), stmt)
            elif g in EFFECT_EXT:
                self.effect(st, t, fr, [], list(args) + list(kw.values()), True)
            return t
        args, kw = self.args(e, st, fr)
        if fn.op == "lam" and fn.args[0] == len(args) and not kw:
            r = self.apply_lam(fn, args)
            if r is not None:
                return r
        args = [self.materialize(a, st, fr) for a in args]
        kw = {k: self.materialize(v, st, fr) for k, v in kw.items()}
        t = T.call(fn, tuple(args), tuple(kw.items()))
        if stmt:
            self.effect(st, t, fr, [fn], list(args) + list(kw.values()), stmt)
        return t

    def apply_lam(self, fn, args):
        n, body = fn.args
        out, evs, heapw = body.args
        if evs or heapw:
            return None
        top = max([x.args[0] for x in T.subterms(body) if x.op == "bv"] + [0])
        # parameters carry the n highest indices
        inner = body.bh
        mp = {}
        free = self._free_bvs(body)
        params = sorted(free, reverse=True)[:n]
        if len(params) < n:
            return None
        for i, a in enumerate(args):
            mp[id(raw("bv", params[i]))] = a
        out2 = T.subst(out, mp)
        if any(l.op != "ret" for l, _ in leaf_guards(out2)):
            return None
        return map_leaves(out2, lambda l: l.args[0])

    def _free_bvs(self, body):
        bound = set()
        allb = set()
        for x in T.subterms(body):
            if x.op == "bv":
                allb.add(x.args[0])
            elif x.op in ("map", "flatmap", "sumof", "exists", "dictmap", "last", "first", "fold", "loopev", "prodof"):
                for c in x.args:
                    if isinstance(c, T.Term) and c.op == "bv":
                        bound.add(c.args[0])
        return allb - bound

    def _map_call(self, e, st, fr):
        it = self.ev(e.args[1], st, fr)
        fnode = e.args[0]
        if isinstance(fnode, ast.Lambda) and len(fnode.args.args) == 1:
            gen = ast.comprehension(target=ast.Name(id=fnode.args.args[0].arg, ctx=ast.Store()), iter=e.args[1], ifs=[], is_async=0)
            return self.comp0([gen], st, fr, lambda q: self.ev(fnode.body, q, fr))
        gen = ast.comprehension(target=ast.Name(id="$m", ctx=ast.Store()), iter=e.args[1], ifs=[], is_async=0)
        c = ast.Call(func=fnode, args=[ast.Name(id="$m", ctx=ast.Load())], keywords=[])
        return self.comp0([gen], st, fr, lambda q: self.ev(c, q, fr))

    def pool_call(self, base, name, e, st, fr):
        """work handed to a thread pool: the results are those of calling the function, map keeps the order."""
        if base.op == "ctx" and base.args[0].op == "call" and T.gname(base.args[0].args[0]) == "concurrent.futures.ThreadPoolExecutor":
            if name == "map" and len(e.args) == 2 and not e.keywords:
                return self._map_call(e, st, fr)
            if name == "submit" and e.args and not isinstance(e.args[0], ast.Starred):
                c = ast.copy_location(ast.Call(func=e.args[0], args=e.args[1:], keywords=e.keywords), e)
                return map_leaves(self.ev(ast.fix_missing_locations(c), st, fr), lambda l: raw("future", l))
        if name == "result" and not e.args and not e.keywords:
            if base.op == "future":
                return base.args[0]
            if base.op in ("idx", "elem"):
                c = unfuture(base.args[0])
                if c is not None:
                    return raw(base.op, c, *base.args[1:])
        return None

    def method_call(self, base, name, bexpr, e, st, fr, stmt):
        if name in ("map", "submit", "result"):
            r = self.pool_call(base, name, e, st, fr)
            if r is not None:
                return r
        args, kw = self.args(e, st, fr)
        if name == "__getitem__" and len(args) == 1 and not kw:
            return T.idx(base, args[0])
        if name == "__contains__" and len(args) == 1 and not kw:
            return T.in_(args[0], base)
        if name == "__len__" and not args and not kw:
            return T.call(glob("len"), (base,), ())
        # string formatting / joining
        if name == "format" and (T.isstr(base)):
            r = self.format(base.args[1], args, tuple(kw.items()))
            if r is not None:
                return r
        is_self = fr.selfterm is not None and base is fr.selfterm and fr.cls is not None
        target = self.tree.method(fr.cls, name) if is_self else None
        if target is not None and (target.is_static):
            fargs = args
        else:
            fargs = [base] + args
        if target is not None and self.should_inline(target) and not target.is_classmethod and not self.overridden(fr.cls, name):
            b = self.bind(target, fargs, kw)
            if b is not None:
                r = self.inline(target, b, st, fr, base, call=e, off=0 if target.is_static else 1)
                if r is not None:
                    return r
        if target is None and not is_self:
            cands = self.tree.methods_named(name)
            if len(cands) == 1 and not self.known(cands[0].qual) and not cands[0].is_static:
                b = self.bind(cands[0], fargs, kw)
                if b is not None:
                    r = self.inline(cands[0], b, st, fr, base, call=e, off=1)
                    if r is not None:
                        return r
        args = [self.materialize(a, st, fr) for a in args]
        kw = {k: self.materialize(v, st, fr) for k, v in kw.items()}
        if name in ("search", "match", "fullmatch", "findall", "finditer", "split", "sub", "subn") and base.op == "call" \
                and T.gname(base.args[0]) == "re.compile" and len(base.args[1]) == 1 and not base.args[2]:
            return T.call(glob("re." + name), (base.args[1][0],) + tuple(args), tuple(kw.items()))
        if name == "popleft" and not args and not kw:
            name, args = "pop", [num(0)]
        elif name == "appendleft" and len(args) == 1 and not kw:
            name, args = "insert", [num(0)] + list(args)
        # container mutators
        if name in MUTATORS and not (target is not None) and not self._repo_mutator(name, base):
            return self.mutator(base, name, bexpr, args, kw, st, fr, stmt)
        # numpy methods
        if name in T.METHOD_NP and target is None:
            g = T.METHOD_NP[name]
            a = [base] + args
            if name == "transpose" and len(args) > 1:
                a = [base, raw("tuple", *args)]
            return T.call(glob(g), tuple(a), tuple(kw.items()))
        if name == "get" and target is None and 1 <= len(args) <= 2 and not kw and args[0] not in (TRUE, FALSE) \
                and not (len(args) == 1 and args[0].op == "sym" and self.tree.methods_named("get")):
            d = args[1] if len(args) == 2 else NONE
            return lift(lambda b, k, d: ite(T.in_(k, b), T._idx(b, k), d), (base, args[0], d))
        if name in ("keys",) and target is None and not args:
            return lift(lambda b: raw("call", raw("method", "keys"), (b,), ()), (base,))
        snap = ()
        if target is not None:
            a2, k2 = self.norm_args(target, fargs, kw)
            if not target.is_static:
                a2 = a2[1:] if a2 and a2[0] is base else a2
            args, kw = a2, k2
            mod, ref = self.modref(fr.cls, name)
            snap = tuple(sorted(((n, v) for (bid, n), (b, _, v) in st.heap.items()
                                 if b is base and n in ref and v is not T.attr(b, n)), key=lambda x: x[0]))
        else:
            cands = [c for c in self.tree.methods_named(name)]
            if cands:
                sigs = {(tuple(c.pos[1:]), tuple(sorted(c.defaults)), tuple(c.kwonly), c.vararg, c.kwarg, c.is_static)
                        for c in cands}
                if len(sigs) == 1 and not cands[0].is_static and not cands[0].is_classmethod:
                    a2, k2 = self.norm_args(cands[0], [base] + args, kw)
                    if a2 and a2[0] is base:
                        args, kw = a2[1:], k2
        base0 = base
        if target is None:
            base = self.versioned(base, st)
        args = [self.versioned(a, st) for a in args]
        kw = {k: self.versioned(a, st) for k, a in kw.items()}
        kws = tuple(kw.items())
        if snap:
            kws = kws + (("$state", raw("snap", tuple(n for n, _ in snap), *[v for _, v in snap])),)
        t = T.call(raw("method", name), tuple([base] + list(args)), kws)
        if target is not None:
            mod, ref = self.modref(fr.cls, name)
            if mod:
                st.mods = st.mods + ((frozenset(mod), t),)
                for k in list(st.heap):
                    if st.heap[k][0] is base and st.heap[k][1] in mod:
                        b, n, v = st.heap[k]
                        st.heap[k] = (b, n, lift(lambda v, t: raw("after", n, v, t), (v, t)))
            self.effect(st, t, fr, [base], list(args) + list(kw.values()), stmt or bool(mod), callee=target)
        elif stmt:
            self.effect(st, t, fr, [base], list(args) + list(kw.values()), stmt)
        if target is None and base0.op not in ("const", "num", "glob", "ite") and (stmt or self.name_impure(name)):
            st.ver[id(base0)] = (base0, t)
        return t

    def versioned(self, b, st):
        v = st.ver.get(id(b))
        if v is None:
            return b
        return lift(lambda l: b if l is NONE else raw("ver", b, l), (v[1],))

    def name_impure(self, name):
        """some repository method of that name writes attributes of its object."""
        c = self.tree.__dict__.setdefault("_name_impure", {})
        if name not in c:
            c[name] = any(m.cls is not None and self.modref(m.cls, name)[0] for m in self.tree.methods_named(name))
        return c[name]

    def _repo_mutator(self, name, base):
        return False

    def mutator(self, base, name, bexpr, args, kw, st, fr, stmt):
        val = None
        if name == "append" and len(args) == 1 and not kw:
            new = lift(lambda b, x: T.concat(b, raw("list", x)), (base, args[0])) if True else None
            val = NONE
        elif name == "extend" and len(args) == 1 and not kw:
            def ext(b, x):
                if x.op == "tuple":
                    x = raw("list", *x.args)
                return T.concat(b, x)
            new = lift(ext, (base, args[0]))
            val = NONE
        elif name == "update" and len(args) == 1 and not kw:
            def upd(b, d):
                if d.op == "dict":
                    for k, v in d.args:
                        b = T._store(b, k, v)
                    return b
                d = T.pairs(d) or d
                if b.op == "dict" and not b.args:
                    return d if d.op == "dictmap" else T.call(glob("dict"), (d,), ())
                if d.op == "dictmap":
                    return raw("foldstore", b, d)
                return raw("mut", b, "update", (d,))
            new = lift(upd, (base, args[0]))
            val = NONE
        elif name == "update" and not args and kw and not any(k.startswith("**") for k in kw):
            new = base
            for k, v in kw.items():
                new = T.store(new, const(k), v)
            val = NONE
        elif name == "sort" and not args:
            new = T.call(glob("sorted"), (base,), tuple(kw.items()))
            val = NONE
        elif name == "setdefault" and len(args) == 2 and not kw:
            new = lift(lambda b, k, v: ite(T.in_(k, b), b, T._store(b, k, v)), (base,) + tuple(args))
            val = lift(lambda b, k, v: ite(T.in_(k, b), T._idx(b, k), v), (base,) + tuple(args))
        elif name == "pop" and not kw and len(args) in (1, 2):
            if len(args) == 2:
                new = lift(lambda b, k, v: ite(T.in_(k, b), raw("delkey", b, k), b), (base,) + tuple(args))
                val = lift(lambda b, k, v: ite(T.in_(k, b), T._idx(b, k), v), (base,) + tuple(args))
            else:
                new = lift(lambda b, k: raw("delkey", b, k), (base, args[0]))
                val = lift(T._idx, (base, args[0]))
        else:
            flat = tuple(args) + tuple(v for _, v in sorted(kw.items()))
            new = lift(lambda b, *a: raw("mut", b, name, tuple(a)), (base,) + flat)
            val = lift(lambda b, *a: raw("call", raw("method", name), (b,) + tuple(a), ()), (base,) + flat)
        root_known = isinstance(bexpr, (ast.Name, ast.Attribute, ast.Subscript)) or \
            isinstance(bexpr, ast.Call) and isinstance(bexpr.func, ast.Attribute) and bexpr.func.attr == "setdefault"
        if root_known:
            self.assign_into(bexpr, new, st, fr, mutate=base)
            def traced(r):
                while r.op in ("idx", "elem", "attr") and isinstance(r.args[0], T.Term):
                    r = r.args[0]
                if r.op == "ite":
                    return all(traced(l) for l, _ in leaf_guards(r))
                return r.op == "sym" or is_fresh(r) or r.op in ("acc", "store", "mut", "glob")
            def made(r):
                while r.op in ("idx", "elem") and isinstance(r.args[0], T.Term):
                    r = r.args[0]
                return r.op == "call"
            if not traced(base) and made(base) and (name == "sort" or name == "update" and base.op == "call" and
                                                    all(l.op == "store" for l, _ in leaf_guards(new))):
                self.in_place(base)     # as d[k] = v
            elif not traced(base):
                leaf = lift(lambda b, *a: raw("call", raw("method", name), (b,) + tuple(a), ()), (base,) + tuple(args))
                self.add_event(st, leaf, self.locs_of(base) or {("?", base.dig.hex()[:8])})
        else:
            leaf = lift(lambda b, *a: raw("call", raw("method", name), (b,) + tuple(a), ()), (base,) + tuple(args))
            self.add_event(st, leaf, self.locs_of(base) or {("?", base.dig.hex()[:8])})
        return val

    # effects -------------------------------------------------------------
    def effect(self, st, t, fr, recv, args, stmt, impure=None, callee=None):
        if not stmt and impure is not True and not (callee is not None and callee.cls is None and self.impure(callee)):
            return
        if callee is not None and stmt and callee.cls is None and not self.impure(callee) and False:
            return
        if all(l.op == "call" and pure_external(T.gname(l.args[0])) for l, _ in leaf_guards(t)):
            return
        locs = set()
        for r in recv:
            locs |= self.locs_of(r) or {("?", r.dig.hex()[:8])}
        for a in args:
            if isinstance(a, T.Term):
                for p in self.locs_of(a):
                    locs.add(("~",) + p if recv else p)
        self.add_event(st, t, locs)

    def impure(self, f, seen=None):
        """function (syntactically) mutates parameters, globals or does I/O."""
        c = getattr(self, "_imp", None)
        if c is None:
            c = self._imp = {}
        if f.qual in c:
            return c[f.qual]
        c[f.qual] = False
        ps = set(f.pos) | set(f.kwonly)
        loc = set()
        for n in walk_scope(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            loc.add(x.id)
        r = False
        for n in walk_scope(f.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in ps and b.id not in loc:
                    r = True
            if isinstance(n, ast.Global):
                r = True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = n.func.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in ps and b.id not in loc:
                    r = True
        c[f.qual] = r
        return r

    def modref(self, cls, name):
        k = (cls.qual, name)
        if k in self._mr:
            return self._mr[k]
        self._mr[k] = (set(), set())
        f = self.tree.method(cls, name)
        mod, ref = set(), set()
        if f is not None and f.pos:
            me = f.pos[0]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    if isinstance(n.ctx, (ast.Store, ast.Del)):
                        mod.add(n.attr)
                    else:
                        ref.add(n.attr)
                        m = self.tree.method(cls, n.attr)
                        if m is not None and m.qual != f.qual:
                            a, b = self.modref(cls, n.attr)
                            mod |= a
                            ref |= b
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == me:
                        mod.add(b.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    b = n.func.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == me:
                        mod.add(b.attr)
        self._mr[k] = (mod, ref)
        return mod, ref

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        st.env["$yield"] = T.add(st.env.get("$yield", raw("list")), raw("list", v))
        return raw("sym", "$sent")

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        st.env["$yield"] = T.concat(st.env.get("$yield", raw("list")), v)
        return NONE


EFFECT_EXT = {"os.makedirs", "os.remove", "os.rename", "os.replace", "shutil.move", "shutil.copy", "json.dump", "pickle.dump"}


def path_name(b):
    if b.op == "sym":
        return ":".join(str(x) for x in b.args)
    if b.op == "attr":
        return path_name(b.args[0]) + "." + b.args[1]
    if b.op == "glob":
        return b.args[0]
    return "<" + b.dig.hex()[:10] + ">"


def _acc_h(t):
    return max([x.args[0] for x in T.subterms(t) if x.op == "accref"] + [0])


def conflict(a, b):
    """a '~' prefix marks a location passed as an argument; two argument uses commute."""
    for x in a:
        for y in b:
            if x == ("*",) or y == ("*",):
                return True
            ax, ay = x[0] == "~", y[0] == "~"
            if ax and ay:
                continue
            x1 = x[1:] if ax else x
            y1 = y[1:] if ay else y
            n = min(len(x1), len(y1))
            if x1[:n] == y1[:n]:
                return True
    return False


def is_fresh(t):
    return t.op in ("list", "dict", "set", "tuple", "concat", "map", "flatmap", "dictmap", "poly", "num", "const",
                    "strfmt", "store", "mut", "foldstore", "fold", "last", "matmul", "rep") or (
        t.op == "call" and t.args[0].op == "glob" and not t.args[0].args[0].startswith("spins"))


VIEWS = {"numpy." + n for n in ("asarray ravel reshape squeeze transpose atleast_1d atleast_2d atleast_3d moveaxis swapaxes "
                                "expand_dims flip broadcast_to diagonal asanyarray ascontiguousarray rollaxis").split()}
SCALAR_ANN = {"int", "float", "complex", "bool", "str", "bytes", "tuple"}


def _scalar_param(f, name):
    """a parameter declared (or defaulted) to be an immutable scalar."""
    node = f.node
    a = getattr(node, "args", None)
    if a is None:
        return False
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == name:
            an = x.annotation
            if isinstance(an, ast.Constant) and isinstance(an.value, str):
                return an.value in SCALAR_ANN
            if isinstance(an, ast.Name):
                return an.id in SCALAR_ANN
            if isinstance(an, ast.Subscript) and isinstance(an.value, ast.Name) and an.value.id == "Tuple":
                return True
            d = f.defaults.get(name) if hasattr(f, "defaults") else None
            if isinstance(d, ast.UnaryOp):
                d = d.operand
            return isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str, complex, bool))
    return False


_USED = {}


def _used_names(fn):
    """names a function reads, other than in expression statements that only name them."""
    r = _USED.get(id(fn))
    if r is None or r[0] is not fn:
        bare = {id(x.value) for x in ast.walk(fn) if isinstance(x, ast.Expr) and isinstance(x.value, ast.Name)}
        names = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store) and id(x) not in bare}
        names |= {x.target.id for x in ast.walk(fn) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        names |= {n for x in ast.walk(fn) if isinstance(x, (ast.Nonlocal, ast.Global)) for n in x.names}
        r = _USED[id(fn)] = (fn, names)
    return r[1]


def drop_raised(t):
    """a value that is only used where nothing was raised: the conditions that only decide whether
    something is raised do not appear in it."""
    if t.op != "ite":
        return t
    if t.leaves <= 256:
        for n in T.diagram_nodes(t):
            a = n.args[0]
            if t.op != "ite":
                break
            m = _overlay(T.restrict(t, a, True), T.restrict(t, a, False), {})
            if m is not None:
                t = m

    def go(t, memo):
        if t.op != "ite":
            return t
        if id(t) not in memo:
            a, b = go(t.args[1], memo), go(t.args[2], memo)
            memo[id(t)] = b if a is RAISED else (a if b is RAISED else ite(T.atom_bool(t.args[0]), a, b))
        return memo[id(t)]
    return go(t, {})


def _overlay(x, y, memo):
    """one diagram that agrees with both where they are defined, or None."""
    if x is y or y is RAISED:
        return x
    if x is RAISED:
        return y
    if x.op != "ite" and y.op != "ite":
        return None
    k = (id(x), id(y))
    if k not in memo:
        at = min((z.args[0] for z in (x, y) if z.op == "ite"), key=lambda z: z.dig)
        hi = _overlay(T._cof(x, at, 1), T._cof(y, at, 1), memo)
        lo = _overlay(T._cof(x, at, 0), T._cof(y, at, 0), memo) if hi is not None else None
        memo[k] = None if lo is None else ite(T.atom_bool(at), hi, lo)
    return memo[k]


IMPURE_NP = {"copyto", "put", "place", "putmask", "fill_diagonal", "save", "savez", "savetxt", "savez_compressed", "seterr",
             "set_printoptions", "put_along_axis", "errstate", "seterrcall"}


def pure_external(g):
    """a library call that only computes a value (so that dropping an unused result drops nothing)."""
    if not g or not (g.startswith("numpy.") or g.startswith("scipy.sparse.")):
        return False
    return not (g.split(".")[-1] in IMPURE_NP or ".random." in g or ".linalg." in g or g.split(".")[-1] in
                ("stack", "concatenate", "reshape", "broadcast_to"))


def _turn_src(e, i):
    """the expression that the i-th turn of a loop over the literal e is bound to."""
    if isinstance(e, (ast.Tuple, ast.List)):
        return e.elts[i] if i < len(e.elts) and not any(isinstance(x, ast.Starred) for x in e.elts) else None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
        none = ast.Constant(value=None)
        if e.func.id == "enumerate" and e.args:
            return ast.Tuple(elts=[none, _turn_src(e.args[0], i) or none], ctx=ast.Load())
        if e.func.id == "zip":
            return ast.Tuple(elts=[_turn_src(a, i) or none for a in e.args], ctx=ast.Load())
    return None


def len_of(n):
    """the container a (possibly gated) length is the length of."""
    ok = all(l.op == "call" and T.gname(l.args[0]) == "len" and len(l.args[1]) == 1 for l, _ in leaf_guards(n))
    return map_leaves(n, lambda l: l.args[1][0]) if ok else None


def unlift_call(it):
    """a gate between calls of the same iterator builtin is that builtin applied to gated arguments."""
    if it.op != "ite":
        return it
    ls = [l for l, _ in leaf_guards(it)]
    g = T.gname(ls[0].args[0]) if ls[0].op == "call" else None
    if g not in ("enumerate", "zip", "range", "list", "tuple", "iter"):
        return it
    if any(l.op != "call" or T.gname(l.args[0]) != g or len(l.args[1]) != len(ls[0].args[1]) or l.args[2] for l in ls):
        return it
    args = tuple(map_leaves(it, lambda l, i=i: l.args[1][i]) for i in range(len(ls[0].args[1])))
    return raw("call", ls[0].args[0], args, ())


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _as_def(l):
    n = ast.FunctionDef(name="<lambda>", args=l.args, body=[ast.copy_location(ast.Return(value=l.body), l)],
                        decorator_list=[], returns=None)
    return ast.copy_location(n, l)


def mutated_consts(tree):
    c = tree.__dict__.get("_mutated_consts")
    if c is None:
        c = set()
        for m in tree.modules.values():
            for n in ast.walk(m.tree):
                t = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    t = n.func.value
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = n.value
                elif isinstance(n, ast.AugAssign):
                    t = n.target
                elif isinstance(n, ast.Global):
                    c |= set(n.names)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    t = n
                if isinstance(t, ast.Name):
                    c.add(t.id)
                elif isinstance(t, ast.Attribute):
                    c.add(t.attr)
        tree._mutated_consts = c
    return c


def simple_literal(n):
    if isinstance(n, ast.Constant):
        return True
    if isinstance(n, ast.UnaryOp):
        return simple_literal(n.operand)
    if isinstance(n, ast.BinOp):
        return simple_literal(n.left) and simple_literal(n.right)
    if isinstance(n, (ast.Tuple, ast.List)):
        return all(simple_literal(x) for x in n.elts)
    return False


def _has_break(body):
    for s in body:
        st = [s]
        while st:
            n = st.pop()
            if isinstance(n, ast.Break):
                return True
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
                continue
            st.extend(ast.iter_child_nodes(n))
    return False


def _mutated_names(fn):
    out = set()
    for n in walk_scope(fn):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            b = n.func.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
    return out


def _stored_names(fn):
    out, non = set(), set()
    for n in walk_scope(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.Nonlocal):
            non |= set(n.names)
        elif isinstance(n, ast.FunctionDef):
            out.add(n.name)
    return out - non


def _dotted(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def or_empty(it):
    """(c, X) for what is X where c holds and an empty literal otherwise."""
    if it.op != "ite":
        return None
    def empty(l):
        return l.op in ("list", "tuple", "dict", "set") and not l.args
    ls = {id(l): l for l, _ in leaf_guards(it)}
    full = [l for l in ls.values() if not empty(l)]
    if len(full) != 1 or len(ls) < 2:
        return None
    return map_leaves(it, lambda l: FALSE if empty(l) else TRUE), full[0]


def a_literal(it):
    """(c, [a, b], X) for what is the display [a, b] where c holds and X otherwise."""
    if it.op != "ite":
        return None
    ls = {id(l): l for l, _ in leaf_guards(it)}
    lit = [l for l in ls.values() if l.op in ("list", "tuple") and len(l.args) <= 3 and not any(x.op == "star" for x in l.args)]
    if not lit or len(ls) > 3 or len(lit) < len(ls) - 1:
        return None
    l0 = min(lit, key=lambda l: len(l.args))
    c = map_leaves(it, lambda l: TRUE if l is l0 else FALSE)
    rest = [l for l in ls.values() if l is not l0]
    if len(rest) == 1:
        return c, l0, rest[0]
    one = map_leaves(it, lambda l: TRUE if l is rest[0] else FALSE)
    return c, l0, ite(one, rest[0], rest[1])


class TermExpr(ast.expr):
    """an expression whose value is already a term."""
    _fields = ()

    def __init__(self, term):
        super().__init__()
        self.term = term
        self.lineno = self.col_offset = self.end_lineno = self.end_col_offset = 0


def _mutated_in(body):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                    and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                x = n.value
                while isinstance(x, ast.Subscript):
                    x = x.value
                if isinstance(x, ast.Name):
                    out.add(x.id)
    return out


def _holds(x, t, d=3):
    """a container literal that has t itself as an element."""
    if x is t:
        return d < 3
    return d > 0 and x.op in ("tuple", "list", "dict") and any(_holds(c, t, d - 1) for c in T.children(x))


def _method_alias(f, name):
    """the attribute expression a local name stands for, when it is bound once, only ever called,
    and nothing the expression is made of is rebound in the function."""
    al = f.__dict__.get("_aliases")
    if al is None:
        al = {}
        cand, stores, loads, called, attrs = {}, {}, {}, {}, set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name):
                d = stores if isinstance(n.ctx, (ast.Store, ast.Del)) else loads
                d[n.id] = d.get(n.id, 0) + 1
            elif isinstance(n, ast.arg):
                stores[n.arg] = stores.get(n.arg, 0) + 1
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                attrs.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                called[n.func.id] = called.get(n.func.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and isinstance(n.value, ast.Attribute):
                cand[n.targets[0].id] = n.value
        top = {id(s.value) for s in getattr(f.node, "body", []) if isinstance(s, ast.Assign)} \
            if isinstance(getattr(f.node, "body", None), list) else set()
        for v, ex in cand.items():
            if stores.get(v) != 1 or loads.get(v, 0) != called.get(v, 0) or not loads.get(v) or id(ex) not in top:
                continue
            r, ok = ex.value, True
            while isinstance(r, ast.Attribute):
                ok = ok and r.attr not in attrs
                r = r.value
            if ok and isinstance(r, ast.Name) and stores.get(r.id, 0) <= 1 and ex.attr not in attrs:
                al[v] = ex
        f.__dict__["_aliases"] = al
    return al.get(name)


def _rebinds(fn, name):
    for n in (walk_scope(fn) if isinstance(fn, (ast.FunctionDef, ast.Lambda)) else ast.walk(fn)):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            return True
    return False


ARRAY_NOTES = ("ndarray", "np.array", "numpy.array", "List[", "Dict[", "Set[", "field_t", "GridSpacing", "dx_lists_t")
ARRAY_MAKERS = {"numpy." + x for x in ("zeros", "ones", "empty", "full", "array", "zeros_like", "ones_like", "arange", "linspace", "eye")}


def array_params(f):
    """ids of the parameter symbols declared (by annotation or default value) as arrays or containers."""
    a = f.node.args
    pos = a.posonlyargs + a.args
    dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    out = set()
    for i, x in enumerate(pos + a.kwonlyargs):
        note = ast.unparse(x.annotation) if x.annotation is not None else ""
        if note in ("list", "dict", "set"):
            note += "["
        d = dflt.get(x.arg)
        made = isinstance(d, (ast.List, ast.Dict, ast.Set))
        if isinstance(d, ast.Call):
            n = ast.unparse(d.func)
            made = n in ("list", "dict", "set") or n.replace("np.", "numpy.", 1) in ARRAY_MAKERS
        if made or any(w in note for w in ARRAY_NOTES):
            out.add(id(raw("sym", "p", i) if i < len(pos) else raw("sym", "k", x.arg)))
    return out
