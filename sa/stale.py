"""Rule stale_state: data that a change makes an object remember between calls must be determined by what it is keyed with.

For every class whose methods store attributes the reference does not have, the value graphs of its methods say
  - which results read such an attribute as it was left by an earlier call,
  - what was stored there (or, for a table, stored under which key), and
  - which conditions and keys guard the read.
A stored value that depends on an argument, or on an attribute that other methods change, which no guard or key of the read
contains (or only through a function that loses information) makes the result depend on earlier calls.
Nothing is reported when an attribute of the reference disappeared (a renaming or regrouping of state).
"""
import ast

from . import terms as T
from .repo import Class
from .rules import Finding, MUT, dedupe, dotted, in_place, rule

LOSSY = {"id", "len", "hash", "round", "int", "type", "bool", "sum", "max", "min", "any", "all"} | {
    "numpy." + n for n in ("sum", "mean", "max", "min", "prod", "shape", "size", "ndim", "linalg.norm", "round", "rint", "floor",
                           "ceil", "around", "real", "imag", "abs", "sign", "allclose", "isclose", "any", "all", "median", "std",
                           "var", "argmax", "argmin", "count_nonzero", "trunc", "fix", "dot", "iscomplexobj", "isrealobj", "trace")}
LOSSY_METHODS = {"sum", "mean", "max", "min", "prod", "any", "all", "round", "argmax", "argmin", "std", "var", "trace", "keys"}
LOSSY_ATTRS = {"shape", "size", "dtype", "ndim", "nbytes", "strides"}
P0 = T.raw("sym", "p", 0)


def self_stores(fn, selfname):
    """attribute names of self that a function assigns or changes in place."""
    out = set()

    def mine(e):
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == selfname
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and mine(n):
            out.add(n.attr)
        # self.x.y = ..., out=self.x
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and mine(n.value):
            out.add(n.value.attr)
        if isinstance(n, ast.keyword) and n.arg == "out" and mine(n.value):
            out.add(n.value.attr)
    for n in in_place(fn, mine):
        t = n.func.value if isinstance(n, ast.Call) else (n.target if isinstance(n, ast.AugAssign) else n.targets[0])
        for x in ast.walk(t):
            if mine(x):
                out.add(x.attr)
    return out


class Family:
    """a class with its ancestors and descendants."""

    def __init__(self, tree, cls):
        self.tree, self.cls = tree, cls
        up = tree.mro(cls)
        down = [c for c in tree.all_classes() if cls in tree.mro(c) and c not in up]
        self.classes = list(up) + down
        self.stores = {}          # attr -> functions
        for c in self.classes:
            for m in c.methods.values():
                if m.pos and not m.is_static:
                    for a in self_stores(m.node, m.pos[0]):
                        self.stores.setdefault(a, []).append(m)
        self.declared = set()
        for c in self.classes:
            self.declared |= set(c.attrs) | set(c.methods) | set(c.inner)

    def methods(self):
        return [m for c in self.classes for m in c.methods.values()]

    def init_only(self, m, seen=()):
        """__init__, or a private helper called from nowhere else."""
        if m.name in ("__init__", "__new__", "__post_init__"):
            return True
        if not m.name.startswith("_") or m.name.startswith("__") or m in seen:
            return False
        cs = [x for x in self.methods() if x is not m and any(
            isinstance(n, ast.Attribute) and n.attr == m.name for n in ast.walk(x.node))]
        return bool(cs) and all(self.init_only(x, seen + (m,)) for x in cs)

    def closure(self, name, seen=None):
        """methods reached from a method through self."""
        seen = {} if seen is None else seen
        for c in self.classes:
            m = c.methods.get(name)
            if m is None or m.qual in seen or not m.pos:
                continue
            seen[m.qual] = m
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == m.pos[0]:
                    self.closure(n.attr, seen)
        return seen.values()

    def reads(self, name):
        out = set()
        for m in self.closure(name):
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == m.pos[0] and isinstance(n.ctx, ast.Load):
                    out.add(n.attr)
        return out

    def changers(self, attr):
        """functions that change an attribute after construction."""
        out = [m for m in self.stores.get(attr, ()) if not self.init_only(m)]
        own = {c.qual for c in self.classes}
        users = {c.qual for c in self.tree.all_classes() for m in c.methods.values() if m.pos and not m.is_static
                 and any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)
                         and n.value.id == m.pos[0] for n in ast.walk(m.node))}
        if users <= own:
            for f in self.tree.all_funcs():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and not (
                            isinstance(n.value, ast.Name) and f.cls is not None and f.pos and n.value.id == f.pos[0]):
                        out.append(f)
                        break
        return out

    def resets(self, m, attrs):
        """the method also writes one of the remembered attributes, itself or in a method it calls."""
        ms = list(self.closure(m.name)) if m.cls is not None else [m]
        return any(x.pos and self_stores(x.node, x.pos[0]) & attrs for x in ms)


class NewState:
    """attributes a class stores now and did not store in the reference, with what is known about them."""

    def __init__(self, eng, c, r):
        self.eng, self.c, self.r = eng, c, r
        self.fam, self.rfam = Family(eng.cur, c), Family(eng.ref, r)
        known = set(self.rfam.stores) | self.rfam.declared
        mine = {a for x in eng.cur.mro(c) for m in x.methods.values() if m.pos and not m.is_static
                for a in self_stores(m.node, m.pos[0])}
        self.new = mine - known
        self.lost = set(self.rfam.stores) - set(self.fam.stores)
        self._defs = None

    def read_elsewhere(self, f, a):
        """some other function may see the attribute."""
        for m in self.fam.methods():
            if m is not f and any(isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Load) for x in ast.walk(m.node)):
                return True
        changed = getattr(self.eng, "_changed_cur", None)
        if changed is None:
            changed = self.eng._changed_cur = [g for g in self.eng.cur.all_funcs() if not self.eng.identical(g.qual)]
        for g in changed:
            if g is f or (g.cls is not None and g.cls in self.fam.classes):
                continue
            for x in ast.walk(g.node):
                if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Load) and not (
                        g.pos and g.cls is not None and isinstance(x.value, ast.Name) and x.value.id == g.pos[0]):
                    return True
        return False

    def defs(self):
        """id of attr term -> value, for attributes set once from state that never changes."""
        if self._defs is not None:
            return self._defs
        self._defs = {}
        if not self.new or self.lost:
            return self._defs
        init = self.eng.cur.method(self.c, "__init__")
        once = [a for a in self.new if all(self.fam.init_only(m) for m in self.fam.stores.get(a, ())) and not self.fam.changers(a)]
        lazy = [a for a in self.new if a not in once]
        try:
            s = self.eng.summ(self.eng.cur, init) if init is not None else None
        except Exception:
            s = None
        fixed = {}
        if s is not None:
            for k, v in s.attrs.items():
                x = k[4:] if k.startswith("p:0.") else None
                if x and "." not in x and "[" not in x and x not in self.new and not self.fam.changers(x) and paths(v):
                    fixed[x] = v
            mp = {id(v): T.attr(P0, x) for x, v in fixed.items()}
            for a in once:
                v = s.attrs.get("p:0." + a)
                if v is None:
                    continue
                w = T.subst(v, mp)
                if all(p[0] == 0 and len(p) > 1 and p[1] not in self.new for p in paths(w)) and not bad_value(w):
                    self._defs[id(T.attr(P0, a))] = w
        for a in lazy:
            ws = [m for m in self.fam.stores.get(a, ()) if not self.fam.init_only(m)]
            if len(ws) != 1 or ws[0].cls is not self.c:
                continue
            try:
                sm = self.eng.summ(self.eng.cur, ws[0])
            except Exception:
                continue
            w = sm.attrs.get("p:0." + a)
            at = T.attr(P0, a)
            if w is None or w.op != "ite" or w.args[0].op != "is" or at not in w.args[0].args or w.args[2] is not at:
                continue
            v = w.args[1]
            if any(isinstance(x, T.Term) and x.op == "ite" for x in [v]) or bad_value(v) or mentions(v, self.new):
                continue
            if any(p[0] != 0 or len(p) < 2 or self.fam.changers(p[1]) for p in paths(v)) or self_calls(v):
                continue
            if s is not None and s.attrs.get("p:0." + a) is not None and s.attrs["p:0." + a].op == "const":
                self._defs[id(at)] = v
        return self._defs

    def apply(self, s):
        """the summary with such attributes replaced by their values (None: nothing to replace)."""
        d = self.defs()
        if not d:
            return None
        roots = [s.outcome] + list(s.attrs.values()) + list(s.params.values()) + list(s.events) + list(s.objs)
        if not any(id(x) in d for t in roots for x in T.subterms(t)):
            return None
        if any(l.op == "ret" and l.args and l.args[0] in [T.attr(P0, a) for a in self.new] for l, _ in T.leaf_guards(s.outcome)):
            return None          # the remembered object itself is handed out
        import copy
        r = copy.copy(s)
        none = {}
        for a in self.new:       # a lazily set attribute is set, or its value is computed: both give the value
            at = T.attr(P0, a)
            if id(at) in d:
                none[a] = at

        def go(t):
            for a, at in none.items():
                for x in list(T.subterms(t)):
                    if x.op == "is" and at in x.args and any(c.op == "const" for c in x.args):
                        t = T.restrict(t, x, False)
            return T.subst(t, d)
        r.outcome = go(s.outcome)
        r.attrs = {k: go(v) for k, v in s.attrs.items() if not (k.startswith("p:0.") and id(T.attr(P0, k[4:])) in d)}
        r.params = {k: go(v) for k, v in s.params.items()}
        r.events = tuple(go(v) for v in s.events)
        r.objs = tuple(go(v) for v in s.objs)
        return r


def bad_value(t):
    return any(x.op in ("opaque", "fold", "fresh", "acc", "bv", "during", "running", "mut") for x in T.subterms(t) if x.op != "bv") or t.op in (
        "list", "dict", "set")


def new_state(eng, c):
    """NewState of a current class, or None."""
    if c is None:
        return None
    cache = eng.__dict__.setdefault("_newstate", {})
    if c.qual not in cache:
        r = eng.ref.find(eng.rename.get(c.qual, c.qual)) if hasattr(eng, "rename") else None
        ns = None
        if isinstance(r, Class) and not all(eng.identical(m.qual) for x in eng.cur.mro(c) for m in x.methods.values()):
            ns = NewState(eng, c, r)
            if not ns.new:
                ns = None
        cache[c.qual] = ns
    return cache[c.qual]


def path_of(t):
    """(root index, names) of an attribute chain on a parameter."""
    names = []
    while t.op == "attr":
        names.append(t.args[1])
        t = t.args[0]
    if t.op == "sym" and t.args[0] in ("p", "k"):
        return (t.args[1],) + tuple(reversed(names))
    return None


def paths(t, lossy=False):
    """access paths of parameters in a term; with lossy=True only those that are not below a function that loses information."""
    out, seen = set(), set()

    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        p = path_of(x)
        if p is not None:
            if lossy and p[-1] in LOSSY_ATTRS and len(p) > 1:
                return
            out.add(p)
            return
        if lossy:
            if x.op == "call":
                f = x.args[0]
                if (T.gname(f) or "") in LOSSY or (f.op == "method" and f.args[0] in LOSSY_METHODS):
                    return
            if x.op == "attr" and x.args[1] in LOSSY_ATTRS:
                return
            if x.op == "is" and not any(c.op == "const" for c in T.children(x)):
                return
        for c in T.children(x):
            go(c)
    go(t)
    return out


def self_calls(t):
    """methods called on self inside a term, and whether self escapes elsewhere."""
    names = set()
    for x in T.subterms(t):
        if x.op == "call" and x.args[0].op == "method" and x.args[1] and x.args[1][0] is P0:
            names.add(x.args[0].args[0])
    return names


def entries(w, a):
    """what an assignment leaves behind: list of (key or None, value); None when not understood."""
    out = []
    for l, _ in T.leaf_guards(w):
        x = l
        while x.op == "store":
            out.append((x.args[1], x.args[2]))
            x = x.args[0]
        if x is a:
            continue
        if x is not l and x.op in ("dict", "list") and not x.args:
            continue
        if x.op in ("mut", "foldstore", "opaque", "fold", "last", "during", "running"):
            return None
        if x is l:
            out.append((None, l))
    return out


@rule("stale_state")
def stale_state(cx):
    """what an object remembers between calls is determined by what it is remembered under."""
    eng = cx.eng
    out, n = [], 0
    done = set()
    for f in cx.funcs:
        c = f.cls
        if c is None or c.qual in done:
            continue
        r = eng.ref.find(c.qual)
        if not isinstance(r, Class) or all(eng.identical(m.qual) for m in c.methods.values()):
            continue
        done.add(c.qual)
        fs, k = class_stale(eng, c, r)
        out += fs
        n += k
    return dedupe(out), {"classes with new state examined": len(done), "remembered attributes examined": n}


def class_stale(eng, c, r):
    from .core import Limit, OutOfTime, PAIR_LIMIT
    ns = new_state(eng, c)
    if ns is None or ns.lost:
        return [], 0
    fam, rfam, new = ns.fam, ns.rfam, ns.new
    sums = {}

    def summ(m):
        if m.qual not in sums:
            try:
                with Limit(PAIR_LIMIT):
                    sums[m.qual] = eng.summ(eng.cur, m)
            except OutOfTime:
                sums[m.qual] = None
            except Exception:
                sums[m.qual] = None
        return sums[m.qual]
    # who stores what, after construction, in methods the reference has as well
    stored = {}
    und = set()
    writers = [m for m in c.methods.values() if m.pos and not m.is_static and m.name not in ("__init__", "__new__", "__post_init__")]
    for m in writers:
        if rfam.tree.method(r, m.name) is None:
            continue
        touched = set()
        for x in list(fam.closure(m.name)):
            touched |= self_stores(x.node, x.pos[0]) & new
        if not touched:
            continue
        s = summ(m)
        if s is None:
            und |= touched
            continue
        for a in touched:
            w = s.attrs.get("p:0." + a)
            if w is None:
                continue
            e = entries(w, T.attr(P0, a))
            if e is None:
                und.add(a)
                continue
            stored.setdefault(a, []).extend((m, k, v) for k, v in e)
    res = []
    for f in c.methods.values():
        if f.name in ("__init__", "__new__") or rfam.tree.method(r, f.name) is None or eng.identical(f.qual) and not any(
                not eng.identical(x.qual) for x in fam.closure(f.name)):
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr in new for m in fam.closure(f.name) for x in ast.walk(m.node)):
            continue
        s = summ(f)
        if s is None:
            continue
        roots = [s.outcome] + [v for k, v in s.attrs.items() if not (k.startswith("p:0.") and k[4:] in new)] + \
            list(s.params.values()) + list(s.events) + list(s.objs)
        used, atoms = set(), []
        for t in roots:
            for x in T.subterms(t):
                if x.op == "attr" and x.args[0] is P0 and x.args[1] in new:
                    used.add(x.args[1])
        if not used:
            continue
        for t in roots + [v for k, v in s.attrs.items() if k.startswith("p:0.") and k[4:] in new]:
            for x in T.subterms(t):
                if x.op == "ite" and mentions(x.args[0], new):
                    atoms.append(x.args[0])
                elif x.op in T.BOOL_ATOMS and mentions(x, new):
                    atoms.append(x)
                elif x.op in ("idx", "elem") and mentions(x.args[0], new):
                    atoms.append(x.args[1])
                elif x.op == "call" and x.args[0].op == "method" and x.args[1] and mentions(x.args[1][0], new):
                    atoms.extend(x.args[1][1:])
        held = set()
        for t in atoms:
            held |= paths(t, lossy=True)
        for a in sorted(used - und):
            for m, key, v in stored.get(a, ()):
                bad = unaccounted(fam, new, v, held, m is f)
                if bad:
                    res.append(Finding("stale_state", "%s:%s" % (f.qual, a), f.where,
                                       "the result uses %s as an earlier call left it; %s stores a value there that depends on %s, which "
                                       "nothing compares before the use" % (a, m.name, ", ".join(bad))))
            for m, key, v in stored.get(a, ()):
                if key is None and v.op == "sym" and v.args[0] == "p" and v.args[1] != 0 and by_content(atoms, v, a):
                    res.append(Finding("stale_state", "%s:%s by reference" % (f.qual, a), f.where,
                                       "%s keeps the caller's array itself and later compares the contents of an array with it" % a))
        # state the reference reads that is now taken from a remembered copy
        if not any(stored.get(a) for a in used) and not used & und:
            rf = eng.ref_func(f.qual)
            try:
                with Limit(PAIR_LIMIT):
                    rs = eng.summ(eng.ref, rf) if rf is not None else None
            except OutOfTime:
                rs = None
            except Exception:
                rs = None
            if rs is not None:
                def read(ss):
                    o = set()
                    for t in [ss.outcome] + list(ss.params.values()) + list(ss.events):
                        o |= {p[1] for p in paths(t) if p[0] == 0 and len(p) > 1}
                        for nm in self_calls(t):
                            o |= fam.reads(nm)
                    return o
                lost = read(rs) - read(s)
                for x in sorted(lost):
                    ch = [m for m in fam.changers(x) if not fam.resets(m, used)]
                    if ch and x in rfam.stores:
                        res.append(Finding("stale_state", "%s:%s" % (f.qual, x), f.where,
                                           "the result is taken from %s, computed once, and no longer follows %s, which %s changes" % (
                                               ", ".join(sorted(used)), x, ch[0].qual)))
    return res, len(new)


def mentions(t, new):
    return any(x.op == "attr" and x.args[0] is P0 and x.args[1] in new for x in T.subterms(t))


def by_content(atoms, v, a):
    want = T.attr(P0, a)
    for t in atoms:
        for x in T.subterms(t):
            if x.op == "call" and (T.gname(x.args[0]) or "") in ("numpy.array_equal", "numpy.allclose") and want in x.args[1] \
                    and v in x.args[1]:
                return True
    return False


def unaccounted(fam, new, v, held, same):
    """dependences of a stored value that the guards of its use do not contain."""
    bad = []
    deps = paths(v)
    if any(x.op == "opaque" for x in T.subterms(v)):
        return []
    arg_held = any(p[0] != 0 for p in held)
    for p in sorted(deps, key=str):
        if p[0] != 0:
            if len(p) > 1 and p[-1] in LOSSY_ATTRS and False:
                continue
            if not same:
                if not arg_held:
                    bad.append("an argument")
                continue
            ok = any(p[:len(h)] == h or h[:len(p)] == p for h in held)
            if not ok:
                bad.append("argument %s" % ".".join(map(str, p)))
        elif len(p) > 1:
            if p[1] in new:
                continue
            if any(h[:2] == p[:2] for h in held):
                continue
            ch = [m for m in fam.changers(p[1]) if not fam.resets(m, new)]
            if ch:
                bad.append("%s (changed by %s)" % (p[1], ch[0].qual))
    for nm in sorted(self_calls(v)):
        for x in sorted(fam.reads(nm)):
            if x in new or any(h[:2] == (0, x) for h in held):
                continue
            ch = [m for m in fam.changers(x) if not fam.resets(m, new)]
            if ch:
                bad.append("%s (read by %s, changed by %s)" % (x, nm, ch[0].qual))
    return bad[:3]
