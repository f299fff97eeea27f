"""Rules that judge the current tree on its own (no reference): each returns findings and what it looked at.

A finding is keyed by rule and construct (qualified name + detail), never by line number.
"""
import ast
import builtins
import re
import symtable

from . import terms as T
from .repo import Class, Func, walk_scope

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__", "WindowsError"}


class Finding:
    def __init__(self, rule, key, where, msg):
        self.rule, self.key, self.where, self.msg = rule, key, where, msg

    def __repr__(self):
        return "%s %s (%s): %s" % (self.rule, self.key, self.where, self.msg)


class Ctx:
    """what a rule may look at: the engine, and the functions/classes selected by the property."""

    def __init__(self, eng, funcs, classes, modules):
        self.eng, self.cur, self.ref = eng, eng.cur, eng.ref
        self.funcs, self.classes, self.modules = funcs, classes, modules


RULES = {}


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


# ------------------------------------------------------------------ names
def module_names(tree, m, seen=None):
    seen = seen if seen is not None else set()
    if m.name in seen:
        return set()
    seen.add(m.name)
    out = set(m.funcs) | set(m.classes) | set(m.consts) | set(m.imports)
    for n in ast.walk(m.tree):
        # anything bound at module level in any statement form, and `global` declarations
        if isinstance(n, ast.Global):
            out |= set(n.names)
    for st in m.tree.body:
        out |= bound_names(st)
    unknown = False
    for s in m.stars:
        if s in tree.modules:
            out |= module_names(tree, tree.modules[s], seen)
        else:
            unknown = True
    pk = m.name + "."
    out |= {x[len(pk):].split(".")[0] for x in tree.modules if x.startswith(pk)}
    if unknown:
        out.add("*")
    return out


def bound_names(st):
    out = set()
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return {st.name}
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.alias) and n.name != "*":
            out.add((n.asname or n.name).split(".")[0])
    return out


def scope_free(fn, inherited):
    """names a function reads that no enclosing scope binds; yields (name, node, function path)."""
    local = set(inherited)
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
        if x is not None:
            local.add(x.arg)
    for n in walk_scope(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            local.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            local.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            local.add(n.name)
        elif isinstance(n, ast.alias):
            local.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, ast.Global):
            pass
    for n in walk_scope(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id not in local:
                yield n.id, n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    for y in ast.walk(d):
                        if isinstance(y, ast.Name) and y.id not in local:
                            yield y.id, y
            yield from scope_free(n, local)
        elif isinstance(n, ast.ClassDef):
            for b in n.body:
                if isinstance(b, ast.FunctionDef):
                    yield from scope_free(b, local)


def class_surface(tree, cls):
    """attribute names an instance of cls may have, or None when it cannot be known."""
    fam = list(tree.mro(cls))
    for d in tree.all_classes():
        if cls in tree.mro(d):
            # a class may be mixed in: what its subclasses inherit from elsewhere is there too
            fam += [c for c in tree.mro(d) if c not in fam]
    out = set(dir(object)) | {"__dict__", "__annotations__", "__name__"}
    for c in fam:
        for b in tree.bases(c):
            if isinstance(b, tuple) and b[1] not in ("object", "abc.ABC", "ABC"):
                return None
        if c.node.keywords or c.node.decorator_list:
            return None
        out |= set(n.split("!")[0] for n in c.methods) | set(c.attrs) | set(c.inner)
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                return None
        if "__getattr__" in c.methods:
            return None
    return out


@rule("names")
def names(cx):
    """every name, module attribute, imported name and attribute of self that a function uses exists."""
    out, n = [], 0
    for f in cx.funcs:
        mn = module_names(cx.cur, f.module)
        for nm, node in scope_free(f.node, set()):
            n += 1
            if nm in mn or nm in BUILTINS or "*" in mn:
                continue
            out.append(Finding("names", "%s:%s" % (f.qual, nm), "%s:%d" % (f.module.relpath, node.lineno),
                               "name %r is not defined anywhere" % nm))
        loc = local_names(f.node)
        for node in ast.walk(f.node):
            # attribute of a module of this package
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
                d = dotted(node)
                if d and d.split(".")[0] not in loc:
                    n += 1
                    miss = missing_attr(cx.cur, f.module, d) or missing_std(cx.cur, f.module, d)
                    if miss:
                        out.append(Finding("names", "%s:%s" % (f.qual, d), "%s:%d" % (f.module.relpath, node.lineno),
                                           "%s does not exist in module %s" % (miss[1], miss[0])))
        if f.cls is not None and f.pos and not f.is_static and not f.is_classmethod:
            surf = class_surface(cx.cur, f.cls)
            if surf is not None:
                for node in ast.walk(f.node):
                    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == f.pos[0]:
                        n += 1
                        if node.attr not in surf:
                            out.append(Finding("names", "%s:self.%s" % (f.qual, node.attr), "%s:%d" % (f.module.relpath, node.lineno),
                                               "no class of this family defines %r" % node.attr))
    for m in cx.modules:
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ImportFrom):
                base = m._abs(node)
                if base in cx.cur.modules:
                    for a in node.names:
                        n += 1
                        if a.name != "*" and a.name not in module_names(cx.cur, cx.cur.modules[base]) \
                                and "*" not in module_names(cx.cur, cx.cur.modules[base]):
                            out.append(Finding("names", "%s:import %s.%s" % (m.name, base, a.name), "%s:%d" % (m.relpath, node.lineno),
                                               "imported name does not exist"))
    return dedupe(out), {"name uses resolved": n, "functions": len(cx.funcs)}


def local_names(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split(".")[0])
    return out


def dotted(e):
    p = []
    while isinstance(e, ast.Attribute):
        p.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return ".".join([e.id] + p[::-1])
    return None


def missing_attr(tree, module, d):
    parts = d.split(".")
    if module.stars and parts[0] not in module.imports:
        return None  # a star import may rebind the name
    cur = tree.lookup(module.name, parts[0])
    for p in parts[1:]:
        if not (isinstance(cur, tuple) and cur[0] == "mod") or cur[1] not in tree.modules:
            return None
        mod = cur[1]
        nx = tree.lookup(mod, p)
        if nx is None and mod + "." + p in tree.modules:
            nx = ("mod", mod + "." + p)
        if nx is None:
            ns = module_names(tree, tree.modules[mod])
            if p in ns or "*" in ns or p.startswith("__"):
                return None
            return mod, p
        cur = nx
    return None


STD = ("abc", "argparse", "collections", "collections.abc", "concurrent", "concurrent.futures", "contextlib", "copy", "csv", "dataclasses",
       "datetime", "enum", "functools", "glob", "inspect", "io", "itertools", "json", "logging", "math", "multiprocessing", "numbers",
       "operator", "os", "os.path", "pickle", "random", "re", "shutil", "signal", "string", "subprocess", "sys", "tempfile", "threading",
       "time", "traceback", "types", "typing", "uuid", "warnings", "weakref")


def missing_std(tree, module, d):
    """an attribute that the standard library does not have (in the Python that runs this analysis)."""
    parts = d.split(".")
    r = tree.lookup(module.name, parts[0])
    if not (isinstance(r, tuple) and r[0] in ("mod", "ext")):
        return None
    full = r[1].split(".") + parts[1:]
    if full[0] not in STD:
        return None
    import importlib
    o, name = importlib.import_module(full[0]), full[0]
    for p in full[1:]:
        sub = name + "." + p
        if hasattr(o, p):
            o = getattr(o, p)
        elif sub in STD:
            o = importlib.import_module(sub)
        else:
            return (name, p) if isinstance(o, type(importlib)) else None
        name = sub
        if not isinstance(o, type(importlib)):
            return None
    return None


def dedupe(fs):
    seen, out = set(), []
    for f in fs:
        if f.key not in seen:
            seen.add(f.key)
            out.append(f)
    return out


# ----------------------------------------------------------------- errors
def is_exception_class(tree, module, e):
    """True / False / None(unknown) for an expression naming a class."""
    d = dotted(e)
    if d is None:
        return None
    if "." not in d and hasattr(builtins, d) and tree.lookup(module.name, d) is None:
        o = getattr(builtins, d)
        return isinstance(o, type) and issubclass(o, BaseException)
    r = tree.resolve_dotted(module, d)
    if isinstance(r, Class):
        return any(isinstance(b, tuple) and is_exc_name(b[1]) for c in tree.mro(r) for b in tree.bases(c)) or None
    if isinstance(r, Func):
        return False
    if isinstance(r, tuple) and r[0] == "ext" and is_exc_name(r[1]):
        return True
    return None


def is_exc_name(n):
    n = n.split(".")[-1]
    return n.endswith(("Error", "Exception", "Warning")) or n in ("StopIteration", "KeyboardInterrupt")


@rule("errors")
def errors(cx):
    """what is raised is an exception, an error that is built is raised, and no assertion is always true."""
    out, n = [], 0
    for f in cx.funcs:
        for node in ast.walk(f.node):
            if isinstance(node, ast.Raise) and node.exc is not None:
                n += 1
                e = node.exc.func if isinstance(node.exc, ast.Call) else node.exc
                if isinstance(e, ast.Name) and e.id in local_names(f.node):
                    continue
                if isinstance(e, ast.Constant) or is_exception_class(cx.cur, f.module, e) is False:
                    out.append(Finding("errors", "%s:raise %s" % (f.qual, ast.unparse(e)), "%s:%d" % (f.module.relpath, node.lineno),
                                       "raises something that is not an exception"))
            elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                e = node.value.func
                if is_exception_class(cx.cur, f.module, e) is True:
                    n += 1
                    out.append(Finding("errors", "%s:dropped %s" % (f.qual, ast.unparse(e)), "%s:%d" % (f.module.relpath, node.lineno),
                                       "an error is constructed but not raised"))
            elif isinstance(node, ast.Assert) and isinstance(node.test, ast.Tuple) and node.test.elts:
                out.append(Finding("errors", "%s:assert tuple" % f.qual, "%s:%d" % (f.module.relpath, node.lineno),
                                   "assertion is always true"))
    return out, {"raise statements": n, "functions": len(cx.funcs)}


# ----------------------------------------------------------- late binding
@rule("late_binding")
def late_binding(cx):
    """a function created inside a loop, kept beyond the iteration, must not read variables the loop rebinds."""
    out, n = [], 0
    for f in cx.funcs:
        for lp in ast.walk(f.node):
            if not isinstance(lp, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp)):
                continue
            rebound = set()
            for b in ([lp.target] if isinstance(lp, ast.For) else []) + (
                    lp.body if isinstance(lp, (ast.For, ast.While)) else [g.target for g in lp.generators]):
                for x in _no_funcs(b):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        rebound.add(x.id)
            for fn, esc in closures_in(lp):
                n += 1
                if not esc:
                    continue
                reads = closure_reads(fn)
                bad = sorted(reads & rebound)
                if bad:
                    nm = getattr(fn, "name", "<lambda>")
                    out.append(Finding("late_binding", "%s.%s:%s" % (f.qual, nm, ",".join(bad)),
                                       "%s:%d" % (f.module.relpath, fn.lineno),
                                       "function made in a loop reads %s when it is called later, after the loop has rebound it" % ", ".join(bad)))
    return dedupe(out), {"functions made in loops": n, "functions": len(cx.funcs)}


def _no_funcs(node):
    st = [node]
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        yield x
        st.extend(ast.iter_child_nodes(x))


def closure_reads(fn):
    bound = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    for a in (fn.args.vararg, fn.args.kwarg):
        if a:
            bound.add(a.arg)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stored = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - bound - stored


KEEPERS = {"append", "insert", "add", "setdefault", "extend", "update", "partial", "submit", "dict", "list", "tuple", "set", "zip",
           "appendleft", "put", "Timer", "register", "add_done_callback", "call_soon", "push"}


def keeps(call):
    """does this call hold on to a function it is given (instead of calling it here and now)?"""
    nm = call.func.id if isinstance(call.func, ast.Name) else getattr(call.func, "attr", "")
    return nm in KEEPERS or nm[:1].isupper()


def escapes(x, parents):
    """is the function x handed to something that outlives the iteration?"""
    p, c = parents.get(id(x)), x
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.Call):
            if p.func is c:
                return False
            return keeps(p)
        if isinstance(p, (ast.Compare, ast.BoolOp)):
            return False
        p, c = parents.get(id(p)), p
    return True


def closures_in(lp):
    """(function, escapes the iteration) for every function created in the loop body (not in nested functions)."""
    out = []
    bodies = lp.body if isinstance(lp, (ast.For, ast.While)) else [lp.elt] if hasattr(lp, "elt") else [lp.key, lp.value]
    body = [x for b in bodies for x in _with_funcs(b)]
    parents = {}
    for b in bodies:
        for p in ast.walk(b):
            for c in ast.iter_child_nodes(p):
                parents[id(c)] = p
    for x in body:
        if isinstance(x, ast.Lambda):
            out.append((x, escapes(x, parents)))
        elif isinstance(x, ast.FunctionDef):
            out.append((x, any(escapes(y, parents) for y in body
                               if isinstance(y, ast.Name) and y.id == x.name and isinstance(y.ctx, ast.Load))))
    return out


def _with_funcs(node):
    st = [node]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(x))


# --------------------------------------------------------- shared objects
@rule("shared_object")
def shared_object(cx):
    """an object that each pass of a loop changes and keeps is made anew in each pass, where the reference makes it anew."""
    out, n = [], 0
    for f in cx.funcs:
        ref = cx.eng.ref_func(f.qual)
        if ref is None:
            continue
        made = None
        for lp in ast.walk(f.node):
            if not isinstance(lp, (ast.For, ast.While)):
                continue
            n += 1
            inside = {id(x) for b in lp.body for x in ast.walk(b)}
            binds = {}
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    binds.setdefault(x.id, []).append(x)
            for a in ast.walk(f.node):
                if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and id(a) not in inside
                        and a.lineno < lp.lineno and len(binds[a.targets[0].id]) == 1 and new_object(cx.cur, f.module, a.value)):
                    continue
                v = a.targets[0].id
                if not changes_object(lp.body, v) or not keeps_object(lp.body, v, {k for k, xs in binds.items() if any(id(x) in inside for x in xs)}):
                    continue
                if made is None:
                    made = {ast.dump(y) for l2 in ast.walk(ref.node) if isinstance(l2, (ast.For, ast.While)) for b in l2.body
                            for x in ast.walk(b) if isinstance(x, ast.Assign) for y in [x.value]}
                if ast.dump(a.value) in made:
                    out.append(Finding("shared_object", "%s:%s" % (f.qual, v), "%s:%d" % (f.module.relpath, a.lineno),
                                       "%s is made once before the loop, and every pass changes it and keeps it" % v))
    return dedupe(out), {"loops": n}


def new_object(tree, module, e):
    if fresh_object(tree, module, e):
        return True
    d = dotted(e.func) if isinstance(e, ast.Call) else None
    return bool(d) and d.rsplit(".", 1)[-1][:1].isupper()


def changes_object(body, v):
    def is_v(e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return isinstance(e, ast.Name) and e.id == v
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and is_v(x.value.func.value):
                return True
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    if isinstance(t, (ast.Attribute, ast.Subscript)) and is_v(t.value):
                        return True
    return False


def keeps_object(body, v, local):
    """is v put, inside a display or an object made with it, where it stays after the pass?"""
    held = {v}

    def holds(e):
        if isinstance(e, ast.Name):
            return e.id in held
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return any(holds(x) for x in e.elts)
        if isinstance(e, ast.Dict):
            return any(holds(x) for x in e.values)
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            return bool(d) and d.rsplit(".", 1)[-1][:1].isupper() and any(holds(x) for x in e.args + [k.value for k in e.keywords])
        return False
    size = 0
    while size != len(held):
        size = len(held)
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and holds(x.value):
                    held.add(x.targets[0].id)
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Assign) and holds(x.value):
                for t in x.targets:
                    r = t
                    while isinstance(r, (ast.Attribute, ast.Subscript)):
                        r = r.value
                    if isinstance(t, ast.Subscript) and isinstance(r, ast.Name) and r.id not in local and r.id != v:
                        return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "insert", "add", "appendleft") \
                    and any(holds(y) for y in x.args):
                r = x.func.value
                while isinstance(r, (ast.Attribute, ast.Subscript)):
                    r = r.value
                if isinstance(r, ast.Name) and r.id not in local and r.id != v:
                    return True
    return False


# --------------------------------------------------------------- threads
ORDERED = {"append", "extend", "insert", "appendleft", "pop", "popleft", "popitem"}


@rule("thread_order")
def thread_order(cx):
    """functions run by a thread pool do not leave their results in shared state in the order in which they finish."""
    out, n = [], 0
    for f in cx.funcs:
        for call in ast.walk(f.node):
            if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr in ("map", "submit")
                    and call.args and pool_name(f, call.func.value)):
                continue
            n += 1
            w = call.args[0]
            if isinstance(w, ast.Name):
                w = next((x for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node and x.name == w.id), None)
            if not isinstance(w, (ast.Lambda, ast.FunctionDef)):
                continue
            own = {a.arg for a in w.args.posonlyargs + w.args.args + w.args.kwonlyargs} | {
                x.id for x in ast.walk(w) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            free = {m for x in ast.walk(w) if isinstance(x, ast.Nonlocal) for m in x.names}
            for x in ast.walk(w):
                v = None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ORDERED and isinstance(x.func.value, ast.Name):
                    v = x.func.value.id
                    if v in own:
                        v = None
                elif isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Name) and t.id in free:
                            v = t.id
                if v and not any(isinstance(y, ast.Call) and (
                        (isinstance(y.func, ast.Name) and y.func.id in ("sorted", "dict", "sum", "set", "max", "min") and any(
                            isinstance(z, ast.Name) and z.id == v for z in y.args)) or
                        (isinstance(y.func, ast.Attribute) and y.func.attr == "sort" and isinstance(y.func.value, ast.Name) and y.func.value.id == v))
                        for y in ast.walk(f.node)):
                    out.append(Finding("thread_order", "%s:%s" % (f.qual, v), "%s:%d" % (f.module.relpath, x.lineno),
                                       "%s is changed by concurrent calls in the order in which they happen to run" % v))
        for v, x in as_finished(f):
            n += 1
            if by_position(f, v) and not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "sorted" and any(
                    isinstance(z, ast.Name) and z.id == v for z in y.args) for y in ast.walk(f.node)):
                out.append(Finding("thread_order", "%s:%s" % (f.qual, v), "%s:%d" % (f.module.relpath, x.lineno),
                                   "%s holds results in the order in which the calls finish, and is used by position" % v))
    return dedupe(out), {"calls handed to thread pools": n}


def finishing(e):
    return isinstance(e, ast.Call) and (dotted(e.func) or "").rsplit(".", 1)[-1] in ("as_completed", "imap_unordered")


def only_result(body, v):
    """of the finished call v only its result is used: nothing says which call it was."""
    uses = [x for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == v]
    res = [x for b in body for x in ast.walk(b) if isinstance(x, ast.Attribute) and x.attr == "result"
           and isinstance(x.value, ast.Name) and x.value.id == v]
    return len(uses) == len(res) > 0


def as_finished(f):
    """(name, construct) of lists filled in the order in which concurrent calls finish."""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            c = x.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("list", "tuple") and len(c.args) == 1:
                c = c.args[0]
            if isinstance(c, (ast.ListComp, ast.GeneratorExp)) and len(c.generators) == 1 and finishing(c.generators[0].iter) \
                    and isinstance(c.generators[0].target, ast.Name):
                if only_result([c.elt], c.generators[0].target.id):
                    yield x.targets[0].id, x
            elif finishing(c) and (dotted(c.func) or "").endswith("imap_unordered"):
                yield x.targets[0].id, x
        elif isinstance(x, ast.For) and finishing(x.iter) and isinstance(x.target, ast.Name):
            for y in ast.walk(x):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "append" \
                        and isinstance(y.func.value, ast.Name) and only_result(x.body, x.target.id):
                    yield y.func.value.id, y


def by_position(f, v):
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and (x.func.id == "zip" and len(x.args) > 1 or x.func.id == "enumerate") \
                and any(isinstance(a, ast.Name) and a.id == v for a in x.args):
            return True
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == v \
                and not isinstance(x.slice, ast.Slice):
            return True
    return False


def pool_name(f, e):
    if not isinstance(e, ast.Name):
        return isinstance(e, ast.Call) and (dotted(e.func) or "").endswith("Executor")
    for x in ast.walk(f.node):
        if isinstance(x, ast.withitem) and isinstance(x.optional_vars, ast.Name) and x.optional_vars.id == e.id:
            c = x.context_expr
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == e.id:
            c = x.value
        else:
            continue
        if isinstance(c, ast.Call) and (dotted(c.func) or "").endswith(("Executor", "ThreadPool")):
            return True
    return False


# ----------------------------------------------------------- hidden state
# module-level containers whose purpose is to hold registrations, by module and name
REGISTRIES = {
    "spins.goos.optplan.PROBLEM_GRAPH_NAME_MAP": "counter per node type for automatic names",
    "spins.goos.optplan.GLOBAL_PLAN_STACK": "stack of active plans",
    "spins.goos.optplan.GLOBAL_CONTEXT_STACK": "registered node types",
    "spins.invdes.problem_graph.optplan.io.problem_graph_name_map": "counter per node type for automatic names",
    "spins.invdes.problem_graph.optplan.GLOBAL_CONTEXT_STACK": "registered node types",
    "spins.goos_sim.maxwell.SIM_REGISTRY": "registered simulation types",
    "spins.goos_sim.maxwell.GEOM_REGISTRY": "registered geometry types",
}
MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "setdefault", "popitem",
       "discard", "appendleft", "popleft"}


def fresh_object(tree, module, e):
    """an expression that makes a new changeable object."""
    if mutable_literal(e):
        return True
    if isinstance(e, ast.Call):
        d = dotted(e.func)
        r = tree.resolve_dotted(module, d) if d else None
        return isinstance(r, tuple) and r[0] == "ext" and r[1] in {
            "numpy." + x for x in ("zeros", "ones", "empty", "full", "array", "zeros_like", "ones_like", "arange", "linspace", "eye")}
    return False


def mutable_literal(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
        isinstance(e, ast.Call) and dotted(e.func) in ("list", "dict", "set", "collections.defaultdict", "collections.OrderedDict",
                                                       "collections.deque", "defaultdict", "OrderedDict", "deque", "np.zeros", "np.ones",
                                                       "np.array", "np.empty", "collections.Counter", "Counter", "bytearray"))


def in_place(fn, pred):
    """nodes of fn that change, in place, an object denoted by an expression satisfying pred."""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and pred(n.func.value):
            yield n
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
            for t in ts:
                for t in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(t, ast.Subscript):
                        b = t.value
                        while isinstance(b, ast.Subscript):
                            b = b.value
                        if pred(b):
                            yield n
                    elif isinstance(n, ast.AugAssign) and pred(t):
                        yield n


@rule("hidden_state")
def hidden_state(cx):
    """no state survives a call except in objects and the declared registries: no changed default values, module or class containers,
    globals, data on functions or classes, or memoised functions."""
    out, n = [], 0
    cur = cx.cur
    # 1. mutable default arguments that are changed or handed out
    for f in cx.funcs:
        for sub in [f.node] + [x for x in ast.walk(f.node) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f.node]:
            a = sub.args
            pos = a.posonlyargs + a.args
            pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]
            for p, d in pairs:
                n += 1
                if not mutable_literal(d):
                    continue
                augs = {id(x.target) for x in ast.walk(sub) if isinstance(x, ast.AugAssign)}
                rebinds = [x for x in ast.walk(sub) if isinstance(x, ast.Name) and x.id == p.arg and isinstance(x.ctx, ast.Store)
                           and id(x) not in augs]
                hits = list(in_place(sub, lambda e: isinstance(e, ast.Name) and e.id == p.arg))
                if hits and not rebinds:
                    out.append(Finding("hidden_state", "%s:default %s" % (f.qual, p.arg), "%s:%d" % (f.module.relpath, hits[0].lineno),
                                       "the default value of %r is changed in place and survives the call" % p.arg))
                # the same object kept on the instance and changed there
                if rebinds or f.cls is None or sub is not f.node or not f.pos:
                    continue
                kept = [x.targets[0].attr for x in ast.walk(sub) if isinstance(x, ast.Assign) and len(x.targets) == 1
                        and isinstance(x.targets[0], ast.Attribute) and isinstance(x.targets[0].value, ast.Name)
                        and x.targets[0].value.id == f.pos[0] and isinstance(x.value, ast.Name) and x.value.id == p.arg]
                for at in kept:
                    for c in [c for c in cur.all_classes() if f.cls in cur.mro(c) or c in cur.mro(f.cls)]:
                        for m in c.methods.values():
                            for node in in_place(m.node, lambda e: isinstance(e, ast.Attribute) and e.attr == at and
                                                 isinstance(e.value, ast.Name) and e.value.id in m.pos[:1]):
                                out.append(Finding("hidden_state", "%s:default %s kept in %s" % (f.qual, p.arg, at),
                                                   "%s:%d" % (m.module.relpath, node.lineno),
                                                   "the default value of %r is kept in %s and changed there, all instances share it" % (p.arg, at)))
    # 1b. callables that hand out one object made when they were created
    for f in cx.funcs:
        made = {}
        for node in walk_scope(f.node):
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
                made.setdefault(node.targets[0].id, []).append(node.value)
        for node in ast.walk(f.node):
            if isinstance(node, ast.Lambda) and isinstance(node.body, ast.Name) and node.body.id in made and node.body.id not in {
                    x.arg for x in node.args.args}:
                n += 1
                vs = made[node.body.id]
                if len(vs) == 1 and fresh_object(cur, f.module, vs[0]):
                    out.append(Finding("hidden_state", "%s:lambda returns %s" % (f.qual, node.body.id), "%s:%d" % (f.module.relpath, node.lineno),
                                       "every call of this factory returns the same object %s" % node.body.id))
    # 2. module-level containers changed by functions
    for f in cx.funcs:
        loc = local_names(f.node)

        def is_mod(e, f=f, loc=loc):
            d = dotted(e)
            if d is None:
                return False
            if d.split(".")[0] in loc:
                return False
            r = cur.resolve_dotted(f.module, d)
            if isinstance(r, tuple) and r[0] == "const":
                full = r[1].name + "." + r[2]
                return full
            return False
        for node in in_place(f.node, is_mod):
            n += 1
            tgt = node.func.value if isinstance(node, ast.Call) else (node.targets[0] if not isinstance(node, ast.AugAssign) else node.target)
            while isinstance(tgt, ast.Subscript):
                tgt = tgt.value
            full = is_mod(tgt)
            if full and full not in REGISTRIES:
                out.append(Finding("hidden_state", "%s:module variable %s" % (f.qual, full), "%s:%d" % (f.module.relpath, node.lineno),
                                   "changes the module variable %s, which then influences later calls" % full))
        for node in ast.walk(f.node):
            if isinstance(node, ast.Global):
                for g in node.names:
                    full = f.module.name + "." + g
                    stored = any(isinstance(x, ast.Name) and x.id == g and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node))
                    if stored and full not in REGISTRIES:
                        out.append(Finding("hidden_state", "%s:global %s" % (f.qual, g), "%s:%d" % (f.module.relpath, node.lineno),
                                           "rebinds the module variable %s" % full))
            # function or class objects used as storage
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store):
                d = dotted(node.value)
                if d and d.split(".")[0] not in loc:
                    r = cur.resolve_dotted(f.module, d)
                    if isinstance(r, (Func, Class)):
                        out.append(Finding("hidden_state", "%s:%s.%s" % (f.qual, d, node.attr), "%s:%d" % (f.module.relpath, node.lineno),
                                           "stores data on %s, shared by all calls" % d))
                elif isinstance(node.value, ast.Name) and f.pos and node.value.id == f.pos[0] and f.is_classmethod:
                    out.append(Finding("hidden_state", "%s:cls.%s" % (f.qual, node.attr), "%s:%d" % (f.module.relpath, node.lineno),
                                       "stores data on the class, shared by all instances"))
                elif isinstance(node.value, ast.Call) and dotted(node.value.func) == "type":
                    out.append(Finding("hidden_state", "%s:type().%s" % (f.qual, node.attr), "%s:%d" % (f.module.relpath, node.lineno),
                                       "stores data on the class, shared by all instances"))
                elif isinstance(node.value, ast.Attribute) and node.value.attr == "__class__":
                    out.append(Finding("hidden_state", "%s:__class__.%s" % (f.qual, node.attr), "%s:%d" % (f.module.relpath, node.lineno),
                                       "stores data on the class, shared by all instances"))
        for d in f.node.decorator_list:
            n += 1
            dd = dotted(d.func if isinstance(d, ast.Call) else d)
            r = cur.resolve_dotted(f.module, dd) if dd else None
            if isinstance(r, tuple) and r[0] == "ext" and r[1] in ("functools.lru_cache", "functools.cache"):
                out.append(Finding("hidden_state", "%s:memo" % f.qual, f.where, "results are remembered across calls by argument identity or hash"))
    # 3. class-level containers changed through instances
    for c in cx.classes:
        for nme, v in c.attrs.items():
            if v is None or not mutable_literal(v):
                continue
            n += 1
            fam = [d for d in cur.all_classes() if c in cur.mro(d)]
            rebound = any(isinstance(x, ast.Attribute) and x.attr == nme and isinstance(x.ctx, ast.Store)
                          and m.name == "__init__" for d in fam for m in d.methods.values() for x in ast.walk(m.node))
            if rebound:
                continue
            for d in fam:
                for m in d.methods.values():
                    for node in in_place(m.node, lambda e: isinstance(e, ast.Attribute) and e.attr == nme and
                                         isinstance(e.value, ast.Name) and (e.value.id in m.pos[:1] or e.value.id == c.node.name)):
                        out.append(Finding("hidden_state", "%s:class container %s" % (m.qual, nme), "%s:%d" % (m.module.relpath, node.lineno),
                                           "changes %s.%s, which all instances share" % (c.qual, nme)))
    return dedupe(out), {"defaults, module variables, memos and class containers examined": n, "functions": len(cx.funcs)}


# --------------------------------------------------- guarded modifications
PLAN = "spins.goos.optplan.optplan.OptimizationPlan"
PLAN_STATE = {"_var_value", "_var_bounds", "_var_frozen"}
PLAN_OWNERS = {
    "__init__": "creates the tables",
    "add_node": "registers a variable with its initial value before any action runs",
    "read_checkpoint": "replaces the state on restore",
    "load": "builds a new plan",
}


@rule("guarded_modifiers")
def guarded_modifiers(cx):
    """every method of a plan that changes variable state is guarded by the action decorator (or is an owner)."""
    out, n = [], 0
    c = cx.cur.find(PLAN)
    if not isinstance(c, Class):
        return [Finding("guarded_modifiers", PLAN, "", "the plan class is gone")], {"modifiers": 0}
    guard = guard_function(cx.cur, c)
    if guard is None:
        out.append(Finding("guarded_modifiers", PLAN + ":guard", c.module.relpath,
                           "no decorator rejects calls outside of an action"))
    for m in c.methods.values():
        writes = set()
        for node in ast.walk(m.node):
            if isinstance(node, ast.Attribute) and node.attr in PLAN_STATE and isinstance(node.value, ast.Name) and node.value.id == m.pos[0]:
                if isinstance(node.ctx, ast.Store):
                    writes.add(node.attr)
        for node in in_place(m.node, lambda e: isinstance(e, ast.Attribute) and e.attr in PLAN_STATE and isinstance(e.value, ast.Name)):
            writes.add("in place")
        if not writes:
            continue
        n += 1
        if m.name in PLAN_OWNERS:
            continue
        guarded = any(guard is not None and cx.cur.resolve_dotted(m.module, d) is guard for d in m.decorators)
        if not guarded and m.name.startswith("_") and not m.name.startswith("__"):
            callers = [x for x in c.methods.values() if any(isinstance(y, ast.Attribute) and y.attr == m.name for y in ast.walk(x.node))]
            guarded = bool(callers) and all(x.name in PLAN_OWNERS or any(cx.cur.resolve_dotted(x.module, d) is guard for d in x.decorators)
                                            for x in callers)
        if not guarded and not inline_guard(cx.cur, m, guard):
            out.append(Finding("guarded_modifiers", m.qual, m.where, "changes %s without requiring a running action" % sorted(writes)))
    # nobody else touches the tables
    for f in cx.cur.all_funcs():
        if f.cls is c:
            continue
        for node in ast.walk(f.node):
            if isinstance(node, ast.Attribute) and node.attr in PLAN_STATE and f.module.name.startswith("spins.goos"):
                if isinstance(node.ctx, ast.Store):
                    out.append(Finding("guarded_modifiers", f.qual + ":" + node.attr, "%s:%d" % (f.module.relpath, node.lineno),
                                       "writes the plan's variable table directly"))
        for node in in_place(f.node, lambda e: isinstance(e, ast.Attribute) and e.attr in PLAN_STATE):
            if f.module.name.startswith("spins.goos"):
                out.append(Finding("guarded_modifiers", f.qual + ":direct", "%s:%d" % (f.module.relpath, node.lineno),
                                   "writes the plan's variable table directly"))
    return dedupe(out), {"plan methods that change variable state": n}


def guard_function(tree, c):
    """a decorator in the plan's module whose wrapper raises unless the plan is modifiable."""
    for f in c.module.funcs.values():
        inner = [x for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node]
        for w in inner:
            reads = any(isinstance(x, ast.Attribute) and x.attr == "_modifiable" for x in ast.walk(w))
            raises = any(isinstance(x, ast.Raise) for x in ast.walk(w))
            if reads and raises:
                return f
    return None


def inline_guard(tree, m, guard):
    for s in m.node.body:
        if isinstance(s, ast.If) and any(isinstance(x, ast.Attribute) and x.attr == "_modifiable" for x in ast.walk(s.test)) \
                and any(isinstance(x, ast.Raise) for x in ast.walk(s)):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            d = dotted(s.value.func) or ""
            h = m.cls.methods.get(d.split(".")[-1]) if d.startswith(m.pos[0] + ".") else None
            if h is not None and any(isinstance(x, ast.Attribute) and x.attr == "_modifiable" for x in ast.walk(h.node)) and any(
                    isinstance(x, ast.Raise) for x in ast.walk(h.node)):
                return True
    return False


# -------------------------------------------------------- argument purity
# documented mutators: function -> parameters it is allowed to change, with the reason
from .allow import MUTATES  # noqa: E402


@rule("argument_purity")
def argument_purity(cx):
    """no public function changes an object passed to it, except the documented mutators."""
    eng = cx.eng
    out, n = [], 0
    for f in cx.funcs:
        ch = mutated_args(eng, f)
        n += 1
        allowed = MUTATES.get(f.qual, ((), ""))[0]
        for p in sorted(ch):
            if p in allowed or "*" in allowed:
                continue
            nm = f.qual.split(".")[-1]
            if nm.startswith("_") and not nm.startswith("__"):
                continue        # a private helper may; its public callers answer for what reaches their arguments
            out.append(Finding("argument_purity", "%s:%s" % (f.qual, p), f.where,
                               "changes the object passed as %r" % p))
    return dedupe(out), {"functions whose effects on their arguments were computed": n}


def mutated_args(eng, f):
    """parameters (other than self) whose object the function may change, by value-graph effects."""
    key = ("mutargs", f.qual)
    if key in eng._v:
        return eng._v[key]
    from .core import Limit, OutOfTime, PAIR_LIMIT
    out = set()
    r = eng.ref_func(f.qual)
    if not eng.full and eng.identical(f.qual) and not ARG_TOUCH(f):
        eng._v[key] = out
        return out
    try:
        with Limit(PAIR_LIMIT):
            # private helpers are expanded, so that their effects are seen at the public caller
            helpers = frozenset(g.qual for g in eng.cur.all_funcs() if g.module is f.module and g.qual != f.qual
                                and g.name.startswith("_") and not g.name.startswith("__"))
            s = eng.summ(eng.cur, f, inline=helpers)
    except OutOfTime:
        s = None
    except Exception:
        s = None
    if s is not None:
        names = f.pos + f.kwonly
        skip = 1 if (f.cls is not None and not f.is_static) else 0

        def pname(k):
            if isinstance(k, int):
                return names[k] if skip <= k < len(names) else None
            return k
        for k in s.params:
            v = s.params[k]
            p = pname(k)
            if p and v is not T.raw("sym", "p" if isinstance(k, int) else "k", k):
                out.add(p)
        for t in s.augs:
            if t.op == "sym" and t.args[0] in ("p", "k") and id(t) in s.array_params:
                p = pname(t.args[1])
                if p:
                    out.add(p)
        for k in s.attrs:
            mm = re.match(r"^p:(\w+)[.\[]", k)
            if mm:
                i = mm.group(1)
                p = pname(int(i) if i.isdigit() else i)
                if p:
                    out.add(p)
    eng._v[key] = out
    return out


def ARG_TOUCH(f):
    """cheap necessary condition: some statement changes something in place, or stores an attribute."""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, ast.AugAssign):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (n.func.attr in MUT or n.func.attr.startswith("_")):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id.startswith("_"):
            return True
    return False


# ------------------------------------------------------------------ objects kept from the caller
HELD_OK = {("spins.goos.array.ArrayFlow", "_flows"): "item assignment of the flow is assignment into the list it presents"}
ARRAY_NOTES = ("ndarray", "List", "Dict", "list", "dict", "field_t", "vfield_t", "GridSpacing")


def _leaves(t):
    return _leaves(t.args[1]) + _leaves(t.args[2]) if t.op == "ite" else [t]


def _changed_root(t):
    r = t
    while r.op in ("store", "mut", "delkey") and isinstance(r.args[0], T.Term):
        r = r.args[0]
    return None if r is t else r


@rule("held_argument")
def held_argument(cx):
    """an object that a method only stores for later use is not changed in place by another method of the same class."""
    eng = cx.eng
    out, n = [], 0
    funcs = [f for f in cx.funcs if f.cls is not None and not f.is_static and not f.is_classmethod and f.pos]
    todo = [f for f in funcs if getattr(eng, "full", False) or not eng.identical(f.qual)]
    fams = {}
    for f in todo:
        fam = {c.qual for c in eng.cur.mro(f.cls)} | {c.qual for c in eng.cur.all_classes() if f.cls in eng.cur.mro(c)}
        for g in eng.cur.all_funcs():
            if g.cls is not None and g.cls.qual in fam:
                fams[g.qual] = g
    held, changed = {}, {}
    p0 = T.raw("sym", "p", 0)
    for f in fams.values():
        if f.is_static or f.is_classmethod or not any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del))
                                                      or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                                                      and x.func.attr in MUT for x in ast.walk(f.node)):
            continue
        n += 1
        s = guarded_summary(eng, f)
        if s is None:
            continue
        for k, v in s.attrs.items():
            if not k.startswith("p:0.") or "." in k[4:]:
                continue
            a = k[4:]
            for l in _leaves(v):
                if l.op == "sym" and l.args[0] in ("p", "k") and l.args[1] != 0:
                    held.setdefault(a, []).append((f, l.args[1]))
                r = _changed_root(l)
                if r is not None and r.op == "attr" and r.args[0] is p0 and r.args[1] == a:
                    changed.setdefault(a, []).append((f, f.node.lineno))
        for x in ast.walk(f.node):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute) and isinstance(x.target.value, ast.Name) \
                    and x.target.value.id == f.pos[0]:
                changed.setdefault(x.target.attr, []).append((f, -x.lineno))
    for a in sorted(set(held) & set(changed)):
        for h, p in held[a]:
            if (h.cls.qual, a) in HELD_OK:
                continue
            for g, line in changed[a]:
                if g.cls not in eng.cur.mro(h.cls) and h.cls not in eng.cur.mro(g.cls):
                    continue
                if line < 0 and not _noted_array(h, p):
                    continue        # += on what may well be a number
                out.append(Finding("held_argument", "%s:%s" % (g.qual, a), "%s:%d" % (g.module.relpath, abs(line)),
                                   "changes in place self.%s, which is the object %s was given" % (a, h.qual)))
    return dedupe(out), {"methods whose stored objects were followed": n}


def _noted_array(f, p):
    names = f.pos + f.kwonly
    nm = names[p] if isinstance(p, int) and p < len(names) else p
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == nm and x.annotation is not None:
            t = ast.unparse(x.annotation)
            return any(w in t for w in ARRAY_NOTES)
    return False


def guarded_summary(eng, f):
    from .core import Limit, OutOfTime, PAIR_LIMIT
    try:
        with Limit(PAIR_LIMIT):
            return eng.summ(eng.cur, f)
    except OutOfTime:
        return None
    except Exception:
        return None
