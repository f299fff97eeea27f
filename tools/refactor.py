"""Refactoring harness: behaviour-preserving edits of single functions, on which no check may fire.

python3 tools/refactor.py PREFIX MAXSITES SEED [kinds]   (kinds: comma list)
Prints every false alarm; counts undecided verdicts per kind.
"""
import ast
import copy
import difflib
import os
import random
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.core import Engine, VIOL, UND  # noqa: E402
from sa.repo import Func  # noqa: E402

N = ast.Name
L, S = ast.Load(), ast.Store()


def name(i, ctx=L):
    return ast.Name(id=i, ctx=ctx)


def stored(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} | {x.name for x in ast.walk(node) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not node}


def loaded(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} | {
        x.target.id for x in ast.walk(node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def scope(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def blocks(fn):
    """every statement list of the function (not nested functions), with the owner."""
    for n in [fn] + list(scope(fn)):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b
    return


def has(node, *types):
    return any(isinstance(x, types) for x in ast.walk(node))


def always_exits(stmts):
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return always_exits(s.body) and always_exits(s.orelse)
    return False


PURE_CALLS = {"len", "list", "tuple", "range", "zip", "enumerate", "isinstance", "min", "max", "sum", "abs", "str", "int", "float", "sorted",
              "reversed", "dict", "set"}


def pure(e):
    """syntactically pure expression with no call except known ones."""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "math"):
                continue
            return False
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.NamedExpr)):
            return False
    return True


KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


# each kind: gen(fn, info) -> list of thunks that edit fn in place (fn is a fresh copy each time: thunk index chosen)
@kind
def rename_locals(fn, info):
    ps = set(params(fn))
    loc = {x.id for x in scope(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - ps
    if has(fn, ast.Global, ast.Nonlocal) or not loc:
        return []
    nested = [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn]
    for x in nested:
        loc -= {a.arg for a in ast.walk(x) if isinstance(a, ast.arg)}
        loc -= stored(x)

    def go():
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "zz_" + x.id
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = "zz_" + x.name
    return [go] if loc else []


@kind
def return_temp(fn, info):
    out = []
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                def go(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.Assign(targets=[name("result_value", S)], value=s.value), ast.Return(value=name("result_value"))]
                out.append(go)
    return out


def first_evaluated(s):
    """sub-expressions of a statement that may be evaluated before everything else in it."""
    if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
        root = s.value
    elif isinstance(s, ast.If):
        root = s.test
    elif isinstance(s, ast.For):
        root = s.iter
    else:
        return []
    out = []

    def go(e):
        out.append(e)
        if isinstance(e, ast.BinOp):
            go(e.left)
            if pure(e.left):
                go(e.right)
        elif isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute):
                go(e.func.value) if not isinstance(e.func.value, ast.Name) else None
                ok = isinstance(e.func.value, ast.Name) or pure(e.func.value)
            else:
                ok = isinstance(e.func, ast.Name)
            for a in e.args:
                if not ok or isinstance(a, ast.Starred):
                    break
                go(a)
                ok = pure(a)
        elif isinstance(e, ast.Subscript):
            go(e.value)
        elif isinstance(e, ast.Compare):
            go(e.left)
        elif isinstance(e, ast.BoolOp):
            go(e.values[0])
        elif isinstance(e, ast.UnaryOp):
            go(e.operand)
        elif isinstance(e, (ast.Tuple, ast.List)) and e.elts:
            if not isinstance(e.elts[0], ast.Starred):
                go(e.elts[0])
        elif isinstance(e, ast.Attribute):
            if not isinstance(e.value, ast.Name):
                go(e.value)
        elif isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            go(e.generators[0].iter)
    go(root)
    return [e for e in out if not isinstance(e, (ast.Name, ast.Constant, ast.Starred))]


@kind
def extract_temp(fn, info):
    out = []
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            for e in first_evaluated(s):
                if isinstance(s, ast.Expr) and e is s.value:
                    continue
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "super":
                    continue
                def go(b=b, i=i, s=s, e=e):
                    val = copy.copy(e)
                    class R(ast.NodeTransformer):
                        def visit(self, n):
                            if n is e:
                                return name("tmp_value")
                            return self.generic_visit(n)
                    s2 = R().visit(s)
                    b[i:i + 1] = [ast.Assign(targets=[name("tmp_value", S)], value=val), s2]
                out.append(go)
    return out


@kind
def inline_temp(fn, info):
    out = []
    for o, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.targets[0].id
                uses = [x for x in scope(fn) if isinstance(x, ast.Name) and x.id == v]
                allu = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                if len(uses) != 2 or len(allu) != 2:
                    continue
                fe = first_evaluated_names(t)
                hit = [x for x in fe if x.id == v]
                if len(hit) != 1:
                    continue
                def go(b=b, i=i, s=s, t=t, h=hit[0]):
                    class R(ast.NodeTransformer):
                        def visit(self, n):
                            if n is h:
                                return s.value
                            return self.generic_visit(n)
                    b[i:i + 2] = [R().visit(t)]
                out.append(go)
    return out


def first_evaluated_names(s):
    if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
        root = s.value
    elif isinstance(s, ast.If):
        root = s.test
    elif isinstance(s, ast.For):
        root = s.iter
    else:
        return []
    out = []

    def go(e):
        if isinstance(e, ast.Name):
            out.append(e)
        elif isinstance(e, ast.BinOp):
            go(e.left)
            if pure(e.left):
                go(e.right)
        elif isinstance(e, ast.Call):
            ok = isinstance(e.func, ast.Name)
            if isinstance(e.func, ast.Attribute):
                go(e.func.value)
                ok = isinstance(e.func.value, ast.Name)
            for a in e.args:
                if not ok:
                    break
                go(a)
                ok = pure(a)
        elif isinstance(e, (ast.Subscript, ast.Attribute)):
            go(e.value)
        elif isinstance(e, ast.Compare):
            go(e.left)
        elif isinstance(e, ast.UnaryOp):
            go(e.operand)
    go(root)
    return out


@kind
def invert_if(fn, info):
    out = []
    for n in scope(fn):
        if isinstance(n, ast.If) and n.orelse:
            def go(n=n):
                n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
                n.body, n.orelse = n.orelse, n.body
            out.append(go)
    return out


@kind
def else_after_return(fn, info):
    out = []
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and always_exits(s.body) and i + 1 < len(b):
                def go(b=b, i=i, s=s):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                out.append(go)
                def go2(b=b, i=i, s=s):
                    rest = b[i + 1:]
                    del b[i + 1:]
                    s.test = ast.UnaryOp(op=ast.Not(), operand=s.test)
                    s.orelse = s.body
                    s.body = rest
                out.append(go2)
            if isinstance(s, ast.If) and s.orelse and always_exits(s.body):
                def go3(b=b, i=i, s=s):
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []
                out.append(go3)
    return out


@kind
def split_and(fn, info):
    out = []
    for n in scope(fn):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            def go(n=n):
                vs = n.test.values
                n.test = vs[0]
                n.body = [ast.If(test=vs[1] if len(vs) == 2 else ast.BoolOp(op=ast.And(), values=vs[1:]), body=n.body, orelse=[])]
            out.append(go)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            mp = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            if type(n.ops[0]) in mp:
                def go2(n=n):
                    m = ast.Compare(left=n.left, ops=[mp[type(n.ops[0])]()], comparators=n.comparators)
                    repl(fn, n, ast.UnaryOp(op=ast.Not(), operand=m))
                out.append(go2)
            fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            if type(n.ops[0]) in fl and pure(n):
                def go3(n=n):
                    n.left, n.comparators[0] = n.comparators[0], n.left
                    n.ops[0] = fl[type(n.ops[0])]()
                out.append(go3)
    return out


def repl(fn, a, b):
    class R(ast.NodeTransformer):
        def visit(self, n):
            if n is a:
                return b
            return self.generic_visit(n)
    R().visit(fn)


@kind
def if_to_ifexp(fn, info):
    out = []
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and len(x.targets) == len(y.targets) == 1 and \
                        ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    def go(b=b, i=i, s=s, x=x, y=y):
                        b[i] = ast.Assign(targets=x.targets, value=ast.IfExp(test=s.test, body=x.value, orelse=y.value))
                    out.append(go)
                if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                    def go2(b=b, i=i, s=s, x=x, y=y):
                        b[i] = ast.Return(value=ast.IfExp(test=s.test, body=x.value, orelse=y.value))
                    out.append(go2)
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                def go3(b=b, i=i, s=s):
                    b[i] = ast.If(test=s.value.test, body=[ast.Assign(targets=s.targets, value=s.value.body)],
                                  orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=s.value.orelse)])
                out.append(go3)
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                def go4(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.If(test=s.value.test, body=[ast.Return(value=s.value.body)], orelse=[]),
                                  ast.Return(value=s.value.orelse)]
                out.append(go4)
    return out


@kind
def comp_to_loop(fn, info):
    out = []
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1:
                c = s.value
                g = c.generators[0]
                if stored(g.target) & (stored_outside(fn, c) | set(params(fn))):
                    continue
                if has(c, ast.Lambda):
                    continue
                def go(b=b, i=i, s=s, c=c, g=g):
                    if isinstance(c, ast.ListComp):
                        st = [ast.Expr(value=ast.Call(func=ast.Attribute(value=name("acc_list"), attr="append", ctx=L), args=[c.elt], keywords=[]))]
                        init = ast.List(elts=[], ctx=L)
                    else:
                        st = [ast.Assign(targets=[ast.Subscript(value=name("acc_list"), slice=c.key, ctx=S)], value=c.value)]
                        init = ast.Dict(keys=[], values=[])
                    for t in reversed(g.ifs):
                        st = [ast.If(test=t, body=st, orelse=[])]
                    new = [ast.Assign(targets=[name("acc_list", S)], value=init),
                           ast.For(target=g.target, iter=g.iter, body=st, orelse=[])]
                    s.value = name("acc_list")
                    b[i:i + 1] = new + [s]
                out.append(go)
    return out


def stored_outside(fn, c):
    inside = {id(x) for x in ast.walk(c)}
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in inside}


@kind
def loop_to_comp(fn, info):
    out = []
    for o, b in blocks(fn):
        for i in range(len(b) - 1):
            s, lp = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) \
                    and not s.value.elts and isinstance(lp, ast.For) and not lp.orelse and len(lp.body) == 1:
                body, cond = lp.body[0], []
                if isinstance(body, ast.If) and not body.orelse and len(body.body) == 1:
                    cond, body = [body.test], body.body[0]
                if isinstance(body, ast.Expr) and isinstance(body.value, ast.Call) and isinstance(body.value.func, ast.Attribute) and \
                        body.value.func.attr == "append" and isinstance(body.value.func.value, ast.Name) and \
                        body.value.func.value.id == s.targets[0].id and s.targets[0].id not in loaded(body.value.args[0]):
                    if any(s.targets[0].id in loaded(c) for c in cond):
                        continue
                    def go(b=b, i=i, s=s, lp=lp, body=body, cond=cond):
                        s.value = ast.ListComp(elt=body.value.args[0], generators=[ast.comprehension(target=lp.target, iter=lp.iter, ifs=cond, is_async=0)])
                        del b[i + 1]
                    out.append(go)
    return out


@kind
def range_to_while(fn, info):
    out = []
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and \
                    isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1:
                if any(isinstance(x, (ast.Continue,)) for x in ast.walk(s)) or s.target.id in stored_in(s.body):
                    continue
                arg = s.iter.args[0]
                if not pure(arg) or loaded(arg) & stored_in(s.body):
                    continue
                later = False
                def go(b=b, i=i, s=s, arg=arg):
                    v = s.target.id
                    b[i:i + 1] = [ast.Assign(targets=[name("stop_at", S)], value=arg),
                                  ast.Assign(targets=[name(v, S)], value=ast.Constant(value=0)),
                                  ast.While(test=ast.Compare(left=name(v), ops=[ast.Lt()], comparators=[name("stop_at")]),
                                            body=s.body + [ast.AugAssign(target=name(v, S), op=ast.Add(), value=ast.Constant(value=1))], orelse=[])]
                uses_after = [x for x in scope(fn) if isinstance(x, ast.Name) and x.id == s.target.id and x not in list(ast.walk(s))]
                if not uses_after:
                    out.append(go)
    return out


def stored_in(stmts):
    out = set()
    for s in stmts:
        out |= stored(s)
    return out


@kind
def enumerate_loop(fn, info):
    """for x in xs -> for i, x in enumerate(xs); for i in range(len(xs)) -> for i, item in enumerate(xs)."""
    out = []
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For):
                def go(s=s):
                    s.target = ast.Tuple(elts=[name("_idx", S), s.target], ctx=S)
                    s.iter = ast.Call(func=name("enumerate"), args=[s.iter], keywords=[])
                out.append(go)
                if isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and \
                        s.iter.func.id == "range" and len(s.iter.args) == 1 and isinstance(s.iter.args[0], ast.Call) and \
                        isinstance(s.iter.args[0].func, ast.Name) and s.iter.args[0].func.id == "len":
                    xs = s.iter.args[0].args[0]
                    if not isinstance(xs, ast.Name) or xs.id in stored_in(s.body) or any(
                            isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == xs.id
                            for y in s.body for x in ast.walk(y)):
                        continue
                    def go2(s=s, xs=xs):
                        v = s.target.id
                        s.target = ast.Tuple(elts=[name(v, S), name("item_v", S)], ctx=S)
                        s.iter = ast.Call(func=name("enumerate"), args=[xs], keywords=[])

                        class R(ast.NodeTransformer):
                            def visit_Subscript(self, n):
                                self.generic_visit(n)
                                if isinstance(n.value, ast.Name) and n.value.id == xs.id and isinstance(n.slice, ast.Name) and n.slice.id == v \
                                        and isinstance(n.ctx, ast.Load):
                                    return name("item_v")
                                return n
                        s.body = [R().visit(x) for x in s.body]
                    if not any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) and xs.id in loaded(x)
                               for y in s.body for x in ast.walk(y)):
                        out.append(go2)
    return out


@kind
def reorder(fn, info):
    out = []
    for o, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (s, t)):
                if not (stored(s) & (loaded(t) | stored(t))) and not (stored(t) & loaded(s)):
                    def go(b=b, i=i):
                        b[i], b[i + 1] = b[i + 1], b[i]
                    out.append(go)
            elif all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and pure(x.value) and
                     isinstance(x.targets[0].value, ast.Name) for x in (s, t)):
                at = {x.targets[0].attr for x in (s, t)}
                rd = {x.attr for y in (s, t) for x in ast.walk(y.value) if isinstance(x, ast.Attribute)}
                if len(at) == 2 and not at & rd:
                    def go2(b=b, i=i):
                        b[i], b[i + 1] = b[i + 1], b[i]
                    out.append(go2)
    return out


@kind
def do_nothing(fn, info):
    def a():
        fn.body.insert(body_start(fn), ast.Assign(targets=[name("_unused_", S)], value=ast.Constant(value=0)))

    def c():
        fn.body.insert(body_start(fn), ast.If(test=ast.Constant(value=False), body=[ast.Pass()], orelse=[]))

    def d():
        fn.body.append(ast.Pass())
    return [a, c, d]


def body_start(fn):
    return 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0


def bad_for_extract(stmts):
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals"):
                return True
            if isinstance(x, ast.Name) and x.id == "__class__":
                return True
    return False


def defined_before(fn, stmts_before):
    out = set(params(fn))
    for s in stmts_before:
        out |= stored(s)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
        for x in ast.walk(s):
            if isinstance(x, ast.alias):
                out.add((x.asname or x.name).split(".")[0])
    return out


def definitely(stmts):
    """names certainly assigned after the statements."""
    out = set()
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            out |= {x.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for x in ast.walk(t)
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(s, ast.If):
            a = definitely(s.body) if not always_exits(s.body) else None
            b = definitely(s.orelse) if not always_exits(s.orelse) else None
            if a is None:
                out |= b or set()
            elif b is None:
                out |= a
            else:
                out |= a & b
        elif isinstance(s, ast.With):
            out |= definitely(s.body)
    return out


def mk_helper(info, hname, args, body, method):
    f = info["func"]
    a = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in args], kwonlyargs=[], kw_defaults=[], defaults=[])
    node = ast.FunctionDef(name=hname, args=a, body=body, decorator_list=[], returns=None, type_params=[])
    info["new"].append((hname, node, method))


@kind
def extract_tail(fn, info):
    """move the last statements into a private helper (method if there is self)."""
    out = []
    f = info["func"]
    method = f.cls is not None and not f.is_static and not f.is_classmethod and bool(f.pos)
    if f.is_generator():
        return []
    st = body_start(fn)
    for i in range(st, len(fn.body)):
        tail = fn.body[i:]
        before = definitely(fn.body[:i]) | set(params(fn)) | {s.name for s in fn.body[:i] if isinstance(s, (ast.FunctionDef,))}
        may = defined_before(fn, fn.body[:i])
        used = set()
        for s in tail:
            used |= loaded(s)
        need = used & may
        if bad_for_extract(tail) or not need <= before or has(fn, ast.Global, ast.Nonlocal):
            continue
        if any(isinstance(s, ast.Pass) for s in tail):
            continue
        # names stored in tail and captured by earlier closures
        if any(stored_in(tail) & loaded(s) for s in fn.body[:i] if isinstance(s, ast.FunctionDef)):
            continue
        def go(i=i, tail=tail, need=need):
            sf = f.pos[0] if method else None
            args = sorted(need - {sf})
            if method:
                args = [sf] + args
                call = ast.Call(func=ast.Attribute(value=name(sf), attr="_extracted_helper", ctx=L), args=[name(a) for a in args[1:]], keywords=[])
            else:
                call = ast.Call(func=name("_extracted_helper"), args=[name(a) for a in args], keywords=[])
            mk_helper(info, "_extracted_helper", args, tail, method)
            fn.body[i:] = [ast.Return(value=call)]
        out.append(go)
    return out


@kind
def extract_block(fn, info):
    """move a run of statements without exits into a helper that returns the assigned names."""
    out = []
    f = info["func"]
    method = f.cls is not None and not f.is_static and not f.is_classmethod and bool(f.pos)
    for o, b in blocks(fn):
        if isinstance(o, ast.Try):
            continue
        for i in range(len(b)):
            for j in range(i + 1, min(i + 5, len(b) + 1)):
                blk = b[i:j]
                if any(has(s, ast.Return, ast.Break, ast.Continue, ast.FunctionDef, ast.Lambda, ast.Delete, ast.Import, ast.ImportFrom) for s in blk) or bad_for_extract(blk):
                    continue
                if isinstance(blk[0], ast.Expr) and isinstance(blk[0].value, ast.Constant):
                    continue
                st_names = stored_in(blk)
                if o is not fn:
                    if b is not getattr(o, "body", None):
                        continue
                    # top-level statement holding it
                allother = set()
                inside = {id(x) for s in blk for x in ast.walk(s)}
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and id(x) not in inside:
                        allother.add(x.id)
                res = sorted(st_names & allother)
                if not set(res) <= definitely(blk):
                    continue
                locs = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(params(fn))
                hidden = {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn} | {
                    (x.asname or x.name).split(".")[0] for x in ast.walk(fn) if isinstance(x, ast.alias)}
                if any(loaded(s) & hidden for s in blk) or has(fn, ast.Global, ast.Nonlocal):
                    continue
                used = set()
                for s in blk:
                    used |= loaded(s)
                # inputs: locals used in block and bound before it (definitely)
                before = set(params(fn))
                path = find_path(fn, b)
                if path is None:
                    continue
                for (pb, k) in path:
                    before |= definitely(pb[:k])
                before |= definitely(b[:i])
                for (own) in owners(fn, b):
                    if isinstance(own, ast.For):
                        before |= stored(own.target)
                    if isinstance(own, ast.With):
                        for it in own.items:
                            if it.optional_vars is not None:
                                before |= stored(it.optional_vars)
                need = set()
                seen = set()
                for s in blk:
                    need |= (loaded(s) & locs) - seen
                    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                        need.add(s.target.id) if s.target.id not in seen else None
                    seen |= definitely([s])
                comp = set()
                for s in blk:
                    for x in ast.walk(s):
                        if isinstance(x, ast.comprehension):
                            comp |= stored(x.target)
                        if isinstance(x, ast.For):
                            comp |= stored(x.target)
                need -= comp - before
                if not need <= before:
                    continue
                if comp & set(res):
                    continue
                # a name augmented in place that is not returned is fine; nested functions reading block names are not
                if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and (loaded(x) & st_names) for x in ast.walk(fn) if x is not fn):
                    continue
                def go(b=b, i=i, j=j, blk=blk, res=res, need=need):
                    sf = f.pos[0] if method else None
                    args = sorted(need - {sf})
                    if method:
                        call = ast.Call(func=ast.Attribute(value=name(sf), attr="_extracted_helper", ctx=L), args=[name(a) for a in args], keywords=[])
                        args = [sf] + args
                    else:
                        call = ast.Call(func=name("_extracted_helper"), args=[name(a) for a in args], keywords=[])
                    body = list(blk)
                    if len(res) == 1:
                        body.append(ast.Return(value=name(res[0])))
                        new = ast.Assign(targets=[name(res[0], S)], value=call)
                    elif res:
                        body.append(ast.Return(value=ast.Tuple(elts=[name(x) for x in res], ctx=L)))
                        new = ast.Assign(targets=[ast.Tuple(elts=[name(x, S) for x in res], ctx=S)], value=call)
                    else:
                        new = ast.Expr(value=call)
                    mk_helper(info, "_extracted_helper", args, body, method)
                    b[i:j] = [new]
                out.append(go)
    return out


def find_path(fn, target):
    """list of (block, index) leading to the block `target`."""
    def go(b, acc):
        if b is target:
            return acc
        for k, s in enumerate(b):
            for f in ("body", "orelse", "finalbody"):
                c = getattr(s, f, None)
                if isinstance(c, list) and c and isinstance(c[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    r = go(c, acc + [(b, k)])
                    if r is not None:
                        return r
        return None
    return go(fn.body, [])


def owners(fn, target):
    out = []

    def go(b):
        if b is target:
            return True
        for s in b:
            for f in ("body", "orelse", "finalbody"):
                c = getattr(s, f, None)
                if isinstance(c, list) and c and isinstance(c[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    if go(c):
                        out.append(s)
                        return True
        return False
    go(fn.body)
    return out


@kind
def aug_to_plain(fn, info):
    """x += e -> x = x + e for names that start as a number."""
    out = []
    nums = set()
    for x in scope(fn):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Constant) and \
                isinstance(x.value.value, (int, float)):
            nums.add(x.targets[0].id)
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in nums:
                def go(b=b, i=i, s=s):
                    b[i] = ast.Assign(targets=[name(s.target.id, S)], value=ast.BinOp(left=name(s.target.id), op=s.op, right=s.value))
                out.append(go)
    return out


@kind
def keyword_args(fn, info):
    """spell a positional argument of a known function by keyword."""
    out = []
    f, tree = info["func"], info["tree"]
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and x.args and not any(isinstance(a, ast.Starred) for a in x.args) and \
                not any(k.arg is None for k in x.keywords):
            try:
                d = ast.unparse(x.func)
                r = tree.resolve_dotted(f.module, d)
            except Exception:
                r = None
            if isinstance(r, Func) and r.cls is None and len(x.args) <= len(r.pos):
                def go(x=x, r=r):
                    k = len(x.args) - 1
                    x.keywords.insert(0, ast.keyword(arg=r.pos[k], value=x.args.pop()))
                if r.pos[len(x.args) - 1] not in {k.arg for k in x.keywords}:
                    out.append(go)
    return out


@kind
def lambda_def(fn, info):
    """def g(..): return e  <->  lambda."""
    out = []
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.FunctionDef) and not s.decorator_list:
                bd = s.body[body_start(s):]
                if len(bd) == 1 and isinstance(bd[0], ast.Return) and bd[0].value is not None:
                    def go(b=b, i=i, s=s, bd=bd):
                        a = copy.deepcopy(s.args)
                        for x in ast.walk(a):
                            if isinstance(x, ast.arg):
                                x.annotation = None
                        b[i] = ast.Assign(targets=[name(s.name, S)], value=ast.Lambda(args=a, body=bd[0].value))
                    out.append(go)
    return out


@kind
def numpy_spelling(fn, info):
    out = []
    pairs = {"sum": 1, "conj": 1, "mean": 1, "max": 1, "min": 1, "prod": 1}
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "np":
            if x.func.attr in ("abs",) and len(x.args) == 1:
                def go(x=x):
                    x.func = ast.Attribute(value=name("np"), attr="absolute", ctx=L)
                out.append(go)
            if x.func.attr == "conj":
                def go2(x=x):
                    x.func = ast.Attribute(value=name("np"), attr="conjugate", ctx=L)
                out.append(go2)
            if x.func.attr == "square":
                pass
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Pow) and isinstance(x.right, ast.Constant) and x.right.value == 2 and pure(x.left):
            def go3(x=x):
                x.op = ast.Mult()
                x.right = copy.deepcopy(x.left)
            out.append(go3)
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Sub) and pure(x):
            def go4(x=x):
                x.op = ast.Add()
                x.right = ast.UnaryOp(op=ast.USub(), operand=x.right)
            out.append(go4)
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Div) and isinstance(x.right, ast.Constant) and x.right.value == 2:
            def go5(x=x):
                x.op = ast.Mult()
                x.right = ast.Constant(value=0.5)
            out.append(go5)
    return out


@kind
def literals(fn, info):
    out = []
    for x in ast.walk(fn):
        if isinstance(x, ast.List) and isinstance(x.ctx, ast.Load) and not x.elts:
            out.append(lambda x=x: repl(fn, x, ast.Call(func=name("list"), args=[], keywords=[])))
        if isinstance(x, ast.Dict) and not x.keys:
            out.append(lambda x=x: repl(fn, x, ast.Call(func=name("dict"), args=[], keywords=[])))
        if isinstance(x, ast.Dict) and x.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in x.keys):
            out.append(lambda x=x: repl(fn, x, ast.Call(func=name("dict"), args=[], keywords=[
                ast.keyword(arg=k.value, value=v) for k, v in zip(x.keys, x.values)])))
        if isinstance(x, ast.ListComp):
            out.append(lambda x=x: repl(fn, x, ast.Call(func=name("list"), args=[ast.GeneratorExp(elt=x.elt, generators=x.generators)], keywords=[])))
    return out


@kind
def default_then_override(fn, info):
    """if c: x = A else: x = B  ->  x = B; if c: x = A   (B pure, c does not read x)."""
    out = []
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and len(x.targets) == len(y.targets) == 1 and \
                        isinstance(x.targets[0], ast.Name) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    v = x.targets[0].id
                    if v in loaded(s.test) or v in loaded(x.value) or not isinstance(y.value, (ast.Name, ast.Constant, ast.Attribute)):
                        continue
                    def go(b=b, i=i, s=s, y=y):
                        s.orelse = []
                        b[i:i] = [y]
                    out.append(go)
    return out


@kind
def extract_expr(fn, info):
    """a sub-expression becomes a module-level helper function of the names it reads."""
    out = []
    f = info["func"]
    locs = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(params(fn)) | {
        x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn} | {
        (x.asname or x.name).split(".")[0] for x in ast.walk(fn) if isinstance(x, ast.alias)} | {
        a.arg for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for a in ast.walk(x.args) if isinstance(a, ast.arg)} | {
        x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler) and x.name}
    for s in scope(fn):
        if not isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) or getattr(s, "value", None) is None:
            continue
        for x in ast.walk(s.value):
            if isinstance(x, (ast.BinOp, ast.Call, ast.ListComp, ast.Compare)) and not has(x, ast.Lambda, ast.Yield, ast.NamedExpr, ast.GeneratorExp, ast.Starred):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super":
                    continue
                if any(isinstance(y, ast.Name) and y.id == "super" for y in ast.walk(x)):
                    continue
                if any(isinstance(y, ast.Attribute) and y.attr.startswith("__") for y in ast.walk(x)):
                    continue
                # bound by a comprehension around it
                inner = {n for c in ast.walk(fn) if isinstance(c, ast.comprehension) for n in stored(c.target)}
                own = {n for c in ast.walk(x) if isinstance(c, ast.comprehension) for n in stored(c.target)}
                free = (loaded(x) & (locs | inner)) - own
                def go(x=x, free=free):
                    args = sorted(free)
                    mk_helper(info, "_extracted_helper", args, [ast.Return(value=copy.deepcopy(x))], False)
                    repl(fn, x, ast.Call(func=name("_extracted_helper"), args=[name(a) for a in args], keywords=[]))
                out.append(go)
    return out


@kind
def swap_compare(fn, info):
    out = []
    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    neg = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and pure(x):
            if type(x.ops[0]) in sw:
                def go(x=x):
                    x.left, x.comparators[0] = x.comparators[0], x.left
                    x.ops[0] = sw[type(x.ops[0])]()
                out.append(go)
            if type(x.ops[0]) in (ast.Is, ast.IsNot, ast.In, ast.NotIn):
                def go2(x=x):
                    n = ast.Compare(left=x.left, ops=[neg[type(x.ops[0])]()], comparators=x.comparators)
                    repl(fn, x, ast.UnaryOp(op=ast.Not(), operand=n))
                out.append(go2)
    return out


@kind
def elif_nest(fn, info):
    """if a: X elif b: Y else: Z  ->  if not a: (if b: Y else Z) else X."""
    out = []
    for o, b in blocks(fn):
        for s in b:
            if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                def go(s=s):
                    s.test = ast.UnaryOp(op=ast.Not(), operand=s.test)
                    s.body, s.orelse = s.orelse, s.body
                out.append(go)
    return out


@kind
def tuple_assign(fn, info):
    """a = X; b = Y (independent)  ->  a, b = X, Y."""
    out = []
    for o, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if all(isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], ast.Name) for z in (s, t)):
                if s.targets[0].id in loaded(t.value) or s.targets[0].id == t.targets[0].id:
                    continue
                def go(b=b, i=i, s=s, t=t):
                    b[i:i + 2] = [ast.Assign(targets=[ast.Tuple(elts=[s.targets[0], t.targets[0]], ctx=S)],
                                             value=ast.Tuple(elts=[s.value, t.value], ctx=L))]
                out.append(go)
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, (ast.Call, ast.Name)) \
                    and all(isinstance(e, ast.Name) for e in s.targets[0].elts):
                def go2(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.Assign(targets=[name("unpacked", S)], value=s.value)] + [
                        ast.Assign(targets=[e], value=ast.Subscript(value=name("unpacked"), slice=ast.Constant(value=k), ctx=L))
                        for k, e in enumerate(s.targets[0].elts)]
                out.append(go2)
    return out


@kind
def sum_loop(fn, info):
    """x = sum(e for ...)  ->  x = 0; for ...: x += e     and any()/all() -> flag loop."""
    out = []
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call)
                    and isinstance(s.value.func, ast.Name) and s.value.func.id in ("sum", "any", "all") and len(s.value.args) == 1
                    and isinstance(s.value.args[0], (ast.ListComp, ast.GeneratorExp)) and len(s.value.args[0].generators) == 1):
                continue
            c = s.value.args[0]
            g = c.generators[0]
            v = s.targets[0].id
            if stored(g.target) & (stored_outside(fn, c) | set(params(fn))) or v in loaded(c):
                continue
            def go(b=b, i=i, s=s, c=c, g=g, v=v):
                k = s.value.func.id
                if k == "sum":
                    body = [ast.AugAssign(target=name(v, S), op=ast.Add(), value=c.elt)]
                    init = ast.Constant(value=0)
                else:
                    t = c.elt if k == "any" else ast.UnaryOp(op=ast.Not(), operand=c.elt)
                    body = [ast.If(test=t, body=[ast.Assign(targets=[name(v, S)], value=ast.Constant(value=k == "any")), ast.Break()], orelse=[])]
                    init = ast.Constant(value=k == "all")
                for t in reversed(g.ifs):
                    body = [ast.If(test=t, body=body, orelse=[])]
                b[i:i + 1] = [ast.Assign(targets=[name(v, S)], value=init), ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
            out.append(go)
    return out


@kind
def strings(fn, info):
    out = []
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "format" and isinstance(x.func.value, ast.Constant) \
                and isinstance(x.func.value.value, str) and not x.keywords and x.func.value.value.count("{}") == len(x.args) \
                and x.func.value.value.count("{") == len(x.args):
            def go(x=x):
                parts = x.func.value.value.split("{}")
                vals = []
                for k, p in enumerate(parts):
                    if p:
                        vals.append(ast.Constant(value=p))
                    if k < len(x.args):
                        vals.append(ast.FormattedValue(value=x.args[k], conversion=-1))
                repl(fn, x, ast.JoinedStr(values=vals))
            out.append(go)
    return out


@kind
def commute(fn, info):
    """a + b -> b + a for numeric literals / products."""
    out = []
    for x in ast.walk(fn):
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and pure(x) and not has(x, ast.List, ast.Tuple, ast.ListComp) \
                and not any(isinstance(y, ast.Constant) and isinstance(y.value, str) for y in ast.walk(x)):
            out.append(lambda x=x: (setattr(x, "left", x.right), None) if False else swap_lr(x))
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add) and pure(x) and any(
                isinstance(y, ast.Constant) and isinstance(y.value, (int, float, complex)) for y in (x.left, x.right)):
            out.append(lambda x=x: swap_lr(x))
    return out


def swap_lr(x):
    x.left, x.right = x.right, x.left


@kind
def local_alias(fn, info):
    """self.x read several times -> bound to a local first (no write in the function)."""
    out = []
    f = info["func"]
    if f.cls is None or f.is_static or not f.pos or f.is_generator():
        return []
    sf = f.pos[0]
    wr = {x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
    calls = {id(x.func) for x in ast.walk(fn) if isinstance(x, ast.Call)}
    if has(fn, ast.Call) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == sf
                                 for x in ast.walk(fn)):
        return []
    st = body_start(fn)
    if st >= len(fn.body):
        return []
    firsts = {}
    for x in ast.walk(fn.body[st]):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == sf and isinstance(x.ctx, ast.Load) and id(x) not in calls and x.attr not in wr:
            firsts[x.attr] = 1
    if isinstance(fn.body[st], (ast.If, ast.For, ast.While, ast.With, ast.Try)):
        firsts = {}
    for a in firsts:
        def go(a=a):
            class R(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    self.generic_visit(n)
                    if isinstance(n.value, ast.Name) and n.value.id == sf and n.attr == a and isinstance(n.ctx, ast.Load):
                        return name("local_" + a)
                    return n
            for k in range(st, len(fn.body)):
                fn.body[k] = R().visit(fn.body[k])
            fn.body[st:st] = [ast.Assign(targets=[name("local_" + a, S)], value=ast.Attribute(value=name(sf), attr=a, ctx=L))]
        out.append(go)
    return out


@kind
def keys_items(fn, info):
    """for k in d: ... d[k]  ->  for k, v in d.items()."""
    out = []
    for o, b in blocks(fn):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                it = s.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "keys" and not it.args:
                    def go0(s=s, it=it):
                        s.iter = it.func.value
                    out.append(go0)
                    it = it.func.value
                if not isinstance(it, (ast.Name, ast.Attribute)):
                    continue
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" \
                    and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name) \
                    and isinstance(s.iter.func.value, (ast.Name, ast.Attribute)):
                base = ast.dump(s.iter.func.value)
                def go1(s=s):
                    k, v = s.target.elts
                    d = s.iter.func.value
                    s.target = k
                    s.iter = d
                    s.body[0:0] = [ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(d), slice=name(k.id), ctx=L))]
                out.append(go1)
    return out


def main():
    pref, maxs, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    kinds = sys.argv[4].split(",") if len(sys.argv) > 4 else list(KINDS)
    rng = random.Random(seed)
    eng = Engine(os.path.join(HERE, "model"), os.environ.get("SA_ROOT", "/repo"))
    cnt, slow = {}, []
    show = os.environ.get("SHOW", "violated").split(",")
    t0 = time.time()
    for f in [f for f in eng.ref.all_funcs() if f.qual.startswith(pref)]:
        g = eng.cur_func(f.qual)
        for kn in kinds:
            probe = copy.deepcopy(g.node)
            n = len(KINDS[kn](probe, {"func": g, "tree": eng.cur, "new": []}))
            idx = list(range(n))
            rng.shuffle(idx)
            for k in idx[:maxs]:
                node = copy.deepcopy(g.node)
                info = {"func": g, "tree": eng.cur, "new": []}
                KINDS[kn](node, info)[k]()
                ast.fix_missing_locations(node)
                try:
                    src = ast.unparse(node)
                except Exception:
                    continue
                if ast.dump(node) == ast.dump(g.node):
                    continue
                v, dt = judge(eng, f, g, node, info)
                if dt > 10:
                    slow.append((kn, f.qual, round(dt)))
                cnt.setdefault(kn, Counter())[v.status] += 1
                if v.status in show:
                    print("----", v.status, kn, f.qual, g.where, v.how)
                    for ln in difflib.unified_diff(ast.unparse(g.node).split("\n"), src.split("\n"), lineterm="", n=0):
                        if ln[:2] not in ("--", "++", "@@"):
                            print("    ", ln)
                    for h, nd, _ in info["new"]:
                        print("     helper:", ast.unparse(ast.fix_missing_locations(nd)).replace("\n", "\n       "))
                    for x in v.notes[:2]:
                        print("      note", x[:400])
                    sys.stdout.flush()
    print("time", round(time.time() - t0), "slow", slow)
    for k, v in cnt.items():
        print("%-22s" % k, dict(v))


def judge(eng, f, g, node, info):
    if g.cls is not None:
        key = [a for a, b in g.cls.methods.items() if b is g][0]
        d = g.cls.methods
    else:
        key, d = g.name, g.module.funcs
    g2 = Func(g.qual, node, g.module, g.cls)
    d[key] = g2
    added = []
    for h, nd, method in info["new"]:
        ast.fix_missing_locations(nd)
        if method:
            g.cls.methods[h] = Func(g.cls.qual + "." + h, nd, g.module, g.cls)
            added.append((g.cls.methods, h))
        else:
            g.module.funcs[h] = Func(g.module.name + "." + h, nd, g.module, None)
            added.append((g.module.funcs, h))
    reset(eng, {f.qual})
    t = time.time()
    v = eng.verdict(f.qual)
    dt = time.time() - t
    d[key] = g
    for dd, h in added:
        del dd[h]
    reset(eng, set())
    return v, dt


def reset(eng, ch):
    eng.cur._find = {}
    eng.cur._methods_by_name = None
    eng.cur._attrs_written = None
    for a in ("_all_attr_names",):
        if hasattr(eng.cur, a):
            delattr(eng.cur, a)
    eng._ident, eng._shallow, eng._v, eng._changed = {}, {}, {}, ch


if __name__ == "__main__":
    main()
