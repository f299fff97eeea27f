"""Source model: modules, symbol tables, classes, import resolution (ast only)."""
import ast
import os


class Func:
    def __init__(self, qual, node, module, cls=None, outer=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        d = {}
        if a.defaults:
            for n, v in zip(self.pos[-len(a.defaults):], a.defaults):
                d[n] = v
        for n, v in zip(self.kwonly, a.kw_defaults):
            if v is not None:
                d[n] = v
        self.defaults = d
        self.decorators = [ast.unparse(x) for x in getattr(node, "decorator_list", [])]

    @property
    def name(self):
        return self.node.name

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return "property" in self.decorators or "cached_property" in self.decorators

    @property
    def where(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)

    def is_generator(self):
        for n in walk_scope(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False


def walk_scope(fn):
    """nodes of a function body, not descending into nested function scopes."""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}  # name -> value node (or None)
        self.ann = {}
        self.inner = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(qual + "." + st.name, st, module, cls=self)
                if any(d.endswith(".setter") for d in f.decorators):
                    f.qual += "!setter"
                    self.methods[st.name + "!setter"] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value
                self.ann[st.target.id] = st.annotation
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = Class(qual + "." + st.name, st, module)


class Module:
    def __init__(self, name, path, relpath, src, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.src = src
        self.is_pkg = is_pkg
        self.tree = ast.parse(src)
        self.imports = {}  # alias -> ("mod", fullname) | ("from", mod, name)
        self.stars = []
        self.funcs = {}
        self.classes = {}
        self.consts = {}   # name -> list of value nodes
        self._scan(self.tree.body)

    def _abs(self, node):
        if node.level == 0:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                m = self._abs(st)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(m)
                    else:
                        self.imports[a.asname or a.name] = ("from", m, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(self.name + "." + st.name, st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(self.name + "." + st.name, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.consts.setdefault(t.id, []).append(st.value)
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.consts.setdefault(e.id, []).append(None)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.consts.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.consts.setdefault(st.target.id, []).append(None)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                self._scan(st.orelse)
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)
                self._scan(getattr(st, "finalbody", []))


class Tree:
    """All non-test modules of the `spins` package under root."""

    def __init__(self, root, pkg="spins"):
        self.root = root
        self.modules = {}
        self.errors = []
        for base, dirs, files in os.walk(os.path.join(root, pkg)):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__" and not d.startswith("."))
            for fn in sorted(files):
                if not fn.endswith(".py") or fn.startswith("test_") or fn.endswith("_test.py"):
                    continue
                p = os.path.join(base, fn)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = fn == "__init__.py"
                if is_pkg:
                    name = name[:-len(".__init__")]
                try:
                    with open(p, encoding="utf-8") as f:
                        self.modules[name] = Module(name, p, rel, f.read(), is_pkg)
                except SyntaxError as e:  # the build would fail too
                    self.errors.append("%s: %s" % (rel, e))
        self._mro = {}
        self._methods_by_name = None
        self._attrs_written = None

    # -- symbol resolution -------------------------------------------------
    def lookup(self, modname, name, seen=None):
        """-> Func | Class | ('mod', name) | ('const', Module, name) | ('ext', dotted) | None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ("ext", (modname + "." if modname else "") + name)
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.consts:
            return ("const", m, name)
        if name in m.imports:
            im = m.imports[name]
            if im[0] == "mod":
                return ("mod", im[1])
            full = im[1] + "." + im[2] if im[1] else im[2]
            if im[1] in self.modules:
                r = self.lookup(im[1], im[2], seen)
                if r is not None:
                    return r
                if full in self.modules:
                    return ("mod", full)
                return None
            if full in self.modules:
                return ("mod", full)
            return ("ext", full)
        if modname + "." + name in self.modules:
            return ("mod", modname + "." + name)
        for s in m.stars:
            if s in self.modules:
                r = self.lookup(s, name, seen)
                if r is not None:
                    return r
        return None

    def resolve_dotted(self, module, dotted):
        """resolve 'a.b.c' seen in module to Func/Class/..."""
        parts = dotted.split(".")
        cur = self.lookup(module.name, parts[0])
        for p in parts[1:]:
            if isinstance(cur, tuple) and cur[0] == "mod":
                if cur[1] in self.modules:
                    nxt = self.lookup(cur[1], p)
                    if nxt is None and cur[1] + "." + p in self.modules:
                        nxt = ("mod", cur[1] + "." + p)
                    cur = nxt
                elif cur[1] + "." + p in self.modules:
                    cur = ("mod", cur[1] + "." + p)
                elif cur[1] == "spins" or cur[1].startswith("spins."):
                    return None
                else:
                    cur = ("ext", cur[1] + "." + p)
            elif isinstance(cur, tuple) and cur[0] == "ext":
                cur = ("ext", cur[1] + "." + p)
            elif isinstance(cur, Class):
                r = self.method(cur, p)
                if r is None:
                    r = cur.inner.get(p)
                cur = r
            else:
                return None
            if cur is None:
                return None
        return cur

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            try:
                d = ast.unparse(b)
            except Exception:
                continue
            r = self.resolve_dotted(cls.module, d) if all(
                c.isidentifier() for c in d.split(".")) else None
            if r is None and d in getattr(cls.module, "classes", {}):
                r = cls.module.classes[d]
            out.append(r if isinstance(r, Class) else ("ext", d))
        return out

    def mro(self, cls):
        if cls.qual in self._mro:
            return self._mro[cls.qual]
        self._mro[cls.qual] = [cls]
        out = [cls]
        for b in self.bases(cls):
            if isinstance(b, Class):
                for c in self.mro(b):
                    if c in out:
                        out.remove(c)
                    out.append(c)
        self._mro[cls.qual] = out
        return out

    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def all_classes(self):
        for m in self.modules.values():
            st = list(m.classes.values())
            while st:
                c = st.pop(0)
                yield c
                st.extend(c.inner.values())

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
        for c in self.all_classes():
            for f in c.methods.values():
                yield f

    def record_fields(self, qual):
        """the fields of a record type (named tuple, plain dataclass), in the order its constructor takes them."""
        if not hasattr(self, "_records"):
            self._records = {}
        if qual in self._records:
            return self._records[qual]
        r = None
        c = self.find(qual)
        if isinstance(c, Class):
            if not ({"__init__", "__new__", "__post_init__"} & set(c.methods)):
                ann = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)
                       and "ClassVar" not in ast.dump(s.annotation)]
                if len(c.node.bases) == 1:
                    b = c.node.bases[0]
                    r = _tuple_type(b)
                    if r is None and isinstance(b, (ast.Name, ast.Attribute)) and (getattr(b, "id", None) or b.attr) == "NamedTuple":
                        r = ann
                elif not c.node.bases and any("dataclass" in ast.dump(d) for d in c.node.decorator_list) and not any(
                        isinstance(s, ast.AnnAssign) and isinstance(s.value, ast.Call) for s in c.node.body):
                    r = ann
        elif c is None and "." in qual:
            m = self.modules.get(qual.rsplit(".", 1)[0])
            v = m.consts.get(qual.rsplit(".", 1)[1]) if m is not None else None
            if isinstance(v, ast.AST):
                r = _tuple_type(v)
        self._records[qual] = r
        return r

    def find(self, qual):
        """qualified name -> Func | Class (through re-exports and inheritance)."""
        if not hasattr(self, "_find"):
            self._find = {}
        if qual in self._find:
            return self._find[qual]
        r = self._find_uncached(qual)
        self._find[qual] = r
        return r

    def _find_uncached(self, qual):
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.modules:
                rest = parts[i:]
                if not rest:
                    return self.modules[m]
                cur = self.lookup(m, rest[0])
                for p in rest[1:]:
                    if isinstance(cur, Class):
                        nxt = self.method(cur, p)
                        if nxt is None:
                            nxt = cur.inner.get(p)
                        cur = nxt
                    else:
                        return None
                return cur if isinstance(cur, (Func, Class)) else None
        return None

    def methods_named(self, name):
        if self._methods_by_name is None:
            d = {}
            for c in self.all_classes():
                for n, f in c.methods.items():
                    d.setdefault(n, []).append(f)
            self._methods_by_name = d
        return self._methods_by_name.get(name, [])

    def foreign_stores(self):
        """attribute names assigned through anything but self."""
        if getattr(self, "_foreign", None) is None:
            self._foreign = {n.attr for md in self.modules.values() for n in ast.walk(md.tree)
                             if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))
                             and not (isinstance(n.value, ast.Name) and n.value.id == "self")}
        return self._foreign

    def attr_writers(self):
        """attr name -> set of method qualnames that assign <x>.<attr>."""
        if self._attrs_written is None:
            d = {}
            for f in self.all_funcs():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        d.setdefault(n.attr, set()).add(f.qual)
            self._attrs_written = d
        return self._attrs_written


def _tuple_type(e):
    """fields of NamedTuple("N", [("a", T), ...]) or namedtuple("N", "a b" | ["a", "b"])."""
    if not isinstance(e, ast.Call) or len(e.args) != 2 or e.keywords:
        return None
    n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
    a = e.args[1]
    if n == "namedtuple" and isinstance(a, ast.Constant) and isinstance(a.value, str):
        return a.value.replace(",", " ").split()
    if n not in ("NamedTuple", "namedtuple") or not isinstance(a, (ast.List, ast.Tuple)):
        return None
    out = []
    for x in a.elts:
        if n == "NamedTuple" and isinstance(x, ast.Tuple) and x.elts:
            x = x.elts[0]
        if not (isinstance(x, ast.Constant) and isinstance(x.value, str)):
            return None
        out.append(x.value)
    return out
