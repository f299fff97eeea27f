"""Hash-consed value-graph terms with normalising constructors.

A term stands for the value an expression denotes.  Two expressions that the
normalisation rules identify get the *same* (interned) term, so equality of
values is pointer equality.  Nothing here executes repository code.

Normal forms
  * arithmetic      -> polynomials over atoms with exact complex-rational
                       coefficients (commutative elementwise product)
  * matrix product  -> flattened non-commutative product
  * conditionals    -> reduced ordered decision diagrams hoisted to the top
  * comparisons     -> lt0(a-b) / eq / is / in, negation pushed to the diagram
  * iteration       -> maps / sums / folds over an extent with canonical
                       bound variables
"""
import hashlib
import itertools
import math
from fractions import Fraction

# --------------------------------------------------------------------------
# interning


class Term:
    __slots__ = ("op", "args", "dig", "bh", "leaves", "isb", "_mono", "_feat", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
FLAGS = set()  # set by constructors when a cap was hit


def _dig_of(a, h):
    if isinstance(a, Term):
        h.update(b"T")
        h.update(a.dig)
    elif isinstance(a, tuple):
        h.update(b"(")
        for x in a:
            _dig_of(x, h)
        h.update(b")")
    else:
        h.update(("%s:%r;" % (type(a).__name__, a)).encode())


def _key(a):
    if isinstance(a, Term):
        return ("T", id(a))
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def _bh(a):
    if isinstance(a, Term):
        return a.bh
    if isinstance(a, tuple):
        m = 0
        for x in a:
            b = _bh(x)
            if b > m:
                m = b
        return m
    return 0


EXT_OPS = {"map", "flatmap", "sumof", "exists", "dictmap", "last", "first", "fold", "loopev", "prodof", "loopmod"}


COMM = {"operator.bitand", "operator.bitor", "operator.bitxor", "numpy.logical_and", "numpy.logical_or",
        "numpy.logical_xor", "numpy.maximum", "numpy.minimum"}


def _sorted(tp):
    return tuple(sorted(tp, key=lambda t: t.dig))


def raw(op, *args):
    if op in EXT_OPS and isinstance(args[0], tuple) and len(args[0]) > 1:
        args = (_sorted(args[0]),) + args[1:]
    if op == "loopev":
        args = (args[0], _sorted(args[1])) + args[2:]
    elif op == "event":
        args = args[:2] + (_sorted(args[2]),)
    elif op == "fn":
        args = (args[0], _sorted(args[1]), _sorted(args[2]))
    elif op == "set":
        args = _sorted(args)
    elif op == "call" and len(args[1]) == 2 and args[0].op == "glob" and args[0].args[0] in COMM:
        args = (args[0], _sorted(args[1])) + args[2:]
    k = (op, args)
    t = _table.get(k)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    h = hashlib.sha1()
    h.update(op.encode())
    _dig_of(args, h)
    t.dig = h.digest()
    t.bh = max(_bh(args), args[0] if op == "bv" else 0)
    t.leaves = (args[1].leaves + args[2].leaves) if op == "ite" else 1
    t.isb = op == "ite" and args[1].isb and args[2].isb
    t._feat = t._mono = None
    _table[k] = t
    return t


def reset():
    _table.clear()
    _subst_memo.clear()
    _init()


# --------------------------------------------------------------------------
# constants


class Num:
    """Exact complex rational."""
    __slots__ = ("re", "im")

    def __init__(self, re=0, im=0):
        self.re = re if type(re) is Fraction else Fraction(re)
        self.im = im if type(im) is Fraction else Fraction(im)

    def __add__(self, o):
        return Num(self.re + o.re, self.im + o.im)

    def __mul__(self, o):
        return Num(self.re * o.re - self.im * o.im,
                   self.re * o.im + self.im * o.re)

    def inv(self):
        d = self.re * self.re + self.im * self.im
        return Num(self.re / d, -self.im / d)

    def conj(self):
        return Num(self.re, -self.im)

    def zero(self):
        return self.re == 0 and self.im == 0

    def isone(self):
        return self.re == 1 and self.im == 0

    def key(self):
        return (self.re.numerator, self.re.denominator, self.im.numerator,
                self.im.denominator)

    def __eq__(self, o):
        return isinstance(o, Num) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        def f(x):
            return str(x) if x.denominator == 1 or x.denominator < 1000 else repr(
                float(x))
        if self.im == 0:
            return f(self.re)
        if self.re == 0:
            return f(self.im) + "j"
        return "(%s+%sj)" % (f(self.re), f(self.im))


def num(v):
    if isinstance(v, Num):
        return raw("num", *v.key())
    if isinstance(v, complex):
        return raw("num", *Num(Fraction(v.real), Fraction(v.imag)).key())
    return raw("num", *Num(Fraction(v)).key())


def const(v):
    if v is None or isinstance(v, (bool, str, bytes)) or v is Ellipsis:
        return raw("const", type(v).__name__, "..." if v is Ellipsis else v)
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return raw("const", "float", repr(v))
    return num(v)


def numval(t):
    if t.op == "num":
        a, b, c, d = t.args
        return Num(Fraction(a, b), Fraction(c, d))
    return None


def intval(t):
    n = numval(t)
    if n is not None and n.im == 0 and n.re.denominator == 1:
        return int(n.re)
    return None


TRUE = FALSE = NONE = None


def _init():
    global TRUE, FALSE, NONE, ZERO, ONE
    TRUE = const(True)
    FALSE = const(False)
    TRUE.isb = FALSE.isb = True
    NONE = const(None)
    ZERO = num(0)
    ONE = num(1)


_subst_memo = {}
_init()


def sym(*name):
    return raw("sym", *name)


_SAME_NAME = {"IOError": "OSError", "EnvironmentError": "OSError"}


def glob(name):
    return raw("glob", _SAME_NAME.get(name, name))


def isstr(t):
    return t.op == "const" and t.args[0] == "str"


# --------------------------------------------------------------------------
# decision diagrams

LEAFCAP = 96
LIFTCAP = 2500


def ite(c, a, b):
    """c: boolean diagram; a, b: diagrams."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    return _ite(c, a, b, {})


def _top(t):
    return t.args[0] if t.op == "ite" else None


def _cof(t, atom, pol):
    if t.op == "ite" and t.args[0] is atom:
        return t.args[1] if pol else t.args[2]
    return t


def _ite(c, a, b, memo):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (id(c), id(a), id(b))
    r = memo.get(k)
    if r is not None:
        return r
    atoms = [x for x in (_top(c), _top(a), _top(b)) if x is not None]
    if not atoms:
        # c is not a diagram: treat as truth atom
        c2 = truth(c)
        return _ite(c2, a, b, memo)
    at = min(atoms, key=lambda x: x.dig)
    hi = _ite(_cof(c, at, 1), _cof(a, at, 1), _cof(b, at, 1), memo)
    lo = _ite(_cof(c, at, 0), _cof(a, at, 0), _cof(b, at, 0), memo)
    if lo.op == "list" and not lo.args and hi.op == "map" and at.op == "truth" and hi.args[0] == (at.args[0],) \
            and at.args[0].op == "attr" and at.args[0].args[0].op == "call":
        return hi                       # nothing to go over
    r = hi if hi is lo else raw("ite", at, hi, lo)
    memo[k] = r
    return r


def atom_bool(a):
    return raw("ite", a, TRUE, FALSE)


def b_not(c):
    return ite(truth(c), FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in reversed(cs):
        r = ite(truth(c), r, FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in reversed(cs):
        r = ite(truth(c), TRUE, r)
    return r


def is_bool(t):
    return t.isb


def truth(t):
    if t is TRUE or t is FALSE:
        return t
    if t.op == "ite":
        if t.isb:
            return t
        return map_leaves(t, truth)
    if t.op == "const":
        v = t.args[1]
        return TRUE if (t.args[0] == "ellipsis" or v) else FALSE
    if t.op == "num":
        return FALSE if numval(t).zero() else TRUE
    if t.op in ("list", "tuple", "dict", "set"):
        return TRUE if t.args else FALSE
    if t.op in ("lam", "glob"):
        return TRUE
    if t.op == "boolv":
        return t.args[0]
    if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] == "bool" and t.args[1]:
        return truth(t.args[1][0])
    if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] == "len" and t.args[1]:
        # len(x) as a condition == truthiness of the container
        return truth(t.args[1][0])
    return atom_bool(raw("truth", t))


def boolv(t):
    """a comparison used as data (e.g. an array mask) is one atom, not a gate."""
    return raw("boolv", t)


def lift(f, args):
    """Apply f to arguments, hoisting decision diagrams to the top."""
    args = tuple(boolv(a) if isinstance(a, Term) and a.op == "ite" and is_bool(a) else a for a in args)
    tops = [a.args[0] for a in args if isinstance(a, Term) and a.op == "ite"]
    if not tops:
        return f(*args)
    tot = 1
    for a in args:
        if isinstance(a, Term):
            tot *= a.leaves
    if tot > LEAFCAP:
        try:
            return _lift(f, args, {}, LIFTCAP)
        except _Cap:
            FLAGS.add("diagram-cap")
            return f(*args)
    return _lift(f, args, {})


class _Cap(Exception):
    pass


def _lift(f, args, memo, cap=0):
    k = tuple(id(a) for a in args)
    if k in memo:
        return memo[k]
    if cap and len(memo) > cap:
        raise _Cap
    tops = [a.args[0] for a in args if isinstance(a, Term) and a.op == "ite"]
    if not tops:
        r = f(*args)
    else:
        at = min(tops, key=lambda x: x.dig)
        hi = _lift(f, tuple(_cof(a, at, 1) if isinstance(a, Term) else a for a in args), memo, cap)
        lo = _lift(f, tuple(_cof(a, at, 0) if isinstance(a, Term) else a for a in args), memo, cap)
        r = ite(atom_bool(at), hi, lo)
    memo[k] = r
    return r


def map_leaves(t, f, memo=None):
    if memo is None:
        memo = {}
    if id(t) in memo:
        return memo[id(t)]
    if t.op == "ite":
        r = ite(atom_bool(t.args[0]), map_leaves(t.args[1], f, memo),
                map_leaves(t.args[2], f, memo))
    else:
        r = f(t)
    memo[id(t)] = r
    return r


def diagram_nodes(t, seen=None):
    """the decision nodes of a diagram (not those inside its leaves)."""
    seen = {} if seen is None else seen
    if t.op == "ite" and id(t) not in seen:
        seen[id(t)] = t
        diagram_nodes(t.args[1], seen)
        diagram_nodes(t.args[2], seen)
    return list(seen.values())


def restrict(t, atom, pol, memo=None):
    """the diagram where the atom is known to be true / false."""
    memo = {} if memo is None else memo
    if t.op != "ite":
        return t
    if id(t) not in memo:
        if t.args[0] is atom:
            memo[id(t)] = restrict(t.args[1 if pol else 2], atom, pol, memo)
        else:
            memo[id(t)] = ite(atom_bool(t.args[0]), restrict(t.args[1], atom, pol, memo), restrict(t.args[2], atom, pol, memo))
    return memo[id(t)]


def assume(leaf, guard):
    """the leaf where every condition the guard settles is settled inside it too."""
    if guard.op != "ite":
        return leaf
    ats = {id(n.args[0]): n.args[0] for n in diagram_nodes(guard)}
    if not ats or len(ats) > 40:
        return leaf
    here = [a for i, a in ats.items() if a.op != "exc" and occurs(leaf, a)]
    mp = {}
    for a in here:
        if restrict(guard, a, False) is FALSE:
            mp[id(a)] = TRUE
        elif restrict(guard, a, True) is FALSE:
            mp[id(a)] = FALSE
    return subst(leaf, mp) if mp else leaf


def contextual(t):
    """every leaf simplified under its own guard."""
    if t.op != "ite":
        return t
    new = {}
    lg = leaf_guards(t)
    if len(lg) > 60:
        return t
    for l, g in lg:
        if l.args:
            n = assume(l, g)
            if n is not l:
                new[id(l)] = n
    return map_leaves(t, lambda l: new.get(id(l), l)) if new else t


def leaf_guards(t):
    """list of (leaf, guard diagram), one per distinct leaf."""
    order, seen = [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "ite":
            stack += [x.args[2], x.args[1]]
        else:
            order.append(x)
    if len(order) == 1:
        return [(order[0], TRUE)]
    return [(l, map_leaves(t, lambda y, l=l: TRUE if y is l else FALSE)) for l in order]


# --------------------------------------------------------------------------
# arithmetic

MONOCAP = 60


def _mono_of(t):
    """-> dict {mono: Num} where mono is tuple of (Term, Fraction exp)."""
    if t.op == "poly":
        if t._mono is None:
            t._mono = {m: Num(Fraction(c[0], c[1]), Fraction(c[2], c[3])) for c, m in t.args}
        return t._mono
    n = numval(t)
    if n is not None:
        return {} if n.zero() else {(): n}
    if t.op == "const" and t.args[0] == "bool":
        n = Num(1 if t.args[1] else 0)
        return {} if n.zero() else {(): n}
    return {((t, (1, 1)),): Num(1)}


def _mk_poly(d):
    items = [(m, c) for m, c in d.items() if not c.zero()]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c.isone() and len(m) == 1 and m[0][1] == (1, 1):
            return m[0][0]
    items.sort(key=lambda mc: tuple((x.dig, e) for x, e in mc[0]))
    return raw("poly", *[(c.key(), m) for m, c in items])


def _mono_mul(a, b):
    if not a and not b:
        return ()
    d = {}
    o = {}
    if len(a) + len(b) == 1:
        return a or b
    for x, e in a + b:
        o[id(x)] = x
        d[id(x)] = d.get(id(x), Fraction(0)) + Fraction(*e)
    r = [(o[i], (e.numerator, e.denominator)) for i, e in d.items() if e != 0]
    r.sort(key=lambda p: p[0].dig)
    return tuple(r)


SEQ_OPS = ("list", "tuple", "concat", "map", "flatmap", "strfmt", "rep", "seqfilter")


def is_seq(t):
    if t.op in SEQ_OPS or isstr(t):
        return True
    if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] in (
            "list", "sorted", "tuple", "str", "numpy_no"):
        return True
    if t.op == "acc" and t.args[1] == "seq":
        return True
    return False


def add(a, b):
    return lift(_add, (a, b))


def _add(a, b):
    if is_seq(a) or is_seq(b):
        return concat(a, b)
    d = dict(_mono_of(a))
    for m, c in _mono_of(b).items():
        d[m] = d[m] + c if m in d else c
    return _mk_poly(d)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return lift(_sub, (a, b))


def _sub(a, b):
    return _add(a, _mul(num(-1), b))


def mul(a, b):
    return lift(_mul, (a, b))


def rep(x, n):
    """x * n for a sequence x; written out when short and no new object is shared between the places."""
    i = intval(n)
    if i is not None and x.op in ("list", "tuple") and 0 <= i and i * len(x.args) <= 12 and not any(
            y.op == "star" or x.op == "list" and y.op not in ("num", "const", "slice", "bool") and y not in (NONE, TRUE, FALSE)
            for y in x.args):
        return raw(x.op, *(x.args * i))
    return raw("rep", x, n)


def _mul(a, b):
    if is_seq(a):
        return rep(a, b)
    if is_seq(b):
        return rep(b, a)
    da, db = _mono_of(a), _mono_of(b)
    if len(da) * len(db) > MONOCAP:
        FLAGS.add("poly-cap")
        if len(da) > 1:
            da = {((a, (1, 1)),): Num(1)}
        if len(db) > 1:
            db = {((b, (1, 1)),): Num(1)}
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mono_mul(m1, m2)
            c = c1 * c2
            d[m] = d[m] + c if m in d else c
    return _mk_poly(d)


def power(a, b):
    return lift(_power, (a, b))


def _power(a, b):
    n = numval(b)
    if n is not None and n.im == 0:
        e = n.re
        if e == 0:
            return ONE
        if e == 1:
            return a
        na = numval(a)
        if na is not None and e.denominator == 1 and abs(e) < 64:
            r = Num(1)
            for _ in range(abs(int(e))):
                r = r * na
            if e < 0:
                if r.zero():
                    return raw("pow", a, b)
                r = r.inv()
            return num(r)
        da = _mono_of(a)
        if e.denominator == 1 and 0 < e <= 3 and 1 < len(da) <= (9 if e == 2 else 4):
            r = a
            for _ in range(int(e) - 1):
                r = _mul(r, a)
            return r
        if len(da) == 1:
            (m, c), = da.items()
            if e.denominator == 1:
                cc = Num(1)
                for _ in range(abs(int(e))):
                    cc = cc * c
                if e < 0:
                    cc = cc.inv()
                mm = tuple((x, ((Fraction(*p) * e).numerator, (Fraction(*p) * e).denominator)) for x, p in m)
                return _mk_poly({mm: cc})
            if c.isone() and len(m) == 1 and Fraction(*m[0][1]) == 1:
                x = m[0][0]
                return _mk_poly({((x, (e.numerator, e.denominator)),): Num(1)})
            return _mk_poly({((a, (e.numerator, e.denominator)),): Num(1)})
        if len(da) > 1:
            # make monic so that (2a+2b)^-1 == 1/2 (a+b)^-1
            items = sorted(da.items(), key=lambda mc: tuple((x.dig, p) for x, p in mc[0]))
            lead = items[0][1]
            if e.denominator == 1 and not lead.isone():
                a2 = _mul(num(lead.inv()), a)
                cc = Num(1)
                for _ in range(abs(int(e))):
                    cc = cc * lead
                if e < 0:
                    cc = cc.inv()
                return _mul(num(cc), _mk_poly({((a2, (e.numerator, e.denominator)),): Num(1)}))
            return _mk_poly({((a, (e.numerator, e.denominator)),): Num(1)})
    return raw("pow", a, b)


def div(a, b):
    return lift(_div, (a, b))


def _div(a, b):
    return _mul(a, _power(b, num(-1)))


def matmul(a, b):
    return lift(_matmul, (a, b))


def _matmul(a, b):
    fa = a.args if a.op == "matmul" else (a,)
    fb = b.args if b.op == "matmul" else (b,)
    return raw("matmul", *(fa + fb))


# --------------------------------------------------------------------------
# comparisons


def lt(a, b):
    return lift(_lt, (a, b))


def _lt(a, b):
    d = _sub(a, b) if not (is_seq(a) or is_seq(b)) else raw("pairdiff", a, b)
    n = numval(d)
    if n is not None and n.im == 0:
        return TRUE if n.re < 0 else FALSE
    # len(x) > 0  <=>  truth(x);  len(x) < 1 <=> not truth(x)
    if d.op == "poly":
        ms = _mono_of(d)
        if len(ms) == 1:
            (m, c), = ms.items()
            if c.im == 0 and c.re < 0 and len(m) == 1 and m[0][1] == (1, 1) and _islen(m[0][0]):
                return truth(m[0][0])
        if len(ms) == 2 and () in ms:
            other = [m for m in ms if m][0]
            if (_is_one_mono(other) and _islen(other[0][0]) and ms[other].isone()
                    and ms[()] == Num(-1)):
                return b_not(truth(other[0][0]))
    # scale by |lead|
    if d.op == "poly":
        ms = sorted(_mono_of(d).items(), key=lambda mc: tuple((x.dig, p) for x, p in mc[0]))
        lead = ms[0][1]
        if lead.im == 0 and abs(lead.re) != 1:
            d = _mul(num(Num(1 / abs(lead.re))), d)
    return atom_bool(raw("lt0", d))


def _is_one_mono(m):
    return len(m) == 1 and m[0][1] == (1, 1)


def _islen(t):
    return t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] == "len"


def eq(a, b):
    return lift(_eq, (a, b))


def _eq(a, b):
    if a.op == "boolv" or b.op == "boolv":
        x, y = (a, b) if a.op == "boolv" else (b, a)
        if y is TRUE:
            return x.args[0]
        if y is FALSE:
            return b_not(x.args[0])
    if a is b and a.op in ("num", "const"):
        return TRUE
    if a.op in ("num", "const") and b.op in ("num", "const"):
        if a.op == b.op or "str" in (a.args[0], b.args[0]) or NONE in (a, b):
            return FALSE
    if a is NONE or b is NONE:
        return is_(a, b)
    if a.op == "call" and b.op == "call" and gname(a.args[0]) == "id" == gname(b.args[0]) \
            and len(a.args[1]) == 1 == len(b.args[1]):
        return is_(a.args[1][0], b.args[1][0])
    for x, y in ((a, b), (b, a)):
        if y.op == "num" and numval(y).zero() and _islen(x):
            return b_not(truth(x))
        if y is TRUE and is_bool(x):
            return x
        if y is FALSE and is_bool(x):
            return b_not(x)
        if y.op in ("list", "tuple", "dict") and not y.args and y.op != "tuple":
            return b_not(truth(x))
    if a.op == "poly" or b.op == "poly":
        if not is_seq(a) and not is_seq(b):
            d = _sub(a, b)
            n = numval(d)
            if n is not None:
                return TRUE if n.zero() else FALSE
            ms = sorted(_mono_of(d).items(), key=lambda mc: tuple((x.dig, p) for x, p in mc[0]))
            lead = ms[0][1]
            if not lead.isone():
                d = _mul(num(lead.inv()), d)
            return atom_bool(raw("eq0", d))
    x, y = sorted((a, b), key=lambda t: t.dig)
    return atom_bool(raw("eq", x, y))


def is_(a, b):
    def f(a, b):
        if a.op in ("num", "const") and b.op in ("num", "const"):
            return TRUE if a is b else FALSE
        if b is NONE or a is NONE:
            o = a if b is NONE else b
            if o.op in ("list", "tuple", "dict", "set", "map", "poly", "lam", "concat", "strfmt", "dictmap", "rep"):
                return FALSE
        x, y = sorted((a, b), key=lambda t: t.dig)
        return atom_bool(raw("is", x, y))
    return lift(f, (a, b))


def in_(a, b):
    def f(a, b):
        if b.op in ("tuple", "list", "set") :
            if not b.args:
                return FALSE
            if all(not isinstance(x, Term) or x.op != "star" for x in b.args):
                return b_or(*[_eq(a, x) for x in b.args])
        if b.op == "dict" and len(b.args) <= 12 and all(k.op in ("num", "const") for k, _ in b.args):
            return b_or(*[_eq(a, k) for k, _ in b.args])
        if b.op == "call" and b.args[0].op == "method" and b.args[0].args[0] == "keys":
            b = b.args[1][0]
        return atom_bool(raw("in", a, b))
    return lift(f, (a, b))


# --------------------------------------------------------------------------
# sequences


def concat(a, b):
    pa = a.args if a.op == "concat" else (a,)
    pb = b.args if b.op == "concat" else (b,)
    parts = []
    if any(isstr(p) or p.op == "strfmt" for p in pa + pb):   # text: both forms of joining it are one
        return strfmt(*[p if isstr(p) or p.op == "strfmt" else raw("fmt", p, "") for p in pa + pb])
    for n, p in enumerate(pa + pb):
        if n and p.op == "call" and gname(p.args[0]) == "list" and len(p.args[1]) == 1 and not p.args[2]:
            p = p.args[1][0]
        if p.op in ("list", "tuple") and not p.args:
            if parts or p is not (pa + pb)[-1]:
                continue
        if parts and parts[-1].op == "list" and p.op == "list":
            parts[-1] = raw("list", *(parts[-1].args + p.args))
        elif parts and parts[-1].op == "tuple" and p.op == "tuple":
            parts[-1] = raw("tuple", *(parts[-1].args + p.args))
        elif parts and (parts[-1].op == "strfmt" or isstr(parts[-1])) and (p.op == "strfmt" or isstr(p)):
            parts[-1] = strfmt(*(_sparts(parts[-1]) + _sparts(p)))
        else:
            parts.append(p)
    if len(parts) > 1:
        parts = [p for p in parts if not (p.op == "list" and not p.args)] or parts[:1]
    if pa[0].op == "list" and not pa[0].args and parts and parts[0].op in ("sym", "attr", "idx", "elem") and len(pa) == 1:
        parts[0] = call(glob("list"), (parts[0],), ())
    if len(parts) == 1:
        return parts[0]
    return raw("concat", *parts)


def _sparts(t):
    return t.args if t.op == "strfmt" else (t,)


def strfmt(*parts):
    out = []
    for p in parts:
        if isstr(p):
            if p.args[1] == "":
                continue
            if out and isstr(out[-1]):
                out[-1] = const(out[-1].args[1] + p.args[1])
                continue
        elif p.op == "strfmt":
            for q in p.args:
                out.append(q)
            continue
        out.append(p)
    if not out:
        return const("")
    if len(out) == 1 and isstr(out[0]):
        return out[0]
    return raw("strfmt", *out)


def tup(*xs):
    return raw("tuple", *xs)


def lst(*xs):
    return raw("list", *xs)


# --------------------------------------------------------------------------
# attribute / index / store


def attr(b, name):
    if b.op == "ite":
        return lift(lambda x: _attr(x, name), (b,))
    return _attr(b, name)


def _attr(b, name):
    if name == "real":
        return call_np("numpy.real", b)
    if name == "imag":
        return call_np("numpy.imag", b)
    if name == "T":
        return call_np("numpy.transpose", b)
    if b.op == "glob":
        return glob(b.args[0] + "." + name)
    return raw("attr", b, name)


def call_np(name, *args):
    return call(glob(name), args, ())


def _const_like(t):
    return t.op in ("num", "const") or (t.op == "tuple" and all(_const_like(x) for x in t.args))


def idx(b, k):
    return lift(_idx, (b, k))


def _idx(b, k):
    if b.op == "store":
        base, kk, v = b.args
        if kk is k:
            return v
        if _const_like(kk) and _const_like(k):
            return _idx(base, k)
    if b.op == "dict":
        for kk, v in b.args:
            if kk is k:
                return v
        if 0 < len(b.args) <= 12 and k.op not in ("num", "const") and all(kk.op in ("num", "const") for kk, _ in b.args):
            r = raw("idx", b, k)        # no such key
            for kk, v in reversed(b.args):
                r = ite(_eq(k, kk), v, r)
            return r
    if b.op == "rep" and k.op in ("bv", "fresh") and b.args[0].op == "list" and len(b.args[0].args) == 1 \
            and b.args[0].args[0].op in ("num", "const"):
        return b.args[0].args[0]
    if b.op == "idx" and b.args[1].op == "slice" and k.op in ("bv", "fresh") and b.args[1].args[2] in (NONE, ONE):
        lo = b.args[1].args[0]          # within the slice
        if lo is NONE:
            return _idx(b.args[0], k)
        if intval(lo) is not None and intval(lo) >= 0:
            return _idx(b.args[0], _add(lo, k))
    if b.op == "idx" and b.args[1].op == "slice" and b.args[1].args[2] in (NONE, ONE) and (intval(k) or 0) >= 0 \
            and intval(k) is not None:
        lo, hi = b.args[1].args[:2]
        l = 0 if lo is NONE else intval(lo)
        if l is not None and l >= 0 and (hi is NONE or (intval(hi) or 0) > l + intval(k)):
            return _idx(b.args[0], num(l + intval(k)))
    if b.op == "call" and gname(b.args[0]) == "sorted" and len(b.args[1]) == 1 and not b.args[2] and b.args[1][0].op in ("tuple", "list") \
            and len(b.args[1][0].args) == 2 and intval(k) in (0, 1, -1, -2) and not any(x.op == "star" for x in b.args[1][0].args):
        return call(glob("min" if intval(k) in (0, -2) else "max"), b.args[1][0].args, ())
    if k.op == "slice" and k.args[0] in (NONE, ZERO) and k.args[1] is NONE and k.args[2] in (NONE, ONE) and (
            b.op in ("map", "list", "tuple", "concat") or b.op == "call" and gname(b.args[0]) in ("list", "sorted", "tuple")):
        return b
    if isstr(b) and intval(k) is not None and -len(b.args[1]) <= intval(k) < len(b.args[1]):
        return const(b.args[1][intval(k)])
    if b.op in ("tuple", "list"):
        i = intval(k)
        if i is not None and not any(x.op == "star" for x in b.args) and -len(b.args) <= i < len(b.args):
            return b.args[i]
        if k.op == "slice" and not any(x.op == "star" for x in b.args):
            vals = []
            ok = True
            for s in k.args:
                if s is NONE:
                    vals.append(None)
                elif intval(s) is not None:
                    vals.append(intval(s))
                else:
                    ok = False
            if ok:
                return raw(b.op, *b.args[slice(*vals)])
    if k.op == "slice" and k.args[0].op == "num" and numval(k.args[0]).zero() and k.args[2] is NONE:
        k = raw("slice", NONE, k.args[1], NONE)
    if b.op == "call" and len(b.args[1]) == 1 and not b.args[2] and gname(b.args[0]) in ELEMENTWISE:
        return call(b.args[0], (_idx(b.args[1][0], k),), ())
    if intval(k) is not None and b.op == "call" and gname(b.args[0]) in ("tuple", "list") and len(b.args[1]) == 1 and not b.args[2] \
            and b.args[1][0].op in ("sym", "attr", "idx", "elem", "call"):
        return _idx(b.args[1][0], k)
    if k.op not in ("slice", "tuple", "list") and b.op == "call" and gname(b.args[0]) in ("tuple", "list") and len(b.args[1]) == 1 \
            and not b.args[2] and b.args[1][0].op == "map":
        return _idx(b.args[1][0], k)
    if b.op == "map" and b.args[1] is TRUE and k.op == "num" and all(e.op in ("attr", "sym", "idx", "elem", "list", "tuple") for e in b.args[0]) \
            and (intval(k) or 0) >= 0 and intval(k) is not None:
        return subst(b.args[2], {id(b.args[3]): k})
    if k.op in ("bv", "fresh"):
        # [f(x) for x in X][i] -> f(X[i]) when unconditional
        if b.op == "map" and b.args[1] is TRUE:
            return subst(b.args[2], {id(b.args[3]): k})
        return raw("elem", b, k)
    return raw("idx", b, k)


ELEMENTWISE = {"numpy.abs", "numpy.conj", "numpy.real", "numpy.imag", "numpy.exp", "numpy.angle", "numpy.sin", "numpy.cos"}
SHAPERS = {"numpy.flatten", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.squeeze"}


def _noelem(l):
    return l.op == "sym" and l.args == ("$noelem",)


def pairs(x):
    """the dictionary a sequence of pairs makes, if its form is known."""
    if x.op == "map":
        ext, cond, body, bv = x.args
        ls = [l for l, _ in leaf_guards(body)]
        if all(_noelem(l) or l.op == "tuple" and len(l.args) == 2 for l in ls):
            return raw("dictmap", ext, map_leaves(body, lambda l: l if _noelem(l) else raw("kv", *l.args)), bv)
    if x.op in ("list", "tuple") and all(isinstance(l, Term) and l.op == "tuple" and len(l.args) == 2 for l in x.args):
        return mkdict([l.args for l in x.args])
    if x.op in ("dict", "dictmap"):
        return x
    return None


def store(b, k, v):
    return lift(_store, (b, k, v))


def _store(b, k, v):
    if b.op == "dict":
        items = list(b.args)
        if all(_const_like(kk) for kk, _ in items) and _const_like(k):
            for i, (kk, _) in enumerate(items):
                if kk is k:
                    items[i] = (k, v)
                    return mkdict(items)
            items.append((k, v))
            return mkdict(items)
        if not items:
            return mkdict([(k, v)])
    if b.op == "list":
        i = intval(k)
        if i is not None and -len(b.args) <= i < len(b.args):
            a = list(b.args)
            a[i] = v
            return raw("list", *a)
        if k.op == "sym" and len(b.args) <= 4 and not any(x.op == "star" for x in b.args):
            return raw("list", *[ite(_eq(k, num(j)), v, x) for j, x in enumerate(b.args)])
    if b.op == "store":
        base, kk, vv = b.args
        if kk is k:
            return _store(base, k, v)
        if _const_like(kk) and _const_like(k) and k.dig < kk.dig:
            return raw("store", _store(base, k, v), kk, vv)
    return raw("store", b, k, v)


def mkdict(items):
    # key order of literals with constant keys is not observable for our purposes
    if all(_const_like(k) for k, _ in items):
        d = {}
        o = {}
        for k, v in items:
            d[id(k)] = v
            o[id(k)] = k
        items = sorted(((o[i], d[i]) for i in d), key=lambda kv: kv[0].dig)
    return raw("dict", *[(k, v) for k, v in items])


# --------------------------------------------------------------------------
# calls

NPALIAS = {
    "numpy.conjugate": "numpy.conj", "numpy.absolute": "numpy.abs", "abs": "numpy.abs",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.inner": "numpy.inner",
    "numpy.dot": "numpy.matmul", "numpy.product": "numpy.prod", "numpy.asarray_chkfinite": "numpy.asarray",
    "numpy.around": "numpy.round", "numpy.round_": "numpy.round", "numpy.concat": "numpy.concatenate",
    "numpy.float64": "float", "numpy.complex128": "complex", "numpy.float_": "float", "numpy.complex_": "complex",
    "numpy.bool_": "bool", "numpy.int_": "int",
    "math.sqrt": "numpy.sqrt", "math.exp": "numpy.exp", "math.log": "numpy.log", "math.pi": "numpy.pi",
    "math.cos": "numpy.cos", "math.sin": "numpy.sin", "math.tan": "numpy.tan",
    "math.ceil": "numpy.ceil", "math.floor": "numpy.floor",
    "scipy.sparse.csr.csr_matrix": "scipy.sparse.csr_matrix",
}
METHOD_NP = {
    "conj": "numpy.conj", "conjugate": "numpy.conj", "sum": "numpy.sum", "max": "numpy.max",
    "min": "numpy.min", "prod": "numpy.prod", "mean": "numpy.mean", "transpose": "numpy.transpose",
    "copy": "numpy.copy", "reshape": "numpy.reshape", "cumsum": "numpy.cumsum",
    "flatten": "numpy.flatten", "ravel": "numpy.ravel", "dot": "numpy.matmul",
    "astype": "numpy.astype", "squeeze": "numpy.squeeze", "any": "numpy.any", "all": "numpy.all",
    "round": "numpy.round", "repeat": "numpy.repeat", "swapaxes": "numpy.swapaxes", "argmax": "numpy.argmax",
    "argmin": "numpy.argmin", "argsort": "numpy.argsort", "clip": "numpy.clip", "diagonal": "numpy.diagonal",
}


def gname(t):
    return t.args[0] if t.op == "glob" else None


# positional parameter names of library functions, used to merge the
# positional and keyword spellings of one call
LIBSIG = {
    "numpy.sum": ("a", "axis"), "numpy.max": ("a", "axis"), "numpy.min": ("a", "axis"),
    "numpy.prod": ("a", "axis"), "numpy.mean": ("a", "axis"), "numpy.cumsum": ("a", "axis"),
    "numpy.any": ("a", "axis"), "numpy.all": ("a", "axis"),
    "numpy.reshape": ("a", "newshape", "order"), "numpy.zeros": ("shape", "dtype"),
    "numpy.ones": ("shape", "dtype"), "numpy.empty": ("shape", "dtype"), "numpy.full": ("shape", "fill_value", "dtype"),
    "numpy.zeros_like": ("a", "dtype"), "numpy.ones_like": ("a", "dtype"), "numpy.empty_like": ("a", "dtype"), "numpy.full_like": ("a", "fill_value", "dtype"),
    "numpy.flatten": ("a", "order"), "numpy.ravel": ("a", "order"), "numpy.moveaxis": ("a", "source", "destination"),
    "numpy.concatenate": ("arrays", "axis"), "numpy.stack": ("arrays", "axis"), "numpy.append": ("arr", "values", "axis"),
    "numpy.flip": ("m", "axis"), "numpy.roll": ("a", "shift", "axis"), "numpy.array": ("object", "dtype"),
    "numpy.astype": ("a", "dtype"), "numpy.repeat": ("a", "repeats", "axis"), "numpy.squeeze": ("a", "axis"),
    "numpy.asarray": ("a", "dtype"), "numpy.transpose": ("a", "axes"), "numpy.round": ("a", "decimals"),
    "numpy.expand_dims": ("a", "axis"), "numpy.linspace": ("start", "stop", "num"), "numpy.diff": ("a", "n", "axis"),
    "numpy.linalg.norm": ("x", "ord", "axis"), "numpy.clip": ("a", "a_min", "a_max"), "numpy.delete": ("arr", "obj", "axis"),
    "numpy.insert": ("arr", "obj", "values", "axis"), "numpy.tile": ("A", "reps"), "numpy.copy": ("a", "order"),
    "scipy.sparse.diags": ("diagonals", "offsets", "shape", "format", "dtype"),
    "scipy.sparse.vstack": ("blocks", "format", "dtype"), "scipy.sparse.hstack": ("blocks", "format", "dtype"),
    "scipy.sparse.bmat": ("blocks", "format", "dtype"), "scipy.sparse.kron": ("A", "B", "format"),
    "scipy.sparse.csr_matrix": ("arg1", "shape", "dtype", "copy"), "scipy.sparse.coo_matrix": ("arg1", "shape", "dtype", "copy"),
    "scipy.sparse.csc_matrix": ("arg1", "shape", "dtype", "copy"), "scipy.sparse.eye": ("m", "n", "k", "dtype", "format"),
    "scipy.sparse.spdiags": ("data", "diags", "m", "n", "format"),
    "os.makedirs": ("name", "mode", "exist_ok"), "open": ("file", "mode"), "enumerate": ("iterable", "start"),
    "json.dump": ("obj", "fp"), "json.dumps": ("obj",), "pickle.dump": ("obj", "file", "protocol"), "pickle.load": ("file",),
}
LIBDEFAULT = {
    ("numpy.flatten", "order"): "C", ("numpy.reshape", "order"): "C", ("numpy.ravel", "order"): "C",
    ("numpy.zeros", "dtype"): ("glob", "float"), ("numpy.ones", "dtype"): ("glob", "float"),
    ("numpy.sum", "axis"): None, ("numpy.max", "axis"): None, ("numpy.min", "axis"): None,
    ("numpy.prod", "axis"): None, ("numpy.concatenate", "axis"): 0, ("numpy.stack", "axis"): 0, ("open", "mode"): "r",
    ("enumerate", "start"): 0, ("numpy.roll", "axis"): None, ("numpy.any", "axis"): None, ("numpy.all", "axis"): None,
    ("numpy.diff", "n"): 1,
}


DEFAULTS = {}


def call(fn, args, kwargs):
    """args: tuple of Terms; kwargs: sorted tuple of (name, Term)."""
    kwargs = tuple(sorted(kwargs, key=lambda kv: kv[0]))
    flat = tuple(args) + tuple(v for _, v in kwargs)
    names = tuple(k for k, _ in kwargs)
    n = len(args)

    def f(fn_, *fl):
        return _call(fn_, fl[:n], tuple(zip(names, fl[n:])))

    return lift(f, (fn,) + flat)


def _call(fn, args, kwargs):
    if any(a.op == "star" and a.args[0].op in ("list", "tuple") for a in args):
        out = []
        for a in args:
            if a.op == "star" and a.args[0].op in ("list", "tuple"):
                out.extend(a.args[0].args)
            else:
                out.append(a)
        args = tuple(out)
    if any(k.startswith("**") and v.op == "dict" and all(isstr(x) for x, _ in v.args) for k, v in kwargs):
        kw = {}
        for k, v in kwargs:
            if k.startswith("**") and v.op == "dict" and all(isstr(x) for x, _ in v.args):
                for x, y in v.args:
                    kw[x.args[1]] = y
            else:
                kw[k] = v
        kwargs = tuple(sorted(kw.items(), key=lambda kv: kv[0]))
    if any(a.op == "rep" for a in args):
        args = tuple(_written_out(a) for a in args)
    if fn.op == "lam" and fn.args[0] == len(args) and not kwargs and not any(a.op == "star" for a in args):
        r = apply_lam(fn, args)
        if r is not None:
            return r
    if fn.op == "method" and fn.args[0] in ("items", "keys", "values") and len(args) == 1 and not kwargs \
            and args[0].op == "dict" and not args[0].args:
        return raw("list")
    g = gname(fn)
    if g == "dict.fromkeys" and len(args) == 2 and not kwargs and args[1].op in ("num", "const"):
        if args[0].op in ("list", "tuple") and all(x.op in ("num", "const") for x in args[0].args):
            return mkdict([(x, args[1]) for x in args[0].args])
        bv = raw("bv", 1 + args[0].bh)
        k = args[0]
        if k.op == "call" and k.args[0].op == "method" and k.args[0].args[0] == "keys" and len(k.args[1]) == 1 and not k.args[2]:
            k = k.args[1][0]
        return raw("dictmap", (k,), raw("kv", _idx(k, bv), args[1]), bv)
    if g in DEFAULTS:
        ds = DEFAULTS[g]
        while args and len(args) <= len(ds) and args[-1] is ds[len(args) - 1]:
            args = args[:-1]
    if g is not None:
        g2 = NPALIAS.get(g, g)
        if g2 is not g:
            fn = glob(g2)
            g = g2
        sig = LIBSIG.get(g)
        if sig and args and not any(a.op == "star" for a in args):
            if g == "numpy.reshape" and len(args) > 2:
                args = (args[0], raw("tuple", *args[1:]))
            if len(args) <= len(sig):
                kw = dict(kwargs)
                if not any(sig[i] in kw for i in range(len(args))):
                    for i in range(1, len(args)):
                        kw[sig[i]] = args[i]
                    first = args[0]
                    for (gg, p), dv in LIBDEFAULT.items():
                        if gg == g and p in kw:
                            d = glob(dv[1]) if isinstance(dv, tuple) else const(dv)
                            if kw[p] is d:
                                del kw[p]
                    args = (first,)
                    kwargs = tuple(sorted(kw.items()))
        elif sig and not args and sig[0] in dict(kwargs):
            kw = dict(kwargs)
            args = (kw.pop(sig[0]),)
            kwargs = tuple(sorted(kw.items()))
        if args and g in SEQFN:
            args = (_aslist(args[0], 2),) + tuple(args[1:])
            if g in SHAPED and args[0].op == "list" and len(args[0].args) == 1 and not is_seq(args[0].args[0]) \
                    and args[0].args[0].op != "star":
                args = args[0].args + tuple(args[1:])
        r = _simplify_call(g, args, kwargs)
        if r is not None:
            return r
    return raw("call", fn, tuple(args), tuple(kwargs))


def apply_lam(fn, args):
    n, body = fn.args
    out, evs, heapw = body.args
    if evs or heapw:
        return None
    # parameters carry the n highest free indices
    params = sorted(_free_bvs(body), reverse=True)[:n]
    if len(params) < n:
        return None
    out2 = subst(out, {id(raw("bv", params[i])): a for i, a in enumerate(args)})
    if any(l.op != "ret" for l, _ in leaf_guards(out2)):
        return None
    return map_leaves(out2, lambda l: l.args[0])


def _free_bvs(body):
    bound = set()
    allb = set()
    for x in subterms(body):
        if x.op == "bv":
            allb.add(x.args[0])
        elif x.op in ("map", "flatmap", "sumof", "exists", "dictmap", "last", "first", "fold", "loopev", "prodof"):
            for c in x.args:
                if isinstance(c, Term) and c.op == "bv":
                    bound.add(c.args[0])
    return allb - bound


# functions for which a tuple and a list of the same elements are the same argument
SHAPED = frozenset("numpy." + x for x in ("zeros", "ones", "empty", "full"))
SEQFN = frozenset("numpy." + x for x in (
    "hstack vstack dstack stack concatenate column_stack block array asarray sum max min mean prod any all cumsum diff "
    "roll median std var linalg.norm").split()) | SHAPED | frozenset(
    "scipy.sparse." + x for x in ("hstack", "vstack", "bmat", "block_diag"))


def _written_out(x):
    """[a] * 3 handed to a call, when a is not a display whose sharing could matter."""
    if x.op == "rep" and x.args[0].op == "list":
        i, ys = intval(x.args[1]), x.args[0].args
        if i is not None and 0 <= i and i * len(ys) <= 12 and not any(y.op in ("star", "list", "dict", "map", "dictmap") for y in ys):
            return raw("list", *(ys * i))
    return x


def _aslist(x, d):
    if x.op == "call" and gname(x.args[0]) == "tuple" and len(x.args[1]) == 1 and not x.args[2] and \
            (x.args[1][0].op in SEQ_OPS or x.args[1][0].op == "map"):
        x = x.args[1][0]
    if x.op in ("tuple", "list") and d:
        return raw("list", *[_aslist(y, d - 1) for y in x.args])
    return x


def _conj(t):
    if t.op == "poly":
        d = {}
        for m, c in _mono_of(t).items():
            mm = ()
            for x, e in m:
                cx = _conj(x)
                ef = Fraction(*e)
                if ef.denominator == 1:
                    p = _power(cx, num(ef))
                    dm = _mono_of(p)
                    if len(dm) == 1:
                        (m2, c2), = dm.items()
                        mm = _mono_mul(mm, m2)
                        c = c * c2
                        continue
                mm = _mono_mul(mm, ((raw("call", glob("numpy.conj"), (_mk_poly({((x, e),): Num(1)}),), ()), (1, 1)),))
            d[mm] = d[mm] + c.conj() if mm in d else c.conj()
        return _mk_poly(d)
    if t.op == "num":
        return num(numval(t).conj())
    if t.op == "call" and gname(t.args[0]) == "numpy.conj" and len(t.args[1]) == 1:
        return t.args[1][0]
    if t.op == "call" and gname(t.args[0]) in ("numpy.abs", "numpy.real", "numpy.imag", "len", "float"):
        return t
    if t.op == "call" and gname(t.args[0]) in ("numpy.transpose", "numpy.flatten", "numpy.reshape") and t.args[1]:
        return raw("call", t.args[0], (_conj(t.args[1][0]),) + t.args[1][1:], t.args[2])
    if t.op == "matmul":
        return raw("matmul", *[_conj(x) for x in t.args])
    return raw("call", glob("numpy.conj"), (t,), ())


BINNP = {"numpy.multiply": mul, "numpy.add": add, "numpy.subtract": sub, "numpy.divide": div,
         "numpy.true_divide": div, "numpy.power": power, "operator.add": add, "operator.mul": mul,
         "operator.sub": sub, "pow": power}


BACKWARDS = raw("slice", NONE, NONE, num(-1))


def _simplify_call(g, args, kwargs):
    if kwargs:
        if g in ("numpy.zeros", "numpy.ones"):
            return None
        if g == "dict" and not args:
            return mkdict([(const(k), v) for k, v in kwargs])
        if g == "numpy.flip" and len(args) == 1 and len(kwargs) == 1 and kwargs[0][0] == "axis" and kwargs[0][1] is num(0):
            return idx(args[0], BACKWARDS)
        return None
    n = len(args)
    if any(a.op == "star" for a in args):
        return None
    # The arrays that are flipped or differenced without an axis here are
    # vectors, for which the slices say the same.
    if g == "numpy.flip" and n == 1:
        return idx(args[0], BACKWARDS)
    if g in ("numpy.max", "numpy.min") and n == 1 and args[0].op in ("list", "tuple") and len(args[0].args) > 1 \
            and not any(x.op in ("star", "list", "tuple", "map") for x in args[0].args):
        return call(glob(g[6:]), args[0].args, ())      # of numbers
    if g == "numpy.diff" and n == 1:
        x = args[0]
        return sub(idx(x, raw("slice", ONE, NONE, NONE)), idx(x, raw("slice", NONE, num(-1), NONE)))
    if g == "list" and n == 1 and args[0].op == "call" and gname(args[0].args[0]) == "reversed" \
            and len(args[0].args[1]) == 1 and not args[0].args[2]:
        return idx(raw("call", glob("list"), args[0].args[1], ()), BACKWARDS)
    if g == "numpy.conj" and n == 1:
        return _conj(args[0])
    if g == "numpy.matmul" and n == 2:
        return _matmul(*args)
    if g in BINNP and n == 2:
        return BINNP[g](*args)
    if g == "numpy.vdot" and n == 2:
        return raw("call", glob("numpy.dot"), (_conj(args[0]), args[1]), ())
    if g == "numpy.sqrt" and n == 1:
        return _power(args[0], num(Fraction(1, 2)))
    if g == "numpy.square" and n == 1:
        return _power(args[0], num(2))
    if g in ("numpy.negative", "operator.neg") and n == 1:
        return _mul(num(-1), args[0])
    if g in ("numpy.real", "numpy.imag") and n == 1:
        x = args[0]
        nv = numval(x)
        if nv is not None:
            return num(nv.re if g == "numpy.real" else nv.im)
        if x.op == "poly":
            ms = _mono_of(x)
            # real-linear: pull real coefficients out monomial-wise
            if all(c.im == 0 for c in ms.values()) and (len(ms) > 1 or not list(ms.values())[0].isone()):
                d = ZERO
                for m, c in ms.items():
                    d = _add(d, _mul(num(c), raw("call", glob(g), (_mk_poly({m: Num(1)}),), ())))
                return d
        if x.op == "call" and gname(x.args[0]) in ("numpy.real", "numpy.imag", "numpy.abs", "float", "len"):
            return x if g == "numpy.real" else ZERO
        if g == "numpy.real" and x.op == "call" and gname(x.args[0]) == "numpy.conj":
            return _simplify_call(g, (x.args[1][0],), ()) or raw("call", glob(g), (x.args[1][0],), ())
        return None
    if g == "numpy.abs" and n == 1:
        x = args[0]
        nv = numval(x)
        if nv is not None and nv.im == 0:
            return num(abs(nv.re))
        if x.op == "call" and gname(x.args[0]) == "numpy.conj":
            return raw("call", glob(g), x.args[1], ())
        if x.op == "call" and gname(x.args[0]) == "numpy.abs":
            return x
        if x.op == "poly":
            ms = _mono_of(x)
            if all(c.im == 0 for c in ms.values()):
                items = sorted(ms.items(), key=lambda mc: tuple((y.dig, p) for y, p in mc[0]))
                lead = items[0][1]
                if not lead.isone():
                    return _mul(num(Num(abs(lead.re))),
                                _call(glob(g), (_mul(num(lead.inv()), x),), ()))
        return None
    if g == "len" and n == 1:
        x = args[0]
        if x.op in ("list", "tuple", "dict") and not any(
                isinstance(y, Term) and y.op == "star" for y in x.args):
            return num(len(x.args))
        if x.op == "map" and x.args[1] is TRUE and len(x.args[0]) == 1:
            e = x.args[0][0]
            if e.op == "rng":
                return e.args[0]
            return raw("call", glob("len"), (e,), ())
        if x.op == "concat" and all(p.op == "list" for p in x.args):
            return num(sum(len(p.args) for p in x.args))
        if x.op == "call" and gname(x.args[0]) in ("list", "sorted", "tuple", "reversed") and len(x.args[1]) == 1:
            return _call(glob("len"), (x.args[1][0],), ())
        return None
    if g in ("list",) and n == 1:
        x = args[0]
        if x.op in ("map", "flatmap", "concat", "list"):
            return x
        if x.op == "tuple":
            return raw("list", *x.args)
        return None
    if g == "list" and n == 0:
        return raw("list")
    if g == "dict" and n == 0:
        return raw("dict")
    if g == "tuple" and n == 1:
        x = args[0]
        if x.op == "tuple":
            return x
        if x.op == "list":
            return raw("tuple", *x.args)
        return None
    if g == "tuple" and n == 0:
        return raw("tuple")
    if g == "str" and n == 1:
        if isstr(args[0]):
            return args[0]
        return strfmt(raw("fmt", args[0], ""))
    if g == "bool" and n == 1:
        return truth(args[0])
    if g == "os.path.join" and n:
        flat = []
        for a in args:
            flat.extend(a.args[1] if a.op == "call" and gname(a.args[0]) == g and not a.args[2] else (a,))
        return flat[0] if len(flat) == 1 else raw("call", glob(g), tuple(flat), ())
    if g == "slice" and 1 <= n <= 3:
        a = (NONE,) + args if n == 1 else args
        return raw("slice", *(tuple(a) + (NONE,) * (3 - len(a))))
    if g == "isinstance" and n == 2:
        return isinst(*args)
    if g == "numpy.isreal" and n == 1 and not kwargs:
        return eq(call(glob("numpy.imag"), args, ()), ZERO)
    if g == "numpy.iscomplex" and n == 1 and not kwargs:
        return b_not(eq(call(glob("numpy.imag"), args, ()), ZERO))
    if g == "issubclass" and n == 2:
        if args[0].op == "call" and gname(args[0].args[0]) == "type" and len(args[0].args[1]) == 1 and not args[0].args[2]:
            return isinst(args[0].args[1][0], args[1])
        if args[0].op == "attr" and args[0].args[1] == "__class__":
            return isinst(args[0].args[0], args[1])
        if args[1].op in ("tuple", "list"):
            return b_or(*[call(glob("issubclass"), (args[0], c), ()) for c in args[1].args])
    if g == "sum" and n in (1, 2):
        base = args[1] if n == 2 else ZERO
        return _add(base, sum_seq(args[0]))
    if g in ("numpy.logical_and",) and n == 2:
        return None
    if g in ("any", "all") and n == 1 and args[0].op == "map":
        ext, cond, body, bv = args[0].args
        if g == "any":
            return exists(ext, bv, b_and(cond, body))
        return b_not(exists(ext, bv, b_and(cond, b_not(body))))
    if g == "float" and n == 1 and args[0].op == "num":
        return args[0]
    if g == "getattr" and n == 3 and isstr(args[1]):
        return ite(truth(raw("call", glob("hasattr"), args[:2], ())), _attr(args[0], args[1].args[1]), args[2])
    if g in ("numpy.shape", "numpy.ndim", "numpy.size") and n == 1 and args[0].op not in ("num", "const", "list", "tuple", "map"):
        return _attr(args[0], g[6:])
    if g in SHAPERS and n >= 1 and args[0].op == "call" and gname(args[0].args[0]) in ELEMENTWISE \
            and len(args[0].args[1]) == 1 and not args[0].args[2]:
        return call(args[0].args[0], (call(glob(g), (args[0].args[1][0],) + args[1:], ()),), ())
    if g == "dict" and n == 1:
        return pairs(args[0])
    if g == "itertools.product" and n:
        ls = [_literal(a) for a in args]
        if all(l is not None for l in ls) and math.prod(map(len, ls)) <= 12:
            return raw("list", *[raw("tuple", *x) for x in itertools.product(*ls)])
    if g == "getattr" and n == 2 and isstr(args[1]):
        return _attr(args[0], args[1].args[1])
    if g == "copy.copy" and n == 1 and args[0].op in ("num", "const"):
        return args[0]
    return None


def _literal(x):
    if x.op in ("list", "tuple") and not any(y.op == "star" for y in x.args):
        return x.args
    if x.op == "call" and gname(x.args[0]) == "range" and not x.args[2]:
        v = [intval(y) for y in x.args[1]]
        if v and None not in v and len(range(*v)) <= 12:
            return tuple(num(i) for i in range(*v))
    return None


def exists(ext, bv, cond):
    if cond is FALSE:
        return FALSE
    return atom_bool(raw("exists", ext, cond, bv))


def sum_seq(x):
    if x.op in ("list", "tuple"):
        r = ZERO
        for y in x.args:
            r = _add(r, y)
        return r
    if x.op == "map":
        ext, cond, body, bv = x.args
        return sumof(ext, cond, body, bv)
    if x.op == "concat":
        r = ZERO
        for y in x.args:
            r = _add(r, sum_seq(y))
        return r
    b = raw("bv", 1 + x.bh)
    return sumof((x,), TRUE, raw("elem", x, b), b)


def sumof(ext, cond, body, bv):
    """sum over the extent; coefficients free of bv are pulled out."""
    if body.op == "poly":
        ms = _mono_of(body)
        if len(ms) > 1:
            r = ZERO
            for m, c in ms.items():
                r = _add(r, sumof(ext, cond, _mk_poly({m: c}), bv))
            return r
        (m, c), = ms.items()
        free = tuple((x, e) for x, e in m if not occurs(x, bv))
        inside = tuple((x, e) for x, e in m if occurs(x, bv))
        if free or not c.isone():
            inner = sumof(ext, cond, _mk_poly({inside: Num(1)}), bv)
            return _mul(_mk_poly({free: c}), inner)
    return raw("sumof", ext, cond, body, bv)


def isinst(x, t):
    if t.op in ("tuple", "list"):
        return b_or(*[isinst(x, y) for y in t.args])
    if x.op == "ite" or t.op == "ite":
        return lift(isinst, (x, t))
    if x.op == "call" and x.args[0].op == "glob" and t.op == "glob":
        r = related(x.args[0].args[0], t.args[0], True)
        if r is not None:
            return TRUE if r else FALSE
    return atom_bool(raw("isinstance", x, t))


# class -> (all it derives from, whether that is everything), for the classes of the repository
HIER = {}
PLAIN_TYPES = {"numbers.Number", "numbers.Real", "numbers.Integral", "int", "float", "complex", "str", "list", "tuple", "dict", "set",
               "numpy.ndarray"}
_NUMERIC = {"numbers.Number", "numbers.Real", "numbers.Integral", "int", "float", "complex"}


def related(a, b, exact=False):
    """is every instance of class a (exact: made by calling a) one of class b?  True, False (never) or None."""
    ha, hb = HIER.get(a), HIER.get(b)
    if ha and b in ha[0]:
        return True
    if ha and hb:
        if exact and ha[1]:
            return False
        if a not in hb[0] and ha[1] and hb[1] and not any(a in h[0] and b in h[0] for h in HIER.values()):
            return False
    if ha and ha[1] and b in PLAIN_TYPES or hb and hb[1] and a in PLAIN_TYPES:
        return False
    if a in PLAIN_TYPES and b in PLAIN_TYPES and not (a in _NUMERIC and b in _NUMERIC) and a != b:
        return False
    return None


# --------------------------------------------------------------------------
# traversal / substitution


def children(t):
    def go(a):
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            for x in a:
                yield from go(x)
    return go(t.args)


def occurs(t, s, memo=None):
    if memo is None:
        memo = {}
    if t is s:
        return True
    k = id(t)
    if k in memo:
        return memo[k]
    memo[k] = False
    r = any(occurs(c, s, memo) for c in children(t))
    memo[k] = r
    return r


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st.extend(children(x))


def _plain(x):
    """a factor that stays one factor: not a number, a sum, a gate or a sequence."""
    return x.op not in ("ite", "num", "poly", "const") and not is_seq(x)


def rebuild(op, args):
    """Re-normalising constructor dispatch."""
    if op == "ite":
        at = args[0]
        return ite(truth(at) if not (isinstance(at, Term) and at.op in BOOL_ATOMS) else reatom(at), args[1], args[2])
    if op == "poly":
        r, plain = ZERO, {}
        for c, m in args:
            if all(_plain(x) for x, _ in m):
                mm = _mono_mul(m, ())
                k = Num(Fraction(c[0], c[1]), Fraction(c[2], c[3]))
                plain[mm] = plain[mm] + k if mm in plain else k
                continue
            p = num(Num(Fraction(c[0], c[1]), Fraction(c[2], c[3])))
            for x, e in m:
                p = mul(p, power(x, num(Fraction(*e))))
            r = add(r, p)
        return add(_mk_poly(plain), r) if plain else r
    if op == "matmul":
        r = args[0]
        for x in args[1:]:
            r = matmul(r, x)
        return r
    if op == "call":
        return call(args[0], args[1], args[2])
    if op == "attr":
        return attr(args[0], args[1]) if len(args) == 2 else raw("attr", *args)
    if op in ("idx", "elem"):
        return idx(args[0], args[1])
    if op == "store":
        return store(*args)
    if op == "pow":
        return power(*args)
    if op == "concat":
        r = args[0]
        for x in args[1:]:
            r = lift(concat, (r, x))
        return r
    if op == "strfmt":
        return lift(strfmt, args)
    if op == "boolv" and (args[0] is TRUE or args[0] is FALSE):
        return args[0]
    if op == "sumof":
        return sumof(*args)
    if op in ("loopev", "fn") and any(e.op == "event" and e.args[1] is FALSE for e in args[1]):
        args = (args[0], tuple(e for e in args[1] if not (e.op == "event" and e.args[1] is FALSE))) + tuple(args[2:])
    if op == "dict":
        return mkdict(list(args))
    if op in ("list", "tuple", "fmt", "slice", "ret"):
        if all(isinstance(a, Term) for a in args):
            return lift(lambda *a: raw(op, *a), args)
    return raw(op, *args)


BOOL_ATOMS = {"lt0", "eq0", "eq", "is", "in", "truth", "isinstance", "exists", "exc"}


def reatom(at):
    if at.op == "lt0":
        d = at.args[0]
        return lift(lambda x: _lt(x, ZERO), (d,))
    if at.op == "eq0":
        return lift(lambda x: _eq(x, ZERO), (at.args[0],))
    if at.op == "eq":
        return eq(*at.args)
    if at.op == "is":
        return is_(*at.args)
    if at.op == "in":
        return in_(*at.args)
    if at.op == "truth":
        return truth(at.args[0])
    if at.op == "isinstance":
        return isinst(*at.args)
    return atom_bool(at)


def subst(t, mp):
    """mp: dict id(term)->Term (terms kept alive by caller)."""
    memo = {}

    def go(x):
        if id(x) in mp:
            return mp[id(x)]
        r = memo.get(id(x))
        if r is not None:
            return r
        if not x.args or x.op in ("num", "const", "glob", "sym", "bv"):
            memo[id(x)] = x
            return x
        na = tuple(goa(a) for a in x.args)
        if _same(na, x.args):
            r = x
        else:
            r = rebuild(x.op, na)
        memo[id(x)] = r
        return r

    def goa(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goa(y) for y in a)
        return a

    return go(t)


def _same(a, b):
    if isinstance(a, Term) or isinstance(b, Term):
        return a is b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a == b


# --------------------------------------------------------------------------
# printing


def show(t, depth=7):
    if depth <= 0:
        return ".."
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    d = depth - 1
    o, a = t.op, t.args
    if o == "num":
        return repr(numval(t))
    if o == "const":
        return repr(a[1])
    if o == "glob":
        return a[0].split("spins.")[-1] if a[0].startswith("spins.") else a[0]
    if o == "sym":
        return ":".join(str(x) for x in a)
    if o == "bv":
        return "#%d" % a[0]
    if o == "attr":
        return show(a[0], d) + "." + a[1] + ("" if len(a) == 2 else "@" + show(a[2], d))
    if o in ("idx", "elem"):
        return show(a[0], d) + "[" + show(a[1], d) + "]"
    if o == "poly":
        ms = []
        for c, m in a:
            cn = Num(Fraction(c[0], c[1]), Fraction(c[2], c[3]))
            fs = ["" if cn.isone() and m else repr(cn)] if not (cn.isone() and m) else []
            for x, e in m:
                ef = Fraction(*e)
                fs.append(show(x, d) + ("" if ef == 1 else "^%s" % ef))
            ms.append("*".join(fs))
        return "(" + " + ".join(ms) + ")"
    if o == "call":
        ar = [show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        return show(a[0], d) + "(" + ", ".join(ar) + ")"
    if o == "method":
        return "<." + a[0] + ">"
    if o == "ite":
        return "{%s ? %s : %s}" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == "matmul":
        return " @ ".join(show(x, d) for x in a)
    if o in ("lt0", "eq0"):
        return show(a[0], d) + (" < 0" if o == "lt0" else " == 0")
    if o in ("eq", "is", "in"):
        return "%s %s %s" % (show(a[0], d), {"eq": "=="}.get(o, o), show(a[1], d))
    if o == "list":
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    if o == "dict":
        return "{" + ", ".join("%s: %s" % (show(k, d), show(v, d)) for k, v in a) + "}"
    return o + "(" + ", ".join(show(x, d) for x in a) + ")"


def feats(t):
    """set of callable names / structural operators in t."""
    if t._feat is not None:
        return t._feat
    s = set()
    if t.op == "glob":
        s.add("g:" + t.args[0])
    elif t.op == "method":
        s.add("m:" + t.args[0])
    elif t.op == "attr":
        s.add("a:" + t.args[1])
    elif t.op in ("opaque", "fold", "while", "map", "flatmap", "exists", "first", "sumof", "dictmap", "last",
                  "lam", "loopev", "exc", "rep", "foldstore"):
        s.add("op:" + t.op)
    for c in children(t):
        s |= feats(c)
    t._feat = frozenset(s)
    return t._feat
