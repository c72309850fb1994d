"""Symbolic values, atoms (sums, existentials) and numeric operations."""
import z3
from fractions import Fraction
from math import inf, isinf, isnan, nan


class Unsupported(Exception):
    """The code uses a construct outside the verifier's subset (tool limit)."""


# --------------------------------------------------------------------- values
class Absent:
    """Attribute that does not exist (reading it raises AttributeError)."""
    def __repr__(self):
        return "ABSENT"


ABSENT = Absent()


class Poison:
    """A variable whose value the loop rule does not track."""
    def __init__(self, why):
        self.why = why


class CNum:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return "C(%s,%s)" % (self.re, self.im)


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("Ref", self.oid))

    def __repr__(self):
        return "Ref(%s)" % self.oid


class Elem:
    """The element with index `idx` of an unbounded collection `base`."""
    __slots__ = ("base", "idx")

    def __init__(self, base, idx):
        self.base, self.idx = base, idx

    def __repr__(self):
        return "Elem(%s,%s)" % (self.base.name, self.idx)


class Choice:
    """A value that is alts[i][1] where alts[i][0] holds (exhaustive, exclusive)."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Choice(%s)" % (self.alts,)


class Opaque:
    """A value the verifier does not look into (strings, loggers, ...)."""
    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data

    def __repr__(self):
        return "Opaque(%s)" % self.kind


class SymStr:
    """Symbolic string with a finite set of possible values: list of (cond, str) is a
    Choice; an unknown string is SymStr(tag) with equality only to itself."""
    def __init__(self, tag):
        self.tag = tag


class Accum:
    """cell (at `key`) + addend, seen inside a generic loop iteration."""
    __slots__ = ("cell", "key", "addend", "read", "ctx")

    def __init__(self, cell, key, addend, read, ctx):
        self.cell, self.key, self.addend, self.read, self.ctx = cell, key, addend, read, ctx


class FuncVal:
    def __init__(self, node, module, qual, cls=None, closure=None, defaults=None):
        self.node, self.module, self.qual, self.cls = node, module, qual, cls
        self.closure = closure
        self.defaults = defaults

    def __repr__(self):
        return "Func(%s)" % self.qual


class BoundMethod:
    def __init__(self, self_val, func):
        self.self_val, self.func = self_val, func


class Builtin:
    def __init__(self, name, fn, raw=False):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "Builtin(%s)" % self.name


class ClassVal:
    def __init__(self, name, qual, bases, members, module=None, external=False):
        self.name, self.qual, self.bases, self.members = name, qual, bases, members
        self.module, self.external = module, external

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name], c
        return None, None

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "Class(%s)" % self.qual


class ModuleVal:
    def __init__(self, name, members=None, loader=None):
        self.name = name
        self.members = members if members is not None else {}
        self.loader = loader

    def __repr__(self):
        return "Module(%s)" % self.name


class SuperVal:
    def __init__(self, self_val, cls):
        self.self_val, self.cls = self_val, cls


class PropertyVal:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


# ---------------------------------------------------------------- collections
class Base:
    """An unbounded finite collection.

    member(i), facts(i): constraints valid of a member index; element(i): value
    yielded by iterating; pos(i): position when iterating everything; count.
    """
    def __init__(self, name, sort, member=None, facts=None, element=None, pos=None, count=None,
                 classes=None, fields=None, key=None, inverse=None, inj=None, root=None):
        self.name, self.sort = name, sort
        self.inj = inj
        self.root = root
        self.version = None   # callable: changes when the facts change
        self._member = member
        self._facts = facts
        self.element = element or (lambda i: i)
        self.pos = pos
        self.count = count
        self.classes = classes
        self.fields = fields
        self.key = key
        self.inverse = inverse or {}

    def member(self, i):
        if self._member is not None:
            return self._member(i)
        return z3.Function("in_" + self.name, self.sort, z3.BoolSort())(i)

    def facts(self, i):
        return self._facts(i) if self._facts else []

    def root_name(self):
        return self.root.root_name() if self.root is not None else self.name

    def base_root(self):
        return self.root.base_root() if self.root is not None else self

    def __repr__(self):
        return "Base(%s)" % self.name


# ----------------------------------------------------------- sequence chunks
class One:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "One(%s)" % (self.v,)


class If:
    __slots__ = ("g", "a", "b")

    def __init__(self, g, a, b):
        self.g, self.a, self.b = g, a, b

    def __repr__(self):
        return "If(%s,%s,%s)" % (self.g, self.a, self.b)


class For:
    """For every member `var` of base with `cond`, in order: items."""
    __slots__ = ("base", "var", "cond", "items")

    def __init__(self, base, var, cond, items):
        self.base, self.var, self.cond, self.items = base, var, cond, items

    def __repr__(self):
        return "For(%s,%s,%s,%s)" % (self.base.name, self.var, self.cond, self.items)


class Fn:
    """`length` items, item i being fn(i)."""
    __slots__ = ("length", "fn", "tag")

    def __init__(self, length, fn, tag=None):
        self.length, self.fn, self.tag = length, fn, tag

    def __repr__(self):
        return "Fn(%s,%s)" % (self.length, self.tag)


class Pre:
    """Content at the start of a generic iteration of the object being appended to."""
    __slots__ = ("tok",)

    def __init__(self, tok):
        self.tok = tok


# ------------------------------------------------------------------- helpers
def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_arith(v):
    return isinstance(v, z3.ArithRef)


def is_boolref(v):
    return isinstance(v, z3.BoolRef)


def is_conc_num(v):
    return isinstance(v, (int, float, Fraction))  # includes bool


def is_num(v):
    return is_conc_num(v) or is_arith(v)


def fin(v):
    return not (isinstance(v, float) and (isinf(v) or isnan(v)))


def norm_conc(v):
    """floats that are finite become exact rationals (of their decimal text)."""
    if isinstance(v, float):
        if isinf(v) or isnan(v):
            return v
        if v == int(v) and abs(v) < 1e15:
            return Fraction(int(v))
        return Fraction(repr(v))
    return v


def to_z3(v):
    """Finite number -> z3 term."""
    if is_arith(v):
        return v
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if is_boolref(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, float):
        return z3.RealVal(norm_conc(v))
    raise Unsupported("not a number: %r" % (v,))


def to_real(v):
    t = to_z3(v)
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def b2z(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        if not any(o.eq(x) for o in out):
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        if not any(o.eq(x) for o in out):
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    for o in out:
        n = Not(o)
        if is_z3(n) and any(n.eq(p) for p in out):
            return True
    return z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    """ite on z3-able numbers/bools."""
    if c is True or (is_z3(c) and z3.is_true(c)):
        return a
    if c is False or (is_z3(c) and z3.is_false(c)):
        return b
    if is_boolref(a) or is_boolref(b) or (isinstance(a, bool) and isinstance(b, bool)):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else Not(c)
        a, b = b2z(a), b2z(b)
        if a.eq(b):
            return a
        if z3.is_true(a):
            return Or(c, b)
        if z3.is_false(a):
            return And(Not(c), b)
        if z3.is_true(b):
            return Or(Not(c), a)
        if z3.is_false(b):
            return And(c, a)
        return z3.If(c, a, b)
    if is_conc_num(a) and is_conc_num(b) and type(a) == type(b) and a == b:
        return a
    a, b = to_z3(a), to_z3(b)
    if a.sort() != b.sort():
        a, b = to_real(a), to_real(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def same(a, b):
    """Syntactic identity of values."""
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if is_z3(a) or is_z3(b):
        return False
    if type(a) != type(b):
        if is_conc_num(a) and is_conc_num(b) and not isinstance(a, bool) and not isinstance(b, bool):
            return a == b
        return False
    if isinstance(a, CNum):
        return same(a.re, b.re) and same(a.im, b.im)
    if isinstance(a, Ref):
        return a.oid == b.oid
    if isinstance(a, Elem):
        return a.base is b.base and same(a.idx, b.idx)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Choice):
        return len(a.alts) == len(b.alts) and all(
            same(c1, c2) and same(v1, v2) for (c1, v1), (c2, v2) in zip(a.alts, b.alts))
    if isinstance(a, Accum):
        return a.cell == b.cell and same(a.key, b.key) and same(a.addend, b.addend)
    if isinstance(a, (int, str, Fraction, bool)):
        return a == b
    if isinstance(a, float):
        return a == b or (isnan(a) and isnan(b))
    if isinstance(a, BoundMethod):
        return same(a.self_val, b.self_val) and a.func is b.func
    if isinstance(a, (One,)):
        return same(a.v, b.v)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, If):
        return same(a.g, b.g) and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, For):
        return a.base is b.base and same(a.var, b.var) and same(a.cond, b.cond) and same(a.items, b.items)
    if isinstance(a, Fn):
        return same(a.length, b.length) and (a.fn is b.fn)
    if isinstance(a, Pre):
        return a.tok == b.tok
    if hasattr(a, "vc_same"):
        return a.vc_same(b)
    return False


def flat_alts(v):
    """List of (cond, value) with nested Choices flattened."""
    if isinstance(v, Choice):
        out = []
        for c, w in v.alts:
            for c2, w2 in flat_alts(w):
                cc = And(c, c2)
                if cc is not False:
                    out.append((cc, w2))
        return out
    return [(True, v)]


def mk_choice(alts):
    """Build a value from (cond, value) pairs, joining numeric alternatives."""
    alts = [(c, v) for c, v in alts if c is not False and not (is_z3(c) and z3.is_false(c))]
    flat = []
    for c, v in alts:
        for c2, v2 in flat_alts(v):
            cc = And(c, c2)
            if cc is not False:
                flat.append((cc, v2))
    if not flat:
        raise Unsupported("empty choice")
    groups = []  # (kind, [(c, v)])

    def kind(v):
        if isinstance(v, bool) or is_boolref(v):
            return "bool"
        if (is_conc_num(v) and fin(v)) or is_arith(v):
            return "num"
        if isinstance(v, CNum):
            return "cnum"
        if isinstance(v, tuple):
            return ("tuple", len(v))
        if isinstance(v, Elem):
            return ("elem", v.base.name)
        if hasattr(v, "vc_ite"):
            return ("vc", type(v).__name__)
        return None

    for c, v in flat:
        k = kind(v)
        for g in groups:
            if k is not None and g[0] == k:
                g[1].append((c, v))
                break
            if k is None and g[0] is None and same(g[1][0][1], v):
                g[1][0] = (Or(g[1][0][0], c), v)
                break
        else:
            groups.append((k, [(c, v)]))
    out = []
    for k, items in groups:
        if k is None or len(items) == 1:
            out.append(items[0])
            continue
        cond = Or(*[c for c, _ in items])
        if k == "cnum":
            re = mk_choice([(c, v.re) for c, v in items])
            im = mk_choice([(c, v.im) for c, v in items])
            out.append((cond, CNum(re, im)))
        elif isinstance(k, tuple) and k[0] == "tuple":
            n = k[1]
            out.append((cond, tuple(mk_choice([(c, v[i]) for c, v in items]) for i in range(n))))
        elif isinstance(k, tuple) and k[0] == "elem":
            idx = items[-1][1].idx
            for c, v in reversed(items[:-1]):
                idx = Ite(c, v.idx, idx)
            out.append((cond, Elem(items[0][1].base, idx)))
        elif isinstance(k, tuple) and k[0] == "vc":
            val = items[-1][1]
            for c, v in reversed(items[:-1]):
                val = v.vc_ite(c, val)
            out.append((cond, val))
        else:
            val = items[-1][1]
            for c, v in reversed(items[:-1]):
                val = Ite(c, v, val)
            out.append((cond, val))
    if len(out) == 1:
        return out[0][1]
    return Choice(out)


def merge_val(g, a, b):
    if g is True:
        return a
    if g is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, Accum) or isinstance(b, Accum):
        if isinstance(a, Accum) and isinstance(b, Accum) and a.cell == b.cell and same(a.key, b.key):
            return Accum(a.cell, a.key, merge_val(g, a.addend, b.addend), a.read, a.ctx)
        a = a.value() if isinstance(a, Accum) and hasattr(a, "value") else a
        raise Unsupported("branch-dependent accumulator update")
    if isinstance(a, Poison) or isinstance(b, Poison):
        p = a if isinstance(a, Poison) else b
        return p if a is b else Poison("bound on one branch only: " + p.why)
    return mk_choice([(g, a), (Not(g), b)])


# --------------------------------------------------------------- substitution
def subst_z3(e, pairs):
    if isinstance(e, bool) or not is_z3(e):
        return e
    return z3.substitute(e, *pairs)


def subst(v, pairs):
    """Substitute z3 constants in a value (immutable structures only)."""
    if v is None or isinstance(v, (bool, int, float, Fraction, str, Ref, Absent, ClassVal, FuncVal,
                                   Builtin, ModuleVal, Opaque, Poison, SymStr)):
        return v
    if is_z3(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, CNum):
        return CNum(subst(v.re, pairs), subst(v.im, pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, Elem):
        return Elem(v.base, subst(v.idx, pairs))
    if isinstance(v, Choice):
        return mk_choice([(subst(c, pairs), subst(w, pairs)) for c, w in v.alts])
    if isinstance(v, One):
        return One(subst(v.v, pairs))
    if isinstance(v, If):
        g = subst(v.g, pairs)
        return If(g, subst(v.a, pairs), subst(v.b, pairs))
    if isinstance(v, For):
        return For(v.base, v.var, subst(v.cond, pairs), subst(v.items, pairs))
    if isinstance(v, Fn):
        fn = v.fn
        return Fn(subst(v.length, pairs), lambda i: subst(fn(i), pairs), v.tag)
    if isinstance(v, BoundMethod):
        return BoundMethod(subst(v.self_val, pairs), v.func)
    if isinstance(v, Accum):
        return Accum(v.cell, subst(v.key, pairs), subst(v.addend, pairs), subst(v.read, pairs), v.ctx)
    if isinstance(v, Pre):
        return v
    if hasattr(v, "subst"):
        return v.subst(pairs)
    raise Unsupported("substitution in %r" % (v,))


_fv_cache = {}


def free_consts(e):
    """Set of (name, const) uninterpreted constants in a z3 term."""
    if not is_z3(e):
        return {}
    k = e.get_id()
    r = _fv_cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out = {}
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.decl().name()] = t
        else:
            stack.extend(t.children())
    _fv_cache[k] = (e, out)
    return out


def mentions(v, var):
    """Does the value contain the z3 constant var?"""
    n = var.decl().name()
    return any(n in free_consts(t) for t in z3_terms(v))


def z3_terms(v):
    """All z3 terms inside a value."""
    if is_z3(v):
        yield v
    elif isinstance(v, CNum):
        yield from z3_terms(v.re)
        yield from z3_terms(v.im)
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from z3_terms(x)
    elif isinstance(v, Elem):
        yield from z3_terms(v.idx)
    elif isinstance(v, Choice):
        for c, w in v.alts:
            yield from z3_terms(c)
            yield from z3_terms(w)
    elif isinstance(v, One):
        yield from z3_terms(v.v)
    elif isinstance(v, If):
        yield from z3_terms(v.g)
        yield from z3_terms(v.a)
        yield from z3_terms(v.b)
    elif isinstance(v, For):
        yield from z3_terms(v.cond)
        yield from z3_terms(v.items)
    elif isinstance(v, Fn):
        yield from z3_terms(v.length)
        yield from z3_terms(v.fn(z3.Int("probe!")))
    elif isinstance(v, Accum):
        yield from z3_terms(v.key)
        yield from z3_terms(v.addend)
    elif isinstance(v, BoundMethod):
        yield from z3_terms(v.self_val)
    elif hasattr(v, "terms"):
        yield from v.terms()
