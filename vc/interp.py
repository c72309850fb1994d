"""Symbolic executor of the real Python source (predicated execution with merging at joins,
loop rule for unbounded collections).  The source is parsed from /repo on every run."""
import ast
import os
import z3
from .values import *
from .heap import *
from .ctx import Ctx


class PathEnd(Exception):
    """The current path has no continuation (everything was moved to exits)."""


class ExcVal:
    """A raised exception: class and (opaque) arguments."""
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "Exc(%s)" % self.cls.name


class Frame:
    def __init__(self, module, func, cls):
        self.module, self.func, self.cls = module, func, cls
        self.returns = []
        self.loops = []          # stack of (breaks, continues)


class State:
    __slots__ = ("env", "heap", "pc", "fr")

    def __init__(self, env, heap, pc, fr):
        self.env, self.heap, self.pc, self.fr = env, heap, pc, fr

    def copy(self):
        return State(dict(self.env), self.heap.copy(), list(self.pc), self.fr)

    def assume(self, c):
        if c is True or (is_z3(c) and z3.is_true(c)):
            return
        if is_z3(c) and z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        for p in self.pc:
            if is_z3(p) and is_z3(c) and p.eq(c):
                return
        self.pc.append(c)

    def take(self, o):
        self.env, self.heap, self.pc, self.fr = o.env, o.heap, o.pc, o.fr


class Snap:
    """Immutable snapshot of an object created inside a generic iteration."""
    __slots__ = ("obj", "owner")

    def __init__(self, obj, owner=None):
        self.obj = obj
        self.owner = owner      # description when caller-owned (frozen)

    def subst(self, pairs):
        return Snap(subst_obj(self.obj, pairs), self.owner)

    def terms(self):
        yield from obj_terms(self.obj)

    def __repr__(self):
        return "Snap(%s)" % (self.obj.kind,)


def subst_entries(es, pairs):
    out = []
    for e in es:
        if e[0] == "one":
            out.append(("one", subst(e[1], pairs), subst(e[2], pairs)))
        elif e[0] == "for":
            out.append(("for", e[1], e[2], subst(e[3], pairs), subst(e[4], pairs), subst(e[5], pairs)))
        elif e[0] == "if":
            out.append(("if", subst(e[1], pairs), subst_entries(e[2], pairs), subst_entries(e[3], pairs)))
        elif e[0] == "add":
            out.append(("add", subst(e[1], pairs), subst(e[2], pairs)))
        elif e[0] == "foradd":
            out.append(("foradd", e[1], e[2], subst(e[3], pairs), subst(e[4], pairs), subst(e[5], pairs)))
        else:
            out.append(e)
    return tuple(out)


def subst_obj(o, pairs):
    if o.kind == "inst":
        return Inst(o.cls, {k: (v if v is ABSENT else subst(v, pairs)) for k, v in o.fields.items()}, o.open)
    if o.kind in ("list", "arr"):
        if o.overlays:
            raise Unsupported("substitution in overlaid list")
        return o.new(seq=[subst(c, pairs) for c in o.seq])
    if o.kind in ("dict", "set"):
        return type(o)(subst_entries(o.entries, pairs))
    raise Unsupported("substitution in %s" % o.kind)


def entries_terms(es):
    for e in es:
        for x in e[1:]:
            if isinstance(x, tuple) and e[0] == "if":
                yield from entries_terms(x)
            elif isinstance(x, Base):
                continue
            else:
                yield from z3_terms(x)


def obj_terms(o):
    if o.kind == "inst":
        for v in o.fields.values():
            yield from z3_terms(v)
    elif o.kind in ("list", "arr"):
        yield from z3_terms(o.seq)
    elif o.kind in ("dict", "set"):
        yield from entries_terms(o.entries)


class NthVal:
    pass


EXC_TREE = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "AttributeError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "OverflowError": "ArithmeticError",
    "AssertionError": "Exception", "StopIteration": "Exception", "ConnectionError": "OSError",
    "ConnectionRefusedError": "ConnectionError", "OSError": "Exception", "FloatingPointError": "ArithmeticError",
    "UnboundLocalError": "NameError", "NameError": "Exception", "Warning": "Exception",
    "MatrixRankWarning": "Warning", "UserWarning": "Warning",
}


class Engine:
    def __init__(self, repo="/repo", ctx=None):
        self.repo = repo
        self.ctx = ctx or Ctx()
        self.modules = {}
        self.raises = [[]]       # stack of lists of (ExcVal, State)
        self.oid = 0
        self.base_fields = {}    # (base name, field) -> FMBase
        self.contracts = {}      # qualname -> fn(eng, st, fv, args, kwargs)
        self.wlogs = []
        self.functions = set()   # functions whose body was executed
        self.exc = {}
        for n, p in EXC_TREE.items():
            pass
        for n in EXC_TREE:
            self.exc_class(n)
        self.qps = []
        self.frozen = {}         # oid -> description (caller-owned)
        self.frozen_writes = []
        self.loading = 0
        self.settled = {}        # oid -> fields when it was taken as the result of an unknown history
        self._attrs = None
        self.views = {}          # oid -> (oid of the array it is a view of, that array when the view was made)
        self.notes = []
        self.depth = 0
        self.pre_objs = {}
        self.base_stack = []
        self.static_objs = {}
        self.start_reads = {}
        self.side_obs = []       # (name, pc, cond): engine side conditions to prove
        self.loop_inv = {}
        self.while_cont = []     # (function, state at the start, state where the loop goes on)
        self.trusted = set()
        self.cvx_decls = []
        self.ctx.reindex = self.reindex
        self.nth_info = {}       # name of a 'k-th member' -> (base, variable, condition, k, parameters)
        self.solved, self.solve_states, self.problems = [], [], []
        self.draws, self.nondet = [], []     # random draws; other sources of nondeterminism
        from . import lib
        self.lib = lib
        self.builtins = lib.make_builtins(self)
        self.ext = lib.make_external(self)

    # ------------------------------------------------------------- utilities
    def cvx_value(self, st, var):
        """Contract of cvxpy: after solve(), .value is an optimal point; the variable's own
        symbols stand for it, a specification instantiates feasibility and optimality."""
        if var.kind == "param":
            return self.getattr(st, var.cell, "value")
        n = len(self.solved)
        if not n:
            return None
        return self.lib.cvx_solution(self, st, var, n)

    def cvx_set_param(self, st, var, val):
        self.lib.cvx_check_param(self, st, var, val)
        self.setattr(st, var.cell, "value", val)

    def cvx_solve(self, st, problem):
        self.trusted.add("cvxpy/OSQP: solve() returns an optimal solution of a feasible problem (exact arithmetic)")
        self.solved.append((problem, list(st.pc)))
        self.solve_states.append(st.copy())
        return None

    def exc_class(self, n):
        if n not in self.exc:
            p = EXC_TREE.get(n, "Exception")
            self.exc[n] = ClassVal(n, n, [self.exc_class(p)] if p else [], {}, external=True)
        return self.exc[n]

    def new_oid(self):
        self.oid += 1
        return self.oid

    def alloc(self, st, obj):
        o = self.new_oid()
        st.heap.objs[o] = obj
        return Ref(o)

    def new_list(self, st, items=(), arr=False):
        return self.alloc(st, (ArrO if arr else ListO)([One(x) for x in items]))

    def obj(self, st, v):
        if isinstance(v, Ref):
            if v.oid in self.views:
                b, was = self.views[v.oid]
                if b in st.heap.objs and st.heap.objs[b] is not was:
                    raise Unsupported("array view read after its base changed")
            return st.heap.objs[v.oid]
        if isinstance(v, Snap):
            return v.obj
        return None

    def view(self, st, v, obj):
        """A new array object that shares its elements with v (numpy basic indexing)."""
        r = self.alloc(st, obj)
        if isinstance(v, Ref):
            self.views[r.oid] = (v.oid, st.heap.objs[v.oid])
        return r

    def freeze(self, st, v, desc):
        """Everything reachable from v is owned by the caller: writes are recorded."""
        if isinstance(v, Choice):
            for _, x in v.alts:
                self.freeze(st, x, desc)
        elif isinstance(v, tuple):
            for x in v:
                self.freeze(st, x, desc)
        elif isinstance(v, Snap):
            v.owner = desc
        elif isinstance(v, Ref) and v.oid not in self.frozen:
            self.frozen[v.oid] = desc
            o = st.heap.objs[v.oid]
            if o.kind in ("list", "arr"):
                def go(cs):
                    for c in cs:
                        if isinstance(c, One):
                            self.freeze(st, c.v, desc)
                        elif isinstance(c, For):
                            go(c.items)
                go(o.seq)
            elif o.kind == "dict":
                for e in o.entries:
                    if e[0] == "one":
                        self.freeze(st, e[2], desc)
                    elif e[0] == "for":
                        self.freeze(st, e[5], desc)
            elif o.kind == "inst":
                for x in o.fields.values():
                    if isinstance(x, (Ref, tuple, Snap, Choice)):
                        self.freeze(st, x, desc)

    def pkg_attrs(self):
        """(attributes of the package's objects, those modified after construction only in the tree under analysis)"""
        if self._attrs is None:
            from . import history
            e, o = history.scan(self.repo)
            self._attrs = (e, o - history.reference())
        return self._attrs

    def settle(self, st, v):
        """The object v is in a state reached by an unknown history: attributes that the contract does not set
        afterwards and that change after construction are not known."""
        if isinstance(v, Ref):
            self.settled[v.oid] = dict(st.heap.objs[v.oid].fields)

    def unmodelled(self, name):
        if name in self.pkg_attrs()[0] or "*" in self.pkg_attrs()[0]:
            raise Unsupported("attribute %s is not part of the contract's state" % name)

    def set_obj(self, st, ref, obj):
        if isinstance(ref, Ref) and not self.loading and ref.oid in self.static_objs and ref.oid not in self.frozen:
            raise Unsupported("module-level object modified at run time")
        if not isinstance(ref, Ref):
            if isinstance(ref, Snap) and ref.owner is not None:
                self.frozen_writes.append((ref.owner, list(st.pc)))
                return
            raise Unsupported("mutation of a value object created in a generic iteration")
        for w in self.wlogs:
            w.add(("obj", ref.oid))
        if ref.oid in self.frozen:
            self.frozen_writes.append((self.frozen[ref.oid], list(st.pc)))
        b = ref.oid
        while b in self.views:
            b = self.views[b][0]
            if b in self.frozen:
                self.frozen_writes.append((self.frozen[b], list(st.pc)))
                break
        else:
            if ref.oid in self.views:
                raise Unsupported("write through an array view")
        st.heap.objs[ref.oid] = obj

    # conditions ------------------------------------------------------------
    def decide(self, st, c):
        """True / False when the path condition settles c, else c."""
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = Not(c)
        for p in st.pc:
            if is_z3(p):
                if p.eq(c):
                    return True
                if is_z3(n) and p.eq(n):
                    return False
        r = self.ctx.enum_decide(st.pc, c)
        if r is None:
            r = self.ctx.order_decide(st.pc, c)
        if r is not None:
            return r
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if not self.ctx.feasible(st.pc + [c]):
            return False
        if not self.ctx.feasible(st.pc + [n]):
            return True
        return c

    def raise_if(self, st, c, excname, msg=None):
        c = self.decide(st, c)
        if c is False:
            return
        ex = ExcVal(self.exc_class(excname) if isinstance(excname, str) else excname, (msg,))
        ex.where = ast.unparse(self.cur)[:60].split("\n")[0] if getattr(self, "cur", None) is not None else None
        if c is True:
            self.raises[-1].append((ex, st.copy()))
            raise PathEnd()
        s2 = st.copy()
        s2.assume(c)
        self.raises[-1].append((ex, s2))
        st.assume(Not(c))

    def raise_(self, st, ex):
        self.raises[-1].append((ex, st.copy()))
        raise PathEnd()

    def merge(self, g, a, b):
        """Join of states a (where g) and b (where not g), with a common pc prefix."""
        if a is None:
            return b
        if b is None:
            return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or (is_z3(a.pc[n]) and is_z3(b.pc[n]) and a.pc[n].eq(b.pc[n]))):
            n += 1
        pc = list(a.pc[:n])
        ng = Not(g)
        out = State(None, None, pc, a.fr)
        for x in a.pc[n:]:
            if not (is_z3(x) and is_z3(g) and x.eq(g)):
                out.assume(Implies(g, x))
        for x in b.pc[n:]:
            if not (is_z3(x) and is_z3(ng) and x.eq(ng)):
                out.assume(Implies(ng, x))
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k, ABSENT), b.env.get(k, ABSENT)
            env[k] = x if (x is y or same(x, y)) else merge_val(g, x, y)
        out.env = env
        out.heap = merge_heap(g, a.heap, b.heap)
        return out

    def merge_exits(self, n0, items):
        """Join of [(State, value)] that share the first n0 pc entries -> (State, value)."""
        if len(items) == 1:
            return items[0]
        st, v = items[-1]
        conds = [And(*s.pc[n0:]) for s, _ in items]
        # states are exclusive: the guard of item k decides
        for k in range(len(items) - 2, -1, -1):
            s2, v2 = items[k]
            g = conds[k]
            if g is True:
                return s2, v2
            base = list(s2.pc[:n0])
            x, y = State(s2.env, s2.heap, list(base), s2.fr), State(st.env, st.heap, list(base), st.fr)
            m = self.merge(g, x, y)
            m.env = s2.env
            v = merge_val(g, v2, v) if not same(v2, v) else v2
            st = m
        tot = Or(*conds)
        st.pc = list(items[0][0].pc[:n0])
        tot = self.simp_or(conds)
        st.assume(tot)
        return st, v

    def simp_or(self, conds):
        tot = Or(*conds)
        if isinstance(tot, bool):
            return tot
        s = z3.simplify(tot)
        if z3.is_true(s):
            return True
        t0 = z3.Solver()
        t0.set("timeout", 300)
        t0.add(z3.Not(tot))
        if t0.check() == z3.unsat:
            return True
        return tot

    # truth -----------------------------------------------------------------
    def truth(self, st, v):
        if isinstance(v, Accum):
            raise Unsupported("truth of accumulator")
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_boolref(v):
            return v
        if is_conc_num(v):
            return v != 0
        if is_arith(v):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, Choice):
            return Or(*[And(c, self.truth(st, w)) for c, w in self.live(st, v)])
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, CNum):
            return Or(self.truth(st, v.re), self.truth(st, v.im))
        if isinstance(v, (Ref, Snap)):
            o = self.obj(st, v)
            if o.kind == "list":
                return self.cmp_num(st, ">", self.seq_len(st, o.seq), 0)
            if o.kind == "arr":
                n = self.seq_len(st, o.seq)
                if n == 1:
                    return self.truth(st, self.seq_get(st, o.seq, 0))
                big = self.decide(st, self.cmp_num(st, ">", n, 1))
                if big is not False:
                    self.raise_if(st, big, "ValueError", "truth value of an array with more than one element")
                return self.lib.seq_quant(self, st, o.seq, False)
            if o.kind in ("dict", "set"):
                return self.cmp_num(st, ">", self.dict_len(st, o.entries), 0)
            return True
        if isinstance(v, (FuncVal, ClassVal, BoundMethod, Builtin, Elem, Opaque)):
            return True
        if hasattr(v, "vc_truth"):
            return v.vc_truth
        raise Unsupported("truth of %r" % (v,))

    def live(self, st, v):
        """Feasible alternatives of a value."""
        if not isinstance(v, Choice):
            return [(True, v)]
        out = []
        for c, w in flat_alts(v):
            d = self.decide(st, c)
            if d is True:
                return [(True, w)]
            if d is not False:
                out.append((d, w))
        return out

    def force(self, st, v):
        """Value without Choice when the path condition decides it."""
        if isinstance(v, Choice):
            l = self.live(st, v)
            if len(l) == 1:
                return l[0][1]
            return mk_choice(l)
        return v

    def map1(self, st, v, f):
        """Apply f to each alternative of v; alternatives may raise."""
        if isinstance(v, Poison):
            raise Unsupported("use of untracked variable: " + v.why)
        if not isinstance(v, Choice):
            return f(st, v)
        l = self.live(st, v)
        if len(l) == 1:
            st.assume(l[0][0]) if l[0][0] is not True else None
            return f(st, l[0][1])
        n0 = len(st.pc)
        outs = []
        for c, w in l:
            s2 = st.copy()
            s2.assume(c)
            try:
                r = f(s2, w)
                outs.append((c, s2, r))
            except PathEnd:
                pass
        if not outs:
            raise PathEnd()
        c, s, r = outs[-1]
        for c2, s2, r2 in reversed(outs[:-1]):
            s = self.merge(c2, s2, s)
            r = merge_val(c2, r2, r)
        if len(outs) < len(l):
            s.assume(self.simp_or([c for c, _, _ in outs]))
        env = st.env
        st.take(s)
        return r

    def map2(self, st, a, b, f):
        return self.map1(st, a, lambda s, x: self.map1(s, b, lambda s2, y: f(s2, x, y)))

    # numbers ---------------------------------------------------------------
    def num(self, v):
        if isinstance(v, float):
            return norm_conc(v)
        if isinstance(v, bool):
            return int(v)
        if is_boolref(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def cmp_num(self, st, op, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(a, CNum) or isinstance(b, CNum):
            if op in ("==", "!="):
                a, b = self.cplx(a), self.cplx(b)
                r = And(self.cmp_num(st, "==", a.re, b.re), self.cmp_num(st, "==", a.im, b.im))
                return r if op == "==" else Not(r)
            raise Unsupported("ordering of complex numbers")
        if isinstance(a, float) or isinstance(b, float):
            # an infinity or nan
            if (isinstance(a, float) and isnan(a)) or (isinstance(b, float) and isnan(b)):
                return op == "!="
            fa = a if isinstance(a, float) else 0.0
            fb = b if isinstance(b, float) else 0.0
            return {"<": fa < fb, "<=": fa <= fb, ">": fa > fb, ">=": fa >= fb, "==": fa == fb, "!=": fa != fb}[op]
        if is_conc_num(a) and is_conc_num(b):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        x, y = to_z3(a), to_z3(b)
        if x.sort() != y.sort():
            x, y = to_real(x), to_real(y)
        if x.eq(y):
            return op in ("<=", ">=", "==")
        return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
                "==": lambda: x == y, "!=": lambda: x != y}[op]()

    def cplx(self, v):
        v = self.num(v)
        return v if isinstance(v, CNum) else CNum(v, 0)

    def add(self, st, a, b):
        return self.arith(st, "+", a, b)

    def arith(self, st, op, a, b):
        """Arithmetic on numeric values (Choices allowed)."""
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.map2(st, a, b, lambda s, x, y: self.arith(s, op, x, y))
        if isinstance(a, Accum) or isinstance(b, Accum):
            return self.accum_op(st, op, a, b)
        for x in (a, b):
            if x is None or isinstance(x, (str, Opaque, ClassVal, FuncVal)):
                self.raise_if(st, True, "TypeError", "unsupported operand None")
        a, b = self.num(a), self.num(b)
        if not ((is_num(a) or isinstance(a, CNum)) and (is_num(b) or isinstance(b, CNum))):
            raise Unsupported("arithmetic on %r and %r" % (a, b))
        if isinstance(a, CNum) or isinstance(b, CNum):
            return self.carith(st, op, a, b)
        if isinstance(a, float) or isinstance(b, float):
            return self.xarith(st, op, a, b)
        if is_conc_num(a) and is_conc_num(b):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                if b == 0:
                    self.raise_if(st, True, "ZeroDivisionError")
                r = Fraction(a) / Fraction(b)
                return r
            if op == "//":
                if b == 0:
                    self.raise_if(st, True, "ZeroDivisionError")
                r = a // b
                return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
            if op == "%":
                if b == 0:
                    self.raise_if(st, True, "ZeroDivisionError")
                return a % b
            if op == "**":
                if isinstance(b, int) or b.denominator == 1:
                    b = int(b)
                    if b < 0 and a == 0:
                        self.raise_if(st, True, "ZeroDivisionError")
                    return a ** b if b >= 0 else Fraction(1) / Fraction(a) ** (-b)
                raise Unsupported("fractional power")
        # identities that keep terms small
        if op == "+":
            if is_conc_num(a) and a == 0:
                return b
            if is_conc_num(b) and b == 0:
                return a
        if op == "-" and is_conc_num(b) and b == 0:
            return a
        if op == "*":
            if (is_conc_num(a) and a == 0) or (is_conc_num(b) and b == 0):
                return 0
            if is_conc_num(a) and a == 1:
                return b
            if is_conc_num(b) and b == 1:
                return a
        if op == "/" and is_conc_num(b) and b == 1:
            return a
        x, y = to_z3(a), to_z3(b)
        if op in ("+", "-", "*"):
            if x.sort() != y.sort():
                x, y = to_real(x), to_real(y)
            return x + y if op == "+" else x - y if op == "-" else x * y
        if op == "/":
            self.raise_if(st, self.cmp_num(st, "==", b, 0), "ZeroDivisionError")
            x, y = to_real(x), to_real(y)
            return x / y
        if op in ("//", "%"):
            self.raise_if(st, self.cmp_num(st, "==", b, 0), "ZeroDivisionError")
            if x.sort() == z3.IntSort() and y.sort() == z3.IntSort():
                # Python floor semantics equal z3's for a positive divisor
                pos = self.decide(st, y > 0)
                if pos is not True:
                    raise Unsupported("integer division by a possibly negative number")
                return x / y if op == "//" else x % y
            x, y = to_real(x), to_real(y)
            q = z3.ToInt(x / y)
            return z3.ToReal(q) if op == "//" else x - y * z3.ToReal(q)
        if op == "**":
            if is_conc_num(b) and Fraction(b).denominator == 1:
                n = int(b)
                if n < 0:
                    return self.arith(st, "/", 1, self.arith(st, "**", a, -n))
                r = 1
                for _ in range(n):
                    r = self.arith(st, "*", r, a)
                return r
            f = z3.Function("pow_", z3.RealSort(), z3.RealSort(), z3.RealSort())
            return f(to_real(x), to_real(y))
        raise Unsupported("operator " + op)

    def xarith(self, st, op, a, b):
        """Arithmetic with an infinity or nan."""
        for x in (a, b):
            if isinstance(x, float) and isnan(x):
                return float("nan")
        ia, ib = isinstance(a, float), isinstance(b, float)
        if op in ("+", "-"):
            if ib:
                sb = b if op == "+" else -b
                if ia:
                    return a + sb
                return sb
            return a
        if op in ("*", "/"):
            if ia and ib:
                return a * b if op == "*" else float("nan")
            if op == "/" and ib:
                return 0
            if ia:
                f, o = a, b
            else:
                f, o = b, a
            if is_conc_num(o):
                if o == 0:
                    if op == "/":
                        self.raise_if(st, True, "ZeroDivisionError")
                    return float("nan")
                return f if o > 0 else -f
            if op == "/":
                self.raise_if(st, self.cmp_num(st, "==", o, 0), "ZeroDivisionError")
            p = self.decide(st, self.cmp_num(st, ">", o, 0))
            n = self.decide(st, self.cmp_num(st, "<", o, 0))
            alts = []
            if p is not False:
                alts.append((p, f))
            if n is not False:
                alts.append((n, -f))
            z = And(Not(p), Not(n))
            if z is not False and self.decide(st, z) is not False:
                alts.append((z, float("nan")))
            return mk_choice(alts)
        if op == "**" and ia and is_conc_num(b):
            return a ** float(b)
        raise Unsupported("operator %s on infinity" % op)

    def carith(self, st, op, a, b):
        a, b = self.cplx(a), self.cplx(b)
        A = lambda o, x, y: self.arith(st, o, x, y)
        if op in ("+", "-"):
            return CNum(A(op, a.re, b.re), A(op, a.im, b.im))
        if op == "*":
            return CNum(A("-", A("*", a.re, b.re), A("*", a.im, b.im)), A("+", A("*", a.re, b.im), A("*", a.im, b.re)))
        if op == "/":
            if is_conc_num(b.im) and b.im == 0:
                return CNum(A("/", a.re, b.re), A("/", a.im, b.re))
            d = A("+", A("*", b.re, b.re), A("*", b.im, b.im))
            self.raise_if(st, And(self.cmp_num(st, "==", b.re, 0), self.cmp_num(st, "==", b.im, 0)), "ZeroDivisionError")
            # d is nonzero now (sum of squares); tell the prover
            if is_arith(d):
                st.assume(d > 0)
            nr = A("+", A("*", a.re, b.re), A("*", a.im, b.im))
            ni = A("-", A("*", a.im, b.re), A("*", a.re, b.im))
            return CNum(A("/", nr, d), A("/", ni, d))
        if op == "**" and is_conc_num(b.re) and is_conc_num(b.im) and b.im == 0 and Fraction(b.re).denominator == 1 and b.re >= 0:
            r = CNum(1, 0)
            for _ in range(int(b.re)):
                r = self.carith(st, "*", r, a)
            return r
        raise Unsupported("complex operator " + op)

    def accum_op(self, st, op, a, b):
        if op == "+" and isinstance(a, Accum) and not isinstance(b, Accum):
            return Accum(a.cell, a.key, self.arith(st, "+", a.addend, b), a.read, a.ctx)
        if op == "+" and isinstance(b, Accum) and not isinstance(a, Accum):
            return Accum(b.cell, b.key, self.arith(st, "+", b.addend, a), b.read, b.ctx)
        if op == "-" and isinstance(a, Accum) and not isinstance(b, Accum):
            return Accum(a.cell, a.key, self.arith(st, "-", a.addend, b), a.read, a.ctx)
        raise Unsupported("accumulator used in %s" % op)

    # operators ---------------------------------------------------------------
    BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
              ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|"}

    def binop(self, st, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of untracked variable: " + (a if isinstance(a, Poison) else b).why)
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.map2(st, a, b, lambda s, x, y: self.binop(s, op, x, y))
        if op == "%" and isinstance(a, (str, Opaque)) and not isinstance(a, Opaque):
            return self.fmt(st, a, b)
        if isinstance(a, str) or isinstance(b, str):
            if op == "+" and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == "+":
                return Opaque("str")
            if op == "*" and isinstance(a, str) and isinstance(b, int):
                return a * b
        if isinstance(a, Opaque) and a.kind == "str" or isinstance(b, Opaque) and b.kind == "str":
            return Opaque("str")
        if hasattr(a, "vc_binop") or hasattr(b, "vc_binop"):
            r = (a if hasattr(a, "vc_binop") else b).vc_binop(self, st, op, a, b)
            if r is not NotImplemented:
                return r
        oa, ob = self.obj(st, a), self.obj(st, b)
        if (oa is not None and oa.kind in ("arr", "mat")) or (ob is not None and ob.kind in ("arr", "mat")):
            return self.lib.arr_binop(self, st, op, a, b)
        if oa is not None and oa.kind == "list":
            if op == "+" and ob is not None and ob.kind == "list":
                return self.alloc(st, ListO(list(oa.seq) + list(ob.seq)))
            if op == "*":
                return self.list_repeat(st, oa, b)
        if ob is not None and ob.kind == "list" and op == "*":
            return self.list_repeat(st, ob, a)
        if oa is not None and oa.kind == "inst" or isinstance(a, Elem):
            d = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__"}.get(op)
            if d and self.has_attr(st, a, d):
                return self.call(st, self.getattr(st, a, d), [b], {})
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.lib.opaque_binop(self, st, op, a, b)
        if op in ("&", "|"):
            x, y = self.truth(st, a), self.truth(st, b)
            return And(x, y) if op == "&" else Or(x, y)
        return self.arith(st, op, a, b)

    def list_repeat(self, st, lo, n):
        n = self.num(n)
        if isinstance(n, int):
            return self.alloc(st, ListO(list(lo.seq) * n))
        if len(lo.seq) == 1 and isinstance(lo.seq[0], One):
            v = lo.seq[0].v
            ln = self.lib.nonneg(self, st, n)
            return self.alloc(st, ListO([Fn(ln, lambda i, v=v: v)]))
        raise Unsupported("repeat of a list")

    def fmt(self, st, a, b):
        # formatting is pure except that %d needs a number
        import re
        specs = re.findall(r"%[-+ #0-9.]*([a-zA-Z])", a)
        args = list(b) if isinstance(b, tuple) else [b]
        if len(specs) == len(args):
            for s, v in zip(specs, args):
                if s in "dfeg":
                    for c, w in self.live(st, v):
                        if w is None or isinstance(w, str):
                            self.raise_if(st, c, "TypeError", "%d format: a number is required")
        return Opaque("str")

    def unary(self, st, op, v):
        if isinstance(v, Choice):
            if isinstance(op, ast.Not):
                return Not(self.truth(st, v))
            return self.map1(st, v, lambda s, x: self.unary(s, op, x))
        if isinstance(op, ast.Not):
            return Not(self.truth(st, v))
        if isinstance(op, ast.USub):
            if isinstance(v, float):
                return -v
            o = self.obj(st, v)
            if o is not None and o.kind in ("arr", "mat"):
                return self.lib.arr_binop(self, st, "*", v, -1)
            if isinstance(v, CNum):
                return CNum(self.arith(st, "-", 0, v.re) if not is_conc_num(v.re) else -v.re,
                            self.arith(st, "-", 0, v.im) if not is_conc_num(v.im) else -v.im)
            v = self.num(v)
            if is_conc_num(v):
                return -v
            if v is None:
                self.raise_if(st, True, "TypeError", "bad operand type for unary -: NoneType")
            if hasattr(v, "vc_binop"):
                return v.vc_binop(self, st, "*", v, -1)
            return -to_z3(v)
        if isinstance(op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(st, a, b)
            return r if isinstance(op, ast.Is) else Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b)
            return r if isinstance(op, ast.In) else Not(r)
        return self.cmp(st, self.CMPS[type(op)], a, b)

    def is_(self, st, a, b):
        if isinstance(a, Choice):
            return Or(*[And(c, self.is_(st, w, b)) for c, w in flat_alts(a)])
        if isinstance(b, Choice):
            return Or(*[And(c, self.is_(st, a, w)) for c, w in flat_alts(b)])
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(b, bool) and is_boolref(a):
            return a if b else Not(a)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.oid == b.oid
        if isinstance(a, Elem) and isinstance(b, Elem):
            return a.idx == b.idx if a.base is b.base else False
        if a is b:
            return True
        if hasattr(a, "vc_is"):
            return a.vc_is(self, st, b)
        if isinstance(a, (ClassVal, FuncVal)) or isinstance(b, (ClassVal, FuncVal)):
            return False
        if type(a) is not type(b):
            return False
        raise Unsupported("identity of %r and %r" % (a, b))

    def cmp(self, st, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of untracked variable: " + (a if isinstance(a, Poison) else b).why)
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.map2(st, a, b, lambda s, x, y: self.cmp(s, op, x, y))
        if hasattr(a, "vc_cmp") or hasattr(b, "vc_cmp"):
            r = (a if hasattr(a, "vc_cmp") else b).vc_cmp(self, st, op, a, b)
            if r is not NotImplemented:
                return r
        oa, ob = self.obj(st, a), self.obj(st, b)
        if (oa is not None and oa.kind in ("arr", "mat")) or (ob is not None and ob.kind in ("arr", "mat")):
            return self.lib.arr_cmp(self, st, op, a, b)
        na = is_num(self.num(a)) or isinstance(a, CNum)
        nb = is_num(self.num(b)) or isinstance(b, CNum)
        if na and nb:
            return self.cmp_num(st, op, a, b)
        if op in ("==", "!="):
            r = self.equals(st, a, b)
            return r if op == "==" else Not(r)
        if a is None or b is None or isinstance(a, str) != isinstance(b, str):
            self.raise_if(st, True, "TypeError", "'%s' not supported between %r and %r" % (op, type(a).__name__, type(b).__name__))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            raise Unsupported("tuple ordering")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.lib.opaque_cmp(self, st, op, a, b)
        raise Unsupported("comparison %s of %r and %r" % (op, a, b))

    def equals(self, st, a, b):
        """== as bool or z3 condition."""
        if isinstance(a, Choice) or isinstance(b, Choice):
            return Or(*[And(c1, c2, self.equals(st, x, y)) for c1, x in flat_alts(a) for c2, y in flat_alts(b)])
        if same(a, b):
            return True
        if hasattr(a, "vc_eq"):
            return a.vc_eq(self, st, b)
        if hasattr(b, "vc_eq"):
            return b.vc_eq(self, st, a)
        if a is None or b is None:
            return False
        na = is_num(self.num(a)) or isinstance(a, CNum)
        nb = is_num(self.num(b)) or isinstance(b, CNum)
        if na and nb:
            return self.cmp_num(st, "==", a, b)
        if na != nb:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return self.lib.opaque_cmp(self, st, "==", a, b)
            return False
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and And(*[self.equals(st, x, y) for x, y in zip(a, b)])
        if isinstance(a, Elem) and isinstance(b, Elem) and a.base is b.base:
            return a.idx == b.idx
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
            return True
        if isinstance(a, ClassVal) or isinstance(b, ClassVal):
            return a is b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.lib.opaque_cmp(self, st, "==", a, b)
        oa, ob = self.obj(st, a), self.obj(st, b)
        if oa is not None and ob is not None and oa.kind == "list" and ob.kind == "list":
            if all(isinstance(c, One) for c in oa.seq) and all(isinstance(c, One) for c in ob.seq):
                if len(oa.seq) != len(ob.seq):
                    return False
                return And(*[self.equals(st, x.v, y.v) for x, y in zip(oa.seq, ob.seq)])
        if (oa is None) != (ob is None):
            return False
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        raise Unsupported("equality of %r and %r" % (a, b))

    def contains(self, st, a, b):
        if isinstance(b, Choice):
            return self.map1(st, b, lambda s, x: self.contains(s, a, x))
        if isinstance(b, tuple):
            return Or(*[self.equals(st, a, x) for x in b])
        if isinstance(b, str):
            if isinstance(a, str):
                return a in b
            if isinstance(a, Choice):
                return Or(*[And(c, self.contains(st, w, b)) for c, w in flat_alts(a)])
        if isinstance(a, Choice) and isinstance(b, str):
            pass
        if hasattr(b, "vc_contains"):
            return b.vc_contains(self, st, a)
        o = self.obj(st, b)
        if o is None:
            if isinstance(b, DictView):
                if b.which == "keys":
                    return self.key_in(st, self.obj(st, b.ref).entries, a)
                return self.seq_contains(st, self.view_seq(st, b), a)
            raise Unsupported("'in' on %r" % (b,))
        if o.kind in ("dict", "set"):
            return self.key_in(st, o.entries, a)
        if o.kind in ("list", "arr"):
            return self.seq_contains(st, o.seq, a)
        if o.kind == "inst" and self.has_attr(st, b, "__contains__"):
            return self.truth(st, self.call(st, self.getattr(st, b, "__contains__"), [a], {}))
        raise Unsupported("'in' on %r" % (b,))

    def seq_contains(self, st, seq, a):
        out = []
        for c in seq:
            if isinstance(c, One):
                out.append(self.equals(st, a, c.v))
            elif isinstance(c, If):
                out.append(Or(And(c.g, self.seq_contains(st, c.a, a)), And(Not(c.g), self.seq_contains(st, c.b, a))))
            elif isinstance(c, For):
                if len(c.items) == 1 and isinstance(c.items[0], One):
                    out.append(self.exists_key(st, c.base, c.var, c.cond, c.items[0].v, a))
                else:
                    i = self.ctx.index_var(c.base)
                    its = subst(c.items, [(c.var, i)])
                    out.append(self.ctx.mk_ex(c.base, i, And(subst(c.cond, [(c.var, i)]), self.seq_contains(st, its, a))))
            elif isinstance(c, Fn):
                from .loops import norm_chunk
                base, k, cond, its = norm_chunk(self, c)
                out.append(self.ctx.mk_ex(base, k, And(cond, self.equals(st, its[0].v, a))))
            else:
                raise Unsupported("membership in a growing list")
        return Or(*out)

    def range_base(self, n):
        """Base of the integers [0, n)."""
        if is_z3(n):
            fc = free_consts(n)
            if any(v.decl().name() in fc for v in self.ctx.loopvars):
                # the members of a base must not depend on a generic variable (norm_chunk puts the bound in the condition)
                raise Unsupported("range whose length depends on a generic iteration")
        key = "range_%s" % (n.sexpr() if is_z3(n) else n)
        if key not in self.ctx.bases:
            nn = to_z3(n)
            b = Base("range%d" % len(self.ctx.bases), z3.IntSort(), member=lambda i: z3.And(i >= 0, i < nn),
                     pos=lambda i: i, count=n)
            self.ctx.bases[key] = b
            self.ctx.bases[b.name] = b
        return self.ctx.bases[key]

    # ----------------------------------------------------------- key matching
    def invert(self, base, var, key, k):
        """Candidate index i with key[var:=i] == k, or None."""
        if is_z3(key) and key.eq(var):
            if isinstance(k, bool) or k is None or isinstance(k, (str, tuple)):
                return None
            k = self.num(k)
            if isinstance(k, int):
                return z3.IntVal(k) if var.sort() == z3.IntSort() else None
            if isinstance(k, Fraction) and k.denominator == 1 and var.sort() == z3.IntSort():
                return z3.IntVal(int(k))
            if is_arith(k) and k.sort() == var.sort():
                return k
            return None
        if isinstance(key, Elem) and isinstance(k, Elem) and key.base is k.base and is_z3(key.idx) and key.idx.eq(var):
            return k.idx
        if isinstance(key, tuple) and isinstance(k, tuple) and len(key) == len(k):
            for x, y in zip(key, k):
                i = self.invert(base, var, x, y)
                if i is not None:
                    return i
            return None
        if is_z3(key) and is_z3(k) and z3.is_app(key) and z3.is_app(k) and key.decl().eq(k.decl()) and key.num_args():
            for x, y in zip(key.children(), k.children()):
                if x.eq(var):
                    return y
        if is_z3(key) and z3.is_app(key):
            inv = base.inverse.get(key.decl().name()) if key.num_args() == 1 and key.arg(0).eq(var) else None
            if inv is not None and is_num(self.num(k)):
                return inv(to_z3(self.num(k)))
        if is_z3(key) and z3.is_add(key) or is_z3(key) and key.decl().kind() == z3.Z3_OP_SUB:
            pass
        return None

    def exists_key(self, st, base, var, cond, key, k):
        """Is k one of the keys?"""
        if isinstance(k, Choice):
            return Or(*[And(c, self.exists_key(st, base, var, cond, key, w)) for c, w in flat_alts(k)])
        i = self.invert(base, var, key, k)
        if i is not None:
            self.ctx.note_index(base, i)
            p = [(var, i)]
            return And(base.member(i), subst(cond, p), self.equals(st, subst(key, p), k))
        j = self.ctx.index_var(base)
        p = [(var, j)]
        return self.ctx.mk_ex(base, j, And(subst(cond, p), self.equals(st, subst(key, p), k)))

    # ------------------------------------------------------------ dictionaries
    def key_in(self, st, entries, k):
        pre = [e for e in entries if e[0] == "pre"]
        if pre:
            # the collection at the start of a generic iteration: only keys it had before the loop are known
            first = self.pre_objs[pre[0][1]]
            if any(e[0] == "pre" for e in first.entries) or self.decide(st, self.dict_lookup(st, first.entries, k)[1]) is not False:
                rest = [e for e in entries if e[0] != "pre"]
                if not rest or self.decide(st, self.dict_lookup(st, rest, k)[1]) is not False:
                    raise Unsupported("membership in a collection that changes in the loop")
            return True
        return Not(self.dict_lookup(st, entries, k)[1])

    def hashkey(self, v):
        v = self.num(v) if not isinstance(v, (tuple, Elem, str)) else v
        if isinstance(v, Fraction) and v.denominator == 1:
            return int(v)
        return v

    def dict_lookup(self, st, entries, k):
        """-> ([(cond, value)], missing condition)"""
        if isinstance(k, Choice):
            alts, miss = [], []
            for c, w in self.live(st, k):
                a, m = self.dict_lookup(st, entries, w)
                alts += [(And(c, x), v) for x, v in a]
                miss.append(And(c, m))
            return alts, Or(*miss)
        if isinstance(k, Poison):
            raise Unsupported("use of untracked variable: " + k.why)
        return self._lookup(st, list(entries), k)

    def _lookup(self, st, es, k):
        rem = True
        out = []
        for n in range(len(es) - 1, -1, -1):
            e = es[n]
            kind = e[0]
            if kind == "one":
                c = self.equals(st, e[1], k)
                if c is not False:
                    c = self.decide(st, And(rem, c)) if not isinstance(c, bool) else And(rem, c)
                if c is False:
                    continue
                out.append((c, e[2]))
                if c is True:
                    return out, False
                rem = And(rem, Not(self.equals(st, e[1], k)))
            elif kind == "for":
                _, base, var, cond, key, val = e
                i = self.invert(base, var, key, k)
                if i is None:
                    if self.never_equal(key, k):
                        continue
                    # an index whose key equals k, if there is one
                    i = self.witness_index(st, base, var, cond, key, k)
                    present = self.exists_key(st, base, var, cond, key, k)
                else:
                    self.ctx.note_index(base, i)
                    p = [(var, i)]
                    present = And(base.member(i), subst(cond, p), self.equals(st, subst(key, p), k))
                c = self.decide(st, And(rem, present))
                if c is False:
                    continue
                out.append((c, subst(val, [(var, i)])))
                if c is True:
                    return out, False
                rem = And(rem, Not(present))
            elif kind == "if":
                _, g, ea, eb = e
                a1, m1 = self._lookup(st, list(es[:n]) + list(ea), k)
                a2, m2 = self._lookup(st, list(es[:n]) + list(eb), k)
                for x, v in a1:
                    c = self.decide(st, And(rem, g, x))
                    if c is not False:
                        out.append((c, v))
                for x, v in a2:
                    c = self.decide(st, And(rem, Not(g), x))
                    if c is not False:
                        out.append((c, v))
                return out, And(rem, Or(And(g, m1), And(Not(g), m2)))
            elif kind in ("add", "foradd"):
                a1, m1 = self._lookup(st, es[:n], k)
                if kind == "add":
                    c = self.equals(st, e[1], k)
                    delta = e[2] if c is True else merge_val(c, e[2], 0)
                else:
                    _, base, var, cond, key, addend = e
                    delta = self.agg_sum(st, base, var, And(cond, self.equals(st, key, k)), addend)
                for x, v in a1:
                    c = And(rem, x)
                    if c is not False:
                        out.append((c, self.arith(st, "+", v, delta)))
                return out, And(rem, m1)
            elif kind == "pre":
                # dictionary at the start of a generic iteration
                out.append((rem, self.pre_read(st, e[1], k)))
                return out, False
            else:
                raise Unsupported("dict entry " + kind)
        return out, rem

    def never_equal(self, key, k):
        sk, s = isinstance(key, str), isinstance(k, str)
        if sk != s:
            return True
        if isinstance(key, tuple) != isinstance(k, tuple):
            return True
        return False

    def witness_index(self, st, base, var, cond, key, k):
        i = self.ctx.fresh("wit_" + base.name, base.sort)
        self.ctx.note_index(base, i)
        p = [(var, i)]
        ex = self.exists_key(st, base, var, cond, key, k)
        self.ctx.add_fact(Implies(ex, And(base.member(i), subst(cond, p), self.equals(st, subst(key, p), k))))
        return i

    def pre_read(self, st, tok, k):
        o = self.pre_objs[tok]
        _, miss = self.dict_lookup(st, o.entries, k)
        m = self.decide(st, miss)
        if m is not False:
            self.raise_if(st, m, "KeyError")
        return Accum(tok, k, 0, None, None)

    def merge_fresh(self, t, a, b, n):
        x = State(a.env, a.heap, list(a.pc[:n]), a.fr)
        y = State(b.env, b.heap, list(b.pc[:n]), b.fr)
        ga, gb = And(*a.pc[n:]), And(*b.pc[n:])
        m = self.merge(t, x, y)
        m.assume(Implies(t, ga))
        m.assume(Implies(Not(t), gb))
        return m

    def dict_get(self, st, ref, k, default=None, raising=True):
        o = self.obj(st, ref)
        alts, miss = self.dict_lookup(st, o.entries, k)
        if raising:
            self.raise_if(st, miss, "KeyError", k if isinstance(k, str) else None)
        else:
            m = self.decide(st, miss)
            if m is not False:
                alts = alts + [(m, default)]
        alts = [(c, v) for c, v in alts if self.decide(st, c) is not False] if len(alts) > 1 else alts
        if not alts:
            raise PathEnd()
        if len(alts) == 1:
            return alts[0][1]
        return mk_choice(alts)

    def dict_set(self, st, ref, k, v):
        o = self.obj(st, ref)
        if isinstance(v, Accum):
            if False:
                pass
            es = list(o.entries)
            if any(e[0] == "pre" and e[1] == v.cell for e in es):
                self.set_obj(st, ref, type(o)(es + [("add", k, v.addend)]))
                return
            raise Unsupported("accumulator stored in a dict")
        es = list(o.entries)
        if isinstance(k, Choice):
            raise Unsupported("dict key with several kinds of value")
        for n, e in enumerate(es):
            if e[0] == "one" and same(e[1], k) and all(x[0] == "one" for x in es[n:]):
                es[n] = ("one", e[1], v)
                self.set_obj(st, ref, type(o)(es))
                return
        es.append(("one", k, v))
        self.set_obj(st, ref, type(o)(es))

    def dict_len(self, st, entries):
        return self.seq_len(st, self.entries_seq(st, entries, "keys"))

    def entries_seq(self, st, entries, which):
        out = []
        seen = []
        for e in entries:
            if e[0] == "one":
                k, v = e[1], e[2]
                dup = False
                for kk in seen:
                    c = self.equals(st, kk, k) if not isinstance(kk, tuple) or kk[:1] != ("fam",) else False
                    if self.decide(st, c) is not False:
                        raise Unsupported("dict with possibly repeated keys")
                seen.append(k)
                for f in entries:
                    if f is e:
                        break
                    if f[0] == "for" and not self.never_equal(f[4], k):
                        if self.decide(st, self.exists_key(st, f[1], f[2], f[3], f[4], k)) is not False:
                            raise Unsupported("dict with possibly repeated keys")
                out.append(One({"keys": k, "values": v, "items": (k, v)}[which]))
            elif e[0] == "for":
                _, base, var, cond, key, val = e
                for f in entries:
                    if f is e:
                        break
                    if f[0] == "for" and not self.never_equal(f[4], key):
                        i = self.ctx.index_var(base)
                        p = [(var, i)]
                        both = And(base.member(i), subst(cond, p),
                                   self.exists_key(st, f[1], f[2], f[3], f[4], subst(key, p)))
                        self.ctx.note_index(base, i)
                        if self.ctx.feasible(st.pc + [both]) and self.ctx.prove(st.pc + [both], False, timeout=15)[0] != "proved":
                            raise Unsupported("dict with possibly overlapping families")
                self.check_injective(st, base, var, cond, key)
                out.append(For(base, var, cond, [One({"keys": key, "values": val, "items": (key, val)}[which])]))
            elif e[0] == "if":
                out.append(If(e[1], self.entries_seq(st, e[2], which), self.entries_seq(st, e[3], which)))
            elif e[0] == "foradd":
                continue_ok = which == "keys"
                if not continue_ok:
                    raise Unsupported("iteration over an accumulated dict")
            else:
                raise Unsupported("iteration over a growing dict")
        if any(e[0] == "foradd" for e in entries) and which != "keys":
            raise Unsupported("iteration over an accumulated dict")
        return out

    def check_injective(self, st, base, var, cond, key):
        if is_z3(key) and key.eq(var):
            return
        if isinstance(key, Elem) and is_z3(key.idx) and key.idx.eq(var):
            return
        memo = getattr(self, "_inj", None)
        if memo is None:
            memo = self._inj = {}
        i, j = self.ctx.index_var(base), self.ctx.index_var(base)
        self.ctx.note_index(base, i)
        self.ctx.note_index(base, j)
        pi, pj = [(var, i)], [(var, j)]
        c = And(base.member(i), base.member(j), subst(cond, pi), subst(cond, pj),
                self.equals(st, subst(key, pi), subst(key, pj)))
        inj = list(base.inj(i, j)) if hasattr(base, "inj") and base.inj else []
        hyps = st.pc + ([c] if is_z3(c) else []) + inj
        if not self.ctx.valid(hyps, i == j) and self.ctx.prove(hyps, i == j, timeout=15)[0] != "proved":
            raise Unsupported("possibly repeated dict keys over " + base.name)

    # ----------------------------------------------------------- sequences
    def seq_len(self, st, seq):
        n = 0
        for c in seq:
            if isinstance(c, One):
                n = self.arith(st, "+", n, 1)
            elif isinstance(c, If):
                la, lb = self.seq_len(st, c.a), self.seq_len(st, c.b)
                n = self.arith(st, "+", n, Ite(c.g, la, lb))
            elif isinstance(c, For):
                l = self.seq_len(st, c.items)
                if isinstance(l, int):
                    v = self.ctx.mk_count(c.base, c.var, c.cond)
                    n = self.arith(st, "+", n, self.arith(st, "*", l, v))
                else:
                    n = self.arith(st, "+", n, self.ctx.mk_sum(c.base, c.var, c.cond, l))
            elif isinstance(c, Fn):
                n = self.arith(st, "+", n, c.length)
            elif isinstance(c, Pre):
                n = self.arith(st, "+", n, self.pre_len(c.tok))
            else:
                raise Unsupported("length of sequence")
        return n

    def pre_len(self, tok):
        h = self.ctx.holes.setdefault(("len", tok), z3.Int("hole_len!%s" % (tok,)))
        return h

    def seq_get(self, st, seq, k):
        """Item at (non-negative or negative) index k; no bounds check for symbolic lengths unless undecided."""
        if isinstance(k, Choice):
            return self.map1(st, k, lambda s, x: self.seq_get(s, seq, x))
        k = self.num(k)
        if isinstance(k, Fraction) and k.denominator == 1:
            raise PathEnd() if False else Unsupported("float index")
        if all(isinstance(c, One) for c in seq) and isinstance(k, int):
            if -len(seq) <= k < len(seq):
                return seq[k].v
            self.raise_if(st, True, "IndexError")
        if all(isinstance(c, One) for c in seq) and is_arith(k) and seq:
            n = len(seq)
            self.raise_if(st, Or(k >= n, k < -n), "IndexError")
            alts = []
            for j in range(n):
                c = self.decide(st, Or(k == j, k == j - n))
                if c is not False:
                    alts.append((c, seq[j].v))
            return mk_choice(alts)
        n = self.seq_len(st, seq)
        neg = self.decide(st, self.cmp_num(st, "<", k, 0))
        if neg is True:
            k = self.arith(st, "+", k, n)
        elif neg is not False:
            k = Ite(neg, self.arith(st, "+", k, n), k)
        kk = k
        self.raise_if(st, Or(self.cmp_num(st, "<", kk, 0), self.cmp_num(st, ">=", kk, n)), "IndexError")
        return self.seq_at(st, seq, kk)

    def seq_at(self, st, seq, k):
        """Item at valid index k >= 0."""
        if not seq:
            raise PathEnd()
        if len(seq) > 1:
            # locate by cumulative length
            head, rest = seq[0], seq[1:]
            n = self.seq_len(st, [head])
            inh = self.decide(st, self.cmp_num(st, "<", k, n))
            if inh is True:
                return self.seq_at(st, [head], k)
            if inh is False:
                return self.seq_at(st, rest, self.sub_simpl(st, k, n))
            a = self.seq_at(st, [head], k)
            b = self.seq_at(st, rest, self.sub_simpl(st, k, n))
            return merge_val(inh, a, b)
        c = seq[0]
        if isinstance(c, One):
            return c.v
        if isinstance(c, Fn):
            return c.fn(to_z3(k) if not isinstance(k, int) else k)
        if isinstance(c, If):
            return merge_val(c.g, self.seq_at(st, c.a, k), self.seq_at(st, c.b, k))
        if isinstance(c, For):
            if len(c.items) != 1 or not isinstance(c.items[0], One):
                raise Unsupported("indexing a nested sequence")
            i = self.nth(st, c.base, c.var, c.cond, k)
            return subst(c.items[0].v, [(c.var, i)])
        raise Unsupported("indexing a growing list")

    def sub_simpl(self, st, k, n):
        r = self.arith(st, "-", k, n)
        if is_z3(r):
            from .ctx import Normaliser
            N = Normaliser(self.ctx)
            try:
                p, d = N.rat(r)
                e = N.to_expr(p, r.sort())
                return self.num(e.as_long()) if z3.is_int_value(e) else e
            except Exception:
                return r
        return r

    def nth(self, st, base, var, cond, k):
        """Index of the k-th member with cond."""
        k = self.num(k)
        if is_z3(k):
            k = self.sub_simpl(st, k, 0)
        if is_z3(k):
            # rank(j) of a member j with cond: j itself
            if z3.is_app(k):
                nm = k.decl().name()
                d = self.ctx.aggs.get(nm)
                cand = None
                if d is not None and d.kind == "psum" and d.base is base:
                    j = k.arg(0)
                    if self.ctx.mk_psum(base, var, cond, 1, j).eq(k):
                        cand = j
                elif nm == "pos_" + base.name and cond is True:
                    cand = k.arg(0)
                elif cond is True and base.pos is not None and is_z3(base.pos(k)) and base.pos(k).eq(k):
                    cand = k
                if cand is not None:
                    c = And(base.member(cand), subst(cond, [(var, cand)]))
                    s2 = st
                    if self.base_stack:
                        s2 = st.copy()
                        for bs, bi in self.base_stack:
                            s2.assume(bs.member(bi))
                    if self.decide(s2, c) is True:
                        return cand
        elif cond is True and base.pos is not None:
            t = z3.IntVal(k)
            if is_z3(base.pos(t)) and base.pos(t).eq(t):
                return t
        i = self.ctx.fresh("nth_" + base.name, base.sort)
        kt = to_z3(k)
        key = ("nth", base.name, cond.sexpr() if is_z3(cond) else cond, kt.get_id())
        memo = getattr(self, "_nth", None)
        if memo is None:
            memo = self._nth = {}
        if key in memo:
            return memo[key][0]
        memo[key] = (i, kt, len(self.ctx.facts) + 1)
        self.nth_info[i.decl().name()] = (base, var, cond, kt, i.children())
        self.ctx.note_index(base, i)
        p = [(var, i)]
        r = self.ctx.mk_psum(base, var, cond, 1, i) if cond is not True else self.ctx.pos(base, i)
        cnt = self.ctx.mk_count(base, var, cond)
        self.ctx.add_fact(Implies(And(kt >= 0, self.cmp_num(st, "<", kt, cnt)), And(base.member(i), subst(cond, p), self.cmp_num(st, "==", r, kt))))
        if getattr(base, "rank_key", None) is not None and not i.children():
            # a list sorted by a key: positions are in the order of the keys
            old = base.__dict__.setdefault("placed", [])
            for u in old:
                for x, y in ((u, i), (i, u)):
                    self.ctx.add_fact(Implies(And(base.member(x), base.member(y), self.ctx.pos(base, x) < self.ctx.pos(base, y)),
                                              base.order(x) <= base.order(y)))
                for x in (base.inj(u, i) if base.inj else ()):
                    self.ctx.add_fact(Implies(And(base.member(u), base.member(i)), x))
            old.append(i)
        return i

    def reindex(self, rng, k, body):
        """A sum over the positions k of a collection whose summand takes the k-th member: the sum over its members."""
        if rng.pos is None or not is_z3(rng.pos(k)) or not rng.pos(k).eq(k):
            return None
        found, seen, todo = None, set(), [body]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            todo += t.children()
            info = self.nth_info.get(t.decl().name()) if z3.is_app(t) else None
            if info is not None and t.num_args() == 1 and t.arg(0).eq(k) and len(info[4]) == 1 and info[3].eq(info[4][0]):
                base, var, cond = info[:3]
                if not (is_z3(cond) and mentions(cond, info[4][0])):
                    n = to_z3(self.ctx.mk_count(base, var, cond))
                    if n.eq(to_z3(rng.count)):
                        found = (t, base, var, cond)
        if found is None:
            return None
        t, base, var, cond = found
        j = z3.Const("#r" + str(base.sort), base.sort)
        c = subst(cond, [(var, j)]) if is_z3(cond) else cond
        rank = self.ctx.mk_psum(base, j, c, 1, j) if c is not True else self.ctx.pos(base, j)
        return base, j, c, z3.substitute(z3.substitute(body, (t, j)), (k, to_z3(rank)))

    def resolve_nth(self, st, e):
        """Replace 'the k-th member' by the member whose rank k is, where that is known."""
        if not is_z3(e):
            return e
        seen, done = set(), {}

        def find(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            for c in t.children():
                find(c)
            if z3.is_app(t) and t.decl().name() in self.nth_info and t.num_args():
                done[t.get_id()] = t
        find(e)
        for t in done.values():
            base, var, cond, kt, ps = self.nth_info[t.decl().name()]
            p = [(x, y) for x, y in zip(ps, t.children())]
            k = z3.substitute(kt, *p)
            i = self.nth(st, base, var, subst(cond, p), k)
            if not i.decl().name().startswith("nth_"):
                e = z3.substitute(e, (t, i))
        return e

    def seq_slice(self, st, seq, lo, hi):
        n = self.seq_len(st, seq)
        norm = lambda x, d: d if x is None else self.clamp_index(st, x, n)
        lo, hi = norm(lo, 0), norm(hi, n)
        if isinstance(lo, int) and isinstance(hi, int) and all(isinstance(c, One) for c in seq):
            return list(seq[lo:hi])
        if isinstance(lo, int) and lo == 0 and same(hi, n):
            return list(seq)
        # drop / keep whole leading chunks
        out, pos = [], 0
        lnz = lambda x: self.lib.nonneg(self, st, x)
        if len(seq) == 1 and isinstance(seq[0], Fn):
            f = seq[0].fn
            ln = lnz(self.sub_simpl(st, hi, lo))
            return [Fn(ln, lambda i, f=f, lo=lo: f(self.arith(st, "+", lo, i)))]
        for c in seq:
            l = self.seq_len(st, [c])
            a, b = pos, self.arith(st, "+", pos, l)
            pos = b
            # [a, b) against [lo, hi)
            if self.decide(st, self.cmp_num(st, "<=", b, lo)) is True or self.decide(st, self.cmp_num(st, ">=", a, hi)) is True:
                continue
            if self.decide(st, self.cmp_num(st, ">=", a, lo)) is True and self.decide(st, self.cmp_num(st, "<=", b, hi)) is True:
                out.append(c)
                continue
            ln = lnz(self.sub_simpl(st, hi, lo))
            whole = list(seq)
            return [Fn(ln, lambda i: self.seq_at(st, whole, self.arith(st, "+", lo, i)))]
        return out

    def clamp_index(self, st, x, n):
        x = self.num(x)
        if isinstance(x, Choice):
            raise Unsupported("slice bound")
        neg = self.decide(st, self.cmp_num(st, "<", x, 0))
        if neg is True:
            x = self.arith(st, "+", n, x)
            if self.decide(st, self.cmp_num(st, "<", x, 0)) is not False:
                x = Ite(self.cmp_num(st, "<", x, 0), 0, x)
        elif neg is not False:
            raise Unsupported("slice bound of unknown sign")
        if isinstance(n, int) and isinstance(x, int):
            return min(x, n)
        big = self.decide(st, self.cmp_num(st, ">", x, n))
        if big is False:
            return x
        if big is True:
            return n
        return Ite(big, n, x)

    # ---------------------------------------------------------- aggregates
    def agg_sum(self, st, base, var, cond, v):
        """Sum of v over members with cond; v may be a Choice with infinities."""
        cond = cond
        if isinstance(v, Choice):
            fin_alts, inf_c, ninf_c = [], [], []
            for c, w in flat_alts(v):
                if isinstance(w, float):
                    if isnan(w):
                        raise Unsupported("sum with nan")
                    (inf_c if w > 0 else ninf_c).append(c)
                elif isinstance(w, CNum) or is_num(w) or is_boolref(w):
                    fin_alts.append((c, w))
                else:
                    raise Unsupported("sum of non-numbers")
            f = 0
            for c, w in fin_alts:
                if isinstance(w, CNum):
                    raise Unsupported("sum of mixed complex")
                f = self.arith(st, "+", f, self.ctx.mk_sum(base, var, And(cond, c), self.num(w)))
            if not inf_c and not ninf_c:
                return f
            pi = self.ctx.mk_ex(base, var, And(cond, Or(*inf_c))) if inf_c else False
            ni = self.ctx.mk_ex(base, var, And(cond, Or(*ninf_c))) if ninf_c else False
            return mk_choice([(And(pi, Not(ni)), float("inf")), (And(ni, Not(pi)), float("-inf")),
                              (And(pi, ni), float("nan")), (And(Not(pi), Not(ni)), f)])
        if isinstance(v, float):
            return self.agg_sum(st, base, var, cond, Choice([(True, v)]))
        if isinstance(v, CNum):
            return CNum(self.ctx.mk_sum(base, var, cond, self.num(v.re)), self.ctx.mk_sum(base, var, cond, self.num(v.im)))
        return self.ctx.mk_sum(base, var, cond, self.num(v))

    def idx_eq(self, st, i, j):
        a, b = to_z3(i), to_z3(j)
        if a.eq(b):
            return True
        return self.decide(st, a == b)

    def note_start_read(self, tok, idx):
        rec = self.start_reads.get(tok)
        if rec is not None:
            rec.append(idx)


    # ------------------------------------------------------------- attributes
    def base_field(self, key):
        f = self.base_fields.get(key)
        if f is None:
            raise Unsupported("no field %s" % (key,))
        return f

    def elem_fm(self, st, base, name):
        key = (base.root_name(), name)
        fm = st.heap.fields.get(key)
        if fm is None and key in self.base_fields:
            fm = self.base_fields[key]
        return key, fm

    def elem_get(self, st, v, name):
        base = v.base
        self.ctx.note_index(base, v.idx)
        key, fm = self.elem_fm(st, base, name)
        if fm is not None:
            return self.specialize(st, fm.read(self, st, v.idx))
        # class attribute / method / property
        alts = []
        for cls, cond in base.classes:
            c = self.decide(st, cond(v.idx))
            if c is False:
                continue
            m, owner = cls.lookup(name)
            for n, (c2, m2) in enumerate(alts):
                if m2 is m:
                    alts[n] = (Or(c2, c), m)
                    break
            else:
                alts.append((c, m))
        if not alts:
            raise PathEnd()
        if all(m is None for _, m in alts):
            self.unmodelled(name)
        if len(alts) == 1:
            return self.bind(st, v, alts[0][1], name)
        n0 = len(st.pc)
        res = []
        for c, m in alts:
            s2 = st.copy()
            s2.assume(c)
            try:
                r = self.bind(s2, v, m, name)
            except PathEnd:
                continue
            res.append((c, s2, r))
        if not res:
            raise PathEnd()
        if any(isinstance(r, BoundMethod) for _, _, r in res):
            return Choice([(c, r) for c, _, r in res])
        c, s, r = res[-1]
        for c2, s2, r2 in reversed(res[:-1]):
            s = self.merge(c2, s2, s)
            r = merge_val(c2, r2, r)
        if len(res) < len(alts):
            s.assume(self.simp_or([c for c, _, _ in res]))
        st.take(s)
        return r

    def specialize(self, st, v):
        """Use the classes fixed by the path condition to simplify a value just read."""
        if is_z3(v):
            r = self.ctx.specialize(st.pc, v)
            return r if r.sort() != z3.BoolSort() or not (z3.is_true(r) or z3.is_false(r)) else z3.is_true(r)
        if isinstance(v, CNum):
            return CNum(self.specialize(st, v.re), self.specialize(st, v.im))
        if isinstance(v, Choice):
            out = []
            for c, w in v.alts:
                c = self.specialize(st, c)
                if c is not False:
                    out.append((c, self.specialize(st, w)))
            return mk_choice(out)
        return v

    def bind(self, st, v, m, name):
        if m is None:
            self.raise_if(st, True, "AttributeError", name)
        if isinstance(m, PropertyVal):
            return self.call(st, BoundMethod(v, m.fget), [], {})
        if isinstance(m, FuncVal):
            if getattr(m, "static", False):
                return m
            return BoundMethod(v, m)
        if isinstance(m, Builtin):
            return BoundMethod(v, m)
        return m

    def has_attr(self, st, v, name):
        if isinstance(v, Elem):
            key, fm = self.elem_fm(st, v.base, name)
            if fm is not None or any(c.lookup(name)[0] is not None for c, _ in v.base.classes):
                return True
            self.unmodelled(name)
            return False
        o = self.obj(st, v)
        if o is not None and o.kind == "inst":
            if name in o.fields and o.fields[name] is not ABSENT:
                return True
            if o.cls.lookup(name)[0] is not None:
                return True
            if o.open or isinstance(v, Ref) and v.oid in self.settled and name in self.pkg_attrs()[1]:
                self.unmodelled(name)
            return False
        return False

    def getattr(self, st, v, name):
        if isinstance(v, Choice):
            return self.map1(st, v, lambda s, x: self.getattr(s, x, name))
        if isinstance(v, Poison):
            raise Unsupported("use of untracked variable: " + v.why)
        if isinstance(v, Elem):
            return self.elem_get(st, v, name)
        if isinstance(v, (Ref, Snap)):
            o = self.obj(st, v)
            if o.kind == "inst":
                if name in o.fields:
                    x = o.fields[name]
                    if isinstance(x, Choice) and any(w is ABSENT for _, w in flat_alts(x)):
                        ab = Or(*[c for c, w in flat_alts(x) if w is ABSENT])
                        self.raise_if(st, ab, "AttributeError", name)
                        x = mk_choice([(c, w) for c, w in flat_alts(x) if w is not ABSENT])
                    if x is not ABSENT:
                        if isinstance(v, Ref) and v.oid in self.settled and name in self.pkg_attrs()[1] and \
                                self.settled[v.oid].get(name, ABSENT) is x:
                            raise Unsupported("attribute %s depends on the history" % name)
                        return x
                m, owner = o.cls.lookup(name)
                if m is not None:
                    self.import_static(st, m)
                    return self.bind(st, v, m, name)
                if owner is not None:
                    return None
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    raise Unsupported("__dict__")
                if o.open:
                    return o.open(self, st, v, name)
                self.raise_if(st, True, "AttributeError", name)
            return self.lib.obj_attr(self, st, v, o, name)
        if isinstance(v, ModuleVal):
            m = self.module_attr(v, name)
            self.import_static(st, m)
            return m
        if isinstance(v, ClassVal):
            m, owner = v.lookup(name)
            if m is not None:
                self.import_static(st, m)
                return m
            if name in ("__name__", "__qualname__"):
                return v.name
            if v.external and hasattr(v, "static") and name in v.static:
                return v.static[name]
            self.raise_if(st, True, "AttributeError", name)
        if isinstance(v, SuperVal):
            mro = self.class_of(st, v.self_val).mro()
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if name in c.members:
                    return self.bind(st, v.self_val, c.members[name], name)
            if name == "__init__":
                return Builtin("object.__init__", lambda eng, s, a, k: None)
            self.raise_if(st, True, "AttributeError", name)
        if v is None:
            self.raise_if(st, True, "AttributeError", "'NoneType' object has no attribute " + name)
        return self.lib.value_attr(self, st, v, name)

    def class_of(self, st, v):
        if isinstance(v, (Ref, Snap)):
            o = self.obj(st, v)
            if o.kind == "inst":
                return o.cls
        if isinstance(v, Elem):
            for cls, cond in v.base.classes:
                if self.decide(st, cond(v.idx)) is True:
                    return cls
        raise Unsupported("class of %r" % (v,))

    def setattr(self, st, v, name, val):
        if isinstance(v, Choice):
            self.map1(st, v, lambda s, x: self.setattr(s, x, name, val))
            return
        if isinstance(v, Elem):
            self.elem_set(st, v, name, val)
            return
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o.kind == "inst":
                m, _ = o.cls.lookup(name)
                if isinstance(m, PropertyVal):
                    if m.fset is None:
                        self.raise_if(st, True, "AttributeError", name)
                    self.call(st, BoundMethod(v, m.fset), [val], {})
                    return
                if isinstance(val, Accum):
                    raise Unsupported("accumulator stored in an attribute")
                for w in self.wlogs:
                    w.add(("attr", v.oid, name))
                self.set_obj(st, v, o.set(name, val))
                return
            if self.lib.set_obj_attr(self, st, v, o, name, val):
                return
        if isinstance(v, ModuleVal):
            if not self.loading:
                raise Unsupported("module attribute assigned at run time")
            v.members[name] = val
            return
        if v is None:
            self.raise_if(st, True, "AttributeError", name)
        if hasattr(v, "vc_setattr"):
            v.vc_setattr(self, st, name, val)
            return
        raise Unsupported("attribute assignment on %r" % (v,))

    def elem_set(self, st, v, name, val):
        base = v.base
        key, fm = self.elem_fm(st, base, name)
        if fm is None:
            # property?
            done = False
            alts = []
            for cls, cond in base.classes:
                c = self.decide(st, cond(v.idx))
                if c is False:
                    continue
                m, _ = cls.lookup(name)
                alts.append((c, m))
            if alts and all(isinstance(m, PropertyVal) for _, m in alts):
                ms = {id(m): m for _, m in alts}
                if len(ms) == 1:
                    m = list(ms.values())[0]
                    if m.fset is None:
                        self.raise_if(st, True, "AttributeError", name)
                    self.call(st, BoundMethod(v, m.fset), [val], {})
                    return
            if any(isinstance(m, PropertyVal) for _, m in alts):
                for c, m in alts:
                    if not isinstance(m, PropertyVal):
                        raise Unsupported("property defined by some classes only")
                raise Unsupported("several properties")
            self.new_field(st, base, name)
            key, fm = self.elem_fm(st, base, name)
        for w in self.wlogs:
            w.add(("fld", key))
        if ("fld", key) in self.frozen:
            self.frozen_writes.append((self.frozen[("fld", key)], list(st.pc)))
        if isinstance(val, Accum):
            fm2 = st.heap.fields.get(key)
            adds = self.find_adds(fm2, val.cell)
            if adds is None:
                raise Unsupported("accumulator stored in another field")
            st.heap.fields[key] = FMAdds(adds.tok, adds.parent, adds.adds + ((v.idx, val.addend),))
            return
        if isinstance(fm, FMAdds):
            raise Unsupported("assignment of a scattered field")
        st.heap.fields[key] = FMPoint(fm, v.idx, val)

    def find_adds(self, fm, tok):
        if isinstance(fm, FMAdds) and fm.tok == tok:
            return fm
        return None

    def new_field(self, st, base, name):
        self.base_fields[(base.root_name(), name)] = FMBase(lambda i: ABSENT)

    # -------------------------------------------------------------- modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split("."))
        pkg = False
        if os.path.isdir(path) and os.path.exists(os.path.join(path, "__init__.py")):
            path, pkg = os.path.join(path, "__init__.py"), True
        else:
            path += ".py"
        if not os.path.exists(path):
            raise Unsupported("module " + name)
        m = ModuleVal(name)
        m.members["__name__"] = name
        m.members["__file__"] = path
        self.modules[name] = m
        with open(path, encoding='utf-8') as fh:
            tree = ast.parse(fh.read())
        m.pkg = name if pkg else name.rpartition(".")[0]
        m.tree = tree
        m.pending = {}
        fr = Frame(m, None, None)
        st = State(m.members, Heap(), [], fr)
        m.state = st
        # functions and classes first-come; other statements executed lazily in order
        for node in tree.body:
            self.index_toplevel(m, node)
        return m

    def index_toplevel(self, m, node):
        """Record which statement defines each module-level name."""
        names = []
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            names = [node.name]
        elif isinstance(node, ast.Import):
            names = [(a.asname or a.name.split(".")[0]) for a in node.names]
        elif isinstance(node, ast.ImportFrom):
            names = [(a.asname or a.name) for a in node.names]
            if names == ["*"]:
                raise Unsupported("import *")
        elif isinstance(node, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = node.targets if isinstance(node, ast.Assign) else [node.target]
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        names.append(x.id)
        elif isinstance(node, ast.Expr):
            if isinstance(node.value, ast.Constant):
                return
            names = []
            m.pending.setdefault("__effects__", []).append(node)
            return
        elif isinstance(node, ast.If):
            t = node.test
            if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
                return
            for s in node.body + node.orelse:
                self.index_toplevel(m, s)
            return
        elif isinstance(node, ast.Try):
            for s in node.body:
                self.index_toplevel(m, s)
            return
        for n in names:
            m.pending.setdefault(n, []).append(node)

    def module_attr(self, m, name):
        if name in m.members:
            return m.members[name]
        if m.loader is not None:
            v = m.loader(name)
            m.members[name] = v
            return v
        nodes = getattr(m, "pending", {}).get(name)
        if nodes is None:
            # a submodule?
            try:
                return self.load_module(m.name + "." + name)
            except Unsupported:
                pass
            raise Unsupported("name %s in module %s" % (name, m.name))
        del m.pending[name]
        save = self.raises
        self.raises = [[]]
        self.loading += 1
        try:
            for n in nodes:
                r = self.stmt(n, m.state)
                if r is None:
                    raise Unsupported("module code of %s does not complete" % m.name)
                m.state.take(r) if r is not m.state else None
            if self.raises[0]:
                raise Unsupported("module code of %s raises" % m.name)
        finally:
            self.raises = save
            self.loading -= 1
        m.members = m.state.env
        for oid, o in m.state.heap.objs.items():
            self.static_objs[oid] = o
        if name not in m.members:
            raise Unsupported("name %s in module %s" % (name, m.name))
        return m.members[name]


    def import_module(self, st, dotted):
        root = dotted.split(".")[0]
        if os.path.isdir(os.path.join(self.repo, root)) and root == "gym_anm":
            return self.load_module(dotted)
        return self.ext(dotted)

    # ---------------------------------------------------------------- names
    def lookup(self, st, name):
        if name in st.env:
            v = st.env[name]
            if v is ABSENT:
                self.raise_if(st, True, "UnboundLocalError", name)
            if isinstance(v, Choice) and any(w is ABSENT for _, w in flat_alts(v)):
                ab = Or(*[c for c, w in flat_alts(v) if w is ABSENT])
                self.raise_if(st, ab, "UnboundLocalError", name)
                v = mk_choice([(c, w) for c, w in flat_alts(v) if w is not ABSENT])
            if isinstance(v, Poison):
                raise Unsupported("use of untracked variable: %s (%s)" % (name, v.why))
            return v
        fn = st.fr.func
        c = fn.closure if fn is not None else None
        while c is not None:
            env, parent = c
            if name in env:
                return env[name]
            c = parent
        m = st.fr.module
        if name in m.members:
            v = m.members[name]
        elif name in getattr(m, "pending", {}):
            v = self.module_attr(m, name)
        elif name in self.builtins:
            return self.builtins[name]
        elif name in self.exc or name in EXC_TREE:
            return self.exc_class(name)
        else:
            raise Unsupported("name " + name)
        self.import_static(st, v)
        return v

    def import_static(self, st, v, seen=None):
        """Make objects created by module-level code visible in the current heap."""
        if isinstance(v, Ref):
            if v.oid not in st.heap.objs and v.oid in self.static_objs:
                o = self.static_objs[v.oid]
                st.heap.objs[v.oid] = o
                for x in self.obj_values(o):
                    self.import_static(st, x)
        elif isinstance(v, tuple):
            for x in v:
                self.import_static(st, x)

    def obj_values(self, o):
        if o.kind == "inst":
            return list(o.fields.values())
        if o.kind in ("list", "arr"):
            return [c.v for c in o.seq if isinstance(c, One)]
        if o.kind in ("dict", "set"):
            return [x for e in o.entries if e[0] == "one" for x in e[1:]]
        return []

    # ----------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            st = self.stmt(s, st)
            if st is None:
                return None
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        self.cur = s
        try:
            return m(s, st)
        except PathEnd:
            return None

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Global(self, s, st):
        raise Unsupported("global statement")

    def s_Import(self, s, st):
        for a in s.names:
            m = self.import_module(st, a.name)
            if a.asname:
                st.env[a.asname] = m
            else:
                root = a.name.split(".")[0]
                st.env[root] = self.import_module(st, root)
        return st

    def s_ImportFrom(self, s, st):
        if s.level:
            pkg = st.fr.module.pkg
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + s.module if s.module else "")
        else:
            name = s.module
        m = self.import_module(st, name)
        for a in s.names:
            st.env[a.asname or a.name] = self.module_attr(m, a.name)
        return st

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.make_func(s, st)
        return st

    def make_func(self, s, st, cls=None, qual=None):
        mod = st.fr.module
        if qual is None:
            outer = st.fr.func.qual + "." if st.fr.func is not None else mod.name + "."
            qual = outer + s.name if not isinstance(s, ast.Lambda) else outer + "<lambda>"
        closure = None
        if st.fr.func is not None:
            closure = (st.env, st.fr.func.closure)
        a = s.args
        defaults = [self.ev(d, st) for d in a.defaults]
        kwd = {x.arg: self.ev(d, st) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = FuncVal(s, mod, qual, cls, closure, (defaults, kwd))
        return f

    def s_ClassDef(self, s, st):
        bases = []
        for b in s.bases:
            v = self.ev(b, st)
            if not isinstance(v, ClassVal):
                raise Unsupported("base class")
            bases.append(v)
        cls = ClassVal(s.name, st.fr.module.name + "." + s.name, bases, {}, st.fr.module)
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                f = self.make_func(x, st, cls, cls.qual + "." + x.name)
                decs = [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else "?") for d in x.decorator_list]
                if not decs:
                    cls.members[x.name] = f
                elif decs == ["property"]:
                    cls.members[x.name] = PropertyVal(f)
                elif decs == ["setter"]:
                    old = cls.members[x.name]
                    cls.members[x.name] = PropertyVal(old.fget, f)
                elif decs == ["staticmethod"]:
                    f.static = True
                    cls.members[x.name] = f
                else:
                    raise Unsupported("decorator")
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if not isinstance(t, ast.Name):
                        raise Unsupported("class body")
                    cls.members[t.id] = self.ev(x.value, st)
            elif isinstance(x, ast.Expr) or isinstance(x, ast.Pass):
                continue
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                if x.value is not None:
                    cls.members[x.target.id] = self.ev(x.value, st)
            else:
                raise Unsupported("class body")
        if s.decorator_list:
            raise Unsupported("class decorator")
        st.env[s.name] = cls
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(t.value, st), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(st, self.ev(t.value, st), self.ev_index(t.slice, st), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            for e, x in zip(t.elts, items):
                self.assign(e, x, st)
        else:
            raise Unsupported("assignment target")

    def unpack(self, st, v, elts):
        n = len(elts)
        if isinstance(v, Choice):
            return self.map1(st, v, lambda s, x: tuple(self.unpack(s, x, elts)))
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_if(st, True, "ValueError", "unpack")
            return list(v)
        o = self.obj(st, v)
        if o is not None and o.kind in ("list", "arr"):
            ln = self.seq_len(st, o.seq)
            self.raise_if(st, Not(self.cmp_num(st, "==", ln, n)), "ValueError", "unpack")
            return [self.seq_get(st, o.seq, i) for i in range(n)]
        raise Unsupported("unpacking %r" % (v,))

    def s_AugAssign(self, s, st):
        op = self.BINOPS.get(type(s.op))
        if op is None:
            raise Unsupported("augmented operator")
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, t.id)
            v = self.ev(s.value, st)
            st.env[t.id] = self.aug(st, op, cur, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(st, o, t.attr)
            v = self.ev(s.value, st)
            self.setattr(st, o, t.attr, self.aug(st, op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_index(t.slice, st)
            ob = self.obj(st, o)
            if isinstance(o, Ref) and ob is not None and ob.kind in ("list", "arr") and self.lib.seq_is_pre(ob) and op in "+-":
                from .loops import Restart
                raise Restart(("obj", o.oid))
            cur = self.getitem(st, o, k)
            v = self.ev(s.value, st)
            self.setitem(st, o, k, self.aug(st, op, cur, v))
        else:
            raise Unsupported("augmented target")
        return st

    def aug(self, st, op, cur, v):
        if isinstance(cur, Choice):
            return self.map1(st, cur, lambda s, x: self.aug(s, op, x, v))
        o = self.obj(st, cur)
        if o is not None and o.kind == "list" and op == "+":
            # in-place extension
            self.set_obj(st, cur, o.new(seq=list(o.seq) + self.iter_seq(st, v)))
            return cur
        if o is not None and o.kind in ("arr", "mat") and isinstance(cur, Ref):
            r = self.binop(st, op, cur, v)
            self.set_obj(st, cur, self.obj(st, r))
            return cur
        return self.binop(st, op, cur, v)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = ABSENT
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                self.lib.dict_pop(self, st, o, self.ev_index(t.slice, st))
            else:
                raise Unsupported("del")
        return st

    def s_If(self, s, st):
        c = self.truth(st, self.ev(s.test, st))
        c = self.decide(st, c)
        if c is True:
            return self.block(s.body, st)
        if c is False:
            return self.block(s.orelse, st)
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(Not(c))
        ra = self.block(s.body, a)
        rb = self.block(s.orelse, b)
        if ra is None and rb is None:
            return None
        if ra is None:
            return rb
        if rb is None:
            return ra
        return self.merge(c, ra, rb)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else None
        st.fr.returns.append((st, v))
        return None

    def s_Raise(self, s, st):
        if s.exc is None:
            cur = st.env.get("$exc")
            if cur is None:
                raise Unsupported("bare raise")
            self.raise_(st, cur)
        v = self.ev(s.exc, st)
        if isinstance(v, ClassVal):
            self.raise_(st, ExcVal(v))
        if isinstance(v, ExcVal):
            self.raise_(st, v)
        o = self.obj(st, v)
        if o is not None and o.kind == "inst":
            self.raise_(st, ExcVal(o.cls, (v,)))
        raise Unsupported("raise of %r" % (v,))

    def s_Assert(self, s, st):
        c = self.truth(st, self.ev(s.test, st))
        self.raise_if(st, Not(c), "AssertionError")
        return st

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if not (isinstance(v, Opaque) and v.kind in ("ctxmgr", "file", "any")):
                raise Unsupported("context manager")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        if s.finalbody:
            return self.try_finally(s, st)
        n0 = len(st.pc)
        self.raises.append([])
        try:
            main = self.block(s.body, st)
        finally:
            caught = self.raises.pop()
        if main is not None and s.orelse:
            main = self.block(s.orelse, main)
        outs = [(main, None)] if main is not None else []
        for ex, se in caught:
            handled = False
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    cv = self.ev(h.type, se)
                    cs = cv if isinstance(cv, tuple) else (cv,)
                    ok = any(isinstance(c, ClassVal) and ex.cls.is_sub(c) for c in cs)
                if ok:
                    if h.name:
                        se.env[h.name] = ex
                    old = se.env.get("$exc")
                    se.env["$exc"] = ex
                    r = self.block(h.body, se)
                    if r is not None:
                        if h.name:
                            r.env[h.name] = ABSENT
                        if old is None:
                            r.env.pop("$exc", None)
                        else:
                            r.env["$exc"] = old
                        outs.append((r, None))
                    handled = True
                    break
            if not handled:
                self.raises[-1].append((ex, se))
        if not outs:
            return None
        if len(outs) == 1:
            return outs[0][0]
        # join: exclusive path conditions
        acc = outs[-1][0]
        for r, _ in reversed(outs[:-1]):
            n = min(n0, len(r.pc), len(acc.pc))
            g = And(*r.pc[n:])
            if g is True:
                raise Unsupported("indistinguishable paths at the end of try")
            acc = self.merge_guard(g, r, acc, n)
        return acc

    def try_finally(self, s, st):
        import ast
        fr = st.fr
        inner = ast.copy_location(ast.Try(body=s.body, handlers=s.handlers, orelse=s.orelse, finalbody=[]), s)
        nret = len(fr.returns)
        marks = [(list(b), list(c)) for b, c in fr.loops]
        self.raises.append([])
        try:
            main = self.s_Try(inner, st) if s.handlers else self.block(s.body, st)
        finally:
            caught = self.raises.pop()
        if [(list(b), list(c)) for b, c in fr.loops] != marks:
            raise Unsupported("break or continue through finally")
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        for ex, se in caught:
            r = self.block(s.finalbody, se)
            if r is not None:
                self.raises[-1].append((ex, r))
        for sr, v in rets:
            r = self.block(s.finalbody, sr)
            if r is not None:
                fr.returns.append((r, v))
        return self.block(s.finalbody, main) if main is not None else None

    def merge_guard(self, g, a, b, n):
        x = State(a.env, a.heap, list(a.pc[:n]), a.fr)
        y = State(b.env, b.heap, list(b.pc[:n]), b.fr)
        gb = And(*b.pc[n:])
        m = self.merge(g, x, y)
        m.assume(self.simp_or([g, gb]))
        return m

    def s_Break(self, s, st):
        st.fr.loops[-1][0].append(st)
        return None

    def s_Continue(self, s, st):
        st.fr.loops[-1][1].append(st)
        return None

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        w = self.counted(s, it, st)
        if w is not None:
            return self.block(w, st)
        seq = self.iter_seq(st, it)
        return self.for_seq(s, seq, st)

    def counted(self, s, it, st):
        """A long counted loop that may stop early: the while loop it stands for."""
        o = self.obj(st, it) if isinstance(it, Ref) else None
        seq = it.seq if hasattr(it, "seq") else None
        if seq is None or not isinstance(s.target, ast.Name) or not all(isinstance(c, One) and isinstance(c.v, int) for c in seq) or len(seq) <= 30:
            return None
        lo, n = seq[0].v, len(seq)
        if any(c.v != lo + k for k, c in enumerate(seq)):
            return None

        def breaks(body):
            return any(isinstance(x, ast.Break) or not isinstance(x, (ast.For, ast.While, ast.FunctionDef)) and
                       breaks([y for y in ast.iter_child_nodes(x) if isinstance(y, (ast.stmt, ast.ExceptHandler))]) for x in body)
        if not breaks(s.body):
            return None
        k = "__count_%d" % s.lineno
        src = "%s = %d\nwhile %s < %d:\n    %s = %s\n    %s = %s + 1\n" % (k, lo, k, lo + n, s.target.id, k, k, k)
        out = ast.parse(src).body
        for x in out:
            for y in ast.walk(x):
                if hasattr(y, "lineno"):
                    y.lineno = y.end_lineno = s.lineno
        out[1].body += s.body
        out[1].orelse = s.orelse
        return out

    def body_once(self, s, st, value):
        """Run the loop body for one item: (normal/continue state, breaks)."""
        n0 = len(st.pc)
        st.fr.loops.append(([], []))
        self.assign(s.target, value, st)
        end = self.block(s.body, st)
        brk, cont = st.fr.loops.pop()
        outs = ([end] if end is not None else []) + cont
        if not outs:
            return None, brk
        acc = outs[0]
        for r in outs[1:]:
            acc = self.merge_guard(And(*r.pc[n0:]), r, acc, n0)
        return acc, brk

    def for_seq(self, s, seq, st):
        n0 = len(st.pc)
        broken = []
        for c in seq:
            if st is None:
                break
            if isinstance(c, One):
                st, brk = self.body_once_safe(s, st, c.v)
                broken += brk
            elif isinstance(c, If):
                g = self.decide(st, c.g)
                if g is True or g is False:
                    st = self.for_seq_nb(s, c.a if g else c.b, st)
                else:
                    a, b = st.copy(), st.copy()
                    a.assume(g)
                    b.assume(Not(g))
                    ra, rb = self.for_seq_nb(s, c.a, a), self.for_seq_nb(s, c.b, b)
                    st = self.merge(g, ra, rb) if ra is not None and rb is not None else (ra or rb)
            elif isinstance(c, (For, Fn)):
                st = self.for_generic(s, c, st)
            else:
                raise Unsupported("iteration over a growing sequence")
        if s.orelse and st is not None:
            st = self.block(s.orelse, st)
        for b in broken:
            if st is None:
                st = b
            else:
                st = self.merge_guard(And(*b.pc[n0:]), b, st, n0)
        return st

    def for_seq_nb(self, s, seq, st):
        import copy as _c
        s2 = ast.For(target=s.target, iter=s.iter, body=s.body, orelse=[], lineno=s.lineno, col_offset=0)
        return self.for_seq(s2, seq, st)

    def body_once_safe(self, s, st, v):
        try:
            return self.body_once(s, st, v)
        except PathEnd:
            brk, _ = st.fr.loops.pop() if st.fr.loops else ([], [])
            return None, brk

    def iter_seq(self, st, v):
        """The chunks of an iterable."""
        if isinstance(v, Choice):
            v = self.force(st, v)
            if isinstance(v, Choice):
                (c1, a), rest = v.alts[0], v.alts[1:]
                return [If(c1, self.iter_seq(st, a), self.iter_seq(st, mk_choice(rest)))]
        if isinstance(v, tuple):
            return [One(x) for x in v]
        if isinstance(v, SeqVal):
            return v.seq
        if isinstance(v, DictView):
            return self.view_seq(st, v)
        if isinstance(v, str):
            return [One(x) for x in v]
        o = self.obj(st, v)
        if o is not None:
            if o.kind in ("list", "arr"):
                return list(o.seq)
            if o.kind in ("dict", "set"):
                return self.entries_seq(st, o.entries, "keys")
            if o.kind == "mat":
                return self.lib.mat_rows(self, st, v)
        if v is None:
            self.raise_if(st, True, "TypeError", "'NoneType' object is not iterable")
        if hasattr(v, "vc_iter"):
            return v.vc_iter(self, st)
        raise Unsupported("iteration over %r" % (v,))

    def view_seq(self, st, v):
        return self.entries_seq(st, self.obj(st, v.ref).entries, v.which)

    from .loops import for_generic, generic_run, comp_generic, while_loop, s_While  # noqa

    # ---------------------------------------------------------- expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, float):
            return norm_conc(v)
        if isinstance(v, complex):
            return CNum(norm_conc(v.real), norm_conc(v.imag))
        if v is Ellipsis:
            raise Unsupported("Ellipsis")
        return v

    def e_Name(self, e, st):
        return self.lookup(st, e.id)

    def e_Attribute(self, e, st):
        return self.getattr(st, self.ev(e.value, st), e.attr)

    def e_Tuple(self, e, st):
        return tuple(self.ev_items(e.elts, st))

    def ev_items(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                seq = self.iter_seq(st, self.ev(x.value, st))
                if not all(isinstance(c, One) for c in seq):
                    raise Unsupported("star of an unbounded sequence")
                out += [c.v for c in seq]
            else:
                out.append(self.ev(x, st))
        return out

    def e_List(self, e, st):
        return self.new_list(st, self.ev_items(e.elts, st))

    def e_Set(self, e, st):
        return self.alloc(st, SetO([("one", self.ev(x, st), True) for x in e.elts]))

    def e_Dict(self, e, st):
        es = []
        r = self.alloc(st, DictO([]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st)
                for ent in self.obj(st, src).entries:
                    if ent[0] != "one":
                        o = self.obj(st, r)
                        self.set_obj(st, r, DictO(list(o.entries) + [ent]))
                    else:
                        self.dict_set(st, r, ent[1], ent[2])
                continue
            kk = self.ev(k, st)
            self.dict_set(st, r, kk, self.ev(v, st))
        return r

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value, st)
                parts.append(v if isinstance(v, str) else None)
            else:
                parts.append(x.value)
        return "".join(parts) if all(p is not None for p in parts) else Opaque("str")

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        op = self.BINOPS.get(type(e.op))
        if op is None:
            raise Unsupported("operator")
        return self.binop(st, op, a, b)

    def e_UnaryOp(self, e, st):
        return self.unary(st, e.op, self.ev(e.operand, st))

    def e_BoolOp(self, e, st):
        return self.boolop(isinstance(e.op, ast.And), e.values, st)

    def boolop(self, is_and, vals, st):
        a = self.ev(vals[0], st)
        if len(vals) == 1:
            return a
        c = self.decide(st, self.truth(st, a))
        if c is True:
            return self.boolop(is_and, vals[1:], st) if is_and else a
        if c is False:
            return a if is_and else self.boolop(is_and, vals[1:], st)
        s2 = st.copy()
        g = c if is_and else Not(c)
        s2.assume(g)
        other = st.copy()
        other.assume(Not(g))
        try:
            b = self.boolop(is_and, vals[1:], s2)
        except PathEnd:
            st.assume(Not(g))
            return a
        m = self.merge(g, s2, other)
        st.take(m)
        if (isinstance(a, bool) or is_boolref(a)) and (isinstance(b, bool) or is_boolref(b)):
            return And(a, b) if is_and else Or(a, b)
        return merge_val(g, b, a)

    def e_IfExp(self, e, st):
        c = self.decide(st, self.truth(st, self.ev(e.test, st)))
        if c is True:
            return self.ev(e.body, st)
        if c is False:
            return self.ev(e.orelse, st)
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(Not(c))
        va = vb = None
        try:
            va = self.ev(e.body, a)
        except PathEnd:
            a = None
        try:
            vb = self.ev(e.orelse, b)
        except PathEnd:
            b = None
        if a is None and b is None:
            raise PathEnd()
        if a is None or b is None:
            st.take(a or b)
            return va if a is not None else vb
        st.take(self.merge(c, a, b))
        return merge_val(c, va, vb)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        if len(e.ops) == 1:
            return self.compare(st, e.ops[0], left, self.ev(e.comparators[0], st))
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            res = And(res, self.compare(st, op, left, right))
            left = right
        return res

    def e_Lambda(self, e, st):
        return self.make_func(e, st)

    def e_Subscript(self, e, st):
        return self.getitem(st, self.ev(e.value, st), self.ev_index(e.slice, st))

    def ev_index(self, e, st):
        if isinstance(e, ast.Slice):
            f = lambda x: self.ev(x, st) if x is not None else None
            return SliceVal(f(e.lower), f(e.upper), f(e.step))
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x, st) for x in e.elts)
        return self.ev(e, st)

    def getitem(self, st, o, k):
        if isinstance(o, Choice):
            return self.map1(st, o, lambda s, x: self.getitem(s, x, k))
        if isinstance(o, Poison):
            raise Unsupported("use of untracked variable: " + o.why)
        if isinstance(o, tuple):
            if isinstance(k, SliceVal):
                if all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                    return o[slice(k.lo, k.hi, k.step)]
                raise Unsupported("tuple slice")
            k = self.num(self.force(st, k))
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                self.raise_if(st, True, "IndexError")
            return self.seq_get(st, [One(x) for x in o], k)
        if isinstance(o, SeqVal):
            if isinstance(k, SliceVal):
                return SeqVal(self.seq_slice(st, o.seq, k.lo, k.hi))
            return self.seq_get(st, o.seq, k)
        if hasattr(o, "vc_getitem"):
            return o.vc_getitem(self, st, k)
        ob = self.obj(st, o)
        if ob is None:
            if o is None:
                self.raise_if(st, True, "TypeError", "'NoneType' object is not subscriptable")
            if isinstance(o, str) and isinstance(k, int):
                return o[k]
            if isinstance(o, Opaque):
                return self.lib.opaque_getitem(self, st, o, k)
            raise Unsupported("subscript of %r" % (o,))
        if ob.kind == "dict":
            return self.dict_get(st, o, k)
        if ob.kind in ("list", "arr"):
            if ob.overlays:
                return self.lib.overlay_get(self, st, ob, k, o)
            if isinstance(k, SliceVal):
                if k.step is not None and k.step != 1:
                    if k.step == -1 and k.lo is None and k.hi is None:
                        new = ob.new(seq=self.lib.seq_rev(self, st, ob.seq))
                        return self.view(st, o, new) if ob.kind == "arr" else self.alloc(st, new)
                    raise Unsupported("slice step")
                new = ob.new(seq=self.seq_slice(st, ob.seq, k.lo, k.hi), overlays=())
                return self.view(st, o, new) if ob.kind == "arr" else self.alloc(st, new)
            if ob.kind == "arr":
                return self.lib.arr_getitem(self, st, o, ob, k)
            return self.seq_get(st, ob.seq, k)
        if ob.kind == "mat":
            return self.lib.mat_getitem(self, st, o, ob, k)
        if ob.kind == "inst" and self.has_attr(st, o, "__getitem__"):
            return self.call(st, self.getattr(st, o, "__getitem__"), [k], {})
        raise Unsupported("subscript of %s" % ob.kind)

    def setitem(self, st, o, k, v):
        if isinstance(o, Choice):
            self.map1(st, o, lambda s, x: self.setitem(s, x, k, v))
            return
        ob = self.obj(st, o)
        if ob is None:
            if o is None or isinstance(o, tuple):
                self.raise_if(st, True, "TypeError", "item assignment")
            raise Unsupported("item assignment on %r" % (o,))
        if ob.kind == "dict":
            self.dict_set(st, o, k, v)
            return
        if ob.kind in ("list", "arr"):
            self.lib.list_set(self, st, o, ob, k, v)
            return
        if ob.kind == "mat":
            self.lib.mat_set(self, st, o, ob, k, v)
            return
        raise Unsupported("item assignment on %s" % ob.kind)

    def e_ListComp(self, e, st):
        return self.alloc(st, ListO(self.comp(e.generators, lambda s: [One(self.ev(e.elt, s))], st)))

    def e_GeneratorExp(self, e, st):
        return SeqVal(self.comp(e.generators, lambda s: [One(self.ev(e.elt, s))], st))

    def e_SetComp(self, e, st):
        seq = self.comp(e.generators, lambda s: [One(self.ev(e.elt, s))], st)
        return self.lib.make_set(self, st, seq)

    def e_DictComp(self, e, st):
        seq = self.comp(e.generators, lambda s: [One((self.ev(e.key, s), self.ev(e.value, s)))], st)
        return self.lib.make_dict(self, st, seq)

    def comp(self, gens, leaf, st):
        g, rest = gens[0], gens[1:]
        seq = self.iter_seq(st, self.ev(g.iter, st))
        saved = dict(st.env)
        out = self.comp_seq(g, rest, leaf, seq, st)
        # comprehension variables are local
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                if x.id in saved:
                    st.env[x.id] = saved[x.id]
                else:
                    st.env.pop(x.id, None)
        return out

    def comp_seq(self, g, rest, leaf, seq, st):
        out = []
        for c in seq:
            if isinstance(c, One):
                self.assign(g.target, c.v, st)
                out += self.comp_item(g, rest, leaf, st)
            elif isinstance(c, If):
                d = self.decide(st, c.g)
                if d is True or d is False:
                    out += self.comp_seq(g, rest, leaf, c.a if d else c.b, st)
                else:
                    a, b = st.copy(), st.copy()
                    a.assume(d)
                    b.assume(Not(d))
                    ra = self.comp_seq(g, rest, leaf, c.a, a)
                    rb = self.comp_seq(g, rest, leaf, c.b, b)
                    st.take(self.merge(d, a, b))
                    out.append(If(d, ra, rb))
            elif isinstance(c, (For, Fn)):
                out += self.comp_generic(g, rest, leaf, c, st)
            else:
                raise Unsupported("comprehension over a growing sequence")
        return out

    def comp_item(self, g, rest, leaf, st):
        """Items contributed by one element (filters applied)."""
        conds = True
        for f in g.ifs:
            c = self.decide(st, self.truth(st, self.ev(f, st)))
            if c is False:
                return []
            if c is not True:
                conds = And(conds, c)
        if conds is True:
            return leaf(st) if not rest else self.comp(rest, leaf, st)
        s2, other = st.copy(), st.copy()
        s2.assume(conds)
        other.assume(Not(conds))
        try:
            items = leaf(s2) if not rest else self.comp(rest, leaf, s2)
        except PathEnd:
            st.assume(Not(conds))
            return []
        st.take(self.merge(conds, s2, other))
        return [If(conds, items, [])]

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return SuperVal(st.env[st.fr.func.node.args.args[0].arg], st.fr.func.cls)
        f = self.ev(e.func, st)
        args = self.ev_items(e.args, st)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                for ent in self.obj(st, v).entries:
                    if ent[0] != "one" or not isinstance(ent[1], str):
                        raise Unsupported("** of a symbolic dict")
                    kw[ent[1]] = ent[2]
            else:
                kw[k.arg] = v
        return self.call(st, f, args, kw)

    def call(self, st, f, args, kw):
        if isinstance(f, Choice):
            return self.map1(st, f, lambda s, x: self.call(s, x, args, kw))
        if isinstance(f, BoundMethod):
            if isinstance(f.func, FuncVal):
                return self.call_func(st, f.func, [f.self_val] + list(args), kw)
            if isinstance(f.func, Builtin):
                return f.func.fn(self, st, [f.self_val] + list(args), kw)
            return self.call(st, f.func, [f.self_val] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, st, list(args), kw)
        if isinstance(f, FuncVal):
            return self.call_func(st, f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(st, f, args, kw)
        if isinstance(f, Opaque):
            return self.lib.opaque_call(self, st, f, args, kw)
        if hasattr(f, "vc_call"):
            return f.vc_call(self, st, args, kw)
        if f is None:
            self.raise_if(st, True, "TypeError", "'NoneType' object is not callable")
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, st, cls, args, kw):
        if any(c.name == "BaseException" for c in cls.mro()):
            init, owner = cls.lookup("__init__")
            if isinstance(init, FuncVal) and False:
                pass
            return ExcVal(cls, tuple(args))
        if cls.qual in self.contracts:
            return self.contracts[cls.qual](self, st, cls, args, kw)
        if cls.external and hasattr(cls, "construct"):
            return cls.construct(self, st, cls, args, kw)
        r = self.alloc(st, Inst(cls, {}))
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call(st, BoundMethod(r, init), args, kw)
        return r

    def bind_args(self, st, f, args, kw):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        defaults, kwd = f.defaults or ([], {})
        env = {}
        kw = dict(kw)
        args = list(args)
        extra = args[len(params):]
        for n, v in zip(params, args):
            env[n] = v
        if extra:
            if a.vararg is None:
                self.raise_if(st, True, "TypeError", "too many arguments")
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(extra)
        for n in params[len(args):]:
            if n in kw:
                env[n] = kw.pop(n)
        d0 = len(params) - len(defaults)
        for i, n in enumerate(params):
            if n not in env:
                if i >= d0:
                    env[n] = defaults[i - d0]
                    self.import_static(st, env[n])
                else:
                    self.raise_if(st, True, "TypeError", "missing argument " + n)
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif x.arg in kwd:
                env[x.arg] = kwd[x.arg]
            else:
                self.raise_if(st, True, "TypeError", "missing argument " + x.arg)
        if kw:
            if a.kwarg is None:
                self.raise_if(st, True, "TypeError", "unexpected argument " + list(kw)[0])
            env[a.kwarg.arg] = self.alloc(st, DictO([("one", k, v) for k, v in kw.items()]))
        elif a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, DictO([]))
        return env

    def call_func(self, st, f, args, kw):
        if f.qual in self.contracts:
            r = self.contracts[f.qual](self, st, f, args, kw)
            if r is not NotImplemented:
                return r
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported("recursion in " + f.qual)
        try:
            env = self.bind_args(st, f, args, kw)
            self.functions.add(f.qual)
            fr = Frame(f.module, f, f.cls)
            n0 = len(st.pc)
            inner = State(env, st.heap, st.pc, fr)
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, inner)
                st.heap, st.pc = inner.heap, inner.pc
                return v
            end = self.block(f.node.body, inner.copy())
            outs = list(fr.returns)
            if end is not None:
                outs.append((end, None))
            if not outs:
                raise PathEnd()
            m, v = self.merge_exits(n0, outs)
            st.heap, st.pc = m.heap, m.pc
            return v
        finally:
            self.depth -= 1


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SeqVal:
    """Generator / iterator result."""
    def __init__(self, seq):
        self.seq = seq


class DictView:
    def __init__(self, ref, which):
        self.ref, self.which = ref, which
