"""Driver for contracts: symbolic calls of the real functions, obligations, vacuity."""
import time
import traceback
import z3
from fractions import Fraction
from .values import *
from .ctx import Ctx, stats
from .heap import *
from . import extmodels
from .interp import Engine, State, Frame, Snap, ExcVal, PathEnd

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
INF = float("inf")


class Exit:
    """One way a call can end: normally (value) or with an exception."""
    def __init__(self, st, value=None, exc=None):
        self.st, self.value, self.exc = st, value, exc

    @property
    def pc(self):
        return self.st.pc


class V:
    def __init__(self, prop, tier="quick", deadline=None, repo="/repo"):
        self.prop, self.tier = prop, tier
        self.eng = Engine(repo)
        self.ctx = self.eng.ctx
        self.ctx.deadline = deadline
        self.deadline = deadline
        self.obligations = []
        self.vacuity = []
        self.bounded = []
        self.trusted = []
        self.assumptions = []
        self.group = ""
        self.timeout = 20 if tier == "quick" else 90
        self.verbose = False

    # ---------------------------------------------------------- code access
    def get(self, module, *names):
        v = self.eng.module_attr(self.eng.load_module(module), names[0])
        for n in names[1:]:
            v = v.lookup(n)[0]
        return v

    def state(self, facts=()):
        st = State({}, Heap(), [], Frame(None, None, None))
        for f in facts:
            st.assume(f)
        return st

    def call(self, st, f, *args, **kw):
        """Symbolic call on a copy of st: (normal Exit or None, [raising Exits])."""
        return self.run(st, lambda s: self.eng.call(s, f, list(args), kw))

    def method(self, st, obj, name, *args, **kw):
        return self.run(st, lambda s: self.eng.call(s, self.eng.getattr(s, obj, name), list(args), kw))

    def run(self, st, fn):
        s = st.copy()
        self.eng.raises.append([])
        try:
            try:
                v = fn(s)
                ok = Exit(s, v)
            except PathEnd:
                ok = None
        finally:
            rs = self.eng.raises.pop()
        return ok, [Exit(s2, exc=ex) for ex, s2 in rs]

    def attr(self, st, obj, name):
        return self.eng.getattr(st, obj, name)

    def make(self, st, cls, **fields):
        """An instance of a repository class with the given fields, in state st."""
        def missing(eng, s, v, name):
            eng.unmodelled(name)
            eng.raise_if(s, True, "AttributeError", name)
        return self.eng.alloc(st, Inst(cls, dict(fields), missing))

    def item(self, st, obj, *keys):
        """obj[k1][k2]...; the specification assumes the keys are present."""
        s = st.copy()
        self.eng.raises.append([])
        try:
            for k in keys:
                obj = self.eng.getitem(s, obj, k)
        except PathEnd:
            return Poison("missing key %s" % (keys,))
        finally:
            self.eng.raises.pop()
        st.heap = s.heap
        return obj

    def has(self, st, obj, key):
        return self.eng.contains(st, key, obj)

    # ---------------------------------------------------------- values
    def real(self, n):
        return z3.Real(n)

    def int(self, n):
        return z3.Int(n)

    def bool(self, n):
        return z3.Bool(n)

    def cplx(self, n):
        return CNum(z3.Real(n + ".re"), z3.Real(n + ".im"))

    def opt(self, n, sort="real", inf=0):
        """None or a number (or an infinity of sign `inf`)."""
        x = z3.Real(n) if sort == "real" else z3.Int(n)
        none = z3.Bool(n + ".none")
        if inf:
            i = z3.Bool(n + ".inf")
            return Choice([(none, None), (And(Not(none), i), INF if inf > 0 else -INF), (And(Not(none), Not(i)), x)])
        return Choice([(none, None), (Not(none), x)])

    def ext(self, n, *infs):
        """A number or one of the given infinities."""
        x = z3.Real(n)
        alts, rest = [], True
        for f in infs:
            b = z3.Bool(n + (".+inf" if f > 0 else ".-inf"))
            alts.append((And(rest, b), f))
            rest = And(rest, Not(b))
        return Choice(alts + [(rest, x)])

    def row(self, st, vals):
        return self.eng.new_list(st, list(vals), arr=True)

    # ---------------------------------------------------------- obligations
    def on(self, group):
        self.group = group
        return self

    def prove(self, name, hyps, goal, kind="post"):
        st = hyps
        hyps = list(hyps.pc if isinstance(hyps, (State, Exit)) else hyps)
        name = "%s: %s" % (self.group, name) if self.group else name
        t0 = time.time()
        goal = self.as_bool(goal)
        if goal is True:
            res, info = "proved", "evaluation"
        elif self.deadline and time.time() > self.deadline:
            res, info = "unknown", "time limit"
        else:
            res, info = self.ctx.prove([b2z(h) for h in hyps], b2z(goal), timeout=self.timeout)
        o = {"name": name, "status": res, "kind": kind, "seconds": round(time.time() - t0, 3)}
        if res == "refuted" and self.deadline and self.tier == "quick":
            # the verdict is settled; look a little further only
            self.deadline = self.ctx.deadline = min(self.deadline, time.time() + 60)
        if res == "proved":
            o["backend"] = info
        elif res == "refuted" and info is not None and not isinstance(info, str):
            o["reason"] = "counter-model: " + self.show(info)
        else:
            o["reason"] = "not discharged within the limit" if res == "unknown" else str(info)[:400]
        self.obligations.append(o)
        if self.verbose or res != "proved":
            print("%-9s %6.2fs %s %s" % (res, time.time() - t0, name, o.get("backend", o.get("reason", ""))[:600]), flush=True)
        return res == "proved"

    def show(self, m):
        out = []
        try:
            for d in m.decls():
                if d.arity() == 0:
                    out.append("%s=%s" % (d.name(), m[d]))
        except Exception:
            pass
        out = [x for x in out if "!" not in x.split("=")[0]] + [x for x in out if "!" in x.split("=")[0]]
        return ", ".join(out)[:1500]

    def as_bool(self, g):
        if isinstance(g, bool):
            return g
        if isinstance(g, Choice):
            return And(*[Implies(c, self.as_bool(v)) for c, v in flat_alts(g)])
        return g

    def reach(self, name, st):
        """Vacuity: the hypotheses are satisfiable."""
        name = "%s: %s" % (self.group, name) if self.group else name
        pc = list(st.pc if isinstance(st, (State, Exit)) else st)
        s = z3.Solver()
        s.set("timeout", 10000)
        pc = [b2z(f) for f in pc if f is not True]
        for f in self.ctx.relevant(pc) + pc + self.ctx.instantiate_axioms(pc):
            s.add(f)
        r = s.check()
        self.vacuity.append({"name": name, "reachable": str(r)})
        if r == z3.unsat:
            self.obligations.append({"name": name + " (reachable)", "status": "refuted", "kind": "vacuity",
                                     "reason": "the path the contract speaks about is unreachable"})
            print("UNREACHABLE", name)
        return r != z3.unsat

    def normal(self, name, ok):
        """The call has a normal exit."""
        n = "%s: %s" % (self.group, name) if self.group else name
        if ok is None:
            self.obligations.append({"name": n + " returns", "status": "refuted", "kind": "totality",
                                     "reason": "no normal exit"})
            print("refuted   ", n, "no normal exit")
            return False
        return True

    def no_raise(self, name, raises, allowed=()):
        """No exceptional exit (other than the allowed classes) is reachable."""
        for k, r in enumerate(raises):
            if r.exc.cls.name in allowed:
                continue
            w = getattr(r.exc, "where", None)
            self.prove("%s raises no %s (%d)%s" % (name, r.exc.cls.name, k, " at `%s`" % w if w else ""), r.st, False, kind="no-exception")
        if not raises:
            self.prove("%s raises nothing" % name, [], True, kind="no-exception")

    # ---------------------------------------------------------- spec algebra
    def eq(self, a, b):
        """Equality of (extended, complex, optional) values as a formula."""
        if isinstance(a, Choice) or isinstance(b, Choice):
            out = []
            for c1, x in flat_alts(a):
                for c2, y in flat_alts(b):
                    out.append(Implies(And(c1, c2), self.eq(x, y)))
            return And(*out)
        if isinstance(a, Poison) or isinstance(b, Poison):
            return False
        if a is None or b is None:
            return a is b
        a, b = self.eng.num(a), self.eng.num(b)
        if isinstance(a, CNum) or isinstance(b, CNum):
            a, b = self.eng.cplx(a), self.eng.cplx(b)
            return And(self.eq(a.re, b.re), self.eq(a.im, b.im))
        if isinstance(a, float) or isinstance(b, float):
            return isinstance(a, float) and isinstance(b, float) and a == b
        if is_num(a) and is_num(b):
            return self.eng.cmp_num(None, "==", a, b)
        return same(a, b)

    def is_(self, a, b):
        """Identity of values (the same object)."""
        return And(*[Implies(And(c1, c2), b2z(same(x, y))) for c1, x in flat_alts(a) for c2, y in flat_alts(b)])

    def le(self, a, b):
        if isinstance(a, Choice) or isinstance(b, Choice):
            return And(*[Implies(And(c1, c2), self.le(x, y)) for c1, x in flat_alts(a) for c2, y in flat_alts(b)])
        if a is None or b is None:
            return False
        return self.eng.cmp_num(None, "<=", a, b)

    def lt(self, a, b):
        if isinstance(a, Choice) or isinstance(b, Choice):
            return And(*[Implies(And(c1, c2), self.lt(x, y)) for c1, x in flat_alts(a) for c2, y in flat_alts(b)])
        if a is None or b is None:
            return False
        return self.eng.cmp_num(None, "<", a, b)

    def op(self, op, a, b):
        """Arithmetic of spec values (pure; division's denominator is assumed nonzero)."""
        if isinstance(a, Choice) or isinstance(b, Choice):
            return mk_choice([(And(c1, c2), self.op(op, x, y)) for c1, x in flat_alts(a) for c2, y in flat_alts(b)
                              if And(c1, c2) is not False])
        st = self.state()
        self.eng.raises.append([])
        try:
            return self.eng.arith(st, op, a, b)
        except PathEnd:
            return Poison("spec")
        finally:
            self.eng.raises.pop()

    def add(self, a, b): return self.op("+", a, b)
    def sub(self, a, b): return self.op("-", a, b)
    def mul(self, a, b): return self.op("*", a, b)
    def div(self, a, b): return self.op("/", a, b)

    def default(self, x, d):
        """x where present, else d."""
        return mk_choice([(c, d if v is None else v) for c, v in flat_alts(x)])

    def is_none(self, x):
        return Or(*[c for c, v in flat_alts(x) if v is None])

    def cabs(self, c):
        c = self.eng.cplx(c)
        return z3.Function("cabs", R, R, R)(to_real(c.re), to_real(c.im))

    def conj(self, c):
        return CNum(c.re, self.sub(0, c.im))

    def result(self):
        f = sorted(self.eng.functions)
        return {"obligations": self.obligations, "functions": f, "vacuity": self.vacuity,
                "bounded": self.bounded, "trusted": sorted(set(self.trusted) | self.eng.trusted),
                "assumptions": self.assumptions}
