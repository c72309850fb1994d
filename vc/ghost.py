"""Vectors of unknown length as single values of an uninterpreted sort (used where a function only
passes vectors on to other functions, e.g. the Newton-Raphson iteration)."""
import z3
from .values import *

VEC = z3.DeclareSort("Vec")
ABSMAX = z3.Function("absmax", VEC, z3.RealSort())
HASNAN = z3.Function("hasnan", VEC, z3.BoolSort())
HASINF = z3.Function("hasinf", VEC, z3.BoolSort())
VABS = z3.Function("vabs", VEC, VEC)
OPS = {o: z3.Function("v_" + n, VEC, VEC, VEC) for o, n in (("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div"))}


class GVec:
    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return "GVec(%s)" % self.term

    def subst(self, pairs):
        return GVec(z3.substitute(self.term, *pairs))

    def terms(self):
        yield self.term

    def vc_same(self, o):
        return self.term.eq(o.term)

    def vc_ite(self, c, o):
        return GVec(z3.If(b2z(c), self.term, o.term))

    def vc_havoc(self, eng, st, n):
        return GVec(z3.Const(eng.ctx.fresh_name("w_" + n), VEC))

    def vc_binop(self, eng, st, op, a, b):
        if isinstance(a, GVec) and isinstance(b, GVec) and op in OPS:
            return GVec(OPS[op](a.term, b.term))
        return NotImplemented

    def vc_abs(self, eng, st):
        return GVec(VABS(self.term))

    def vc_ext(self, eng, st, which):
        t = self.term
        if which == "max" and z3.is_app(t) and t.decl().eq(VABS):
            return absmax(eng, t.arg(0))
        raise Unsupported("extreme value of a vector")


def absmax(eng, t):
    """Largest absolute value of the entries (nan if any is nan)."""
    eng.ctx.add_fact(ABSMAX(t) >= 0)
    return Choice([(HASNAN(t), float("nan")), (And(Not(HASNAN(t)), HASINF(t)), float("inf")),
                   (And(Not(HASNAN(t)), Not(HASINF(t))), ABSMAX(t))])


def identical(a, b):
    """a and b are the same value (nan is nan)."""
    out = []
    for c1, x in flat_alts(a):
        for c2, y in flat_alts(b):
            g = And(c1, c2)
            if g is False:
                continue
            if isinstance(x, GVec) and isinstance(y, GVec):
                e = x.term == y.term
            elif isinstance(x, CNum) or isinstance(y, CNum):
                x2, y2 = (v if isinstance(v, CNum) else CNum(v, 0) for v in (x, y))
                e = And(identical(x2.re, y2.re), identical(x2.im, y2.im))
            elif (is_arith(x) or is_conc_num(x) and fin(x)) and (is_arith(y) or is_conc_num(y) and fin(y)):
                e = to_z3(x) == to_z3(y)
            else:
                e = same(x, y)
            out.append(Implies(g, b2z(e)))
    return And(*out)
