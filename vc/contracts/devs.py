"""Symbolic device rows and the feasible regions of the specification."""
from ..spec import *

DEV = "gym_anm.simulator.components.devices"
COLS = ["DEV_ID", "BUS_ID", "DEV_TYPE", "Q/P", "PMAX", "PMIN", "QMAX", "QMIN", "P+", "P-", "Q+", "Q-", "SOC_MAX",
        "SOC_MIN", "EFF"]


def dev_row(V, st, typ, present=(), absent=(), pre=""):
    """Symbolic device row; every limit optional except those in `present`/`absent`."""
    d = {}
    for c in COLS[3:]:
        if c in absent:
            d[c] = None
        elif c in present:
            d[c] = V.real(pre + c)
        else:
            d[c] = V.opt(pre + c)
    i, b = V.int(pre + "dev"), V.int(pre + "bus")
    row = V.row(st, [i, b, typ] + [d[c] for c in COLS[3:]])
    return row, i, b, d


def limits(V, d, base, kind, slack=False):
    """Limits in p.u. with the documented defaults."""
    u = lambda x: V.div(x, base)
    L = {}
    if kind == "load":
        L["pmax"] = u(V.default(d["PMAX"], 0))
        L["pmin"] = u(V.default(d["PMIN"], -INF))
        return L
    L["pmax"] = u(V.default(d["PMAX"], INF))
    L["pmin"] = u(V.default(d["PMIN"], -INF if (slack or kind == "des") else 0))
    L["qmax"] = u(V.default(d["QMAX"], INF))
    L["qmin"] = u(V.default(d["QMIN"], -INF))
    L["pplus"] = mk_choice([(c, L["pmax"] if v is None else u(v)) for c, v in flat_alts(d["P+"])])
    L["qplus"] = mk_choice([(c, L["qmax"] if v is None else u(v)) for c, v in flat_alts(d["Q+"])])
    L["qminus"] = mk_choice([(c, L["qmin"] if v is None else u(v)) for c, v in flat_alts(d["Q-"])])
    if kind == "des":
        L["pminus"] = mk_choice([(c, L["pmin"] if v is None else u(v)) for c, v in flat_alts(d["P-"])])
        L["socmax"] = u(d["SOC_MAX"])
        L["socmin"] = u(V.default(d["SOC_MIN"], 0))
        L["eff"] = V.default(d["EFF"], 1)
    return L


def gen_valid(V, L, slack=False):
    le = V.le
    c = [le(L["pmin"], L["pmax"]), le(L["qmin"], L["qmax"]), le(L["pmin"], L["pplus"]), le(L["pplus"], L["pmax"]),
         le(L["qplus"], L["qmax"]), le(L["qmin"], L["qminus"]), le(L["qminus"], L["qplus"])]
    if not slack:
        c += [le(0, L["pmax"]), le(0, L["pmin"])]
    # out of scope: an infinite reactive limit narrowed by a line (no straight line exists)
    c += [Or(V.eq(L["qplus"], L["qmax"]), V.lt(L["qmax"], INF)), Or(V.eq(L["qminus"], L["qmin"]), V.lt(-INF, L["qmin"]))]
    c += [Or(And(V.eq(L["qplus"], L["qmax"]), V.eq(L["qminus"], L["qmin"])),
             V.lt(L["pmax"], INF), V.eq(L["pplus"], L["pmax"]))]
    return And(*c)


def des_valid(V, L):
    le = V.le
    c = [le(L["pmin"], 0), le(0, L["pmax"]), le(L["qmin"], L["qmax"]), le(L["pmin"], L["pminus"]),
         le(L["pminus"], L["pplus"]), le(L["pplus"], L["pmax"]), le(L["qplus"], L["qmax"]), le(L["qmin"], L["qminus"]),
         le(L["qminus"], L["qplus"]), le(0, L["socmin"]), le(L["socmin"], L["socmax"]), V.lt(0, L["eff"]), le(L["eff"], 1)]
    c += [Or(V.eq(L["qplus"], L["qmax"]), V.lt(L["qmax"], INF)), Or(V.eq(L["qminus"], L["qmin"]), V.lt(-INF, L["qmin"]))]
    c += [Or(And(V.eq(L["qplus"], L["qmax"]), V.eq(L["qminus"], L["qmin"])),
             And(Or(V.lt(L["pmax"], INF), V.eq(L["pplus"], L["pmax"])),
                 Or(V.lt(-INF, L["pmin"]), V.eq(L["pminus"], L["pmin"]))))]
    return And(*c)


def fin_alts(v):
    return [(c, x) for c, x in flat_alts(v) if not isinstance(x, float)]


def line_ok(V, P, Q, p0, q0, p1, q1, sign, beyond):
    """(P,Q) is on the inner side of the straight line (p0,q0)-(p1,q1), for P beyond p0.
    sign +1: Q below it; -1: Q above it. beyond +1: p1 > p0; -1: p1 < p0."""
    out = []
    for c0, a in fin_alts(p0):
        for c1, b in fin_alts(p1):
            for c2, q in fin_alts(q0):
                for c3, r in fin_alts(q1):
                    dp = to_real(V.sub(b, a))
                    lhs = (Q - to_real(q)) * dp
                    rhs = to_real(V.sub(r, q)) * (P - to_real(a))
                    if beyond > 0:
                        cc = And(c0, c1, c2, c3, dp > 0, P >= to_real(a))
                        g = lhs <= rhs if sign > 0 else lhs >= rhs
                    else:
                        cc = And(c0, c1, c2, c3, dp < 0, P <= to_real(a))
                        g = lhs >= rhs if sign > 0 else lhs <= rhs
                    out.append(Implies(cc, g))
    return And(*out)


def gen_region(V, L, ppot, P, Q):
    return {"active limits": And(V.le(L["pmin"], P), V.le(P, L["pmax"])),
            "available power": V.le(P, ppot),
            "reactive limits": And(V.le(L["qmin"], Q), V.le(Q, L["qmax"])),
            "upper line": line_ok(V, P, Q, L["pplus"], L["qmax"], L["pmax"], L["qplus"], +1, +1),
            "lower line": line_ok(V, P, Q, L["pplus"], L["qmin"], L["pmax"], L["qminus"], -1, +1)}


def des_region(V, L, soc, dt, P, Q):
    eff = L["eff"]
    lo = V.div(V.sub(soc, L["socmax"]), V.mul(dt, eff))
    hi = V.div(V.mul(eff, V.sub(soc, L["socmin"])), dt)
    return {"active limits": And(V.le(L["pmin"], P), V.le(P, L["pmax"])),
            "reactive limits": And(V.le(L["qmin"], Q), V.le(Q, L["qmax"])),
            "sustainable power": And(V.le(lo, P), V.le(P, hi)),
            "upper line beyond P+": line_ok(V, P, Q, L["pplus"], L["qmax"], L["pmax"], L["qplus"], +1, +1),
            "lower line beyond P+": line_ok(V, P, Q, L["pplus"], L["qmin"], L["pmax"], L["qminus"], -1, +1),
            "upper line beyond P-": line_ok(V, P, Q, L["pminus"], L["qmax"], L["pmin"], L["qplus"], +1, -1),
            "lower line beyond P-": line_ok(V, P, Q, L["pminus"], L["qmin"], L["pmin"], L["qminus"], -1, -1)}


def earlier(V, s, dev, name, *args):
    """The state after an earlier call with other arguments."""
    ok, raises = V.method(s, dev, name, *args)
    V.no_raise("earlier request", raises)
    if not V.normal("earlier request", ok):
        return None
    V.eng.solved.clear()
    return ok.st.copy()


def constraint_list(V, st, cons):
    """Concrete list of formulas of a cvxpy constraint list."""
    out = []

    def go(v):
        if isinstance(v, Choice):
            out.append(V.as_bool(v))
            return
        if isinstance(v, bool) or is_boolref(v):
            out.append(v)
            return
        o = V.eng.obj(st, v)
        seq = getattr(o, "seq", None)
        if seq is None:
            raise Unsupported("constraint %r" % (v,))
        for c in seq:
            if not isinstance(c, One):
                raise Unsupported("constraint chunk %r" % (c,))
            go(c.v)
    go(cons)
    return out


def check_projection(V, s, dev, region_at, req, soft=None):
    """Obligations: the solved problem is the projection of the request onto the region and
    the device takes its solution."""
    if len(V.eng.solved) != 1:
        V.prove("exactly one optimisation problem is solved", s, False)
        return
    prob, _ = V.eng.solved[0]
    p, q = V.attr(s, dev, "p"), V.attr(s, dev, "q")
    cons = constraint_list(V, s, prob.cons)
    V.prove("the objective is a minimisation", s, prob.sense == "min")
    # the device takes the solution: its (p, q) are the problem's unknowns
    names = set()
    for v in (p, q):
        for t in z3_terms(v):
            names |= set(free_consts(t).values())
    ok = is_arith(p) and is_arith(q) and not p.eq(q) and z3.is_const(p) and z3.is_const(q)
    if not ok:
        V.prove("p and q are the two solved variables", s, False)
        return
    P, Q = V.real("yP"), V.real("yQ")
    sub = [(p, P), (q, Q)]
    cons = [subst(c, sub) for c in cons]
    extra = [n for c in cons + [subst(prob.obj, sub)] for t in z3_terms(c) for n in free_consts(t).values() if n.decl().name().startswith("cvx")]
    V.prove("no further unknown occurs in the problem", s, not extra)
    reg = region_at(P, Q)
    inside = And(*reg.values())
    for nm, c in reg.items():
        V.prove("every admitted point satisfies: " + nm, s.pc + [b2z(x) for x in cons if x is not True], c)
    for k, c in enumerate(cons):
        V.prove("constraint %d of the program admits the whole region" % k, s.pc + [b2z(inside)], c)
    obj = subst(prob.obj, sub)
    rp, rq = req
    V.prove("the objective is the squared distance to the request", s,
            V.eq(obj, V.add(V.mul(V.sub(P, rp), V.sub(P, rp)), V.mul(V.sub(Q, rq), V.sub(Q, rq)))))
