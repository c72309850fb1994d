"""C20: the optimisation problem of the MPC agents and the action taken from it."""
from .c19 import *
from ..lib import CvxVar, seq_of
from ..interp import Snap

PI = z3.Real("pi")


def decls(e):
    """Names of the uninterpreted symbols of a term."""
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("cvx"):
            out.add(x.decl().name())
        todo += x.children()
    return out


class Stage:
    """The real _single_step_optimization_problem on an arbitrary network, forecast and charge."""

    def __init__(self, V):
        self.V = V
        self.A = A = Agent(V, "mpc", "MPCAgent", ext=False)
        V.no_raise("construction", A.raises)
        self.ok = None
        if not V.normal("construction", A.ok):
            return
        N, E = A.N, A.E
        eng = V.eng
        s = A.ok.st.copy()
        self.load, self.gen, self.des = (lambda i: N.typ(i) == -1), N.is_gen, (lambda i: N.typ(i) == 3)
        self.FL, self.FG, self.S0 = z3.Function("load_forecast", I, R), z3.Function("gen_forecast", I, R), z3.Function("charge_before", I, R)
        mk = lambda c, f: eng.alloc(s, ArrO([Fn(N.count(c), lambda i: f(to_z3(i)))]))
        before = len(eng.cvx_decls)
        self.ok, self.raises = V.method(s, A.ok.value, "_single_step_optimization_problem",
                                        mk(self.load, self.FL), mk(self.gen, self.FG), mk(self.des, self.S0))
        V.no_raise("any forecast and charge", self.raises)
        if not V.normal("any forecast and charge", self.ok):
            self.ok = None
            return
        self.known = {}
        self.new = eng.cvx_decls[before:]
        self.obj, self.cons, vs, self.soc = self.ok.value
        self.cons = seq_of(eng, self.ok.st, self.cons)
        self.Pv, self.Av = V.item(self.ok.st, vs, "P_dev"), V.item(self.ok.st, vs, "V_bus_ang")
        self.aux = [x for x in self.new if x[0] is not self.Pv and x[0] is not self.Av]

    # positions in the agent's lists
    def rank(self, c, d):
        return self.A.E.rank(c, d)

    def P(self, d):
        return self.V.item(self.ok.st, self.Pv, self.V.ctx.pos(self.A.N.DEV, d))

    def theta(self, b):
        return self.V.item(self.ok.st, self.Av, self.V.ctx.pos(self.A.N.BUS, b))

    def flow(self, i, j):
        """DC flow from bus i to bus j on their line."""
        return self.A.Yi(i, j) * (self.theta(i) - self.theta(j))

    def auxes(self, d):
        """The further variables created for storage unit d, with their declared signs."""
        out = []
        for cv, nonneg, stack in self.aux:
            for t, js in cv.new:
                if len(stack) > 1 or (stack and stack[0][0] is not self.A.N.DEV):
                    raise Unsupported("variables of the stage problem")
                sub = [(stack[0][1], d)] if stack else []
                if js is not None:
                    sub.append((js[0], self.rank(self.des, d)))
                out.append((z3.substitute(t, *sub) if sub else t, nonneg))
        used = set()
        for _, x, _, _ in self.every(self.cons):
            used |= decls(x)
        return [x for x in out if decls(x[0]) & used]       # (others: trial runs of the loop body)

    def new_soc(self, d):
        return self.V.item(self.ok.st, self.soc, self.rank(self.des, d))

    # the specification
    def bus_spec(self, b):
        N, V = self.A.N, self.V
        net = N.sum(N.DEV, lambda d: self.P(d), lambda d: N.devbus(d) == b)
        out = N.sum(N.BR, lambda e: z3.If(N.f(e) == b, self.flow(N.f(e), N.t(e)), self.flow(N.t(e), N.f(e))), lambda e: Or(N.f(e) == b, N.t(e) == b))
        return V.eq(net, out)

    def dev_spec(self, d):
        N, V = self.A.N, self.V
        F = lambda n: N.old(N.DEV, d, n)
        P = self.P(d)
        return {"load follows the forecast": (self.load, V.eq(P, self.FL(self.rank(self.load, d)))),
                "generator above its minimum": (self.gen, V.le(F("p_min"), P)),
                "generator below its maximum": (self.gen, V.le(P, F("p_max"))),
                "generator below its forecast": (self.gen, V.le(P, self.FG(self.rank(self.gen, d)))),
                "storage power above its minimum": (self.des, V.le(F("p_min"), P)),
                "storage power below its maximum": (self.des, V.le(P, F("p_max")))}

    def resolve(self, st, e):
        """'The k-th element' replaced by the element, where it is known."""
        e = self.V.eng.resolve_nth(st, e)
        for n in free_consts(e):
            if n in self.V.eng.nth_info and self.V.eng.nth_info[n][0] is self.A.N.DEV:
                t = z3.Const(n, I)
                if n not in self.known:
                    self.known[n] = self.V.ctx.prove([x for x in self.ok.st.pc if is_z3(x)], t == self.A.N.slackdev, timeout=30)[0] == "proved"
                if self.known[n]:
                    e = z3.substitute(e, (t, self.A.N.slackdev))
        return e

    # lists of constraints
    def instances(self, st, seq, terms):
        """The constraints of the list at the given indices: terms = [(index, length of the collection it counts in, or None)]."""
        eng, V = self.V.eng, self.V
        out = []

        N = self.A.N
        sizes = [V.ctx.count(N.DEV), V.ctx.count(N.BUS)] + [N.count(c) for c in (self.load, self.gen, self.des)]

        def at(base, length):
            if base in (N.DEV, N.BUS, N.BR):
                return [t for t, n in terms if n is base]
            if is_z3(length) and any(x.eq(length) for x in sizes):
                return [t for t, n in terms if is_z3(n) and n.eq(length)]
            return [t for t, n in terms if t.sort() == (base.sort if base else I)]

        def go(seq, hyp):
            for c in seq:
                if isinstance(c, One):
                    out.append(b2z(Implies(hyp, self.resolve(st, b2z(V.as_bool(c.v))))))
                elif isinstance(c, If):
                    go(c.a, And(hyp, c.g))
                    go(c.b, And(hyp, Not(c.g)))
                elif isinstance(c, For):
                    for t in at(c.base, c.base.count):
                        V.ctx.note_index(c.base, t)
                        p = [(c.var, t)]
                        go(subst(c.items, p), And(hyp, c.base.member(t), subst(c.cond, p)))
                elif isinstance(c, Fn):
                    for t in at(None, to_z3(c.length)):
                        go([One(c.fn(t))], And(hyp, t >= 0, t < to_z3(c.length)))
                else:
                    raise Unsupported("list of constraints: %r" % (c,))
        go(seq, True)
        return out

    def every(self, seq, hyps=()):
        """Every constraint of the list: (hypotheses, constraint, element it is about, collection of that element)."""
        N, V = self.A.N, self.V
        out = []
        for c in seq:
            if isinstance(c, One):
                out.append((list(hyps), b2z(V.as_bool(c.v)), None, None))
            elif isinstance(c, If):
                out += self.every(c.a, list(hyps) + [c.g]) + self.every(c.b, list(hyps) + [Not(c.g)])
            elif isinstance(c, (For, Fn)):
                if isinstance(c, For) and c.base in (N.DEV, N.BUS, N.BR):
                    base, cond, n = c.base, None, None
                else:       # the k-th constraint, for the k of an arbitrary element
                    n = to_z3(c.length if isinstance(c, Fn) else c.base.count)
                    if isinstance(c, For):
                        k = z3.Int("k")
                        if not V.ctx.valid([c.base.member(k)], And(k >= 0, k < n)):
                            raise Unsupported("list of constraints over %s" % c.base.name)
                    for base, cond in [(N.DEV, f) for f in (self.load, self.gen, self.des)] + [(N.DEV, None), (N.BUS, None)]:
                        if n.eq(N.count(cond) if cond else V.ctx.count(base)):
                            break
                    else:
                        raise Unsupported("list of constraints: %s of them" % n)
                k = V.ctx.skolem(base, "some")
                V.ctx.note_index(base, k)
                hy = list(hyps) + [base.member(k)] + ([cond(k)] if cond else [])
                pos = k if n is None else self.rank(cond, k) if cond else V.ctx.pos(base, k)
                if isinstance(c, Fn):
                    out.append((hy, b2z(V.as_bool(c.fn(pos))), k, base))
                else:
                    p = [(c.var, pos)]
                    for h, x, _, _ in self.every(subst(c.items, p), hy + [subst(c.cond, p)]):
                        out.append((h, x, k, base))
            else:
                raise Unsupported("list of constraints: %r" % (c,))
        return out


def at(V, P, d=None, b=None):
    N = P.A.N
    t = []
    if d is not None:
        t += [(d, N.DEV), (V.ctx.pos(N.DEV, d), V.ctx.count(N.DEV))] + [(P.rank(c, d), N.count(c)) for c in (P.load, P.gen, P.des)]
    if b is not None:
        t += [(b, N.BUS), (V.ctx.pos(N.BUS, b), V.ctx.count(N.BUS))]
    return t


def required(V):
    """Every point satisfying the constraints is a DC operating point within the limits."""
    V.on("MPCAgent._single_step_optimization_problem (requires)")
    P = Stage(V)
    if P.ok is None:
        return
    N, s = P.A.N, P.ok.st
    names = [x[0] for x in P.new]
    for n, v in (("device powers", P.Pv), ("bus angles", P.Av)):
        V.prove("%s of a stage are fresh variables" % n, s, isinstance(v, CvxVar) and v.kind == "var" and any(v is x for x in names))
    b = V.ctx.skolem(N.BUS, "bus")
    V.ctx.note_index(N.BUS, b)
    s1 = s.copy()
    s1.assume(N.BUS.member(b))
    for x in P.instances(s1, P.cons, at(V, P, b=b)):
        s1.assume(x)
    V.prove("power balance of every bus", s1, P.bus_spec(b))
    sl = N.slackbus
    s1 = s.copy()
    for x in P.instances(s1, P.cons, at(V, P, b=sl)):
        s1.assume(x)
    V.prove("the slack bus has zero angle", s1, V.eq(P.theta(sl), 0))
    for nm, (cond, _) in P.dev_spec(N.slackdev).items():
        d, s1 = P.A.E.dev(s, cond, nm[:4])
        g = P.dev_spec(d)[nm][1]
        for x in P.instances(s1, P.cons, at(V, P, d=d)):
            s1.assume(x)
        V.prove(nm, s1, g)
    d, s1 = P.A.E.dev(s, P.des, "storage")
    for x in P.instances(s1, P.cons, at(V, P, d=d)):
        s1.assume(x)
    for t, nonneg in P.auxes(d):
        if nonneg:
            s1.assume(t >= 0)
    F = lambda n: N.old(N.DEV, d, n)
    new, old, p = P.new_soc(d), P.S0(P.rank(P.des, d)), P.P(d)
    V.prove("charge above its minimum", s1, V.le(F("soc_min"), new))
    V.prove("charge below its maximum", s1, V.le(new, F("soc_max")))
    # planned charging and discharging parts: the charge gained is at most that of the net power
    delta = V.sub(new, old)
    V.prove("one charge per storage unit", s, V.eq(V.eng.lib.b_len(V.eng, s, [P.soc], {}), N.count(P.des)))
    V.prove("no charge beyond the net power (charging)", s1, V.le(delta, V.mul(V.mul(-p, N.dt), F("eff"))))
    V.prove("no charge beyond the net power (discharging)", s1, V.le(delta, V.div(V.mul(-p, N.dt), F("eff"))))
    s2 = s1.copy()
    s2.assume(V.eq(F("eff"), 1))
    V.prove("lossless storage: charge changes by the net energy", s2, V.eq(delta, V.mul(-p, N.dt)))


def roles(V, P, s, d):
    """The planned charging and discharging power of storage unit d: (charging, discharging) or None."""
    F = lambda n: P.A.N.old(P.A.N.DEV, d, n)
    ax = P.auxes(d)
    if len(ax) != 2 or not all(nonneg for _, nonneg in ax):
        return None, False
    old, new, dt = P.S0(P.rank(P.des, d)), P.new_soc(d), P.A.N.dt
    for c, e in ((0, 1), (1, 0)):
        pc, pd = ax[c][0], ax[e][0]
        g = V.eq(new, V.sub(V.add(old, V.mul(V.mul(pc, dt), F("eff"))), V.div(V.mul(pd, dt), F("eff"))))
        if V.ctx.valid([x for x in s.pc if is_z3(x)], P.resolve(s, b2z(V.as_bool(g))), timeout=20):
            return (pc, pd), True
    return None, False


def allowed(V):
    """Every DC operating point within the limits satisfies the constraints (none is too strict)."""
    V.on("MPCAgent._single_step_optimization_problem (allows)")
    P = Stage(V)
    if P.ok is None:
        return
    N, s = P.A.N, P.ok.st
    F = lambda d, n: N.old(N.DEV, d, n)
    d, s0 = P.A.E.dev(s, P.des, "storage")
    split, found = roles(V, P, s0, d)
    V.prove("charge = charge before + efficiency x charging - discharging / efficiency", s0, found)
    if not found:
        return

    def point(st, d=None, b=None):
        """The operating point satisfies the specification at these elements."""
        if b is not None:
            th = P.theta(b)
            for g in (P.bus_spec(b), V.le(th, PI), V.le(V.sub(0, PI), th), Implies(b == N.slackbus, V.eq(th, 0))):
                st.assume(Implies(N.BUS.member(b), b2z(V.as_bool(g))))
        if d is not None:
            for nm, (cond, g) in P.dev_spec(d).items():
                st.assume(Implies(And(N.DEV.member(d), cond(d)), b2z(V.as_bool(g))))
            (pc, pd), _ = [z3.substitute(x, (dd, d)) for x in split], None
            is_des = And(N.DEV.member(d), P.des(d))
            old = P.S0(P.rank(P.des, d))
            new = V.sub(V.add(old, V.mul(V.mul(pc, N.dt), F(d, "eff"))), V.div(V.mul(pd, N.dt), F(d, "eff")))
            for g in (pc >= 0, pd >= 0, V.eq(P.P(d), V.sub(pd, pc)), V.le(F(d, "soc_min"), new), V.le(new, F(d, "soc_max"))):
                st.assume(Implies(is_des, b2z(V.as_bool(g))))
    dd = d
    n = 0
    for hyps, c, el, where in P.every(P.cons):
        st = s.copy()
        for h in hyps:
            st.assume(h)
        point(st, b=N.slackbus)
        if el is not None:
            V.ctx.note_index(where, el)
            point(st, **{"d" if where is N.DEV else "b": el})
        n += 1
        V.prove("constraint %d of a stage follows from the requirements" % n, st, P.resolve(st, c))


def objective(V):
    """The cost of a stage: non-renewable generation (the slack included) and weighted overloads beyond the margin."""
    V.on("MPCAgent._single_step_optimization_problem (cost)")
    P = Stage(V)
    if P.ok is None:
        return
    N, s, A = P.A.N, P.ok.st, P.A
    zabs = lambda x: z3.If(x >= 0, x, -x)
    gen = N.sum(N.DEV, lambda d: P.P(d), lambda d: Or(N.typ(d) == 0, N.typ(d) == 1))

    def over(e):
        x = zabs(P.flow(N.f(e), N.t(e))) - A.margin * N.old(N.BR, e, "rate")
        return z3.If(x > 0, x, z3.RealVal(0))
    lines = N.sum(N.BR, over)
    V.prove("cost of a stage", s, V.eq(P.obj, V.add(gen, V.mul(N.lamb, lines))))


SINGLE = "gym_anm.agents.mpc.MPCAgent._single_step_optimization_problem"


class Chain:
    """Contract of a stage: its cost, constraints, variables and new charges are those of 'the next stage', numbered by
    the planning loop; what it is given is recorded."""

    def __init__(self, V, A):
        self.V, self.A = V, A
        eng = V.eng
        N = A.N
        self.OBJ, self.M = z3.Function("stage_cost", I, R), z3.Function("stage_constraints", I, I)
        self.CONS = z3.Function("stage_constraint", I, I, z3.BoolSort())
        self.PD, self.AN, self.NS = (z3.Function(n, I, I, R) for n in ("stage_power", "stage_angle", "stage_charge"))
        self.nld, self.ng, self.nd = N.count(lambda i: N.typ(i) == -1), N.count(N.is_gen), N.count(lambda i: N.typ(i) == 3)
        self.calls = []
        eng.contracts[SINGLE] = self.stage

    def stage(self, eng, st, fv, args, kw):
        V, N = self.V, self.A.N
        if len(eng.ctx.loopvars) != 1:
            raise Unsupported("stages outside one planning loop")
        i = eng.ctx.loopvars[-1]
        names = ("self", "P_load_forecast", "P_gen_forecast", "soc_prev")
        d = dict(zip(names, args))
        d.update(kw)
        for o in st.heap.objs.values():
            if o.kind == "inst" and o.fields.get("stage") is i:
                raise Unsupported("two stages in one iteration")
        eng.alloc(st, Inst(ClassVal("stage", "stage", [], {}, external=True), {"stage": i}))
        self.calls.append((i, st.copy(), [d[n] for n in names[1:]]))
        f = lambda g, n: Snap(ArrO([Fn(n, lambda k: g(i, to_z3(k)))]))
        P = CvxVar("stage power", f(self.PD, V.ctx.count(N.DEV)), (V.ctx.count(N.DEV),), "var")
        an = CvxVar("stage angle", f(self.AN, V.ctx.count(N.BUS)), (V.ctx.count(N.BUS),), "var")
        cons = eng.alloc(st, ListO([Fn(self.M(i), lambda c: self.CONS(i, to_z3(c)))]))
        soc = eng.alloc(st, ListO([Fn(self.nd, lambda k: self.NS(i, to_z3(k)))]))
        vs = eng.alloc(st, DictO([("one", "V_bus_ang", an), ("one", "P_dev", P), ("one", "P_bus", Opaque("any", "P_bus")), ("one", "P_branch", Opaque("any", "P_branch"))]))
        return (self.OBJ(i), cons, vs, soc)


def stages_of(V, C, st, seq):
    """Every constraint of the problem: (hypotheses, constraint)."""
    out = []
    for c in seq:
        if isinstance(c, One):
            out.append(([], b2z(V.as_bool(c.v))))
        elif isinstance(c, If):
            out += [([c.g] + h, x) for h, x in stages_of(V, C, st, c.a)] + [([Not(c.g)] + h, x) for h, x in stages_of(V, C, st, c.b)]
        elif isinstance(c, For):
            k = V.ctx.skolem(c.base, "some")
            V.ctx.note_index(c.base, k)
            p = [(c.var, k)]
            out += [([c.base.member(k), subst(c.cond, p)] + h, x) for h, x in stages_of(V, C, st, subst(c.items, p))]
        elif isinstance(c, Fn):
            k = z3.Int(V.ctx.fresh_name("some"))
            out.append(([k >= 0, k < to_z3(c.length)], b2z(V.as_bool(c.fn(k)))))
        else:
            raise Unsupported("list of constraints: %r" % (c,))
    return out


def holds_at(V, seq, i, k):
    """The constraints of the list for the indices i (stage) and k (constraint of it)."""
    out = []

    def go(seq, hyp, left):
        for c in seq:
            if isinstance(c, One):
                out.append(b2z(Implies(hyp, b2z(V.as_bool(c.v)))))
            elif isinstance(c, If):
                go(c.a, And(hyp, c.g), left)
                go(c.b, And(hyp, Not(c.g)), left)
            elif left and isinstance(c, For):
                p = [(c.var, left[0])]
                go(subst(c.items, p), And(hyp, c.base.member(left[0]), subst(c.cond, p)), left[1:])
            elif left and isinstance(c, Fn):
                go([One(c.fn(left[0]))], And(hyp, left[0] >= 0, left[0] < to_z3(c.length)), left[1:])
    go(seq, True, [i, k])
    return out


def applications(e, f):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().eq(f):
                out.append(x)
            todo += x.children()
    return out


def chain(V):
    """The problem over the horizon: the stages, chained, and nothing else; the discounted cost."""
    V.on("MPCAgent._create_optimization_problem")
    A = Agent(V, "mpc", "MPCAgent", ext=False)
    V.no_raise("construction", A.raises)
    if not V.normal("construction", A.ok):
        return
    C = Chain(V, A)
    eng, ag = V.eng, A.ok.value
    s = A.ok.st.copy()
    par = {n: V.attr(s, ag, n) for n in ("P_load_forecast", "P_gen_forecast", "init_soc")}
    n0 = len(eng.cvx_decls)
    ok, raises = V.method(s, ag, "_create_optimization_problem")
    V.no_raise("any horizon", raises)
    if not V.normal("any horizon", ok):
        return
    st = ok.st
    V.prove("no variable beside those of the stages", st, len(eng.cvx_decls) == n0)
    for i, sc, (load, gen, soc) in C.calls[-1:]:
        k = z3.Int("element")
        for nm, x, n, want in (("demand forecast", load, C.nld, lambda: V.item(s1, par["P_load_forecast"], (k, i))),
                               ("forecast of the available power", gen, C.ng, lambda: V.item(s1, par["P_gen_forecast"], (k, i))),
                               ("charge before", soc, C.nd, lambda: z3.If(i == 0, to_real(to_z3(V.item(s1, par["init_soc"], k))), C.NS(i - 1, k)))):
            s1 = sc.copy()
            s1.assume(And(k >= 0, k < n))
            V.prove("%s of a stage" % nm, s1, V.eq(V.item(s1, x, k), want()))
    prob = ok.value
    V.prove("a minimisation", st, type(prob).__name__ == "CvxProblem" and prob.sense == "min")
    i, c = z3.Int("stage"), z3.Int("number")
    v = eng.ctx.index_var(eng.range_base(A.H))
    cost = V.ctx.mk_sum(eng.range_base(A.H), v, True, V.mul(eng.binop(st, "**", A.gamma, v), C.OBJ(v)))
    V.prove("discounted cost of the stages", st, V.eq(prob.obj, cost))
    seq = seq_of(eng, st, prob.cons)
    s1 = st.copy()
    s1.assume(And(i >= 0, i < A.H, c >= 0, c < C.M(i)))
    for x in holds_at(V, seq, i, c):
        s1.assume(x)
    V.prove("every constraint of every stage", s1, C.CONS(i, c))
    for hyps, x in stages_of(V, C, st, seq):
        s1 = st.copy()
        for h in hyps:
            s1.assume(h)
        for t in applications(x, C.CONS):
            i_, c_ = t.children()
            s1.assume(Implies(And(i_ >= 0, i_ < A.H, c_ >= 0, c_ < C.M(i_)), t))
        V.prove("no constraint beside those of the stages", s1, x)
    d = V.ctx.skolem(A.N.DEV, "d")
    V.ctx.note_index(A.N.DEV, d)
    s1 = st.copy()
    s1.assume(A.N.DEV.member(d))
    pos = V.ctx.pos(A.N.DEV, d)
    V.prove("the plan acted on is the first stage's", s1, V.eq(V.item(s1, V.attr(s1, ag, "P_dev"), pos), C.PD(0, pos)))


def act(V):
    """Two decisions in a row: what the problem is told, what is done with its solution."""
    for module, name in (("mpc_constant", "MPCAgentConstant"), ("mpc_perfect", "MPCAgentPerfect")):
        V.on(name + ".act")
        V.eng.solved.clear()
        V.eng.solve_states.clear()
        V.eng.problems.clear()
        act_of(V, module, name)


def act_of(V, module, name):
    A = Agent(V, module, name, ext=False)
    V.no_raise("construction", A.raises)
    if not V.normal("construction", A.ok):
        return
    C = Chain(V, A)
    N, E, eng, ag = A.N, A.E, V.eng, A.ok.value
    s = A.ok.st.copy()
    is_load, is_des = (lambda i: N.typ(i) == -1), (lambda i: N.typ(i) == 3)
    # the action space: gens' P and Q, then storage units' P and Q
    n = 2 * C.ng + 2 * C.nd
    LO, HI = z3.Function("space.low", I, R), z3.Function("space.high", I, R)
    j = z3.Int(V.ctx.fresh_name("j"))
    V.ctx.templates.append(([j], LO(j) <= HI(j), [("space.low", [0]), ("space.high", [0])]))
    mk = lambda f: eng.alloc(s, ArrO([Fn(n, lambda k: f(to_z3(k)))]))
    from ..gymmodel import box_class
    space = eng.alloc(s, Inst(box_class(eng), {"low": mk(LO), "high": mk(HI), "shape": (n,), "_shape": (n,), "dtype": Opaque("any")}))
    eng.setattr(s, ag, "action_space", space)
    for o, w in ((space, "the action space"), (N.sim, "the simulator")):
        eng.freeze(s, o, w)
    par = {m: V.attr(s, ag, m) for m in ("P_load_forecast", "P_gen_forecast", "init_soc")}
    current = {}

    def forecast(e, st, fv, args, kw):
        out = []
        for nm, rows in (("FL", C.nld), ("FG", C.ng)):
            f = z3.Function("%s%d" % (nm, current["n"]), I, I, R)
            current[nm] = f
            k, l = z3.Int(V.ctx.fresh_name("k")), z3.Int(V.ctx.fresh_name("l"))
            if nm == "FG":
                V.ctx.templates.append(([k, l], f(k, l) >= 0, [(f.name(), [0, 1])]))
            out.append(e.alloc(st, MatO(rows, A.H, lambda a, b, f=f: f(to_z3(a), to_z3(b)))))
        return tuple(out)
    eng.contracts[AG + "%s.%s.forecast" % (module, name)] = forecast
    for r in (1, 2):
        w = ("first", "later")[r - 1]
        current["n"] = r
        sd, fns = E.full_state(s, "now%d" % r)
        i = V.ctx.index_var(N.DEV)
        soc = fns[("des_soc", "pu")]
        V.ctx.templates.append(([i], soc(i) >= 0, [(soc.name(), [0])]))
        sim = V.make(s, V.get("gym_anm.simulator.simulator", "Simulator"), state=sd)
        env = V.make(s, V.get(ENV, "ANMEnv"), simulator=sim)
        for o, what in ((sd, "the state"), (env, "the environment"), (sim, "the simulator")):
            eng.freeze(s, o, what)
        ok, raises = V.method(s, ag, "act", env)
        V.no_raise("%s decision" % w, raises)
        if not V.normal("%s decision" % w, ok):
            return
        st = ok.st
        V.prove("%s decision: the problem built first is solved, once" % w, st,
                len(eng.solved) == r and len(eng.problems) == 1 and eng.solved[-1][0] is eng.problems[0])
        ss = eng.solve_states[-1]
        k, l = z3.Int("row"), z3.Int("column")
        for nm, rows, f in (("P_load_forecast", C.nld, "FL"), ("P_gen_forecast", C.ng, "FG")):
            s1 = ss.copy()
            s1.assume(And(k >= 0, k < rows, l >= 0, l < A.H))
            V.prove("%s decision: %s" % (w, nm), s1, V.eq(V.item(s1, V.attr(s1, par[nm], "value"), (k, l)), current[f](k, l)))
        d, s1 = E.dev(ss, is_des, "unit")
        V.prove("%s decision: current charge" % w, s1, V.eq(V.item(s1, V.attr(s1, par["init_soc"], "value"), E.rank(is_des, d)), soc(d)))
        plan = z3.Function("stage_power@%d" % r, I, I, R) if r > 1 else C.PD
        base = {"generator": 0, "storage": 2 * C.ng}
        V.prove("%s decision: one entry per entry of the action space" % w, st, V.eq(eng.lib.b_len(eng, st, [ok.value], {}), n))
        for nm, cond, cnt in (("generator", N.is_gen, C.ng), ("storage", is_des, C.nd)):
            d, s1 = E.dev(st, cond, nm[:3])
            for q, off, val in (("active", 0, plan(0, V.ctx.pos(N.DEV, d)) * N.baseMVA), ("reactive", cnt, z3.RealVal(0))):
                p = base[nm] + off + E.rank(cond, d)
                x = V.item(s1, ok.value, p)
                clipped = z3.If(val < LO(p), LO(p), z3.If(val > HI(p), HI(p), val))
                V.prove("%s decision: %s %s power" % (w, nm, q), s1, V.eq(x, clipped))
        k = z3.Int("entry")
        s1 = st.copy()
        s1.assume(And(k >= 0, k < n))
        V.prove("%s decision: inside the action space" % w, s1, V.eq(V.ge(V.item(s1, ok.value, k), LO(k)), True) if hasattr(V, "ge") else And(V.le(LO(k), V.item(s1, ok.value, k)), V.le(V.item(s1, ok.value, k), HI(k))))
        V.prove("%s decision: writes nothing that is not its own" % w, st, not eng.frozen_writes)
        s = st.copy()


PARTS = [required, allowed, objective, chain, act]
