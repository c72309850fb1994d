"""C14: Simulator.reset for an arbitrary network, history and initial state."""
from .trans import *


class Init:
    def __init__(self, V, N, st, pre="s0."):
        D = N.DEV
        U = lambda n: z3.Function(pre + n, I, R)
        self.P, self.Q, self.soc, self.pot = U("P"), U("Q"), U("soc"), U("pot")
        self.aux = U("aux")
        self.K = z3.Int(pre + "K")
        st.assume(self.K >= 0)

        def ch(cond, fn):
            v = V.ctx.index_var(D)
            return For(D, v, cond(v), [One(fn(v))])
        self.seq = [ch(lambda v: True, self.P), ch(lambda v: True, self.Q), ch(lambda v: N.typ(v) == 3, self.soc),
                    ch(N.is_gen, self.pot), Fn(self.K, lambda i: self.aux(to_z3(i)))]
        self.vec = V.eng.alloc(st, ArrO(self.seq))


MUTABLE = [("DEV", n) for n in ("p", "q", "soc", "_p_pot")] + [("BUS", n) for n in ("p", "q", "v", "i")] + \
          [("BR", n) for n in ("i_from", "i_to", "p_from", "q_from", "p_to", "q_to", "s_apparent_max")]


def decls(v):
    """Names of all uninterpreted symbols in a value (aggregate bodies included)."""
    return v


def symbols(V, *vals):
    out, seen = set(), set()
    stack = [t for v in vals for t in z3_terms(v)]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                out.add(n)
                d = V.ctx.aggs.get(n)
                if d is not None:
                    stack.append(d.body)
            stack.extend(t.children())
    return out


def history(V, *vals):
    bad = set()
    for n in symbols(V, *vals):
        for b, f in MUTABLE:
            if n == "%s.%s" % (b, f) or n.startswith("%s.%s." % (b, f)):
                bad.add(n)
        if n.startswith("h_"):
            bad.add(n)
    return bad


def reset(V):
    st = V.state()
    N = Net(V, st)
    C = Contracts(V, N)
    init = Init(V, N, st)
    V.on("Simulator.reset")
    N.earlier(st)
    V.reach("network", st)
    ok, raises = V.method(st, N.sim, "reset", init.vec)
    V.no_raise("complete initial state", raises)
    if not V.normal("complete initial state", ok):
        return
    s = ok.st
    V.reach("reset", ok)
    base, D = N.baseMVA, N.DEV
    O = lambda d, n: N.old(D, d, n)
    check_flow_call(V, N, C, s)
    d, s1 = dev_at(V, N, s, lambda i: N.typ(i) == -1, "load")
    p = N.get(s1, D, d, "p")
    V.prove("load: requested demand limited to its range", s1, V.eq(p, clip(init.P(d) / base, O(d, "p_min"), O(d, "p_max"))))
    V.prove("load: reactive power in the fixed ratio", s1, V.eq(N.get(s1, D, d, "q"), V.mul(p, O(d, "qp_ratio"))))
    d, s1 = dev_at(V, N, s, N.is_gen, "gen")
    V.prove("generator: requested available power limited to its range", s1,
            V.eq(N.get(s1, D, d, "p_pot"), clip(init.pot(d) / base, O(d, "p_min"), O(d, "p_max"))))
    args = (d, init.P(d) / base, init.Q(d) / base, to_real(N.get(s1, D, d, "p_pot")))
    V.prove("generator: closest feasible point to the requested one", s1,
            And(V.eq(N.get(s1, D, d, "p"), C.GP(*args)), V.eq(N.get(s1, D, d, "q"), C.GQ(*args))))
    d, s1 = dev_at(V, N, s, lambda i: N.typ(i) == 3, "des")
    V.prove("storage unit: requested charge limited to its limits", s1,
            V.eq(N.get(s1, D, d, "soc"), clip(init.soc(d) / base, O(d, "soc_min"), O(d, "soc_max"))))
    for nm, c, b in (("charging", init.P(d) <= 0, "soc_min"), ("discharging", init.P(d) > 0, "soc_max")):
        s2 = s1.copy()
        s2.assume(c)
        args = (d, init.P(d) / base, init.Q(d) / base, N.dt, O(d, b))
        V.prove("storage unit: closest point to the requested one (%s)" % nm, s2,
                And(V.eq(N.get(s2, D, d, "p"), C.SP(*args)), V.eq(N.get(s2, D, d, "q"), C.SQ(*args))))
    V.prove("returns the convergence of the load flow", s, V.eq(ok.value, z3.Bool("flow1.converged")))
    # the state dictionary shows the final quantities (charge included)
    from .c09 import check_state
    rd = s.copy()
    V.on("Simulator.reset, Simulator.state")
    check_state(V, N, s, V.attr(s, N.sim, "state"), lambda b, i, n: N.get(rd, b, i, n))
    # nothing of the history survives: every mutable quantity is a function of the initial state
    # and of the network alone
    V.on("Simulator.reset: history")
    pre = C.flow_calls[0][0] if C.flow_calls else s
    for b, base_ in (("DEV", N.DEV), ("BUS", N.BUS), ("BR", N.BR)):
        k = V.ctx.skolem(base_, "any")
        V.ctx.note_index(base_, k)
        for bb, f in MUTABLE:
            if bb != b or f == "_p_pot":
                continue
            s1 = s.copy()
            s1.assume(base_.member(k))
            if f == "soc":
                s1.assume(N.typ(k) == 3)
            v = N.get(s1, base_, k, f)
            bad = history(V, v)
            V.prove("%s.%s does not depend on the history" % (b, f), s1, not bad)
            if b != "BR" and f in ("p", "q"):
                s1 = pre.copy()
                s1.assume(base_.member(k))
                bad = history(V, N.get(s1, base_, k, f))
                V.prove("%s.%s handed to the load flow does not depend on the history" % (b, f), s1, not bad)


PARTS = [reset]


# ------------------------------------------------------------------ environment
def env_reset(V):
    from . import env as ev
    V.on("ANMEnv.reset")
    E = ev.Env(V)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    s = E.running()
    V.reach("running environment (terminal or not)", s)
    Rr = ev.Reset(V, E)
    ok, raises = Rr.run(s)
    n100 = 0
    for r in raises:
        n100 += r.exc.cls.name == "EnvInitializationError"
        V.prove("%s only after 100 initial states without a load-flow solution" % r.exc.cls.name, r.st,
                And(r.exc.cls.name == "EnvInitializationError", V.eq(V.attr(r.st, E.env, "$attempts"), 100), Not(Rr.conv)))
    V.prove("EnvInitializationError is raised", s, n100 > 0)
    if not V.normal("reset", ok):
        return
    s1 = ok.st
    V.reach("reset", s1)
    A = lambda n: V.attr(s1, E.env, n)
    V.prove("the load flow of the accepted state has converged", s1, Rr.conv)
    V.prove("at most 100 initial states are tried", s1, V.le(V.attr(s1, E.env, "$attempts"), 100))
    V.prove("at least one initial state is sampled", s1, V.le(1, V.attr(s1, E.env, "$attempts")))
    conts = [c for c in V.eng.while_cont if c[0].endswith("ANMEnv.reset")]
    V.prove("initial states are sampled in a loop", s, len(conts) >= 1)
    for _, a, b in conts:
        V.prove("another state is sampled only if the load flow did not converge", b, Not(Rr.conv))
        V.prove("another state is sampled only before the 100th", b, V.lt(V.attr(b, E.env, "$attempts"), 100))
        V.prove("every sampled state is one attempt", b, V.eq(V.attr(b, E.env, "$attempts"), V.add(V.attr(a, E.env, "$attempts"), 1)))
    for n, v in (("timestep", 0), ("e_loss", 0), ("penalty", 0)):
        V.prove("%s restarts at 0" % n, s1, V.eq(A(n), v))
    V.prove("the episode starts running", s1, Not(b2z(V.as_bool(A("terminated")))))
    for pre, sim, vec in Rr.resets:
        V.prove("the sampled state is applied to the environment's simulator", pre,
                And(same(sim, E.N.sim), same(vec, V.attr(pre, E.env, "$s0"))))
    V.prove("the simulator is reset in the loop", s, len(Rr.resets) >= 1)


def env_state(V):
    """State and observation right after a reset."""
    from . import env as ev
    V.on("ANMEnv.reset, state and observation")
    E = ev.Env(V)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    s = E.running()
    Rr = ev.Reset(V, E)
    ok, raises = Rr.run(s)
    if not V.normal("reset", ok):
        return
    from .c10 import reported, limited
    s1 = ok.st
    rep = reported(E, Rr.simstate, lambda k: Rr.f(Rr.want - E.K + k))
    ev.check_vector(V, E, ev.STATE_ENTRIES, s1, V.attr(s1, E.env, "state"), rep, "state")
    ev.check_vector(V, E, ev.STATE_ENTRIES, s1, ok.value[0], limited(V, E, rep), "observation")


def env_size(V):
    from . import env as ev
    V.on("ANMEnv.reset (any size of the initial state)")
    E = ev.Env(V)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    s = E.running()
    Rr = ev.Reset(V, E, bad_size=True)
    s.assume(Rr.n >= 0)
    s.assume(Rr.n != to_z3(Rr.want))
    V.reach("wrong size", s)
    ok, raises = Rr.run(s)
    V.prove("an initial state of another size is never accepted", ok.st if ok else s, ok is None if ok is None else False)
    V.prove("EnvInitializationError is raised", s, bool(raises))
    for r in raises:
        V.prove("the documented error (%s), before the simulator is touched" % r.exc.cls.name, r.st,
                And(r.exc.cls.name == "EnvInitializationError", V.eq(V.attr(r.st, E.env, "$attempts"), 1)))


PARTS = [reset, env_reset, env_state, env_size]
