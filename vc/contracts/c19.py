"""C19: forecasts of the two MPC agents."""
from .env import *

AG = "gym_anm.agents."
T = 96      # quarter-hours of the daily profiles (the length the tasks of the package use)


class Agent:
    """The real constructor of an agent on an arbitrary network with an arbitrary horizon."""

    def __init__(self, V, module, name, ext=True):
        self.V = V
        eng = V.eng
        self.st = st = V.state()
        self.N = N = Net(V, st, ext=ext)
        self.H = z3.Int("horizon")
        st.assume(self.H >= 1)
        V.ctx.add_once(self.H >= 1)
        self.gamma = z3.Real("gamma")
        self.margin = z3.Real("safety_margin")
        st.assume(And(0 <= self.gamma, self.gamma <= 1, 0 <= self.margin, self.margin <= 1))
        self.Yr, self.Yi = z3.Function("Y.re", I, I, R), z3.Function("Y.im", I, I, R)
        n = z3.Int("Y.size")
        N.bus_facts.append(lambda i: [i < n])
        self.Y = eng.alloc(st, MatO(n, n, lambda i, j: CNum(self.Yr(to_z3(i), to_z3(j)), self.Yi(to_z3(i), to_z3(j))), (), "sparse"))
        eng.setattr(st, N.sim, "Y_bus", self.Y)
        self.space = Opaque("any", "action_space")
        self.E = Env.__new__(Env)
        self.E.V, self.E.N = V, N
        self.ok, self.raises = V.call(st, V.get(AG + module, name), N.sim, self.space, self.gamma, self.margin, self.H)

    def env(self, st, **fields):
        """The environment; the agent may have solved any number of problems before."""
        used = z3.Bool("used_before")
        self.V.eng.setattr(st, self.ok.value, "dc_opf", Choice([(used, Opaque("any", "an earlier problem")), (Not(used), None)]))
        self.V.eng.settle(st, self.ok.value)
        t = z3.Int("timestep")
        st.assume(t >= 0)
        now = dict(simulator=self.N.sim, delta_t=self.N.dt, gamma=self.gamma, lamb=self.N.lamb, action_space=self.space, timestep=t,
                   terminated=False, e_loss=z3.Real("e_loss"), penalty=z3.Real("penalty"))
        now.update(fields)
        return self.V.make(st, self.V.get(ENV, "ANMEnv"), **now)


def check_forecast(V, A, s, f, want, kinds):
    for k, (nm, cond) in enumerate(kinds):
        x = V.item(s, f, k)
        d, s1 = A.E.dev(s, cond, nm[:4].replace(" ", "_"))
        v = V.ctx.index_var(A.N.DEV)
        shape = V.attr(s1, x, "shape")
        V.prove("%s: one row per device" % nm, s1, V.eq(V.item(s1, shape, 0), V.ctx.mk_count(A.N.DEV, v, cond(v))))
        V.prove("%s: one column per stage" % nm, s1, V.eq(V.item(s1, shape, 1), A.H))
        j = z3.Int("stage")
        s1.assume(And(j >= 0, j < A.H))
        V.prove("%s: every device, every stage" % nm, s1, V.eq(V.item(s1, x, (A.E.rank(cond, d), j)), want(k, d, j)))


def constant(V):
    V.on("MPCAgentConstant.forecast")
    A = Agent(V, "mpc_constant", "MPCAgentConstant")
    V.no_raise("construction", A.raises)
    if not V.normal("construction", A.ok):
        return
    s = A.ok.st.copy()
    sd, fns = A.E.full_state(s, "now")
    V.eng.setattr(s, A.N.sim, "state", sd)
    ok, raises = V.method(s, A.ok.value, "forecast", A.env(s))
    V.no_raise("any state", raises)
    if not V.normal("any state", ok):
        return
    V.reach("forecast", ok)
    check_forecast(V, A, ok.st, ok.value, lambda k, d, j: fns[("dev_p", "pu") if k == 0 else ("gen_p_max", "pu")](d),
                   [("demand", lambda i: A.N.typ(i) == -1), ("available power", A.N.is_gen)])


def perfect(V):
    V.on("MPCAgentPerfect.forecast")
    V.bounded.append("length of the daily profiles: %d quarter-hours" % T) if hasattr(V, "bounded") else None
    A = Agent(V, "mpc_perfect", "MPCAgentPerfect")
    V.no_raise("construction", A.raises)
    if not V.normal("construction", A.ok):
        return
    s = A.ok.st.copy()
    E = A.E
    t0 = z3.Int("time_of_day")
    s.assume(And(t0 >= 0, t0 < T))
    PL, PM = z3.Function("P_loads", I, I, R), z3.Function("P_maxs", I, I, R)
    nl, ng = A.N.count(lambda i: A.N.typ(i) == -1), A.N.count(A.N.is_gen)
    mk = lambda n, f: V.eng.alloc(s, MatO(n, T, lambda i, j: f(to_z3(i), to_z3(j))))
    n = z3.Int("state.size")
    s.assume(n >= 0)
    S = z3.Function("state", I, R)
    state = V.eng.alloc(s, ArrO([Fn(n, lambda i: S(to_z3(i))), One(z3.ToReal(t0))]))
    env = A.env(s, state=state, P_loads=mk(nl, PL), P_maxs=mk(ng, PM))
    for o, w in ((state, "the state vector"), (env, "the environment's profiles")):
        V.eng.freeze(s, o, w)
    ok, raises = V.method(s, A.ok.value, "forecast", env)
    V.no_raise("any time of day and horizon", raises)
    if not V.normal("any time of day and horizon", ok):
        return
    V.reach("horizon over three days", ok.pc + [A.H == 3 * T])
    check_forecast(V, A, ok.st, ok.value, lambda k, d, j: V.div((PL if k == 0 else PM)(E.rank([lambda i: A.N.typ(i) == -1, A.N.is_gen][k], d), (t0 + 1 + j) % T), A.N.baseMVA),
                   [("demand", lambda i: A.N.typ(i) == -1), ("available power", A.N.is_gen)])


PARTS = [constant, perfect]
