"""C18: the ANM6Easy task.  The real constructor (network description, component constructors, simulator)
is evaluated; times of day, states, actions and random draws are symbolic."""
import json
import os
from ..spec import *
from .. import gymmodel
from ..extmodels import Rng, Date, TD

EASY = "gym_anm.envs.anm6_env.anm6_easy"
ANM6M = "gym_anm.envs.anm6_env.anm6"
ENVQ = "gym_anm.envs.anm_env.ANMEnv"
SIMQ = "gym_anm.simulator.simulator.Simulator"
LOADS, GENS, DES, N_DEV = [1, 3, 5], [2, 4], [6], 7
SIZE = 2 * N_DEV + len(DES) + len(GENS) + 1
PROFILES = json.load(open(os.path.join(os.path.dirname(__file__), "..", "..", "oracle", "anm6_profiles.json")))
TOL = Fraction(1, 10**9)


def profile(which, k, t):
    """Entry t of the fixed daily profile (t: integer term in 0..95)."""
    out = None
    for j in reversed(range(96)):
        x = z3.RealVal(str(Fraction(PROFILES[which][k][j]).limit_denominator(10**12)))
        out = x if out is None else z3.If(to_z3(t) == j, x, out)
    return out


class Easy:
    """The real ANM6Easy(), with its own random generator."""

    def __init__(self, V):
        self.V = V
        self.st = V.state()
        V.eng.contracts[SIMQ + "._build_admittance_matrix"] = self.admittance
        self.cls = V.get(EASY, "ANM6Easy")
        self.ok, self.raises = V.run(self.st, lambda s: V.eng.instantiate(s, self.cls, [], {}))
        if self.ok:
            self.env = self.ok.value
            self.sim = V.attr(self.ok.st, self.env, "simulator")

    def admittance(self, eng, st, fv, args, kw):
        eng.trusted.add("callee contract: Simulator._build_admittance_matrix (decided by C01); its value is not used here")
        return Opaque("any", "Y_bus")

    def seeded(self, running=True):
        """The environment after any history (running), or in the middle of a reset, with a generator of its own."""
        s = self.ok.st.copy()
        self.rng = Rng(("seed", 0))
        self.V.eng.setattr(s, self.env, "_np_random", self.rng)
        if running:
            history(self.V, s, self.env, self.sim)
        else:
            for n, v in (("terminated", False), ("render_mode", None), ("timestep", 0), ("e_loss", 0.0), ("penalty", 0.0)):
                self.V.eng.setattr(s, self.env, n, v)
        self.V.eng.settle(s, self.env)
        self.V.eng.settle(s, self.sim)
        return s

    def dev(self, st, i, name):
        return self.V.attr(st, self.V.item(st, self.V.attr(st, self.sim, "devices"), i), name)


def history(V, s, env, sim):
    """The running state an environment can have after any history, where the contract does not set it."""
    eng = V.eng
    eng.setattr(s, env, "terminated", z3.Bool("terminated"))
    t = z3.Int("timestep")
    s.assume(t >= 0)
    V.ctx.add_once(t >= 0)
    mode = z3.Bool("rendering")
    eng.setattr(s, env, "render_mode", Choice([(mode, "human"), (Not(mode), None)]))
    for n, v in (("timestep", t), ("e_loss", z3.Real("e_loss")), ("penalty", z3.Real("penalty"))):
        eng.setattr(s, env, n, v)
    eng.setattr(s, sim, "pfe_converged", Not(z3.Bool("terminated")))


def per_quarter(V, name, st, goal, t):
    """The obligation for each of the 96 quarter-hours (st implies 0 <= t <= 95)."""
    goal = b2z(V.as_bool(goal))
    rest = []
    for j in range(96):
        g = z3.simplify(z3.substitute(goal, (t, z3.IntVal(j))))
        if not z3.is_true(g):
            rest.append(z3.Implies(t == j, goal))
    V.prove(name, st, And(*rest))


def near(V, a, b):
    return And(V.le(V.sub(a, b), TOL), V.le(V.sub(b, a), TOL))


def only_own_generator(V, E, s):
    V.prove("no randomness but the environment's own generator (no global generator, no clock)", s, not V.eng.nondet)
    V.prove("every draw is taken from the generator the seed determines", s, all(d[0] is E.rng for d in V.eng.draws))


def constants(V):
    V.on("ANM6Easy.__init__")
    E = Easy(V)
    V.no_raise("construction", E.raises)
    if not V.normal("construction", E.ok):
        return
    s = E.ok.st
    A = lambda n: V.attr(s, E.env, n)
    for n, v in (("K", 1), ("delta_t", Fraction(1, 4)), ("gamma", Fraction(995, 1000)), ("state_N", SIZE)):
        V.prove("%s" % n, s, V.eq(A(n), v))
    V.prove("one quarter-hour per step in the simulator", s, V.eq(V.attr(s, E.sim, "delta_t"), Fraction(1, 4)))
    V.prove("penalty weight", s, V.eq(V.attr(s, E.sim, "lamb"), 100))
    for which, name, n in (("load", "P_loads", 3), ("gen", "P_maxs", 2)):
        x = A(name)
        sh = V.attr(s, x, "shape")
        V.prove("%s: %d profiles of 96 quarter-hours" % (name, n), s, And(V.eq(V.item(s, sh, 0), n), V.eq(V.item(s, sh, 1), 96)))
        for k in range(n):
            V.prove("%s: profile %d is the fixed daily profile" % (name, k), s,
                    And(*[near(V, V.item(s, x, (k, j)), Fraction(PROFILES[which][k][j])) for j in range(96)]))
    for i, c in [(0, "ClassicalGen")] + [(i, "Load") for i in LOADS] + [(i, "RenewableGen") for i in GENS] + [(i, "StorageUnit") for i in DES]:
        o = V.eng.obj(s, V.item(s, V.attr(s, E.sim, "devices"), i))
        V.prove("device %d is a %s" % (i, c), s, o is not None and o.cls.name == c)
    for n, v in (("N_device", N_DEV), ("N_load", 3), ("N_non_slack_gen", 2), ("N_des", 1)):
        V.prove(n, s, V.eq(V.attr(s, E.sim, n), v))
    V.prove("only the constructor's arguments determine the environment", s, not V.eng.nondet and not V.eng.draws)


def check_init(V, E, ok, tag=""):
    s = ok.st
    s0 = ok.value
    V.prove("declared size" + tag, s, V.eq(V.eng.lib.b_len(V.eng, s, [s0], {}), SIZE))
    t = V.item(s, s0, SIZE - 1)
    ti = z3.Int("quarter_hour" + tag)
    s = s.copy()
    V.prove("the start is a whole quarter-hour of the day" + tag, s,
            And(V.le(0, t), V.le(t, 95), V.eq(t, z3.ToReal(z3.ToInt(to_real(t))))))
    s.assume(And(ti >= 0, ti < 96, b2z(V.eq(t, z3.ToReal(ti)))))
    ratio = lambda i: E.dev(s, i, "qp_ratio")
    for k, i in enumerate(LOADS):
        p = V.item(s, s0, i)
        V.prove("load %d starts at its profile%s" % (i, tag), s, near(V, p, profile("load", k, ti)))
        V.prove("load %d: reactive power in the fixed ratio%s" % (i, tag), s, V.eq(V.item(s, s0, N_DEV + i), V.mul(p, ratio(i))))
    for k, i in enumerate(GENS):
        pot = V.item(s, s0, 2 * N_DEV + len(DES) + k)
        V.prove("generator %d: available power starts at its profile%s" % (i, tag), s, near(V, pot, profile("gen", k, ti)))
        V.prove("generator %d starts at its available power%s" % (i, tag), s, V.eq(V.item(s, s0, i), pot))
    base = V.attr(s, E.sim, "baseMVA")
    for k, i in enumerate(DES):
        c = V.item(s, s0, 2 * N_DEV + k)
        V.prove("storage unit %d: feasible charge%s" % (i, tag), s,
                And(V.le(V.mul(E.dev(s, i, "soc_min"), base), c), V.le(c, V.mul(E.dev(s, i, "soc_max"), base))))
    return t


def initial_state(V):
    V.on("ANM6Easy.init_state")
    E = Easy(V)
    if not V.normal("construction", E.ok):
        return
    s0 = E.seeded(running=False)
    before = s0.copy()
    ok, raises = V.method(s0, E.env, "init_state")
    V.no_raise("any draw", raises)
    if not V.normal("any draw", ok):
        return
    V.reach("initial state", ok)
    t = check_init(V, E, ok)
    for q in (0, 50, 95):
        V.reach("a start at quarter-hour %d" % q, ok.pc + [b2z(V.eq(t, q))])
    only_own_generator(V, E, ok)
    V.prove("the start is drawn", ok, bool(V.eng.draws))
    again(V, E, ok, before, lambda s, tag: rerun_init(V, E, s, tag), running=False)


def rerun_init(V, E, s, tag):
    ok, raises = V.method(s, E.env, "init_state")
    V.no_raise("any history" + tag, raises)
    if V.normal("any history" + tag, ok):
        check_init(V, E, ok, tag)


def again(V, E, ok, before, rerun, running=True):
    """Fields of the environment the call leaves changed: the contract holds for any value they may
    have after a history, so the result cannot depend on it."""
    st0, before = before, V.eng.obj(before, E.env).fields
    after = V.eng.obj(ok.st, E.env).fields
    changed = sorted(n for n in after if n not in before or not same(after[n], before[n]))
    objs = [n for n in after if n in before and isinstance(after[n], Ref) and V.eng.obj(ok.st, after[n]) is not V.eng.obj(st0, after[n])
            and n not in changed and V.eng.obj(st0, after[n]) is not None]
    V.prove("the call leaves the environment's own objects alone (%s)" % ", ".join(objs), ok, not objs)
    if not changed:
        return
    s = E.seeded(running)
    for n in changed:
        V.eng.setattr(s, E.env, n, z3.Real("history." + n))
    rerun(s, " (after any history: %s)" % ", ".join(changed))


def check_next(V, ok, t, tag=""):
    s = ok.st
    v = ok.value
    V.prove("declared size" + tag, s, V.eq(V.eng.lib.b_len(V.eng, s, [v], {}), len(LOADS) + len(GENS) + 1))
    t1 = (t + 1) % 96
    for k, i in enumerate(LOADS):
        per_quarter(V, "load %d: demand of the new quarter-hour%s" % (i, tag), s, near(V, V.item(s, v, k), profile("load", k, t1)), t)
    for k, i in enumerate(GENS):
        per_quarter(V, "generator %d: available power of the new quarter-hour%s" % (i, tag), s,
                    near(V, V.item(s, v, len(LOADS) + k), profile("gen", k, t1)), t)
    V.prove("the quarter-hour advances by one, modulo 96%s" % tag, s, V.eq(V.item(s, v, len(LOADS) + len(GENS)), z3.ToReal(t1)))


def sym_state(V, s, t):
    f = z3.Function("state", I, R)
    return V.eng.alloc(s, ArrO([One(f(k)) for k in range(SIZE - 1)] + [One(z3.ToReal(t))]))


def next_vars(V):
    V.on("ANM6Easy.next_vars")
    E = Easy(V)
    if not V.normal("construction", E.ok):
        return
    t = z3.Int("t")

    def at(s, tag):
        s.assume(And(t >= 0, t < 96))
        vec = sym_state(V, s, t)
        V.eng.freeze(s, vec, "the state vector")
        ok, raises = V.method(s, E.env, "next_vars", vec)
        V.no_raise("any quarter-hour" + tag, raises)
        if V.normal("any quarter-hour" + tag, ok):
            V.reach("midnight" + tag, ok.pc + [t == 95])
            check_next(V, ok, t, tag)
            return ok
    s = E.seeded()
    before = s.copy()
    ok = at(s, "")
    if ok:
        V.prove("the state vector is left alone", ok, not V.eng.frozen_writes)
        V.prove("a function of the state alone: no draw, no clock, no global generator", ok, not V.eng.draws and not V.eng.nondet)
        again(V, E, ok, before, lambda s, tag: at(s, tag))


def step(V):
    """env.step with the real ANMEnv.step; contract for Simulator.transition."""
    V.on("ANM6Easy.step")
    E = Easy(V)
    if not V.normal("construction", E.ok):
        return
    s = E.seeded()
    eng = V.eng
    t = z3.Int("t")
    s.assume(And(t >= 0, t < 96))
    calls = []

    def state_dict(st, tag):
        """Arbitrary quantities for the network's elements."""
        from .c09 import UNITS
        ent = []
        br = [(0, 1), (1, 2), (1, 3), (2, 4), (2, 5)]
        for q, us in UNITS.items():
            ids = range(6) if q.startswith("bus") else range(N_DEV) if q.startswith("dev") else DES if q.startswith("des") else \
                GENS if q.startswith("gen") else br
            ent.append(("one", q, eng.alloc(st, DictO([("one", u, eng.alloc(st, DictO(
                [("one", i, z3.Real("%s.%s.%s.%s" % (tag, q, u, i))) for i in ids]))) for u in us]))))
        return eng.alloc(st, DictO(ent))

    def transition(eng, st, fv, args, kw):
        env = eng.bind_args(st, fv, args, kw)
        names = [x.arg for x in fv.node.args.args]
        calls.append((st.copy(), [env[n] for n in names]))
        sd = state_dict(st, "sim")
        eng.setattr(st, E.sim, "state", sd)
        eng.setattr(st, E.sim, "pfe_converged", z3.Bool("converged"))
        eng.trusted.add("callee contract: Simulator.transition (C04-C09)")
        return (sd, z3.Real("r"), z3.Real("loss"), z3.Real("pen"), z3.Bool("converged"))
    eng.contracts[SIMQ + ".transition"] = transition
    d0, d1 = z3.Real("date"), z3.Real("date_init")
    s.assume(d1 <= d0)
    for n, v in (("state", sym_state(V, s, t)), ("terminated", False), ("timestep", z3.Int("timestep")), ("e_loss", z3.Real("old.e_loss")),
                 ("penalty", z3.Real("old.penalty")), ("date", Date(d0)), ("date_init", Date(d1)), ("year_count", z3.Int("year_count"))):
        eng.setattr(s, E.env, n, v)
    eng.setattr(s, E.sim, "state", state_dict(s, "old"))
    A = z3.Function("action", I, R)
    lo = V.attr(s, V.attr(s, E.env, "action_space"), "low")
    V.prove("action size", s, V.eq(eng.lib.b_len(eng, s, [lo], {}), 2 * len(GENS) + 2 * len(DES)))
    act = eng.alloc(s, ArrO([One(A(k)) for k in range(2 * len(GENS) + 2 * len(DES))]))
    for k in range(2 * len(GENS) + 2 * len(DES)):
        s.assume(And(V.le(V.item(s, lo, k), A(k)), V.le(A(k), V.item(s, V.attr(s, V.attr(s, E.env, "action_space"), "high"), k))))
    V.reach("running environment", s)
    ok, raises = V.method(s, E.env, "step", act)
    V.no_raise("any action", raises)
    if not V.normal("step", ok):
        return
    V.prove("one transition per step", ok, len(calls) == 1)
    t1 = (t + 1) % 96
    for pre, a in calls:
        _, p_load, p_pot = a[:3]
        for k, i in enumerate(LOADS):
            per_quarter(V, "load %d: demand applied is the profile at the new quarter-hour" % i, pre,
                        near(V, V.item(pre, p_load, i), profile("load", k, t1)), t)
        for k, i in enumerate(GENS):
            per_quarter(V, "generator %d: available power applied is the profile at the new quarter-hour" % i, pre,
                        near(V, V.item(pre, p_pot, i), profile("gen", k, t1)), t)
    s1 = ok.st.copy()
    done = z3.Bool("converged")
    vec = V.attr(s1, E.env, "state")
    s1.assume(done)
    V.prove("the auxiliary variable advances by one modulo 96", s1, V.eq(V.item(s1, vec, SIZE - 1), z3.ToReal(t1)))
    V.prove("the state keeps its size", s1, V.eq(eng.lib.b_len(eng, s1, [vec], {}), SIZE))
    V.prove("no randomness, no clock", s1, not eng.draws and not eng.nondet)


def reset(V):
    """ANM6Easy.reset and ANM6.reset on top of the contract of ANMEnv.reset (C14)."""
    V.on("ANM6Easy.reset")
    E = Easy(V)
    if not V.normal("construction", E.ok):
        return
    s = E.ok.st.copy()
    eng = V.eng
    E.rng = Rng("own")
    history(V, s, E.env, E.sim)
    eng.setattr(s, E.env, "_np_random", Rng("history"))
    t = z3.Int("t")
    s.assume(And(t >= 0, t < 96))
    calls = []
    obs, info = Opaque("any", "observation"), Opaque("any", "info")

    def base_reset(eng, st, fv, args, kw):
        calls.append((st.copy(), list(args[1:]), dict(kw)))
        eng.setattr(st, E.env, "_np_random", E.rng)
        eng.setattr(st, E.env, "state", sym_state(V, st, t))
        eng.setattr(st, E.env, "render_mode", None)
        eng.trusted.add("callee contract: ANMEnv.reset seeds the generator and samples the initial state (C14, C18 init_state)")
        return (obs, info)
    eng.contracts[ENVQ + ".reset"] = base_reset
    seed = V.opt("seed", "int")
    for n, v in (("date", Date(z3.Real("old.date"))), ("date_init", Date(z3.Real("old.date_init"))), ("year_count", z3.Int("old.year_count"))):
        eng.setattr(s, E.env, n, v)
    ok, raises = V.run(s, lambda st: eng.call(st, eng.getattr(st, E.env, "reset"), [], {"seed": seed}))
    V.no_raise("any seed", raises)
    if not V.normal("any seed", ok):
        return
    s1 = ok.st
    V.prove("the base environment is reset once", s1, len(calls) == 1)
    for pre, a, k in calls:
        V.prove("the seed is handed on", pre, not a and "seed" in k and b2z(V.is_(k["seed"], seed)))
    V.prove("the observation and info of the base environment are returned", s1, And(same(ok.value[0], obs), same(ok.value[1], info)))
    vec = V.attr(s1, E.env, "state")
    V.prove("the state is the sampled one", s1, And(*[V.eq(V.item(s1, vec, k), z3.Function("state", I, R)(k)) for k in range(SIZE - 1)] +
                                                    [V.eq(V.item(s1, vec, SIZE - 1), z3.ToReal(t))]))
    only_own_generator(V, E, s1)
    bad = [n for v in (V.attr(s1, E.env, "date"), V.attr(s1, E.env, "date_init"), V.attr(s1, E.env, "year_count"))
           for x in z3_terms(v) for n in free_consts(x) if str(n).startswith("old.")]
    V.prove("the calendar does not depend on the history", s1, not bad)
    d = V.attr(s1, E.env, "date")
    V.prove("the time of day is the quarter-hour of the state", s1, And(V.eq(V.attr(s1, d, "hour"), t / 4), V.eq(V.attr(s1, d, "minute"), 15 * (t % 4))))


PARTS = [constants, initial_state, next_vars, step, reset]
