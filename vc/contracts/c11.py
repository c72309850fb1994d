"""C11: the observation space and the observations inside it."""
from .env import *
from .c10 import reported, limited, ALL


def collapse(V, E, s, ok):
    s2 = ok.st.copy()
    s2.assume(Not(E.conv))
    V.reach("collapse", s2)
    zero(V, E, s2, ok.value[0], "after a collapse")


def zero(V, E, s, obs, name):
    n = E.size(s, V.attr(s, V.attr(s, E.env, "observation_space"), "low"))
    V.prove("%s: the observation has the size of the space" % name, s, V.eq(E.size(s, obs), n))
    k = z3.Int("k!zero%d" % len(V.obligations))
    s1 = s.copy()
    s1.assume(And(k >= 0, k < to_z3(n)))
    V.prove("%s: the observation is zero" % name, s1, V.eq(V.item(s1, obs, k), 0))


def frame(V, E, entries, bound, s0, s1, when):
    """The observation space after a call is the one before, bound by bound."""
    a, b = V.attr(s0, E.env, "observation_space"), V.attr(s1, E.env, "observation_space")
    V.prove("%s keeps an observation space" % when, s1, b is not None)
    for n in ("low", "high"):
        o0, o1 = V.eng.obj(s0, V.attr(s0, a, n)), V.eng.obj(s1, V.attr(s1, b, n))
        if o0 is not None and o1 is not None and not o0.overlays and not o1.overlays \
                and len(o0.seq) == len(o1.seq) and all(x is y for x, y in zip(o0.seq, o1.seq)):
            V.prove("%s keeps the %s bounds" % (when, n), s1, True)
        else:
            check_vector(V, E, entries, s1, V.attr(s1, b, n), bound(n), "%s keeps the %s bounds" % (when, n))


def case(V, entries, obs, aux, name):
    V.on("ANMEnv.observation_bounds (%s)" % name)
    E = Env(V, obs=obs, aux=aux)
    V.no_raise("ANMEnv.__init__", E.raises)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    s = E.ok.st
    V.reach("environment", s)
    sp = V.attr(s, E.env, "observation_space")

    def bound(w):
        def f(s, q, u, x):
            if q == "aux":
                if not aux:
                    return -INF if w == "low" else INF
                return E.AL(x) if w == "low" else E.AH(x)
            return (E.lo if w == "low" else E.hi)[(q, u)](x)
        return f
    for w in ("low", "high"):
        check_vector(V, E, entries, s, V.attr(s, sp, w), bound(w), "%s bounds" % w)
    V.on("ANMEnv.step (%s)" % name)
    s = E.running(terminated=False)
    s.assume(E.in_space(s, "action_space", E.action))
    ok, raises = E.step(s)
    V.no_raise("step", raises)
    if V.normal("step", ok):
        s1 = ok.st.copy()
        s1.assume(E.conv)
        V.reach("converged step", s1)
        V.prove("the observation lies in the observation space", s1, E.in_space(s1, "observation_space", ok.value[0]))
        frame(V, E, entries, bound, s, ok.st, "step")
        collapse(V, E, s, ok)
    V.on("ANMEnv.step after the end (%s)" % name)
    s = E.running(terminated=True)
    s.assume(E.in_space(s, "action_space", E.action))
    ok, raises = E.step(s)
    V.no_raise("step", raises)
    if V.normal("step", ok):
        zero(V, E, ok.st, ok.value[0], "terminal state")
    V.on("ANMEnv.reset (%s)" % name)
    s = E.running()
    Rr = Reset(V, E)
    ok, raises = Rr.run(s)
    V.no_raise("reset", raises, allowed=("EnvInitializationError",))
    if V.normal("reset", ok):
        V.reach("reset", ok)
        V.prove("the observation lies in the observation space", ok.st, E.in_space(ok.st, "observation_space", ok.value[0]))
        frame(V, E, entries, bound, s, ok.st, "reset")


def state(V):
    case(V, STATE_ENTRIES, None, False, "'state'")


def state_aux(V):
    case(V, STATE_ENTRIES, None, True, "'state', bounded auxiliary variables")


def list_all(V):
    ent = [(q, "all", ()) for q in ALL]
    case(V, ent, declare(ent), False, "list, 'all', default units")


def list_nodes(V):
    ent = [(q, "list", None if q == "aux" else UNITS[q][-1]) for q in reversed(ALL)]
    case(V, ent, declare(ent), True, "list, arbitrary elements, explicit units")


def given(V):
    """A callable observation."""
    V.on("ANMEnv, callable observation")
    E = Env(V, obs=callable_obs)
    V.no_raise("ANMEnv.__init__", E.raises)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    c = E.callable
    V.prove("no bounds are known before the first reset", E.ok.st, V.attr(E.ok.st, E.env, "observation_space") is None)
    s = E.running()
    Rr = Reset(V, E)
    ok, raises = Rr.run(s)
    V.no_raise("reset", raises, allowed=("EnvInitializationError",))
    if not V.normal("reset", ok):
        return

    def unbounded(s, when):
        sp = V.attr(s, E.env, "observation_space")
        for n, v in (("low", -INF), ("high", INF)):
            x = V.attr(s, sp, n)
            V.prove("%s: the space has the size of the observation (%s)" % (when, n), s, V.eq(E.size(s, x), c.m))
            k = z3.Int("k!u%d" % len(V.obligations))
            s1 = s.copy()
            s1.assume(And(k >= 0, k < c.m))
            V.prove("%s: the space is unbounded (%s)" % (when, n), s1, V.eq(V.item(s1, x, k), v))

    def returned(s, obs, when):
        V.prove("%s: the callable is evaluated" % when, s, len(c.calls) >= 1)
        pre, a, k, f, v = c.calls[-1]
        V.prove("%s: once, on the new state vector" % when, s, And(len(c.calls) == 1, len(a) == 1, not k, V.is_(a[0], V.attr(s, E.env, "state"))))
        j = z3.Int("k!r%d" % len(V.obligations))
        s1 = s.copy()
        s1.assume(And(j >= 0, j < c.m))
        V.prove("%s: its value is returned" % when, s1, And(V.eq(E.size(s1, obs), c.m), V.eq(V.item(s1, obs, j), f(j))))
        V.prove("%s: the observation lies in the space" % when, s, E.in_space(s, "observation_space", obs))
        del c.calls[:]
    V.reach("reset", ok)
    unbounded(ok.st, "first reset")
    returned(ok.st, ok.value[0], "first reset")
    # any later reset and step
    s = E.running(start=ok.st)
    Rr = Reset(V, E)
    ok2, raises = Rr.run(s)
    V.no_raise("later reset", raises, allowed=("EnvInitializationError",))
    if V.normal("later reset", ok2):
        unbounded(ok2.st, "later reset")
        returned(ok2.st, ok2.value[0], "later reset")
    s = E.running(start=ok.st, terminated=False)
    s.assume(E.in_space(s, "action_space", E.action))
    ok3, raises = E.step(s)
    V.no_raise("step", raises)
    if V.normal("step", ok3):
        s1 = ok3.st.copy()
        s1.assume(E.conv)
        V.reach("converged step", s1)
        unbounded(s1, "step")
        returned(s1, ok3.value[0], "step")
        collapse(V, E, s, ok3)


PARTS = [given, state, state_aux, list_all, list_nodes]
