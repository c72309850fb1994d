"""C13: the vector of exogenous variables reaches the right devices and the auxiliary state."""
from .env import *


def routing(V):
    V.on("ANMEnv.step")
    E = Env(V)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    N = E.N
    s = E.running(terminated=False)
    s.assume(E.in_space(s, "action_space", E.action))
    V.reach("running", s)
    ok, raises = E.step(s)
    V.no_raise("vector of the documented size", raises)
    if not V.normal("vector of the documented size", ok):
        return
    nv = [c for c in E.calls if c[0] == "next_vars"]
    tr = [c for c in E.calls if c[0] == "transition"]
    V.prove("the stochastic model is sampled once, before the one transition", s,
            len(nv) == 1 and len(tr) == 1 and E.calls.index(nv[0]) < E.calls.index(tr[0]))
    if len(tr) != 1 or len(nv) != 1:
        return
    i = z3.Int("i!arg")
    s1 = nv[0][1].copy()
    s1.assume(And(i >= 0, i < to_z3(V.attr(s1, E.env, "state_N"))))
    V.prove("it is given the current state vector", s1, And(V.eq(E.size(s1, nv[0][2]), V.attr(s1, E.env, "state_N")),
                                                            V.eq(V.item(s1, nv[0][2], i), E.S(i))))
    pre, args = tr[0][1], tr[0][2]
    load = lambda j: N.typ(j) == -1
    nl, ng = N.count(load), E.count_gen()
    for nm, x, cond, off in (("demand", args[1], load, 0), ("available power", args[2], N.is_gen, nl)):
        d, s1 = E.dev(pre, lambda j: True, "any")
        V.prove("%s is given exactly for its devices" % nm, s1, V.eq(V.as_bool(V.has(s1, x, d)), cond(d)))
        d, s1 = E.dev(pre, cond, nm[:3])
        V.prove("%s is applied in this step to its device" % nm, s1, V.eq(V.item(s1, x, d), E.X(E.rank(cond, d) + off)))
    s2 = ok.st.copy()
    s2.assume(E.conv)
    V.reach("converged", s2)
    st = V.attr(s2, E.env, "state")
    n = V.attr(s2, E.env, "state_N")
    V.prove("the next state has the declared size", s2, V.eq(E.size(s2, st), n))
    k = z3.Int("k!aux")
    s2.assume(And(k >= 0, k < E.K))
    V.prove("the auxiliary values are the last entries of the next state", s2, V.eq(V.item(s2, st, n - E.K + k), E.X(nl + ng + k)))


def size(V):
    V.on("ANMEnv.step (any vector size)")
    E = Env(V)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    N = E.N
    s = E.running(terminated=False, bad_size=True)
    s.assume(E.in_space(s, "action_space", E.action))
    ok, raises = E.step(s)
    want = N.count(lambda j: N.typ(j) == -1) + E.count_gen() + E.K
    if V.normal("some size is accepted", ok):
        V.prove("a vector of another size is never accepted", ok.st, E.nvars == want)
    n = 0
    for r in raises:
        n += r.exc.cls.name == "EnvNextVarsError"
        V.prove("%s only for a wrong size" % r.exc.cls.name, r.st, And(E.nvars != want, r.exc.cls.name == "EnvNextVarsError"))
    V.prove("the documented error is raised", s, n > 0)


def applied(V):
    from . import trans
    V.on("Simulator.transition")
    r = trans.run_transition(V)
    if r is None:
        return
    N, C, inp, st, ok = r
    trans.check_setpoints(V, N, C, inp, st, ok.st)


def reset_size(V):
    from .c14 import env_size
    env_size(V)


from .build import construction  # noqa: E402

PARTS = [routing, size, applied, reset_size, construction]
