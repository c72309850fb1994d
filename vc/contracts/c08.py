"""C08: clipped step rewards; network collapse is absorbing."""
from .env import *


def one(V, name):
    V.on(name)
    E = Env(V)
    if not V.normal("ANMEnv.__init__", E.ok):
        return None
    return E


def outcome(V, E, s, v):
    obs, r, term, trunc, info = v
    return obs, r, term, trunc


def zero(V, E, s, a, n, name):
    V.prove(name + ": size", s, V.eq(E.size(s, a), n))
    i = z3.Int("i!" + str(len(V.obligations)))
    s1 = s.copy()
    s1.assume(And(i >= 0, i < to_z3(n)))
    V.prove(name + ": zero", s1, V.eq(V.item(s1, a, i), 0))


def live(V):
    E = one(V, "ANMEnv.step")
    if E is None:
        return
    s = E.running(terminated=False)
    s.assume(E.in_space(s, "action_space", E.action))
    V.reach("running", s)
    ok, raises = E.step(s)
    V.no_raise("action in the space", raises)
    if not V.normal("action in the space", ok):
        return
    V.reach("step", ok)
    obs, r, term, trunc = outcome(V, E, ok.st, ok.value)
    s1 = ok.st.copy()
    s1.assume(E.conv)
    loss, pen = E.loss, E.pen
    mn = lambda x, c: mk_choice([(k, x if v == INF else z3.If(x <= to_real(v), x, to_real(v))) if isinstance(v, float) else
                                 (k, z3.If(x <= to_real(v), x, to_real(v))) for k, v in flat_alts(c)])
    cl = V.mul(z3.If(loss > 0, z3.RealVal(1), z3.If(loss < 0, z3.RealVal(-1), z3.RealVal(0))), mn(z3.If(loss < 0, -loss, loss), E.C1))
    cp = mn(pen, E.C2)
    V.prove("reward = -(clipped loss, sign kept + clipped penalty)", s1, V.eq(r, V.sub(0, V.add(cl, cp))))
    V.prove("e_loss and penalty record the clipped costs", s1, And(V.eq(V.attr(s1, E.env, "e_loss"), cl), V.eq(V.attr(s1, E.env, "penalty"), cp)))
    x1, x2 = z3.Real("clip.loss"), z3.Real("clip.penalty")
    V.prove("that reward lies within the interval of the bounds", [x1 >= 0, x2 >= 0, pen >= 0],
            And(V.le(V.sub(0, E.C1), cl), V.le(cl, E.C1), V.le(0, cp), V.le(cp, E.C2)))
    V.prove("not terminated when the load flow converges", s1, V.eq(term, False) if not is_z3(term) else Not(term))
    s2 = ok.st.copy()
    s2.assume(Not(E.conv))
    V.reach("collapse", s2)
    V.prove("terminated when the load flow does not converge", s2, term)
    V.prove("the terminal flag is kept", s2, V.attr(s2, E.env, "terminated"))
    s3 = s2.copy()
    s3.assume(E.gamma < 1)
    V.prove("terminal reward = -penalty bound / (1 - discount)", s3, V.eq(r, V.sub(0, V.div(E.C2, 1 - E.gamma))))
    zero(V, E, s2, obs, V.attr(s2, E.env, "observation_N"), "observation after a collapse")
    zero(V, E, s2, V.attr(s2, E.env, "state"), V.attr(s2, E.env, "state_N"), "state after a collapse")
    V.prove("never truncated", ok.st, trunc is False)


def dead(V):
    E = one(V, "ANMEnv.step (terminal)")
    if E is None:
        return
    s = E.running(terminated=True)
    s.assume(E.in_space(s, "action_space", E.action))
    ok, raises = E.step(s)
    V.no_raise("action in the space", raises)
    if not V.normal("terminal state", ok):
        return
    V.reach("terminal step", ok)
    obs, r, term, trunc = outcome(V, E, ok.st, ok.value)
    V.prove("reward 0", ok.st, V.eq(r, 0))
    V.prove("stays terminated", ok.st, And(term, V.attr(ok.st, E.env, "terminated")))
    V.prove("never truncated", ok.st, trunc is False)
    V.prove("nothing is simulated or sampled", ok.st, len(E.calls) == 0)
    zero(V, E, ok.st, obs, V.attr(ok.st, E.env, "observation_N"), "observation")


def restart(V):
    """A reset ends the collapsed episode: the next episode runs."""
    from .env import Reset
    E = one(V, "ANMEnv.reset (after a collapse)")
    if E is None:
        return
    s = E.running(terminated=True)
    ok, raises = Reset(V, E).run(s)
    if V.normal("reset", ok):
        V.reach("reset", ok)
        V.prove("the new episode is not terminated", ok.st, Not(b2z(V.as_bool(V.attr(ok.st, E.env, "terminated")))))


PARTS = [live, dead, restart]
