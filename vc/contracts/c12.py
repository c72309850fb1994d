"""C12: action space and routing of the action entries."""
from .env import *


def space(V):
    V.on("ANMEnv._build_action_space, Simulator.get_action_space")
    E = Env(V)
    V.reach("environment", E.st)
    V.no_raise("ANMEnv.__init__", E.raises)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    N, s = E.N, E.ok.st
    sp = V.attr(s, E.env, "action_space")
    groups(V, E, s, [("low", V.attr(s, sp, "low")), ("high", V.attr(s, sp, "high"))], E.limit)


def groups(V, E, s, arrs, want, names=("P of generators", "Q of generators", "P of storage units", "Q of storage units")):
    """Entry rank + offset of every array is want(array, group, d)."""
    N = E.N
    ng, nd = E.count_gen(), E.count_des()
    for nm, a in arrs:
        V.prove("%s: two entries per non-slack generator and per storage unit" % nm, s, V.eq(E.size(s, a), 2 * ng + 2 * nd))
    for g, (cond, off) in enumerate([(N.is_gen, 0), (N.is_gen, ng), (E.is_des, 2 * ng), (E.is_des, 2 * ng + nd)]):
        d, s1 = E.dev(s, cond, "d%d" % g)
        k = E.rank(cond, d) + off
        for nm, a in arrs:
            V.prove("%s: %s in identifier order" % (nm, names[g]), s1, V.eq(V.item(s1, a, k), want(nm, g, d)))


def routing(V):
    V.on("ANMEnv.step")
    E = Env(V)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    N = E.N
    s = E.running(terminated=False)
    s.assume(E.in_space(s, "action_space", E.action))
    V.reach("running", s)
    ok, raises = E.step(s)
    V.no_raise("every action in the action space is accepted", raises)
    tr = [c for c in E.calls if c[0] == "transition"]
    V.prove("one transition is simulated", s, len(tr) == 1)
    if len(tr) != 1:
        return
    pre, args = tr[0][1], tr[0][2]
    V.prove("of this environment's simulator", pre, same(args[0], N.sim))
    ng, nd = E.count_gen(), E.count_des()
    ctrl = lambda i: Or(N.is_gen(i), E.is_des(i))
    for nm, x in (("P", args[3]), ("Q", args[4])):
        d, s1 = E.dev(pre, lambda i: True, "any")
        V.prove("%s set-points are given exactly for the controlled devices" % nm, s1, V.eq(V.as_bool(V.has(s1, x, d)), ctrl(d)))
    for g, (cond, off, x) in enumerate([(N.is_gen, 0, args[3]), (N.is_gen, ng, args[4]), (E.is_des, 2 * ng, args[3]),
                                        (E.is_des, 2 * ng + nd, args[4])]):
        d, s1 = E.dev(pre, cond, "g%d" % g)
        V.prove("entry of group %d is the requested set-point of its device" % g, s1, V.eq(V.item(s1, x, d), E.A(E.rank(cond, d) + off)))


def applied(V):
    from . import trans
    V.on("Simulator.transition")
    r = trans.run_transition(V)
    if r is None:
        return
    N, C, inp, st, ok = r
    trans.check_setpoints(V, N, C, inp, st, ok.st)


from .build import construction  # noqa: E402

PARTS = [space, routing, applied, construction]
