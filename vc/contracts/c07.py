"""C07: Simulator._compute_reward for an arbitrary network and arbitrary reached quantities."""
from .net import *


def spec(V, N, s, rd, value):
    reward, e_loss, penalty = value
    D, S, L = N.DEV, N.BUS, N.BR
    p = lambda i: rd(D, i, "p")
    mx = lambda a: z3.If(to_real(a) > 0, to_real(a), z3.RealVal(0))
    inj = N.sum(D, p, lambda i: N.typ(i) != 3)
    curt = N.sum(D, lambda i: mx(V.sub(rd(D, i, "p_pot"), p(i))), lambda i: N.typ(i) == 2)
    loss = V.mul(N.dt, V.add(inj, curt))
    V.prove("energy loss", s, V.eq(e_loss, loss))

    def vviol(i):
        m = V.cabs(rd(S, i, "v"))
        return mx(m - rd(S, i, "v_max")) + mx(rd(S, i, "v_min") - m)

    def sviol(b):
        x = to_real(rd(L, b, "s_apparent_max"))
        return mx(z3.If(x >= 0, x, -x) - rd(L, b, "rate"))
    pen = V.mul(V.mul(N.dt, N.lamb), V.add(N.sum(S, vviol), N.sum(L, sviol)))
    V.prove("penalty", s, V.eq(penalty, pen))
    V.prove("reward is minus the sum", s, V.eq(reward, V.sub(0, V.add(e_loss, penalty))))


def reader(V, N, s):
    return lambda base, i, n: N.get(s, base, i, n)


def limits(V, N):
    N.bus_facts.append(lambda i: [b2z(V.le(N.old(N.BUS, i, "v_min"), N.old(N.BUS, i, "v_max")))])


def cost(V):
    st = V.state()
    N = Net(V, st)
    limits(V, N)
    V.on("Simulator._compute_reward")
    V.reach("network", st)
    ok, raises = V.method(st, N.sim, "_compute_reward")
    V.no_raise("any state", raises)
    if V.normal("any state", ok):
        spec(V, N, ok.st, reader(V, N, st), ok.value)


def transition(V):
    from . import trans
    V.on("Simulator.transition")
    r = trans.run_transition(V, setup=lambda N: limits(V, N))
    if r is None:
        return
    N, C, inp, st, ok = r
    s = ok.st
    state, reward, e_loss, penalty, conv = ok.value
    # the returned cost is the one of the reached state
    spec(V, N, s, reader(V, N, s.copy()), (reward, e_loss, penalty))


PARTS = [cost, transition]
