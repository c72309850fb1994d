"""C09: Simulator._gather_state for an arbitrary network and arbitrary electrical quantities."""
from .net import *

def carg(v):
    return z3.Function("carg", R, R, R)(to_real(v.re), to_real(v.im))


def check_state(V, N, s, state, old):
    """Obligations: `state` (a dict of dicts) holds the quantities of the network in state s."""
    D, S, L = N.DEV, N.BUS, N.BR
    base = N.baseMVA
    k, d, b = V.ctx.skolem(S, "bus"), V.ctx.skolem(D, "dev"), V.ctx.skolem(L, "br")
    for B_, x in ((S, k), (D, d), (L, b)):
        V.ctx.note_index(B_, x)
    rd = 180 / V.ctx.pi
    kv = old(S, k, "baseKV")
    v, i = old(S, k, "v"), old(S, k, "i")
    cur = old(L, b, "i_from")
    key = (N.f(b), N.t(b))
    sto, gen = N.typ(d) == 3, N.is_gen(d)
    spec = [("bus_p", S, k, k, True, old(S, k, "p"), base), ("bus_q", S, k, k, True, old(S, k, "q"), base),
            ("bus_v_magn", S, k, k, True, V.cabs(v), kv), ("bus_v_ang", S, k, k, True, carg(v), rd),
            ("bus_i_magn", S, k, k, True, V.cabs(i), base / kv), ("bus_i_ang", S, k, k, True, carg(i), rd),
            ("dev_p", D, d, d, True, old(D, d, "p"), base), ("dev_q", D, d, d, True, old(D, d, "q"), base),
            ("des_soc", D, d, d, sto, old(D, d, "soc"), base), ("gen_p_max", D, d, d, gen, old(D, d, "p_pot"), base),
            ("branch_p", L, b, key, True, old(L, b, "p_from"), base), ("branch_q", L, b, key, True, old(L, b, "q_from"), base),
            ("branch_s", L, b, key, True, old(L, b, "s_apparent_max"), base),
            ("branch_i_ang", L, b, key, True, carg(cur), rd)]
    for q, B_, x, kk, cond, val, fac in spec:
        s1 = s.copy()
        s1.assume(B_.member(x))
        for n, u in enumerate(UNITS[q]):
            want = val if n == 0 else V.mul(val, fac)
            V.prove("%s has an entry [%s] exactly for its elements" % (q, u), s1, V.eq(V.as_bool(V.has(s1, V.item(s1, state, q, u), kk)), cond)
                    if not isinstance(cond, bool) else V.has(s1, V.item(s1, state, q, u), kk))
            s2 = s1.copy()
            s2.assume(cond)
            V.prove("%s[%s]" % (q, u), s2, V.eq(V.item(s2, state, q, u, kk), want))
    s1 = s.copy()
    s1.assume(L.member(b))
    m = V.item(s1, state, "branch_i_magn", "pu", key)
    re, mag = to_real(cur.re), V.cabs(cur)
    V.prove("branch_i_magn: magnitude signed by the real part (positive)", s1.pc + [re > 0], V.eq(m, mag))
    V.prove("branch_i_magn: magnitude signed by the real part (negative)", s1.pc + [re < 0], V.eq(m, -mag))
    V.prove("branch_i_magn: magnitude", s1, Or(V.eq(m, mag), V.eq(m, -mag)))


def gather(V):
    st = V.state()
    N = Net(V, st)
    V.on("Simulator._gather_state")
    N.earlier(st)
    V.reach("network", st)
    ok, raises = V.method(st, N.sim, "_gather_state")
    V.no_raise("any state", raises)
    if V.normal("any state", ok):
        check_state(V, N, ok.st, ok.value, lambda b, i, n: N.get(st, b, i, n))


def transition(V):
    from . import trans
    V.on("Simulator.transition")
    r = trans.run_transition(V)
    if r is None:
        return
    N, C, inp, st, ok = r
    s = ok.st
    rd = s.copy()
    check_state(V, N, s, ok.value[0], lambda b, i, n: N.get(rd, b, i, n))
    V.on("Simulator.transition, Simulator.state")
    check_state(V, N, s, V.attr(s, N.sim, "state"), lambda b, i, n: N.get(rd, b, i, n))


PARTS = [gather, transition]
