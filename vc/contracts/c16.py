"""C16: frame conditions.  Everything handed in by the caller, and every vector handed out, is
frozen; a write to a frozen object (directly, through a view or through a nested row) is an
obligation that its path is impossible."""
from .env import *
from .trans import Contracts, Inputs, soc_invariant
from .c14 import Init
from .c15 import Table, known_buses, bounds_arg, BUSC, BRC, CHECK, UT
from .devs import DEV, COLS
from .net import BUSM, BRM


def frame(V, what):
    """No write to caller-owned data on any path so far."""
    V.prove("frame: %s not written" % what, [], And(*[Not(And(*[b2z(c) for c in pc])) for d, pc in V.eng.frozen_writes]))
    del V.eng.frozen_writes[:]


def own(V, st, v, desc):
    V.eng.freeze(st, v, desc)
    return v


def rows(V):
    st0 = V.state()
    for cls, mod, ids, cols in (("Bus", BUSM, 2, BUSC), ("TransmissionLine", BRM, 2, BRC), ("Load", DEV, 3, COLS), ("ClassicalGen", DEV, 3, COLS),
                                ("RenewableGen", DEV, 3, COLS), ("StorageUnit", DEV, 3, COLS)):
        V.on("%s.__init__" % cls)
        st = st0.copy()
        row = own(V, st, V.row(st, [V.opt("%s.%s" % (cls, c), "int") if k < ids else V.opt("%s.%s" % (cls, c)) for k, c in enumerate(cols)]), "the %s row" % cls)
        base = V.real("baseMVA")
        st.assume(base > 0)
        args = [row]
        if cls != "Bus":
            b = known_buses(V)
            j = V.ctx.index_var(b)
            lst = own(V, st, V.eng.alloc(st, ListO([For(b, j, True, [One(j)])])), "the list of bus identifiers")
            args += [base, lst] if cls == "TransmissionLine" else [lst, base]
        ok, raises = V.call(st, V.get(mod, cls), *args)
        V.normal("some row", ok)
        frame(V, "the row")


def network(V):
    V.on("check_network_specs")
    st = V.state()
    T = {"bus": Table(V, st, "bus", BUSC, BUSC[:2]), "device": Table(V, st, "device", COLS, COLS[:3]),
         "branch": Table(V, st, "branch", BRC, BRC[:2])}
    net = V.eng.alloc(st, DictO([("one", "baseMVA", V.real("baseMVA"))] + [("one", k, t.ref) for k, t in T.items()]))
    own(V, st, net, "the network description")
    ok, raises = V.call(st, V.get(CHECK, "check_network_specs"), net)
    V.normal("some network", ok)
    frame(V, "the network description")


def arguments(V):
    V.on("check_env_args")
    st = V.state()
    sb, has, brs, elem = bounds_arg(V, st)
    n, K = V.int("aux.rows"), V.int("K")
    st.assume(n >= 0)
    lo, hi = z3.Function("aux.lo", I, R), z3.Function("aux.hi", I, R)
    aux = own(V, st, V.eng.alloc(st, ArrO([Fn(n, lambda i: (lo(to_z3(i)), hi(to_z3(i))))])), "the auxiliary bounds")
    m = V.int("nodes")
    st.assume(m >= 0)
    f = z3.Function("node", I, I)
    nodes = V.eng.alloc(st, ListO([Fn(m, lambda i: f(to_z3(i)))]))
    decl = V.eng.new_list(st, [("dev_p", "all", "MW"), ("dev_q", nodes), ("aux", "all")])
    own(V, st, decl, "the observation declaration")
    ok, raises = V.call(st, V.get(UT, "check_env_args"), K, V.real("delta_t"), V.real("lamb"), V.real("gamma"), decl, aux, sb)
    V.normal("some arguments", ok)
    frame(V, "the arguments")


def transition(V):
    V.on("Simulator.transition")
    st = V.state()
    N = Net(V, st)
    soc_invariant(V, N)
    Contracts(V, N)
    inp = Inputs(V, N, st)
    for n in ("P_load", "P_pot", "P_set", "Q_set"):
        own(V, st, getattr(inp, n), "the argument " + n)
    ok, raises = V.method(st, N.sim, "transition", inp.P_load, inp.P_pot, inp.P_set, inp.Q_set)
    if V.normal("transition", ok):
        frame(V, "the arguments of transition")


def reset(V):
    V.on("Simulator.reset")
    st = V.state()
    N = Net(V, st)
    Contracts(V, N)
    init = Init(V, N, st)
    own(V, st, init.vec, "the initial state vector")
    ok, raises = V.method(st, N.sim, "reset", init.vec)
    if V.normal("reset", ok):
        frame(V, "the initial state vector")


class Owned(Env):
    """The environment's arguments belong to the caller."""

    def __init__(self, V, **kw):
        def obs(E, st):
            d = kw["decl"](E, st) if kw.get("decl") else "state"
            if E.aux_bounds is not None:
                own(V, st, E.aux_bounds, "the auxiliary bounds")
            net = V.eng.alloc(st, DictO([("one", "baseMVA", E.base)] + [
                ("one", k, V.eng.alloc(st, ArrO([Fn(z3.Int(k + ".rows"), lambda i: i)]))) for k in ("bus", "device", "branch")]))
            own(V, st, net, "the network description")
            E.network = net
            if isinstance(d, Ref):
                own(V, st, d, "the observation declaration")
            return d
        super().__init__(V, obs=obs, aux=True)

    def next_vars(self, eng, st, fv, args, kw):
        v = super().next_vars(eng, st, fv, args, kw)
        eng.freeze(st, v, "the vector of stochastic variables")
        return v


def decl_list(E, st):
    return declare([("dev_p", "all", "MW"), ("des_soc", "list", "MWh"), ("bus_v_magn", "all", ()), ("aux", "list", None)])(E, st)


def envs(V, kind):
    E = Owned(V, decl=None if kind == "state" else decl_list)
    V.on("ANMEnv.__init__, observation %s" % kind)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    frame(V, "the network description, the observation declaration and the auxiliary bounds")
    # one arbitrary step of an arbitrary running environment
    V.on("ANMEnv.step, observation %s" % kind)
    s = E.running()
    own(V, s, E.state0, "the state vector handed out before")
    own(V, s, E.action, "the action")
    ok, raises = E.step(s)
    if not V.normal("some step", ok):
        return
    frame(V, "the action, the stochastic variables and the vectors handed out before")
    # a reset and two steps: what each of them hands out is left alone by the next ones
    V.on("ANMEnv.reset, observation %s" % kind)
    r = Reset(V, E)
    init0 = r.init_state

    def init_state(eng, st, fv, args, kw):
        v = init0(eng, st, fv, args, kw)
        eng.freeze(st, v, "the initial state vector")
        return v
    V.eng.contracts[ENV + ".ANMEnv.init_state"] = init_state
    s = ok.st
    own(V, s, V.attr(s, E.env, "state"), "the state vector handed out before")
    own(V, s, ok.value[0], "the observation handed out before")
    ok1, raises = r.run(s)
    if not V.normal("some reset", ok1):
        return
    frame(V, "the initial state and the vectors handed out before")
    V.on("ANMEnv: a reset and two steps, observation %s" % kind)
    s = ok1.st
    for k in range(2):
        own(V, s, V.attr(s, E.env, "state"), "the state vector handed out before")
        own(V, s, ok1.value[0], "the observation handed out before")
        ok1, raises = V.method(s, E.env, "step", E.action)
        if not V.normal("step %d" % (k + 1), ok1):
            return
        s = ok1.st
    frame(V, "the actions, the stochastic variables and the vectors handed out before")


def env_state(V):
    envs(V, "state")


def env_list(V):
    envs(V, "list")


PARTS = [rows, network, arguments, transition, reset, env_state, env_list]
