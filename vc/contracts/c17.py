"""C17: declared operating ranges, on networks of any size with possibly infinite limits."""
from .net import *
from .devs import *
from .c09 import UNITS
from .c05 import make_storage

FREE = (-INF, INF)


def need(V, s, box, key, unit, want, name, cond=None):
    """box[key][unit] == want = (low, high), and low <= high."""
    if cond is not None:
        s = s.copy()
        s.assume(cond)
    r = V.item(s, box, key, unit)
    lo, hi = V.item(s, r, 0), V.item(s, r, 1)
    V.prove("%s [%s] lower end" % (name, unit), s, V.eq(lo, want[0]))
    V.prove("%s [%s] upper end" % (name, unit), s, V.eq(hi, want[1]))
    V.prove("%s [%s] is a range" % (name, unit), s, V.le(lo, hi))


def scaled(V, r, f):
    return (V.mul(r[0], f), V.mul(r[1], f))


def pick(V, s, B_, name):
    k = V.ctx.skolem(B_, name)
    V.ctx.note_index(B_, k)
    s1 = s.copy()
    s1.assume(B_.member(k))
    return k, s1


def check_space(V, N, s, space, busr):
    """`space` holds the documented ranges; busr(k, quantity) = (low, high) in p.u."""
    base = N.baseMVA
    D, S, L = N.DEV, N.BUS, N.BR
    pi = V.ctx.pi
    k, s1 = pick(V, s, S, "bus")
    O = lambda n: N.old(S, k, n)
    for q, u in (("bus_p", "MW"), ("bus_q", "MVAr")):
        r = busr(k, q[-1])
        box = V.item(s1, space, q)
        need(V, s1, box, k, "pu", r, q)
        need(V, s1, box, k, u, scaled(V, r, base), q)
    sl = k == N.slackbus
    vm, va = V.item(s1, space, "bus_v_magn"), V.item(s1, space, "bus_v_ang")
    v = O("v_slack")
    need(V, s1, vm, k, "pu", (v, v), "slack voltage magnitude", sl)
    need(V, s1, vm, k, "kV", scaled(V, (v, v), O("baseKV")), "slack voltage magnitude", sl)
    need(V, s1, va, k, "rad", (0, 0), "slack voltage angle", sl)
    need(V, s1, va, k, "degree", (0, 0), "slack voltage angle", sl)
    for u in ("pu", "kV"):
        need(V, s1, vm, k, u, FREE, "voltage magnitude", Not(sl))
    turn = {"degree": (-180, 180), "rad": (-pi, pi)}
    for u, r in turn.items():
        need(V, s1, va, k, u, r, "voltage angle", Not(sl))
        need(V, s1, V.item(s1, space, "bus_i_ang"), k, u, r, "current angle")
    for u in ("pu", "kA"):
        need(V, s1, V.item(s1, space, "bus_i_magn"), k, u, FREE, "bus current magnitude")
    d, s1 = pick(V, s, D, "dev")
    own = lambda n: (N.old(D, d, n + "_min"), N.old(D, d, n + "_max"))
    for q, f, u, cond in (("dev_p", "p", "MW", None), ("dev_q", "q", "MVAr", None), ("des_soc", "soc", "MWh", N.typ(d) == 3),
                          ("gen_p_max", "p", "MW", N.is_gen(d))):
        box = V.item(s1, space, q)
        V.prove("%s: declared exactly for its devices" % q, s1, V.eq(V.as_bool(V.has(s1, box, d)), True if cond is None else cond))
        need(V, s1, box, d, "pu", own(f), q, cond)
        need(V, s1, box, d, u, scaled(V, own(f), base), q, cond)
    b, s1 = pick(V, s, L, "br")
    key = (N.f(b), N.t(b))
    for q in ("branch_p", "branch_q", "branch_s", "branch_i_magn"):
        for u in UNITS[q]:
            need(V, s1, V.item(s1, space, q), key, u, FREE, q)
    for u, r in turn.items():
        need(V, s1, V.item(s1, space, "branch_i_ang"), key, u, r, "branch_i_ang")
    for q, us in UNITS.items():
        V.prove("every reported quantity is declared (%s)" % q, s, V.has(s, space, q))


def bus_range_facts(V, N):
    G = lambda n, i: V.eng.base_fields[(N.BUS.name, n)].fn(i)
    N.bus_facts.append(lambda i: [b2z(V.le(G(q + "_min", i), G(q + "_max", i))) for q in "pq"])


def state_space(V):
    """get_state_space, given the bus ranges (proved by bus_bounds)."""
    V.on("Simulator.get_state_space")
    st = V.state()
    N = Net(V, st, ext=True)
    bus_range_facts(V, N)
    V.reach("network", st)
    ok, raises = V.method(st, N.sim, "get_state_space")
    V.no_raise("get_state_space", raises)
    if V.normal("get_state_space", ok):
        check_space(V, N, ok.st, ok.value, lambda k, q: (N.old(N.BUS, k, q + "_min"), N.old(N.BUS, k, q + "_max")))


def bus_bounds(V):
    """_compute_bus_bounds: the range of a bus is the sum of the ranges of its devices."""
    for ext in (False, True):
        V.on("Simulator._compute_bus_bounds (%s limits)" % ("possibly infinite" if ext else "finite"))
        st = V.state()
        N = Net(V, st, ext=ext, pre="" if not ext else "x.")
        V.reach("network", st)
        ok, raises = V.method(st, N.sim, "_compute_bus_bounds")
        V.no_raise("_compute_bus_bounds", raises)
        if not V.normal("_compute_bus_bounds", ok):
            continue
        s = ok.st
        k, s1 = pick(V, s, N.BUS, "bus")
        for n in ("p_min", "p_max", "q_min", "q_max"):
            want = N.sum(N.DEV, lambda d: N.old(N.DEV, d, n), lambda d: N.devbus(d) == k, st=s1)
            V.prove("%s is the sum over the devices at the bus" % n, s1, V.eq(N.get(s1, N.BUS, k, n), want))
        for q in "pq":
            V.prove("%s_min <= %s_max" % (q, q), s1, V.le(N.get(s1, N.BUS, k, q + "_min"), N.get(s1, N.BUS, k, q + "_max")))
        d, s1 = pick(V, s, N.DEV, "dev")
        for n in ("p_min", "p_max", "q_min", "q_max"):
            V.prove("frame: %s of every device unchanged" % n, s1, V.eq(N.get(s1, N.DEV, d, n), N.old(N.DEV, d, n)))


def rendering(V):
    V.on("Simulator.get_rendering_specs")
    st = V.state()
    N = Net(V, st, ext=True)
    bus_range_facts(V, N)
    ok0, r0 = V.method(st, N.sim, "get_state_space")
    if not V.normal("get_state_space", ok0):
        return
    st = ok0.st
    V.eng.setattr(st, N.sim, "state_bounds", ok0.value)
    ok, raises = V.method(st, N.sim, "get_rendering_specs")
    V.no_raise("get_rendering_specs", raises)
    if not V.normal("get_rendering_specs", ok):
        return
    s, sp = ok.st, ok.value
    N.bus_facts.append(lambda i: [b2z(V.le(N.old(N.BUS, i, "v_min"), N.old(N.BUS, i, "v_max")))])
    N.br_facts.append(lambda b: [b2z(V.le(0, N.old(N.BR, b, "rate")))])
    k, s1 = pick(V, s, N.BUS, "bus")
    r = (N.old(N.BUS, k, "v_min"), N.old(N.BUS, k, "v_max"))
    need(V, s1, V.item(s1, sp, "bus_v"), k, "pu", r, "displayed voltage limits")
    need(V, s1, V.item(s1, sp, "bus_v"), k, "kV", scaled(V, r, N.old(N.BUS, k, "baseKV")), "displayed voltage limits")
    for q, u in (("bus_p", "MW"), ("bus_q", "MVAr")):
        r = (N.old(N.BUS, k, q[-1] + "_min"), N.old(N.BUS, k, q[-1] + "_max"))
        need(V, s1, V.item(s1, sp, q), k, "pu", r, "displayed " + q)
        need(V, s1, V.item(s1, sp, q), k, u, scaled(V, r, N.baseMVA), "displayed " + q)
    b, s1 = pick(V, s, N.BR, "br")
    key, r = (N.f(b), N.t(b)), (0, N.old(N.BR, b, "rate"))
    need(V, s1, V.item(s1, sp, "branch_s"), key, "pu", r, "displayed line rating")
    need(V, s1, V.item(s1, sp, "branch_s"), key, "MVA", scaled(V, r, N.baseMVA), "displayed line rating")
    d, s1 = pick(V, s, N.DEV, "dev")
    V.prove("displayed device type", s1, V.eq(V.item(s1, sp, "dev_type", d), N.typ(d)))
    for q, f, u, cond in (("dev_p", "p", "MW", None), ("dev_q", "q", "MVAr", None), ("des_soc", "soc", "MWh", N.typ(d) == 3)):
        r = (N.old(N.DEV, d, f + "_min"), N.old(N.DEV, d, f + "_max"))
        need(V, s1, V.item(s1, sp, q), d, "pu", r, "displayed " + q, cond)
        need(V, s1, V.item(s1, sp, q), d, u, scaled(V, r, N.baseMVA), "displayed " + q, cond)


def penalty(V):
    """The penalty uses the displayed limits (contract of C07)."""
    from .c07 import PARTS as P7
    for p in P7:
        p(V)


def own_ranges(V):
    """The ranges the constructors give to every kind of device."""
    for typ, cname in ((-1, "Load"), (0, "ClassicalGen"), (1, "ClassicalGen"), (2, "RenewableGen")):
        kind = "load" if typ == -1 else "gen"
        V.on("%s.__init__ (DEV_TYPE %d)" % (cname, typ))
        cls = V.get(DEV, cname)
        st = V.state()
        base = V.real("baseMVA")
        st.assume(base > 0)
        row, i, b, d = dev_row(V, st, typ, present=("Q/P",) if typ == -1 else (), pre="r%d." % typ)
        L = limits(V, d, base, kind, typ == 0)
        if typ == -1:
            st.assume(And(V.le(L["pmin"], L["pmax"]), V.le(L["pmax"], 0)))
        else:
            st.assume(gen_valid(V, L, typ == 0))
        V.reach("valid row", st)
        ok, raises = V.call(st, cls, row, V.row(st, [b]), base)
        V.no_raise("valid row", raises)
        if not V.normal("valid row", ok):
            continue
        s, dev = ok.st, ok.value
        A = lambda n: V.attr(s, dev, n)
        V.prove("active range", s, And(V.eq(A("p_min"), L["pmin"]), V.eq(A("p_max"), L["pmax"]), V.le(A("p_min"), A("p_max"))))
        if typ == -1:
            x = d["Q/P"]
            ends = [V.mul(L["pmin"], x), V.mul(L["pmax"], x)]
            z = z3.And(x == 0)
            for nm, c, lo, hi in (("positive ratio", x > 0, *ends), ("negative ratio", x < 0, ends[1], ends[0])):
                s1 = s.copy()
                s1.assume(c)
                V.prove("reactive range of a load (%s)" % nm, s1, And(V.eq(A("q_min"), lo), V.eq(A("q_max"), hi)))
            s1 = s.copy()
            s1.assume(z)
            V.prove("reactive range of a load (zero ratio)", s1, And(V.eq(A("q_min"), 0), V.eq(A("q_max"), 0)))
            V.prove("reactive range is a range", s, V.le(A("q_min"), A("q_max")))
        else:
            V.prove("reactive range", s, And(V.eq(A("q_min"), L["qmin"]), V.eq(A("q_max"), L["qmax"]), V.le(A("q_min"), A("q_max"))))
    r = make_storage(V)
    if r is None:
        return
    s, dev, L, d = r
    V.on("StorageUnit.__init__")
    for f, l in (("p", "p"), ("q", "q"), ("soc", "soc")):
        lo, hi = V.attr(s, dev, f + "_min"), V.attr(s, dev, f + "_max")
        V.prove("%s range" % f, s, And(V.eq(lo, L[l + "min"]), V.eq(hi, L[l + "max"]), V.le(lo, hi)))


PARTS = [own_ranges, bus_bounds, state_space, rendering, penalty]
