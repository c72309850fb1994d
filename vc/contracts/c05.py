"""C05: StorageUnit.map_pq from the rows of the network description."""
from .devs import *


def make_storage(V, group=True):
    cls = V.get(DEV, "StorageUnit")
    st = V.state()
    base = V.real("baseMVA")
    st.assume(base > 0)
    row, i, b, d = dev_row(V, st, 3, present=("SOC_MAX",))
    L = limits(V, d, base, "des")
    st.assume(des_valid(V, L))
    ids = V.row(st, [b])
    V.on("StorageUnit.__init__")
    V.reach("valid row", st)
    V.eng.solved.clear()
    ok, raises = V.call(st, cls, row, ids, base)
    V.no_raise("valid row", raises)
    if not V.normal("valid row", ok):
        return None
    return ok.st, ok.value, L, d


def storage(V):
    r = make_storage(V)
    if r is None:
        return
    s, dev, L, d = r
    for f, l in (("p_min", "pmin"), ("p_max", "pmax"), ("q_min", "qmin"), ("q_max", "qmax"), ("soc_min", "socmin"),
                 ("soc_max", "socmax"), ("eff", "eff")):
        V.prove("%s in p.u. with its default" % f, s, V.eq(V.attr(s, dev, f), L[l]))
    V.on("StorageUnit.map_pq")
    soc, dt = V.real("soc"), V.real("dt")
    s = s.copy()
    # an earlier use of the unit, with another charge, time step and request
    soc0, dt0 = V.real("soc0"), V.real("dt0")
    V.eng.setattr(s, dev, "soc", soc0)
    s.assume(And(V.le(L["socmin"], soc0), V.le(soc0, L["socmax"]), dt0 > 0))
    s = earlier(V, s, dev, "map_pq", V.real("p_req0"), V.real("q_req0"), dt0)
    if s is None:
        return
    V.eng.setattr(s, dev, "soc", soc)
    s.assume(And(V.le(L["socmin"], soc), V.le(soc, L["socmax"]), dt > 0))
    V.reach("charge within the limits", s)
    s0 = s
    p, q = V.real("p_req"), V.real("q_req")
    ok, raises = V.method(s, dev, "map_pq", p, q, dt)
    V.no_raise("any request", raises)
    if not V.normal("any request", ok):
        return
    s = ok.st
    check_projection(V, s, dev, lambda P, Q: des_region(V, L, soc, dt, P, Q), (p, q))
    V.prove("frame: charge unchanged", s, V.eq(V.attr(s, dev, "soc"), soc))
    # a sustainable point exists for every charge within the limits: P = 0 and an end of [Q-, Q+]
    for nm, c, Q in (("Q+ finite", V.lt(L["qplus"], INF), L["qplus"]),
                     ("Q- finite", V.lt(-INF, L["qminus"]), L["qminus"]),
                     ("both infinite", And(V.eq(L["qplus"], INF), V.eq(L["qminus"], -INF)), 0)):
        for c2, qv in flat_alts(Q):
            if isinstance(qv, float):
                continue
            hyp = And(c, c2)
            if hyp is False:
                continue
            reg = des_region(V, L, soc, dt, z3.RealVal(0), to_real(V.eng.num(qv)))
            for n2, g in reg.items():
                V.prove("idle point (%s) satisfies: %s" % (nm, n2), s0.pc + [b2z(hyp)], g)


PARTS = [storage]
