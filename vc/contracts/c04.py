"""C04: Load.map_pq, Generator.map_pq (devices.py), from the rows of the network description."""
from .devs import *


def load(V):
    cls = V.get(DEV, "Load")
    st = V.state()
    base = V.real("baseMVA")
    st.assume(base > 0)
    row, i, b, d = dev_row(V, st, -1, present=("Q/P",))
    L = limits(V, d, base, "load")
    st.assume(And(V.le(L["pmin"], L["pmax"]), V.le(L["pmax"], 0)))
    ids = V.row(st, [b])
    V.on("Load.__init__")
    V.reach("valid row", st)
    ok, raises = V.call(st, cls, row, ids, base)
    V.no_raise("valid row", raises)
    if not V.normal("valid row", ok):
        return
    s, dev = ok.st, ok.value
    A = lambda n: V.attr(s, dev, n)
    V.prove("active range in p.u.", s, And(V.eq(A("p_min"), L["pmin"]), V.eq(A("p_max"), L["pmax"])))
    V.prove("fixed ratio kept", s, V.eq(A("qp_ratio"), d["Q/P"]))
    V.on("Load.map_pq")
    s = earlier(V, s, dev, "map_pq", V.real("p_req0"))
    if s is None:
        return
    p = V.real("p_req")
    ok, raises = V.method(s, dev, "map_pq", p)
    V.no_raise("any request", raises)
    if V.normal("any request", ok):
        s = ok.st
        P, Q = V.attr(s, dev, "p"), V.attr(s, dev, "q")
        V.reach("mapped", s)
        V.prove("p within the range", s, And(V.le(L["pmin"], P), V.le(P, L["pmax"])))
        V.prove("an admissible request is realised", s.pc + [b2z(And(V.le(L["pmin"], p), V.le(p, L["pmax"])))], V.eq(P, p))
        V.prove("a request below the range is raised to its lower end", s.pc + [b2z(V.lt(p, L["pmin"]))], V.eq(P, L["pmin"]))
        V.prove("a request above the range is lowered to its upper end", s.pc + [b2z(V.lt(L["pmax"], p))], V.eq(P, L["pmax"]))
        V.prove("reactive power in the fixed ratio", s, V.eq(Q, V.mul(P, d["Q/P"])))


def generator(V, typ, cname):
    cls = V.get(DEV, cname)
    st = V.state()
    base = V.real("baseMVA")
    st.assume(base > 0)
    slack = typ == 0
    row, i, b, d = dev_row(V, st, typ)
    L = limits(V, d, base, "gen", slack)
    st.assume(gen_valid(V, L, slack))
    ids = V.row(st, [b])
    V.on("%s.__init__" % cname)
    V.reach("valid row", st)
    V.eng.solved.clear()
    ok, raises = V.call(st, cls, row, ids, base)
    V.no_raise("valid row", raises)
    if not V.normal("valid row", ok):
        return
    s, dev = ok.st, ok.value
    A = lambda n: V.attr(s, dev, n)
    for f, l in (("p_min", "pmin"), ("p_max", "pmax"), ("q_min", "qmin"), ("q_max", "qmax")):
        V.prove("%s in p.u. with its default" % f, s, V.eq(A(f), L[l]))
    V.prove("available power starts at the upper limit", s, V.eq(A("p_pot"), L["pmax"]))
    if slack:
        return
    # an earlier use of the device, with another available power and request
    V.on("%s.map_pq" % cname)
    ok0, r0 = V.run(s, lambda x: V.eng.setattr(x, dev, "p_pot", V.real("pot0")))
    V.no_raise("earlier available power", r0)
    s = earlier(V, ok0.st, dev, "map_pq", V.real("p_req0"), V.real("q_req0"))
    if s is None:
        return
    V.on("%s.p_pot" % cname)
    pot = V.real("pot")
    ok2, r2 = V.run(s, lambda x: V.eng.setattr(x, dev, "p_pot", pot))
    V.no_raise("any available power", r2)
    pp = V.attr(ok2.st, dev, "p_pot")
    V.prove("limited to the active range", ok2, And(V.le(L["pmin"], pp), V.le(pp, L["pmax"])))
    V.prove("kept when admissible", ok2.pc + [b2z(And(V.le(L["pmin"], pot), V.le(pot, L["pmax"])))], V.eq(pp, pot))
    V.prove("raised to PMIN", ok2.pc + [b2z(V.lt(pot, L["pmin"]))], V.eq(pp, L["pmin"]))
    V.prove("lowered to PMAX", ok2.pc + [b2z(V.lt(L["pmax"], pot))], V.eq(pp, L["pmax"]))
    V.on("%s.map_pq" % cname)
    p, q = V.real("p_req"), V.real("q_req")
    s = ok2.st
    ok, raises = V.method(s, dev, "map_pq", p, q)
    V.no_raise("any request", raises)
    if V.normal("any request", ok):
        s = ok.st
        V.reach("mapped", s)
        check_projection(V, s, dev, lambda P, Q: gen_region(V, L, pp, P, Q), (p, q))
        V.prove("frame: available power unchanged", s, V.eq(V.attr(s, dev, "p_pot"), pp))


def classical(V):
    generator(V, 1, "ClassicalGen")


def renewable(V):
    generator(V, 2, "RenewableGen")


def slack(V):
    generator(V, 0, "ClassicalGen")


PARTS = [load, classical, renewable, slack]
