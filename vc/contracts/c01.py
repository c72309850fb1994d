"""C01: TransmissionLine (branch.py)."""
from ..spec import *

MOD = "gym_anm.simulator.components.branch"


def line_row(V, st, pre=""):
    """A symbolic branch row [F_BUS T_BUS BR_R BR_X BR_B RATE TAP SHIFT]."""
    f, t = V.int(pre + "f"), V.int(pre + "t")
    d = dict(r=V.opt(pre + "r"), x=V.opt(pre + "x"), b=V.opt(pre + "b"), rate=V.opt(pre + "rate", inf=1),
             tap=V.opt(pre + "tap"), shift=V.opt(pre + "shift"))
    row = V.row(st, [f, t, d["r"], d["x"], d["b"], d["rate"], d["tap"], d["shift"]])
    return row, f, t, d


def admissible(V, d):
    r, x, b, tap, sh = (V.default(d["r"], 0), V.default(d["x"], 0), V.default(d["b"], 0), V.default(d["tap"], 1),
                        V.default(d["shift"], 0))
    rate = V.default(d["rate"], INF)
    return And(V.le(0, r), V.le(0, x), Not(And(V.eq(r, 0), V.eq(x, 0))), V.le(0, b), V.lt(0, tap), V.le(0, sh),
               V.le(sh, 360), V.le(0, rate))


def obligations(V):
    cls = V.get(MOD, "TransmissionLine")
    st = V.state()
    row, f, t, d = line_row(V, st)
    base = V.real("baseMVA")
    st.assume(base > 0)
    ids = V.row(st, [f, t])
    st.assume(admissible(V, d))
    V.reach("admissible row", st)

    V.on("TransmissionLine.__init__")
    ok, raises = V.call(st, cls, row, base, ids)
    V.no_raise("admissible line", raises)
    if not V.normal("admissible line", ok):
        return
    V.reach("constructed", ok)
    s, line = ok.st, ok.value
    r, x, b = V.default(d["r"], 0), V.default(d["x"], 0), V.default(d["b"], 0)
    tap, shift = V.default(d["tap"], 1), V.default(d["shift"], 0)
    A = lambda n: V.attr(s, line, n)
    z = CNum(r, x)
    V.prove("series admittance is 1/(r+jx)", s, V.eq(V.mul(A("series"), z), CNum(1, 0)))
    V.prove("shunt admittance is jb/2", s, V.eq(A("shunt"), CNum(0, V.div(b, 2))))
    th = V.div(V.mul(shift, V.ctx.pi), 180)
    cos, sin = z3.Function("cos_", R, R), z3.Function("sin_", R, R)
    th_ = to_real(th)
    V.prove("tap is tau*exp(j*shift)", s, V.eq(A("tap"), CNum(V.mul(tap, cos(th_)), V.mul(tap, sin(th_)))))
    V.prove("rating in p.u.", s, V.eq(A("rate"), V.div(V.default(d["rate"], INF), base)))
    V.prove("end buses", s, And(V.eq(A("f_bus"), f), V.eq(A("t_bus"), t)))

    # currents, flows: the line just built, whose admittances and tap get a name, after an earlier use with other voltages
    V.on("TransmissionLine.compute_currents")
    ys, ysh, a = A("series"), A("shunt"), A("tap")
    vf, vt = V.cplx("vf"), V.cplx("vt")
    for m in ("compute_currents", "compute_power_flows"):
        ok, raises = V.method(s, line, m, V.cplx("vf0"), V.cplx("vt0"))
        V.no_raise("earlier voltages", raises)
        if not V.normal("earlier voltages", ok):
            return
        s = ok.st
    used = s
    st = s.copy()
    ok, raises = V.method(st, line, "compute_currents", vf, vt)
    V.no_raise("any voltages", raises)
    if V.normal("any voltages", ok):
        s = ok.st
        A = lambda n: V.attr(s, line, n)
        ytot = V.add(ys, ysh)
        # ideal transformer: v' = vf / a, i' ; i_from = i' / conj(a)
        vp = V.div(vf, a)
        ip = V.add(V.mul(ysh, vp), V.mul(ys, V.sub(vp, vt)))
        V.prove("sending-end current of the pi-model behind the ideal transformer", s,
                V.eq(A("i_from"), V.div(ip, V.conj(a))))
        it = V.add(V.mul(ysh, vt), V.mul(ys, V.sub(vt, vp)))
        V.prove("receiving-end current of the pi-model", s, V.eq(A("i_to"), it))
        V.prove("frame: series, shunt, tap unchanged", s,
                And(V.eq(A("series"), ys), V.eq(A("shunt"), ysh), V.eq(A("tap"), a)))
    V.on("TransmissionLine.compute_power_flows")
    st = used.copy()
    i_f, i_t = V.cplx("if"), V.cplx("it")
    V.eng.setattr(st, line, "i_from", i_f)
    V.eng.setattr(st, line, "i_to", i_t)
    ok, raises = V.method(st, line, "compute_power_flows", vf, vt)
    V.no_raise("any voltages", raises)
    if V.normal("any voltages", ok):
        s = ok.st
        A = lambda n: V.attr(s, line, n)
        sf, s_t = V.mul(vf, V.conj(i_f)), V.mul(vt, V.conj(i_t))
        V.prove("p_from + j q_from = v_f conj(i_from)", s, V.eq(CNum(A("p_from"), A("q_from")), sf))
        V.prove("p_to + j q_to = v_t conj(i_to)", s, V.eq(CNum(A("p_to"), A("q_to")), s_t))
        mf, mt = V.cabs(sf), V.cabs(s_t)
        m = z3.If(mf >= mt, mf, mt)
        sam = A("s_apparent_max")
        V.prove("apparent flow is the larger end, signed by p_from (positive)", s.pc + [to_real(sf.re) > 0], V.eq(sam, m))
        V.prove("apparent flow is the larger end, signed by p_from (negative)", s.pc + [to_real(sf.re) < 0],
                V.eq(sam, -m))
        V.prove("frame: currents unchanged", s, And(V.eq(A("i_from"), i_f), V.eq(A("i_to"), i_t)))


PARTS = [obligations]
