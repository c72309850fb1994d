"""C02: _build_admittance_matrix for an arbitrary network: Kirchhoff's current law at every bus."""
from .net import *


def contributions(V, o, base):
    """The matrix as a list of (base or None, var, cond, op, (row, col), value) over a zero matrix."""
    out = []

    def go(ovs, g):
        for e in ovs:
            if e[0] == "one":
                out.append((None, None, g, e[1], e[2], e[3]))
            elif e[0] == "for":
                _, b, var, cond, op, kk, x = e
                out.append((b, var, And(g, cond), op, kk, x))
            elif e[0] == "if":
                go(e[2], And(g, e[1]))
                go(e[3], And(g, Not(e[1])))
            else:
                raise Unsupported("matrix overlay %s" % e[0])
    go(o.overlays, True)
    return out


def at(c, b):
    """Contribution c at the branch b: (cond, (row, col), value)."""
    _, var, cond, op, kk, x = c
    p = [(var, b)]
    return subst(cond, p), tuple(subst(k, p) for k in kk), subst(x, p)


def cell_eq(V, a, b):
    return And(*[V.eq(x, y) for x, y in zip(a, b)])


def kirchhoff(V):
    V.on("Simulator._build_admittance_matrix")
    st = V.state()
    N = Net(V, st)
    BR, BUS = N.BR, N.BUS
    V.reach("network", st)
    ok, raises = V.method(st, N.sim, "_build_admittance_matrix")
    V.no_raise("any network", raises)
    if not V.normal("any network", ok):
        return
    s = ok.st
    o = V.eng.obj(s, ok.value)
    if o is None or o.kind != "mat":
        raise Unsupported("the admittance matrix is not a matrix of the model")
    k = V.ctx.skolem(BUS, "bus")
    V.ctx.note_index(BUS, k)
    s = s.copy()
    s.assume(BUS.member(k))
    V.prove("it has a row and a column for every bus", s, And(V.lt(k, o.rows), V.lt(k, o.cols)))
    i, j = z3.Int("i!row"), z3.Int("i!col")
    V.prove("entries without a line are zero", s, V.eq(o.entry(i, j), 0))
    cs = contributions(V, o, BR)
    if any(c[0] is not BR for c in cs):
        raise Unsupported("matrix filled outside a loop over the lines")
    # every cell is written by assignment at most once, and never both assigned and added to,
    # so that the matrix is the sum of the contributions of the lines
    x, y = V.ctx.skolem(BR, "line"), V.ctx.skolem(BR, "other")
    for b in (x, y):
        V.ctx.note_index(BR, b)
    pair = s.copy()
    pair.assume(BR.member(x))
    pair.assume(BR.member(y))
    for f in BR.inj(x, y):
        pair.assume(f)
    for m, a in enumerate(cs):
        if a[3] != "set":
            continue
        ca, ka, _ = at(a, x)
        for n, c in enumerate(cs):
            cc, kc, _ = at(c, y)
            clash = And(ca, cc, cell_eq(V, ka, kc))
            V.prove("cells assigned by statement %d are not touched by statement %d" % (m, n), pair,
                    Implies(clash, x == y) if m == n else Not(clash))
    V.prove("the matrix is the sum of contributions of the lines", s, len(cs) > 0)
    # row k times an arbitrary voltage vector, contribution by contribution: for each line the sum of its
    # contributions is the current the line draws from bus k.  (Y v)_k = sum over the lines by exchanging
    # the two finite sums.
    vr, vi = z3.Function("v.re", I, R), z3.Function("v.im", I, R)
    v = lambda n: CNum(vr(to_z3(n)), vi(to_z3(n)))
    b = V.ctx.skolem(BR, "line")
    V.ctx.note_index(BR, b)
    sb = s.copy()
    sb.assume(BR.member(b))
    f, t = N.f(b), N.t(b)
    F = lambda n: N.old(BR, b, n)
    ys, ysh, a = F("series"), F("shunt"), F("tap")
    vp = V.div(v(f), a)
    i_from = V.div(V.add(V.mul(ysh, vp), V.mul(ys, V.sub(vp, v(t)))), V.conj(a))
    i_to = V.add(V.mul(ysh, v(t)), V.mul(ys, V.sub(v(t), vp)))
    for nm, hyp, want in (("sending bus", k == f, i_from), ("receiving bus", k == t, i_to), ("other buses", And(k != f, k != t), CNum(0, 0))):
        s1 = sb.copy()
        s1.assume(hyp)
        re, im = 0, 0
        for c in cs:
            cc, kk, val = at(c, b)
            V_ = V.mul(val, v(kk[1]))
            g = V.eng.decide(s1, And(cc, V.eq(kk[0], k)))
            if g is False:
                continue
            if g is not True:
                raise Unsupported("contribution of a line to an undetermined row")
            z = V.eng.cplx(V_)
            re, im = V.add(re, z.re), V.add(im, z.im)
        V.prove("contributions of a line to the current at its %s" % nm, s1, V.eq(CNum(re, im), want))
        for c in cs:
            cc, kk, val = at(c, b)
            if V.eng.decide(s1, And(cc, V.eq(kk[0], k))) is True:
                V.prove("the contribution multiplies a bus voltage (%s)" % nm, s1, BUS.member(to_z3(kk[1])))
    V.assumptions.append("finite sums may be exchanged: sum_j (sum_b [row(b)=k, col(b)=j] y(b)) v(j) = sum_b [row(b)=k] y(b) v(col(b))")
    # the line currents the simulator reports are those of the same formula
    V.on("TransmissionLine.compute_currents, lines of the network")
    st = V.state()
    N.sim  # same network
    ok, raises = V.method(sb, Elem(BR, b), "compute_currents", v(f), v(t))
    V.no_raise("compute_currents", raises)
    if V.normal("compute_currents", ok):
        s2 = ok.st
        V.prove("reported sending-end current", s2, V.eq(N.get(s2, BR, b, "i_from"), i_from))
        V.prove("reported receiving-end current", s2, V.eq(N.get(s2, BR, b, "i_to"), i_to))


def line_model(V):
    from .c01 import obligations
    obligations(V)


PARTS = [kirchhoff, line_model]
