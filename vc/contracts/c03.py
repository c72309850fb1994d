"""C03: the load flow (solve_load_flow.py) and the transition around it, for any network."""
from .net import *
from ..ghost import GVec, VEC, absmax, identical
from ..values import *

SLF = "gym_anm.simulator.solve_load_flow"
FV = z3.Function("f_", VEC, VEC, VEC, VEC, R, VEC)      # the contract of _f: a function of its arguments
JAC = z3.Function("dfdx_", VEC, VEC, R, VEC)


def gargs(names, a, k, defaults):
    out = []
    for n, nm in enumerate(names):
        out.append(a[n] if n < len(a) else k[nm] if nm in k else defaults[nm])
    return out


def newton(V):
    """_newton_raphson_sparse: whatever the iterates are, the returned error is the largest mismatch
    of the returned vector and convergence is not claimed for a non-finite one."""
    fn = V.get(SLF, "_newton_raphson_sparse")
    V.on("_newton_raphson_sparse")
    eng, ctx = V.eng, V.ctx
    st = V.state()
    v0, p, q, Y = [GVec(z3.Const(n, VEC)) for n in ("v0", "p", "q", "Y")]
    tol, vs = V.real("tol"), V.real("vs")
    lim = V.int("lim")

    def f_(eng, st, fv, a, k):
        g, p_, q_, Y_, s_ = gargs(("guess", "p", "q", "Y", "v_slack"), a, k, {"v_slack": 1})
        if not all(isinstance(x, GVec) for x in (g, p_, q_, Y_)):
            return NotImplemented
        return GVec(FV(g.term, p_.term, q_.term, Y_.term, to_real(s_)))

    def jac(eng, st, fv, a, k):
        g, Y_, s_ = gargs(("guess", "Y", "v_slack"), a, k, {"v_slack": 1})
        if not all(isinstance(x, GVec) for x in (g, Y_)):
            return NotImplemented
        return GVec(JAC(g.term, Y_.term, to_real(s_)))

    def solve(eng, st, a, k):
        c = ctx.fresh("singular", z3.BoolSort())
        eng.raise_if(st, c, "RuntimeError", "the factorisation failed")
        return GVec(z3.Const(ctx.fresh_name("step"), VEC))
    eng.contracts[SLF + "._f"] = f_
    eng.contracts[SLF + "._dfdx"] = jac
    eng.spsolve = solve
    eng.trusted |= {"scipy spsolve: any vector or a RuntimeError", "numpy.linalg.norm(., inf): largest absolute entry, nan if an entry is nan"}
    ok, raises = V.call(st, fn, v0, p, q, Y, x_tol=tol, lim_iter=lim, v_slack=vs)
    for n in ("_f", "_dfdx"):
        eng.contracts.pop(SLF + "." + n)
    eng.spsolve = None
    V.no_raise("any vectors", raises)
    if not V.normal("any vectors", ok):
        return
    s = ok.st
    r = ok.value
    v, n, diff, conv = r
    sc = s.copy()
    sc.assume(b2z(eng.truth(s, conv)))
    V.reach("converged", sc)
    F = absmax(eng, FV(v.term, p.term, q.term, Y.term, to_real(vs)))
    V.prove("the returned error is the largest mismatch of the returned vector", s, identical(diff, F))
    isnan_ = Or(*[c for c, x in flat_alts(diff) if isinstance(x, float) and x != x])
    cv = eng.truth(s, conv)
    V.prove("a non-finite mismatch is not convergence", s, Implies(isnan_, Not(cv)))
    V.prove("a finite mismatch is reported as such", s, Implies(Not(isnan_), cv))


PARTS = [newton]


def solve(V):
    V.on("solve_pfe_newton_raphson")
    fn = V.get(SLF, "solve_pfe_newton_raphson")
    f_ = V.get(SLF, "_f")
    eng, ctx = V.eng, V.ctx
    st = V.state()
    N = Net(V, st)
    BUS = N.BUS
    nb = ctx.count(BUS)
    st.assume(nb >= 2)
    Yr, Yi = z3.Function("Y.re", I, I, R), z3.Function("Y.im", I, I, R)
    Y = lambda i, j: CNum(Yr(to_z3(i), to_z3(j)), Yi(to_z3(i), to_z3(j)))
    size = z3.Int("Y.size")
    st.assume(size >= 1)
    N.bus_facts.append(lambda i: [i < size])
    ym = eng.alloc(st, MatO(size, size, Y, (), "sparse"))
    eng.setattr(st, N.sim, "Y_bus", ym)
    tol = V.real("xtol")
    st.assume(tol > 0)
    g = z3.Function("iterate", I, R)
    diff = Choice([(z3.Bool("diff.nan"), float("nan")), (And(Not(z3.Bool("diff.nan")), z3.Bool("diff.inf")), INF),
                   (And(Not(z3.Bool("diff.nan")), Not(z3.Bool("diff.inf"))), z3.Real("diff"))])
    conv = Not(z3.Bool("diff.nan"))
    call = {}

    def newton_(eng, st, fv, a, k):
        vg, p, q, Ym, xt, lim, vs = gargs(("v_guess", "p", "q", "Y", "x_tol", "lim_iter", "v_slack"), a, k, {"x_tol": Fraction(1, 10**10), "lim_iter": 100, "v_slack": 1})
        n2 = eng.seq_len(st, eng.lib.seq_of(eng, st, vg))
        v = eng.lib.new_arr(eng, st, [Fn(n2, lambda i: g(to_z3(i)))])
        call.update(st=st.copy(), v=v, p=p, q=q, Y=Ym, tol=xt, vs=vs, n2=n2, vg=vg)
        return (v, z3.Int("n_iter"), diff, conv)
    eng.contracts[SLF + "._newton_raphson_sparse"] = newton_
    ok, raises = V.call(st, fn, N.sim, xtol=tol)
    eng.contracts.pop(SLF + "._newton_raphson_sparse")
    V.no_raise("any network", raises)
    if not V.normal("any network", ok):
        return
    s = ok.st
    V.reach("solved", s)
    stable = b2z(eng.truth(s, ok.value[1]))
    V.prove("convergence is reported exactly when the final mismatch is finite and within the tolerance", s,
            stable == b2z(ok_diff(V, diff, tol)))
    k = ctx.skolem(BUS, "bus")
    ctx.note_index(BUS, k)
    v = lambda i: N.get(s, BUS, i, "v")
    sl = N.slackbus
    vs = N.old(BUS, sl, "v_slack")
    V.prove("the slack bus sits at its fixed voltage and angle zero", s, V.eq(v(sl), CNum(vs, 0)))
    s1 = s.copy()
    s1.assume(BUS.member(k))
    j = ctx.index_var(BUS)
    want = V.add(V.mul(Y(k, sl), v(sl)), eng.agg_sum(s, BUS, j, j != sl, V.mul(Y(k, j), v(j))))
    for nm, h in (("slack bus", k == sl), ("other buses", k != sl)):
        sk = s1.copy()
        sk.assume(h)
        V.prove("bus currents are the admittance matrix times the reported voltages: " + nm, sk, V.eq(N.get(sk, BUS, k, "i"), want))
    # the contract of _newton_raphson_sparse: diff is the largest entry of the real _f of the returned vector
    s2 = s1.copy()
    s2.assume(k != sl)
    s2.assume(stable)
    c = dict(call)
    f = c.pop("st")
    ok2, raises2 = V.call(f, f_, c["v"], c["p"], c["q"], c["Y"], c["vs"])
    V.on("_f")
    V.no_raise("arguments handed on by the iteration", raises2)
    if not V.normal("arguments handed on by the iteration", ok2):
        return
    F = eng.lib.seq_of(eng, ok2.st, ok2.value)
    size2 = eng.seq_len(ok2.st, F)
    V.prove("one mismatch per unknown", ok2.st, V.eq(size2, c["n2"]))
    dm = z3.Real("diff")
    for ch in F:
        if not (isinstance(ch, For) and ch.base is BUS and len(ch.items) == 1):
            raise Unsupported("shape of the mismatch vector %r" % (F,))
        x = subst(ch.items[0].v, [(ch.var, k)])
        g = subst(ch.cond, [(ch.var, k)])
        s2.assume(Implies(g, And(V.le(x, dm), V.le(V.mul(-1, x), dm))))
    V.on("solve_pfe_newton_raphson")
    V.reach("converged", s2)
    S_ = V.mul(N.get(s, BUS, k, "v"), V.conj(N.get(s, BUS, k, "i")))
    S_ = eng.cplx(S_)
    for part, nm in ((S_.re, "p"), (S_.im, "q")):
        m = V.sub(part, N.old(BUS, k, nm))
        V.prove("converged: %s balances at every non-slack bus within the tolerance" % nm, s2,
                And(V.le(m, tol), V.le(V.mul(-1, m), tol)))
    # injections
    s3 = s1.copy()
    s3.assume(k != sl)
    for n in ("p", "q"):
        V.prove("the %s of non-slack buses is not touched" % n, s3, V.eq(N.get(s, BUS, k, n), N.old(BUS, k, n)))
    Ss = eng.cplx(V.mul(v(sl), V.conj(N.get(s, BUS, sl, "i"))))
    V.prove("the slack bus takes the power the network draws there", s,
            And(V.eq(N.get(s, BUS, sl, "p"), Ss.re), V.eq(N.get(s, BUS, sl, "q"), Ss.im)))
    V.prove("the slack device supplies it", s,
            And(V.eq(N.get(s, N.DEV, N.slackdev, "p"), Ss.re), V.eq(N.get(s, N.DEV, N.slackdev, "q"), Ss.im)))
    d = ctx.skolem(N.DEV, "dev")
    ctx.note_index(N.DEV, d)
    s4 = s.copy()
    s4.assume(N.DEV.member(d))
    s4.assume(d != N.slackdev)
    V.prove("other devices keep their set points", s4, And(*[V.eq(N.get(s, N.DEV, d, n), N.old(N.DEV, d, n)) for n in ("p", "q", "soc", "_p_pot")]))
    V.prove("bus voltage limits and set points are not touched", s1,
            And(*[V.eq(N.get(s, BUS, k, n), N.old(BUS, k, n)) for n in ("v_slack", "v_min", "v_max", "baseKV", "p_min", "p_max", "q_min", "q_max")]))
    # lines
    b = ctx.skolem(N.BR, "line")
    ctx.note_index(N.BR, b)
    s5 = s.copy()
    s5.assume(N.BR.member(b))
    O = lambda n: N.old(N.BR, b, n)
    G = lambda n: N.get(s, N.BR, b, n)
    vf, vt = v(N.f(b)), v(N.t(b))
    vp = V.div(vf, O("tap"))
    i_f = V.div(V.add(V.mul(O("shunt"), vp), V.mul(O("series"), V.sub(vp, vt))), V.conj(O("tap")))
    i_t = V.add(V.mul(O("shunt"), vt), V.mul(O("series"), V.sub(vt, vp)))
    V.prove("line currents are those of the reported voltages", s5, And(V.eq(G("i_from"), i_f), V.eq(G("i_to"), i_t)))
    for e, x in (("from", vf), ("to", vt)):
        pw = eng.cplx(V.mul(x, V.conj(G("i_" + e))))
        V.prove("line power at the %s end is that of the reported voltages" % e, s5,
                And(V.eq(G("p_" + e), pw.re), V.eq(G("q_" + e), pw.im)))


def ok_diff(V, diff, tol):
    """diff is a finite number within the tolerance."""
    return Or(*[And(c, V.le(x, tol)) for c, x in flat_alts(diff) if not isinstance(x, float)])


def around(V):
    """Simulator.transition hands the sums of the device injections to the load flow."""
    from . import trans
    V.on("Simulator.transition")
    r = trans.run_transition(V)
    if r is None:
        return
    N, C, inp, st, ok = r
    trans.check_flow_call(V, N, C, ok.st)
    conv = V.attr(ok.st, N.sim, "pfe_converged")
    V.prove("the reported convergence is the one of the load flow", ok.st,
            V.as_bool(conv) == z3.Bool("flow1.converged"))
    k = V.ctx.skolem(N.BUS, "bus")
    V.ctx.note_index(N.BUS, k)
    s = ok.st.copy()
    s.assume(N.BUS.member(k))
    s.assume(k != N.slackbus)
    pre = C.flow_calls[0][0]
    for n in ("p", "q"):
        V.prove("the reported bus %s is the one the load flow was solved for" % n, s, V.eq(N.get(s, N.BUS, k, n), N.get(pre, N.BUS, k, n)))


PARTS = [newton, solve, around]
