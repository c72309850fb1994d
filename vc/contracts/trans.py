"""Contracts used at call sites inside Simulator.transition / reset, and symbolic transitions."""
from .net import *

DEVQ = "gym_anm.simulator.components.devices."
SLF = "gym_anm.simulator.solve_load_flow.solve_pfe_newton_raphson"


def args_of(eng, st, fv, args, kw):
    return eng.bind_args(st, fv, args, kw)


class Contracts:
    """map_pq of generators and storage units (decided by C04/C05) and the load flow (C03)."""

    def __init__(self, V, N, pq=True, flow=True):
        self.V, self.N = V, N
        eng = V.eng
        self.flow_calls = []
        D = N.DEV
        mk = lambda n, k: z3.Function(n, *([I] + [R] * k + [R]))
        self.GP, self.GQ = mk("gen.map_pq.p", 3), mk("gen.map_pq.q", 3)
        self.SP, self.SQ = mk("des.map_pq.p", 4), mk("des.map_pq.q", 4)
        self.nflow = 0
        if pq:
            eng.contracts[DEVQ + "Generator.map_pq"] = self.gen
            eng.contracts[DEVQ + "StorageUnit.map_pq"] = self.des
            eng.trusted.add("callee contract: Generator.map_pq projects on the region of C04, StorageUnit.map_pq on the region of C05 (discharged by those checks)")
        if flow:
            eng.contracts[SLF] = self.flow
            eng.trusted.add("callee contract: solve_pfe_newton_raphson writes only bus v, i, slack p, q, branch flows (discharged by C03)")

    def real(self, v):
        if isinstance(v, Choice) or not is_num(self.V.eng.num(v)):
            raise Unsupported("set-point %r" % (v,))
        return to_real(self.V.eng.num(v))

    def gen(self, eng, st, fv, args, kw):
        env = args_of(eng, st, fv, args, kw)
        dev = env["self"]
        if not isinstance(dev, Elem):
            return NotImplemented
        names = [x.arg for x in fv.node.args.args]
        p, q = self.real(env[names[1]]), self.real(env[names[2]])
        pot = self.real(eng.getattr(st, dev, "p_pot"))
        i = dev.idx
        G = lambda n: eng.getattr(st, dev, n)
        P, Q = self.GP(i, p, q, pot), self.GQ(i, p, q, pot)
        V = self.V
        pre = And(self.N.DEV.member(i), V.le(G("p_min"), pot))
        eng.ctx.add_fact(Implies(pre, And(V.le(G("p_min"), P), V.le(P, pot), V.le(P, G("p_max")), V.le(G("q_min"), Q), V.le(Q, G("q_max")))))
        eng.setattr(st, dev, "p", P)
        eng.setattr(st, dev, "q", Q)
        return None

    def des(self, eng, st, fv, args, kw):
        env = args_of(eng, st, fv, args, kw)
        dev = env["self"]
        if not isinstance(dev, Elem):
            return NotImplemented
        names = [x.arg for x in fv.node.args.args]
        p, q, dt = [self.real(env[n]) for n in names[1:4]]
        soc = self.real(eng.getattr(st, dev, "soc"))
        i = dev.idx
        V = self.V
        G = lambda n: eng.getattr(st, dev, n)
        lo, hi, eff = G("soc_min"), G("soc_max"), G("eff")
        pre = And(V.le(lo, soc), V.le(soc, hi), dt > 0)
        eng.side_obs.append(("StorageUnit.map_pq is called with a charge within its limits and a positive time step",
                             list(st.pc), pre))
        P, Q = self.SP(i, p, q, dt, soc), self.SQ(i, p, q, dt, soc)
        eng.ctx.add_fact(Implies(And(self.N.DEV.member(i), pre, eff > 0),
                                 And((soc - hi) / (dt * eff) <= P, P <= eff * (soc - lo) / dt,
                                     V.le(G("p_min"), P), V.le(P, G("p_max")), V.le(G("q_min"), Q), V.le(Q, G("q_max")))))
        eng.setattr(st, dev, "p", P)
        eng.setattr(st, dev, "q", Q)
        return None

    def havoc(self, st, base, name, tag, cplx=False):
        eng = self.V.eng
        key = (base.name, name)
        for w in eng.wlogs:
            w.add(("fld", key))
        if cplx:
            a, b = [z3.Function("%s.%s.%s.%s" % (tag, base.name, name, x), base.sort, R) for x in ("re", "im")]
            st.heap.fields[key] = FMBase(lambda i: CNum(a(i), b(i)))
        else:
            a = z3.Function("%s.%s.%s" % (tag, base.name, name), base.sort, R)
            st.heap.fields[key] = FMBase(lambda i: a(i))

    def flow(self, eng, st, fv, args, kw):
        env = args_of(eng, st, fv, args, kw)
        names = [x.arg for x in fv.node.args.args]
        N = self.N
        self.nflow += 1
        tag = "flow%d" % self.nflow
        self.flow_calls.append((st.copy(), env[names[0]], env[names[1]]))
        for n in ("v", "i"):
            self.havoc(st, N.BUS, n, tag, cplx=True)
        for n in ("p", "q"):
            x = z3.Real("%s.slack.%s" % (tag, n))
            eng.setattr(st, Elem(N.BUS, N.slackbus), n, x)
            eng.setattr(st, Elem(N.DEV, N.slackdev), n, x)
        for n in ("i_from", "i_to"):
            self.havoc(st, N.BR, n, tag, cplx=True)
        for n in ("p_from", "q_from", "p_to", "q_to", "s_apparent_max"):
            self.havoc(st, N.BR, n, tag)
        return (Opaque("any"), z3.Bool(tag + ".converged"))


class Inputs:
    """Symbolic argument dictionaries of a transition."""

    def __init__(self, V, N, st, pre=""):
        eng = V.eng
        D, typ = N.DEV, N.typ
        U = lambda n: z3.Function(pre + n, I, R)
        self.PL, self.PP, self.PS, self.QS = U("P_load"), U("P_pot"), U("P_set"), U("Q_set")

        def d(cond, fn):
            j = V.ctx.index_var(D)
            return eng.alloc(st, DictO([("for", D, j, cond(j), j, fn(j))]))
        self.P_load = d(lambda j: typ(j) == -1, self.PL)
        self.P_pot = d(N.is_gen, self.PP)
        ctrl = lambda j: Or(N.is_gen(j), typ(j) == 3)
        self.P_set, self.Q_set = d(ctrl, self.PS), d(ctrl, self.QS)


def clip(x, lo, hi):
    return z3.If(x < lo, lo, z3.If(x > hi, hi, x))


def soc_invariant(V, N):
    soc, lo, hi = [N.uf[(N.DEV.name, n)] for n in ("soc", "soc_min", "soc_max")]
    N.dev_facts.append(lambda i: [Implies(N.typ(i) == 3, And(lo(i) <= soc(i), soc(i) <= hi(i)))])


def run_transition(V, ext=False, setup=None):
    st = V.state()
    N = Net(V, st, ext=ext)
    if setup is not None:
        setup(N)
    soc_invariant(V, N)
    C = Contracts(V, N)
    inp = Inputs(V, N, st)
    N.earlier(st)
    ok, raises = V.method(st, N.sim, "transition", inp.P_load, inp.P_pot, inp.P_set, inp.Q_set)
    V.no_raise("complete arguments", raises)
    if not V.normal("complete arguments", ok):
        return None
    V.reach("transition", ok)
    return N, C, inp, st, ok


def dev_at(V, N, s, cond, name="dev"):
    d = V.ctx.skolem(N.DEV, name)
    V.ctx.note_index(N.DEV, d)
    s2 = s.copy()
    s2.assume(N.DEV.member(d))
    s2.assume(cond(d))
    return d, s2


def frame(V, N, s, names=("p_min", "p_max", "q_min", "q_max", "soc_min", "soc_max", "eff", "qp_ratio")):
    d, s2 = dev_at(V, N, s, lambda i: True)
    V.prove("frame: device limits unchanged", s2, And(*[V.eq(N.get(s2, N.DEV, d, n), N.old(N.DEV, d, n)) for n in names]))


def check_setpoints(V, N, C, inp, st0, s):
    """Every device gets its own request, in p.u., in this very step."""
    base = N.baseMVA
    D = N.DEV
    O = lambda d, n: N.old(D, d, n)
    d, s1 = dev_at(V, N, s, lambda i: N.typ(i) == -1, "load")
    p = N.get(s1, D, d, "p")
    V.prove("load: requested demand limited to its range", s1, V.eq(p, clip(inp.PL(d) / base, O(d, "p_min"), O(d, "p_max"))))
    V.prove("load: reactive power in the fixed ratio", s1, V.eq(N.get(s1, D, d, "q"), V.mul(p, O(d, "qp_ratio"))))
    d, s1 = dev_at(V, N, s, N.is_gen, "gen")
    pot = clip(inp.PP(d) / base, O(d, "p_min"), O(d, "p_max"))
    V.prove("generator: available power limited to its range", s1, V.eq(N.get(s1, D, d, "p_pot"), pot))
    args = (d, inp.PS(d) / base, inp.QS(d) / base, to_real(N.get(s1, D, d, "p_pot")))
    V.prove("generator: projection of its own request", s1,
            And(V.eq(N.get(s1, D, d, "p"), C.GP(*args)), V.eq(N.get(s1, D, d, "q"), C.GQ(*args))))
    d, s1 = dev_at(V, N, s, lambda i: N.typ(i) == 3, "des")
    args = (d, inp.PS(d) / base, inp.QS(d) / base, N.dt, O(d, "soc"))
    V.prove("storage unit: projection of its own request", s1,
            And(V.eq(N.get(s1, D, d, "p"), C.SP(*args)), V.eq(N.get(s1, D, d, "q"), C.SQ(*args))))


def check_soc(V, N, s):
    D = N.DEV
    O = lambda d, n: N.old(D, d, n)
    d, s1 = dev_at(V, N, s, lambda i: N.typ(i) == 3, "des")
    p, new, old, eff = to_real(N.get(s1, D, d, "p")), N.get(s1, D, d, "soc"), O(d, "soc"), O(d, "eff")
    V.prove("charge decreases by the injected energy over the efficiency when discharging", s1.pc + [p > 0],
            V.eq(new, old - N.dt * p / eff))
    V.prove("charge increases by the absorbed energy times the efficiency when charging", s1.pc + [p <= 0],
            V.eq(new, old - N.dt * eff * p))
    V.prove("charge limits are an invariant", s1, And(V.le(O(d, "soc_min"), new), V.le(new, O(d, "soc_max"))))


def check_flow_call(V, N, C, s):
    V.prove("the load flow is solved once", s, len(C.flow_calls) == 1)
    if len(C.flow_calls) != 1:
        return
    pre, sim, tol = C.flow_calls[0]
    V.prove("the load flow is solved for this simulator with tolerance 1e-5", s,
            And(isinstance(sim, Ref) and sim.oid == N.sim.oid, V.le(tol, Fraction(1, 100000)), V.lt(0, tol)))
    k = V.ctx.skolem(N.BUS, "bus")
    V.ctx.note_index(N.BUS, k)
    s1 = pre.copy()
    s1.assume(N.BUS.member(k))
    for n in ("p", "q"):
        v = V.ctx.index_var(N.DEV)
        fin = to_real(N.get(s1, N.DEV, v, n))
        want = V.ctx.mk_sum(N.DEV, v, And(N.devbus(v) == k, N.typ(v) != 0), fin)
        s2 = s1.copy()
        s2.assume(k != N.slackbus)
        V.prove("bus %s handed to the load flow is the sum over its devices" % n, s2, V.eq(N.get(s2, N.BUS, k, n), want))
