"""A symbolic simulator over an arbitrary valid network (any number of buses, lines, devices)."""
from ..spec import *
from .devs import DEV

SIM = "gym_anm.simulator.simulator"
BUSM = "gym_anm.simulator.components.bus"
BRM = "gym_anm.simulator.components.branch"


UNITS = {"bus_p": ("pu", "MW"), "bus_q": ("pu", "MVAr"), "bus_v_magn": ("pu", "kV"), "bus_v_ang": ("rad", "degree"),
         "bus_i_magn": ("pu", "kA"), "bus_i_ang": ("rad", "degree"), "dev_p": ("pu", "MW"), "dev_q": ("pu", "MVAr"),
         "des_soc": ("pu", "MWh"), "gen_p_max": ("pu", "MW"), "branch_p": ("pu", "MW"), "branch_q": ("pu", "MVAr"),
         "branch_s": ("pu", "MVA"), "branch_i_magn": ("pu",), "branch_i_ang": ("rad", "degree")}


class Net:
    """ext: limits may be infinite.  solved: the electrical quantities have values."""

    def __init__(self, V, st, ext=False, solved=True, pre="", bounds=True):
        self.V, self.st, self.ext = V, st, ext
        eng, ctx = V.eng, V.ctx
        cls = {n: V.get(DEV, n) for n in ("Load", "ClassicalGen", "RenewableGen", "StorageUnit", "Generator")}
        self.cls = cls
        self.baseMVA, self.dt, self.lamb = z3.Real("baseMVA"), z3.Real("delta_t"), z3.Real("lamb")
        for c in (self.baseMVA > 0, self.dt > 0, self.lamb >= 0):
            st.assume(c)
        U = lambda n, s=R: z3.Function(pre + n, I, s)
        self.typ = U("DEV.type", I)
        typ = self.typ
        self.devbus = U("DEV.bus", I)
        self.slackbus = z3.Int("slack_bus")
        self.slackdev = z3.Int("slack_dev")

        def dfacts(i):
            f = [typ(i) >= -1, typ(i) <= 3, BUS.member(self.devbus(i)), (typ(i) == 0) == (i == self.slackdev),
                 Implies(typ(i) == 0, self.devbus(i) == self.slackbus)]
            for g in self.dev_facts:
                f += g(i)
            return f
        ctx.enums[typ.name()] = (-1, 0, 1, 2, 3)
        self.dev_facts = []
        self.bus_facts = []
        self.br_facts = []
        self.BUS = BUS = Base(pre + "BUS", I, facts=lambda i: [i >= 0] + [x for g in self.bus_facts for x in g(i)],
                              classes=[(V.get(BUSM, "Bus"), lambda i: True)])
        self.DEV = DEVB = Base(pre + "DEV", I, facts=dfacts,
                               classes=[(cls["Load"], lambda i: typ(i) == -1),
                                        (cls["ClassicalGen"], lambda i: Or(typ(i) == 0, typ(i) == 1)),
                                        (cls["RenewableGen"], lambda i: typ(i) == 2),
                                        (cls["StorageUnit"], lambda i: typ(i) == 3)])
        BRS = z3.DeclareSort(pre + "BRs")
        self.BRS = BRS
        self.f, self.t = z3.Function(pre + "BR.f", BRS, I), z3.Function(pre + "BR.t", BRS, I)
        f, t = self.f, self.t
        self.BR = BR = Base(pre + "BR", BRS,
                            facts=lambda b: [BUS.member(f(b)), BUS.member(t(b)), f(b) != t(b)] + [x for g in self.br_facts for x in g(b)],
                            classes=[(V.get(BRM, "TransmissionLine"), lambda b: True)],
                            inj=lambda a, b: [Implies(Or(And(f(a) == f(b), t(a) == t(b)), And(f(a) == t(b), t(a) == f(b))), a == b)])
        for b in (BUS, DEVB, BR):
            ctx.bases[b.name] = b
        BUS.order = DEVB.order = lambda v: v
        BUS.named, DEVB.named = [self.slackbus], [self.slackdev]
        for b in (BUS, DEVB, BR):
            b.version = lambda: (len(self.dev_facts), len(self.bus_facts), len(self.br_facts))
        ctx.note_index(BUS, self.slackbus)
        ctx.note_index(DEVB, self.slackdev)
        ctx.indexvars["slack_bus"] = BUS
        ctx.indexvars["slack_dev"] = DEVB
        st.assume(BUS.member(self.slackbus))
        st.assume(DEVB.member(self.slackdev))
        st.assume(ctx.count(BUS) >= 2)
        st.assume(ctx.count(DEVB) >= 1)
        self.uf = {}
        self.fields(solved)
        i, j = ctx.index_var(BUS), ctx.index_var(DEVB)
        b = ctx.index_var(BR)
        self.buses = eng.alloc(st, DictO([("for", BUS, i, True, i, Elem(BUS, i))]))
        self.devices = eng.alloc(st, DictO([("for", DEVB, j, True, j, Elem(DEVB, j))]))
        self.branches = eng.alloc(st, DictO([("for", BR, b, True, (f(b), t(b)), Elem(BR, b))]))
        sim = dict(baseMVA=self.baseMVA, delta_t=self.dt, lamb=self.lamb, buses=self.buses, devices=self.devices,
                   branches=self.branches, state=None, pfe_converged=None,
                   N_bus=ctx.count(BUS), N_device=ctx.count(DEVB), N_load=self.count(lambda i: typ(i) == -1),
                   N_non_slack_gen=self.count(lambda i: Or(typ(i) == 1, typ(i) == 2)),
                   N_des=self.count(lambda i: typ(i) == 3), N_gen_rer=self.count(lambda i: typ(i) == 2))
        self.sim = V.make(st, V.get(SIM, "Simulator"), **sim)

    def keys(self):
        """quantity -> (elements, which of them report it, key)."""
        out = {}
        for q in UNITS:
            if q.startswith("bus"):
                out[q] = (self.BUS, lambda i: True, lambda i: i)
            elif q.startswith("dev"):
                out[q] = (self.DEV, lambda i: True, lambda i: i)
            elif q.startswith("des"):
                out[q] = (self.DEV, lambda i: self.typ(i) == 3, lambda i: i)
            elif q.startswith("gen"):
                out[q] = (self.DEV, self.is_gen, lambda i: i)
            else:
                out[q] = (self.BR, lambda b: True, lambda b: (self.f(b), self.t(b)))
        return out

    def full_state(self, st, tag):
        """An arbitrary state dictionary of the simulator (contract of C09)."""
        V = self.V
        ent = []
        fns = {}
        for q, (B_, cond, key) in self.keys().items():
            inner = []
            for u in UNITS[q]:
                fn = z3.Function("%s.%s.%s" % (tag, q, u), B_.sort, R)
                fns[(q, u)] = fn
                v = V.ctx.index_var(B_)
                inner.append(("one", u, V.eng.alloc(st, DictO([("for", B_, v, cond(v), key(v), fn(v))]))))
            ent.append(("one", q, V.eng.alloc(st, DictO(inner))))
        return V.eng.alloc(st, DictO(ent)), fns

    def earlier(self, st):
        """The simulator has been used before: its state and convergence flag are arbitrary."""
        eng = self.V.eng
        eng.setattr(st, self.sim, "state", self.full_state(st, "h_sim")[0])
        eng.setattr(st, self.sim, "pfe_converged", z3.Bool("h_converged"))

    def count(self, cond):
        v = self.V.ctx.index_var(self.DEV)
        return self.V.ctx.mk_count(self.DEV, v, cond(v))

    def is_gen(self, i):
        return Or(self.typ(i) == 1, self.typ(i) == 2)

    def put(self, base, name, fn):
        self.V.eng.base_fields[(base.name, name)] = FMBase(fn)

    def real_field(self, base, name, infs=()):
        fn = z3.Function("%s.%s" % (base.name, name), base.sort, R)
        self.uf[(base.name, name)] = fn
        if infs and self.ext:
            flags = [(s, z3.Function("%s.%s.%s" % (base.name, name, "inf" if s > 0 else "ninf"), base.sort, B)) for s in infs]

            def get(i):
                alts, rest = [], True
                for s, g in flags:
                    alts.append((And(rest, g(i)), s))
                    rest = And(rest, Not(g(i)))
                return Choice(alts + [(rest, fn(i))])
            self.put(base, name, get)
        else:
            self.put(base, name, lambda i: fn(i))

    def cplx_field(self, base, name):
        re = z3.Function("%s.%s.re" % (base.name, name), base.sort, R)
        im = z3.Function("%s.%s.im" % (base.name, name), base.sort, R)
        self.uf[(base.name, name)] = (re, im)
        self.put(base, name, lambda i: CNum(re(i), im(i)))

    def fields(self, solved):
        D, S, L = self.DEV, self.BUS, self.BR
        typ = self.typ
        self.put(D, "dev_id", lambda i: i)
        self.put(D, "bus_id", lambda i: self.devbus(i))
        self.put(D, "type", lambda i: typ(i))
        self.put(D, "is_slack", lambda i: typ(i) == 0)
        for n, inf in (("p_min", (-INF,)), ("p_max", (INF,)), ("q_min", (-INF,)), ("q_max", (INF,))):
            self.real_field(D, n, inf)
        for n in ("soc_min", "soc_max", "eff", "qp_ratio", "soc", "_p_pot"):
            self.real_field(D, n, (INF,) if n == "_p_pot" else ())
        for n in ("p", "q"):
            self.real_field(D, n)
        V = self.V

        def ext_facts(i):
            G = lambda n: V.eng.base_fields[(D.name, n)].fn(i)
            out = [V.le(G("p_min"), G("p_max")), V.le(G("q_min"), G("q_max")),
                   Implies(typ(i) == -1, V.le(G("p_max"), 0)),
                   Implies(Or(typ(i) == 1, typ(i) == 2), V.le(0, G("p_min"))),
                   Implies(Or(typ(i) == 1, typ(i) == 2), And(V.le(G("p_min"), G("_p_pot")), V.le(G("_p_pot"), G("p_max")))),
                   Implies(typ(i) == 3, And(V.le(G("p_min"), 0), V.le(0, G("p_max")), V.le(0, G("soc_min")),
                                            V.le(G("soc_min"), G("soc_max")), V.lt(0, G("eff")), V.le(G("eff"), 1)))]
            return [b2z(x) for x in out]
        self.dev_facts.append(ext_facts)
        self.put(S, "id", lambda i: i)
        self.put(S, "is_slack", lambda i: i == self.slackbus)
        self.put(S, "type", lambda i: z3.If(i == self.slackbus, z3.IntVal(0), z3.IntVal(1)))
        for n in ("baseKV", "v_slack", "v_min", "v_max", "p", "q"):
            self.real_field(S, n, {"v_min": (), "v_max": (INF,)}.get(n, ()))
        kv = self.uf[("%s" % S.name, "baseKV")]
        self.bus_facts.append(lambda i: [kv(i) > 0])
        for n, inf in (("p_min", (-INF,)), ("p_max", (INF,)), ("q_min", (-INF,)), ("q_max", (INF,))):
            self.real_field(S, n, inf)
        self.cplx_field(S, "v")
        self.cplx_field(S, "i")
        self.put(L, "f_bus", lambda b: self.f(b))
        self.put(L, "t_bus", lambda b: self.t(b))
        for n in ("r", "x", "b", "tap_magn", "shift", "p_from", "q_from", "p_to", "q_to", "s_apparent_max"):
            self.real_field(L, n)
        self.real_field(L, "rate", (INF,))
        for n in ("series", "shunt", "tap", "i_from", "i_to"):
            self.cplx_field(L, n)
        tr, ti = self.uf[(L.name, "tap")]
        self.br_facts.append(lambda b: [z3.Or(tr(b) != 0, ti(b) != 0)])

    # reading fields in the specification
    def get(self, st, base, i, name):
        return self.V.eng.getattr(st, Elem(base, i), name)

    def old(self, base, i, name):
        return self.V.eng.base_fields[(base.name, name)].fn(i)

    def sum(self, base, value, cond=lambda i: True, st=None):
        v = self.V.ctx.index_var(base)
        return self.V.eng.agg_sum(st or self.V.state(), base, v, cond(v), value(v))
