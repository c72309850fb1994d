"""A symbolic environment on an arbitrary valid network: the real ANMEnv code with contracts for
the simulator (constructor, reset, transition), init_state and next_vars."""
from .net import *
from .. import gymmodel
from .c09 import UNITS

ENV = "gym_anm.envs.anm_env"
SIMQ = "gym_anm.simulator.simulator.Simulator"
INFU = {"pu", "MW", "MVAr"}


class Env:
    """observation: value passed to the constructor ("state" or a list built by `obs(st)`)."""

    def __init__(self, V, obs=None, aux=None, ext=True, gym=True, call_init=True):
        self.V = V
        eng = V.eng
        self.st = st = V.state()
        self.N = N = Net(V, st, ext=ext)
        self.base = N.baseMVA
        self.K = z3.Int("K")
        self.gamma = z3.Real("gamma")
        st.assume(self.K >= 0)
        st.assume(And(0 <= self.gamma, self.gamma <= 1))
        self.c1, self.c2 = [self.clip_arg(n) for n in ("clip.loss", "clip.penalty")]
        none = z3.Bool("costs_clipping.none")
        clip = Choice([(none, None), (Not(none), (self.c1, self.c2))])
        inf = lambda c: V.default(c, INF)
        self.C1 = mk_choice([(none, INF), (Not(none), inf(self.c1))])
        self.C2 = mk_choice([(none, INF), (Not(none), inf(self.c2))])
        self.bounds(st)
        eng.contracts[SIMQ] = self.simulator
        eng.contracts["gym_anm.envs.utils.check_env_args"] = self.check_args
        self.cls = V.get(ENV, "ANMEnv")
        self.aux_bounds = None
        if aux:
            al, aw = z3.Function("aux.low", I, R), z3.Function("aux.high", I, R)
            self.AL, self.AH = al, lambda i: z3.If(aw(i) >= al(i), aw(i), al(i))  # low <= high (check_env_args, C15)
            self.aux_bounds = eng.alloc(st, ArrO([Fn(self.K, lambda i: (self.AL(to_z3(i)), self.AH(to_z3(i))))]))
        self.network = Opaque("any", "network")
        self.obs_arg = "state" if obs is None else obs(self, st)
        self.checked = []
        self.env = None
        if call_init:
            self.ok, self.raises = V.run(st, lambda s: eng.instantiate(s, self.cls, [
                self.network, self.obs_arg, self.K, N.dt, self.gamma, N.lamb, self.aux_bounds, clip, None], {}))
            if self.ok:
                self.env = self.ok.value

    def clip_arg(self, n):
        V = self.V
        x = z3.Real(n)
        none, inf = z3.Bool(n + ".none"), z3.Bool(n + ".inf")
        self.st.assume(x >= 0)
        return Choice([(none, None), (And(Not(none), inf), INF), (And(Not(none), Not(inf)), x)])

    # ------------------------------------------------------------ contracts
    def simulator(self, eng, st, cls, args, kw):
        V, N = self.V, self.N
        names = ("network", "delta_t", "lamb")
        d = dict(zip(names, args))
        d.update(kw)
        eng.side_obs.append(("the simulator is built with the environment's network, time step and penalty weight",
                             list(st.pc), And(same(d["network"], self.network), V.eq(d["delta_t"], N.dt), V.eq(d["lamb"], N.lamb))))
        eng.trusted.add("callee contract: Simulator.__init__ builds the components of the network, sorted by identifier (discharged in C10, C12, C13: construction), with the declared ranges of C17")
        eng.setattr(st, N.sim, "state_bounds", self.bounds_ref)
        return N.sim

    def check_args(self, eng, st, fv, args, kw):
        self.checked.append(list(st.pc))
        eng.trusted.add("callee contract: check_env_args rejects arguments outside their ranges (decided by C15)")
        return None

    def keys(self):
        return self.N.keys()

    def bounds(self, st):
        """state_bounds[quantity][element][unit] = (low, high), low <= high (contract of C17)."""
        V, N = self.V, self.N
        ent = []
        self.lo, self.hi = {}, {}
        for q, (B_, cond, key) in self.keys().items():
            us = UNITS[q]
            for u in us:
                for w, s in (("lo", -INF), ("hi", INF)):
                    fn = z3.Function("range.%s.%s.%s" % (q, u, w), B_.sort, R)
                    fi = z3.Function("range.%s.%s.%s.inf" % (q, u, w), B_.sort, B)
                    getattr(self, w)[(q, u)] = (lambda i, fn=fn, fi=fi, s=s: Choice([(fi(i), s), (Not(fi(i)), fn(i))]))
                facts = {"BUS": N.bus_facts, "DEV": N.dev_facts, "BR": N.br_facts}[B_.name]
                facts.append(lambda i, q=q, u=u: [b2z(V.le(self.lo[(q, u)](i), self.hi[(q, u)](i)))])
            v = V.ctx.index_var(B_)
            cell = Snap(DictO([("one", u, (self.lo[(q, u)](v), self.hi[(q, u)](v))) for u in us]))
            ent.append(("one", q, V.eng.alloc(st, DictO([("for", B_, v, cond(v), key(v), cell)]))))
        self.bounds_ref = V.eng.alloc(st, DictO(ent))

    def full_state(self, st, tag):
        return self.N.full_state(st, tag)

    # ------------------------------------------------------------ vectors
    def is_des(self, i):
        return self.N.typ(i) == 3

    def count_gen(self):
        return self.N.count(self.N.is_gen)

    def count_des(self):
        return self.N.count(self.is_des)

    def size(self, st, a):
        return self.V.eng.lib.b_len(self.V.eng, st, [a], {})

    def rank(self, cond, d, base=None):
        """Number of elements of the kind listed before d (identifier order)."""
        b = base or self.N.DEV
        v = self.V.ctx.index_var(b)
        return self.V.ctx.mk_psum(b, v, cond(v), 1, d)

    def dev(self, st, cond, name, base=None):
        b = base or self.N.DEV
        d = self.V.ctx.skolem(b, name)
        self.V.ctx.note_index(b, d)
        s = st.copy()
        s.assume(b.member(d))
        s.assume(cond(d))
        return d, s

    def limit(self, which, g, d):
        n = ("p_" if g % 2 == 0 else "q_") + ("min" if which == "low" else "max")
        return self.V.mul(self.N.old(self.N.DEV, d, n), self.base)

    # ------------------------------------------------------------ dynamics
    def running(self, terminated=None, bad_size=False, start=None):
        """An environment in an arbitrary running state (any history)."""
        V, N, eng = self.V, self.N, self.V.eng
        s = (start or self.ok.st).copy()
        nS = V.attr(s, self.env, "state_N")
        self.S = z3.Function("state", I, R)
        self.term0 = z3.Bool("terminated") if terminated is None else terminated
        self.t0 = z3.Int("timestep")
        self.state0 = eng.alloc(s, ArrO([Fn(nS, lambda i: self.S(to_z3(i)))]))
        for n, v in (("state", self.state0), ("terminated", self.term0), ("timestep", self.t0), ("e_loss", z3.Real("old.e_loss")),
                     ("penalty", z3.Real("old.penalty")), ("render_mode", None)):
            eng.setattr(s, self.env, n, v)
        sim_state, self.simstate0 = self.full_state(s, "sim0")
        eng.setattr(s, N.sim, "state", sim_state)
        eng.setattr(s, N.sim, "pfe_converged", z3.Bool("sim0.converged"))
        eng.settle(s, self.env)
        self.calls = []
        self.nvars = z3.Int("next_vars.size") if bad_size else N.count(lambda i: N.typ(i) == -1) + self.count_gen() + self.K
        if bad_size:
            s.assume(self.nvars >= 0)
        self.X = z3.Function("next_vars", I, R)
        self.bad = bad_size
        q = ENV + ".ANMEnv."
        eng.contracts[q + "next_vars"] = self.next_vars
        eng.contracts[SIMQ + ".transition"] = self.transition
        self.A = z3.Function("action", I, R)
        nA = 2 * self.count_gen() + 2 * self.count_des()
        self.action = eng.alloc(s, ArrO([Fn(nA, lambda i: self.A(to_z3(i)))]))
        return s

    def next_vars(self, eng, st, fv, args, kw):
        self.calls.append(("next_vars", st.copy(), args[1]))
        self.vars = eng.alloc(st, ArrO([Fn(self.nvars, lambda i: self.X(to_z3(i)))]))
        return self.vars

    def transition(self, eng, st, fv, args, kw):
        env = eng.bind_args(st, fv, args, kw)
        names = [x.arg for x in fv.node.args.args]
        self.calls.append(("transition", st.copy(), [env[n] for n in names]))
        n = len([c for c in self.calls if c[0] == "transition"])
        tag = "sim%d" % n
        sd, self.simstate = self.full_state(st, tag)
        eng.setattr(st, self.N.sim, "state", sd)
        conv = z3.Bool(tag + ".converged")
        self.conv = conv
        self.loss, self.pen = z3.Real(tag + ".e_loss"), z3.Real(tag + ".penalty")
        eng.ctx.add_fact(self.pen >= 0)
        eng.setattr(st, self.N.sim, "pfe_converged", conv)
        eng.trusted.add("callee contract: Simulator.transition returns (state, reward, e_loss, penalty >= 0, converged) and updates only the simulator (C04-C09, C03)")
        return (sd, -(self.loss + self.pen), self.loss, self.pen, conv)

    def in_space(self, st, name, x):
        sp = self.V.attr(st, self.env, name)
        out = []
        for c1, a in self.V.eng.live(st, sp) if isinstance(sp, Choice) else [(True, sp)]:
            for c2, y in self.V.eng.live(st, x) if isinstance(x, Choice) else [(True, x)]:
                s2 = st.copy()
                s2.assume(And(c1, c2))
                ok, rs = self.V.method(s2, a, "contains", y)
                out.append(Implies(And(c1, c2), b2z(ok.value)))
        return And(*out)

    def step(self, s):
        return self.V.method(s, self.env, "step", self.action)

    # ------------------------------------------------------------ observations
    def nodes(self, st, q, cond=None):
        """A list of arbitrary length of arbitrary elements that report quantity q."""
        V, N = self.V, self.N
        n = z3.Int("obs.%s.n" % q)
        st.assume(n >= 0)
        if q == "aux":
            f = z3.Function("obs.aux.ids", I, I)
            rb = Base("OBS_" + q, I, member=lambda j: And(j >= 0, j < n), facts=lambda j: [f(j) >= 0, f(j) < self.K],
                      pos=lambda j: j, count=n)
            val = f
        else:
            B_, cond, key = self.keys()[q]
            f = z3.Function("obs.%s.ids" % q, I, B_.sort)
            rb = Base("OBS_" + q, I, member=lambda j: And(j >= 0, j < n),
                      facts=lambda j: [b2z(B_.member(f(j))), b2z(cond(f(j)))], pos=lambda j: j, count=n)
            val = lambda j: key(f(j))
        rb.order = lambda v: v
        V.ctx.bases[rb.name] = rb
        V.ctx.add_once(n >= 0)
        j = V.ctx.index_var(rb)
        self.ids = getattr(self, "ids", {})
        self.ids[q] = (rb, f, n)
        return V.eng.alloc(st, ListO([For(rb, j, True, [One(val(j))])]))

    def declared(self, entries):
        """[(q, 'all' or 'list', unit or None)] as the observation argument of the constructor."""
        self.entries = entries

        def build(E, st):
            out = []
            for q, sel, u in entries:
                x = "all" if sel == "all" else E.nodes(st, q)
                out.append((q, x) if u == () else (q, x, u))
            return E.V.eng.new_list(st, out)
        return build


STATE_ENTRIES = [("dev_p", "all", "MW"), ("dev_q", "all", "MVAr"), ("des_soc", "all", "MWh"), ("gen_p_max", "all", "MW"), ("aux", "all", None)]
DEFAULT_UNIT = {"bus_p": "MW", "bus_q": "MVAr", "bus_v_magn": "pu", "bus_v_ang": "degree", "bus_i_magn": "pu", "bus_i_ang": "degree",
                "dev_p": "MW", "dev_q": "MVAr", "des_soc": "MWh", "gen_p_max": "MW", "branch_p": "MW", "branch_q": "MVAr",
                "branch_s": "MVA", "branch_i_magn": "pu", "branch_i_ang": "degree", "aux": None}


def declare(entries):
    def build(E, st):
        out = []
        for q, sel, u in entries:
            x = "all" if sel == "all" else E.nodes(st, q)
            out.append((q, x) if u == () else (q, x, u))
        return E.V.eng.new_list(st, out)
    return build


def layout(E, entries):
    """[(quantity, unit, offset, length, locate)]; locate(s, tag) gives (state, position, element index)."""
    V, N = E.V, E.N
    out, off = [], 0
    for q, sel, u in entries:
        u = DEFAULT_UNIT[q] if u == () else u
        if q == "aux":
            if sel == "all":
                n = E.K

                def loc(s, tag, n=n):
                    k = z3.Int("k_" + tag)
                    s1 = s.copy()
                    s1.assume(And(k >= 0, k < n))
                    return s1, k, k
            else:
                rb, f, n = E.ids[q]

                def loc(s, tag, rb=rb, f=f):
                    j, s1 = E.dev(s, lambda i: True, tag, rb)
                    return s1, j, f(j)
        elif sel == "all":
            B_, cond, key = E.keys()[q]
            v = V.ctx.index_var(B_)
            n = V.ctx.mk_count(B_, v, cond(v))

            def loc(s, tag, B_=B_, cond=cond):
                d, s1 = E.dev(s, cond, tag, B_)
                return s1, E.rank(cond, d, B_), d
        else:
            rb, f, n = E.ids[q]

            def loc(s, tag, rb=rb, f=f):
                j, s1 = E.dev(s, lambda i: True, tag, rb)
                return s1, j, f(j)
        out.append((q, u, off, n, loc))
        off = n if is_conc_num(off) and off == 0 else off + n
    return out, off


def check_vector(V, E, entries, s, vec, want, name):
    """vec has one entry per declared quantity and element, in declared order, equal to want(q, u, element, position)."""
    lay, total = layout(E, entries)
    V.prove("%s: one component per declared quantity and element" % name, s, V.eq(E.size(s, vec), total))
    for g, (q, u, off, n, loc) in enumerate(lay):
        s1, k, x = loc(s, "%s%d" % (q, len(V.obligations)))
        k = k if is_conc_num(off) and off == 0 else k + off
        V.prove("%s: component %d (%s [%s])" % (name, g, q, u), s1, V.eq(V.item(s1, vec, k), want(s1, q, u, x)))


class Callable_:
    """An observation given as a callable: returns a vector of a fixed size for every state."""

    def __init__(self, V, E):
        self.V, self.E = V, E
        self.m = z3.Int("obs.m")
        E.st.assume(self.m >= 0)
        self.calls = []
        E.callable = self

    def value(self):
        from ..interp import Builtin

        def call(eng, st, a, k):
            f = z3.Function(eng.ctx.fresh_name("obs.fn"), I, R)
            v = eng.alloc(st, ArrO([Fn(self.m, lambda i: f(to_z3(i)))]))
            self.calls.append((st.copy(), a, k, f, v))
            return v
        return Builtin("observation", call)


def callable_obs(E, st):
    return Callable_(E.V, E).value()


class Reset:
    """Contracts of init_state and Simulator.reset inside ANMEnv.reset."""

    def __init__(self, V, E, bad_size=False, found=True):
        self.V, self.E = V, E
        eng = V.eng
        self.want = 2 * V.ctx.count(E.N.DEV) + E.count_des() + E.count_gen() + E.K
        self.n = z3.Int("s0.size") if bad_size else self.want
        self.resets = []
        self.states = []
        eng.contracts[ENV + ".ANMEnv.init_state"] = self.init_state
        eng.contracts[SIMQ + ".reset"] = self.reset

    def init_state(self, eng, st, fv, args, kw):
        env = args[0]
        eng.setattr(st, env, "$attempts", eng.arith(st, "+", eng.getattr(st, env, "$attempts"), 1))
        f = z3.Function(eng.ctx.fresh_name("s0"), I, R)
        self.f = f
        v = eng.alloc(st, ArrO([Fn(self.n, lambda i: f(to_z3(i)))]))
        self.states.append((f, v))
        eng.setattr(st, env, "$s0", v)
        return v

    def reset(self, eng, st, fv, args, kw):
        E = self.E
        self.resets.append((st.copy(), args[0], args[1]))
        sd, self.simstate = E.full_state(st, eng.ctx.fresh_name("simr"))
        eng.setattr(st, E.N.sim, "state", sd)
        self.conv = z3.Bool(eng.ctx.fresh_name("s0.converged"))
        eng.setattr(st, args[0], "pfe_converged", self.conv)
        eng.trusted.add("callee contract: Simulator.reset updates only the simulator and returns the convergence (C14, C03)")
        return self.conv

    def run(self, s):
        eng = self.V.eng
        eng.setattr(s, self.E.env, "$attempts", 0)
        opts = Choice([(z3.Bool("options.absent"), None), (Not(z3.Bool("options.absent")), eng.alloc(s, DictO([])))])
        return self.V.method(s, self.E.env, "reset", seed=Choice([(z3.Bool("seed.absent"), None), (Not(z3.Bool("seed.absent")), z3.Int("seed"))]), options=opts)
