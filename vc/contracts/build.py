"""Simulator.__init__ on tables of any size: the components of a consistent network, by identifier.

The contract `Net`/`Env` assume of the constructor.  Contracts used here: check_network_specs
accepts only consistent tables (C15), the row constructors keep their identifiers (C15), the
admittance matrix (C01), the declared ranges (C17)."""
from .c15 import *
from ..lib import seq_of
from .net import SIM


def row_index(t, row, st, eng):
    """The table row a constructor was given."""
    x = eng.getitem(st, row, 0)
    name = t.fn[t.cols[0]]
    for e in z3_terms(x):
        todo = [e]
        while todo:
            a = todo.pop()
            if z3.is_app(a) and a.decl().eq(name):
                return a.arg(0)
            todo += a.children()
    raise Unsupported("a component is not built from a row of the table")


def construction(V):
    V.on("Simulator.__init__")
    eng = V.eng
    st = V.state()
    base, dt, lamb = V.real("baseMVA"), V.real("delta_t"), V.real("lamb")
    T = {"bus": Table(V, st, "bus", BUSC, BUSC[:2]), "device": Table(V, st, "device", COLS, COLS[:3]),
         "branch": Table(V, st, "branch", BRC, BRC[:2])}
    bus_, dev_, br_ = T["bus"], T["device"], T["branch"]
    net = eng.alloc(st, DictO([("one", "baseMVA", base)] + [("one", k, t.ref) for k, t in T.items()]))
    bid, did, typ = bus_.fn["BUS_ID"], dev_.fn["DEV_ID"], dev_.fn["DEV_TYPE"]
    f, t = br_.fn["F_BUS"], br_.fn["T_BUS"]
    # consistent tables (what check_network_specs and the row constructors accept, C15), device types -1..3
    some = lambda tab, cs: (lambda j: [Not(tab.none[c](j)) for c in cs])
    bus_.base._facts = lambda j: some(bus_, BUSC[:2])(j) + [bid(j) >= 0]
    dev_.base._facts = lambda j: some(dev_, COLS[:3])(j) + [typ(j) >= -1, typ(j) <= 3]
    br_.base._facts = lambda j: some(br_, BRC[:2])(j) + [f(j) != t(j)]
    bus_.base.inj = lambda a, b: [Implies(bid(a) == bid(b), a == b)]
    dev_.base.inj = lambda a, b: [Implies(did(a) == did(b), a == b)]
    br_.base.inj = lambda a, b: [Implies(And(f(a) == f(b), t(a) == t(b)), a == b)]
    cls = {n: V.get(DEV, n) for n in ("Load", "ClassicalGen", "RenewableGen", "StorageUnit")}
    cls["Bus"], cls["TransmissionLine"] = V.get(BUSM, "Bus"), V.get(BRM, "TransmissionLine")
    kinds = {"Load": (-1,), "ClassicalGen": (0, 1), "RenewableGen": (2,), "StorageUnit": (3,)}
    bus_.base.classes = [(cls["Bus"], lambda j: True)]
    br_.base.classes = [(cls["TransmissionLine"], lambda j: True)]
    dev_.base.classes = [(cls[n], lambda j, ks=ks: Or(*[typ(j) == k for k in ks])) for n, ks in kinds.items()]
    V.ctx.enums[typ.name()] = (-1, 0, 1, 2, 3)
    F = eng.base_fields
    for b, fs in ((bus_.base, {"id": bid, "type": bus_.fn["BUS_TYPE"]}), (dev_.base, {"dev_id": did, "bus_id": dev_.fn["BUS_ID"], "type": typ}),
                  (br_.base, {"f_bus": f, "t_bus": t})):
        for n, fn in fs.items():
            F[(b.name, n)] = FMBase(lambda j, fn=fn: fn(j))
    F[(dev_.base.name, "is_slack")] = FMBase(lambda j: typ(j) == 0)
    F[(bus_.base.name, "is_slack")] = FMBase(lambda j: bus_.fn["BUS_TYPE"](j) == 0)
    checked = []

    def check(e, s, fv, a, k):
        checked.append(list(s.pc))
        d = eng.bind_args(s, fv, a, k)
        e.side_obs.append(("the network given is checked", list(s.pc), same(list(d.values())[0], net)))
    eng.contracts[CHECK + ".check_network_specs"] = check

    def build(name, tab, order):
        def go(e, s, c, a, k):
            d = dict(zip(order, a))
            d.update(k)
            j = row_index(tab, d["row"] if "row" in d else d[order[0]], s, e)
            cells = And(*[V.is_(e.getitem(s, d[order[0]], m), tab.cell(col, j)) for m, col in enumerate(tab.cols)])
            e.side_obs.append(("%s is built from a row of the table" % name, list(s.pc), cells))
            if "baseMVA" in order:
                e.side_obs.append(("%s gets the network's base power" % name, list(s.pc), V.eq(d["baseMVA"], base)))
            if "bus_ids" in order:
                x = z3.Int(V.ctx.fresh_name("a_bus"))
                e.side_obs.append(("%s gets the identifiers of the buses" % name, list(s.pc),
                                   V.has(s, d["bus_ids"], x) == b2z(bus_.some(lambda i: bid(i) == x))))
            if name in kinds:
                e.side_obs.append(("rows of type %s are a %s" % (kinds[name], name), list(s.pc), Or(*[typ(j) == q for q in kinds[name]])))
            return Elem(tab.base, j)
        return go
    for n in cls:
        q = (DEV if n in kinds else BUSM if n == "Bus" else BRM) + "." + n
        order = {"Bus": ("bus_spec",), "TransmissionLine": ("br_spec", "baseMVA", "bus_ids")}.get(n, ("dev_spec", "bus_ids", "baseMVA"))
        eng.contracts[q] = build(n, {"Bus": bus_, "TransmissionLine": br_}.get(n, dev_), order)
    for m in ("_build_admittance_matrix", "_compute_bus_bounds", "get_state_space"):
        eng.contracts[SIM + ".Simulator." + m] = lambda e, s, fv, a, k, m=m: Opaque("any", m)
    eng.trusted.add("callee contracts: check_network_specs accepts consistent tables only, the row constructors keep identifiers (C15), _build_admittance_matrix (C01), _compute_bus_bounds, get_state_space (C17)")
    ok, raises = V.run(st, lambda s: eng.instantiate(s, V.get(SIM, "Simulator"), [net, dt, lamb], {}))
    V.no_raise("a consistent network", raises)
    if not V.normal("a consistent network", ok):
        return
    s, sim = ok.st, ok.value
    A = lambda n: V.attr(s, sim, n)
    V.reach("a network with several buses, devices and lines", ok.pc + [bus_.n > 2, dev_.n > 2, br_.n > 2])
    V.prove("the tables are checked first", s, len(checked) == 1)
    V.prove("base power, time step, penalty weight", s, And(V.eq(A("baseMVA"), base), V.eq(A("delta_t"), dt), V.eq(A("lamb"), lamb)))
    for name, tab, idf in (("buses", bus_, bid), ("devices", dev_, did)):
        d = A(name)
        j = tab.sk(s, "row_" + name)
        V.prove("%s: every row under its identifier" % name, s, And(b2z(V.as_bool(V.has(s, d, idf(j)))), V.is_(V.item(s, d, idf(j)), Elem(tab.base, j))))
        x = z3.Int("id_" + name)
        V.prove("%s: nothing else" % name, s, Implies(b2z(V.as_bool(V.has(s, d, x))), tab.some(lambda i: idf(i) == x)))
        keys = eng.alloc(s, ListO(seq_of(eng, s, d)))
        V.prove("%s: one entry per row" % name, s, V.eq(eng.lib.b_len(eng, s, [keys], {}), tab.n))
        m, n = z3.Int("m_" + name), z3.Int("n_" + name)
        s1 = s.copy()
        s1.assume(And(0 <= m, m < n, n < tab.n))
        V.prove("%s: in the order of their identifiers" % name, s1, V.lt(V.item(s1, keys, m), V.item(s1, keys, n)))
    d = A("branches")
    j = br_.sk(s, "row_branches")
    V.prove("branches: every row under its end buses", s, And(b2z(V.as_bool(V.has(s, d, (f(j), t(j))))), V.is_(V.item(s, d, (f(j), t(j))), Elem(br_.base, j))))
    keys = eng.alloc(s, ListO(seq_of(eng, s, d)))
    V.prove("branches: one entry per row", s, V.eq(eng.lib.b_len(eng, s, [keys], {}), br_.n))
    V.prove("branches: in the order of the rows", s, V.eq(V.item(s, keys, j), (f(j), t(j))))
    for n, c in (("N_bus", bus_.n), ("N_device", dev_.n), ("N_load", dev_.count(lambda j: typ(j) == -1)),
                 ("N_non_slack_gen", dev_.count(lambda j: Or(typ(j) == 1, typ(j) == 2))), ("N_des", dev_.count(lambda j: typ(j) == 3)),
                 ("N_gen_rer", dev_.count(lambda j: typ(j) == 2))):
        V.prove(n, s, V.eq(A(n), c))
    V.prove("no load flow has been solved yet", s, And(V.is_none(A("state")), V.is_none(A("pfe_converged"))))


PARTS = [construction]
