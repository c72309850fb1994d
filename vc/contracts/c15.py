"""C15: inconsistent networks and arguments are rejected with the documented error class,
consistent ones accepted.  Row constructors here; network-level checks and arguments below."""
from ..spec import *
from .devs import DEV, COLS
from .net import BUSM, BRM

CHECK = "gym_anm.simulator.check_network"


def known_buses(V):
    """An arbitrary list of bus identifiers, as handed to the row constructors."""
    ids = Base("BUSID", I, facts=lambda i: [i >= 0])
    ids.order = lambda v: v
    V.ctx.bases[ids.name] = ids
    return ids


def verdict(V, name, ok, raises, good, bad_class, must=None):
    """Accepted exactly when `good`; every other exit raises one of `bad_class`.
    must: the rows that have to be accepted (default: good)."""
    must = good if must is None else must
    if ok is None:
        V.normal(name, ok)
        return
    V.reach(name + " is accepted", ok.pc + [b2z(must)])
    V.prove(name + " is accepted only when consistent", ok, good)
    for k, r in enumerate(raises):
        w = getattr(r.exc, "where", None)
        at = " at `%s`" % w if w else ""
        V.prove("%s: consistent rows are not rejected (%d)%s" % (name, k, at), r, Not(must))
        if callable(bad_class):
            V.prove("%s: error class %s (%d)%s" % (name, r.exc.cls.name, k, at), r, bad_class(r.exc.cls.name))
        else:
            c = [x.name for x in r.exc.cls.mro()]
            V.prove("%s: error class %s (%d)%s" % (name, r.exc.cls.name, k, at), r, bad_class in c)


def absent_or(V, v, f):
    """None, or f(number)."""
    return Or(*[And(c, True if x is None else f(x)) for c, x in flat_alts(v)])


def present(V, v, f):
    return Or(*[And(c, f(x)) for c, x in flat_alts(v) if x is not None])


def bus(V):
    V.on("bus row")
    st = V.state()
    i, t = V.opt("BUS_ID", "int"), V.opt("BUS_TYPE", "int")
    kv, hi, lo = V.opt("BASE_KV"), V.opt("VMAX"), V.opt("VMIN")
    row = V.row(st, [i, t, kv, hi, lo])
    ok, raises = V.call(st, V.get(BUSM, "Bus"), row)
    slack = present(V, t, lambda x: x == 0)
    common = And(Not(V.is_none(i)), present(V, t, lambda x: Or(x == 0, x == 1)), present(V, kv, lambda x: x > 0),
                 present(V, hi, lambda x: x >= 0))
    lims = And(present(V, lo, lambda x: x >= 0), V.le(V.default(lo, 0), V.default(hi, 0)))
    # the slack bus' VMIN is optional; what happens for a slack VMIN outside [0, VMAX] is not specified
    good = And(common, Or(slack, lims))
    must = And(common, Or(And(slack, Or(V.is_none(lo), lims)), lims))
    verdict(V, "Bus", ok, raises, good, "BusSpecError", must)
    if ok:
        V.prove("no simulation-time attribute is left out", ok, V.eq(V.attr(ok.st, ok.value, "id"), V.default(i, 0)))


def line(V):
    V.on("line row")
    st = V.state()
    ids = known_buses(V)
    f, t = V.opt("F_BUS", "int"), V.opt("T_BUS", "int")
    r, x, b = V.opt("BR_R"), V.opt("BR_X"), V.opt("BR_B")
    rate, tap, sh = V.opt("RATE"), V.opt("TAP"), V.opt("SHIFT")
    base = V.real("baseMVA")
    st.assume(base > 0)
    j = V.ctx.index_var(ids)
    lst = V.eng.alloc(st, ListO([For(ids, j, True, [One(j)])]))
    row = V.row(st, [f, t, r, x, b, rate, tap, sh])
    ok, raises = V.call(st, V.get(BRM, "TransmissionLine"), row, base, lst)
    nz = lambda v: present(V, v, lambda y: y != 0)
    good = And(present(V, f, ids.member), present(V, t, ids.member), absent_or(V, r, lambda y: y >= 0),
               absent_or(V, x, lambda y: y >= 0), Or(nz(r), nz(x)), absent_or(V, b, lambda y: y >= 0),
               absent_or(V, rate, lambda y: y >= 0), absent_or(V, tap, lambda y: y > 0),
               absent_or(V, sh, lambda y: And(y >= 0, y <= 360)))
    verdict(V, "TransmissionLine", ok, raises, good, "BranchSpecError")


def device(V, cls, typs, spec, err, region=None):
    """One device row: the generic cells, then the cells of its kind."""
    st = V.state()
    ids = known_buses(V)
    i, b, t = V.opt("DEV_ID", "int"), V.opt("BUS_ID", "int"), V.opt("DEV_TYPE", "int")
    cells = {c: V.opt(c) for c in COLS[3:]}
    base = V.real("baseMVA")
    st.assume(base > 0)
    # `_load_case` builds this class for rows of these types
    st.assume(Or(*[present(V, t, lambda x, k=k: x == k) for k in typs]))
    j = V.ctx.index_var(ids)
    lst = V.eng.alloc(st, ListO([For(ids, j, True, [One(j)])]))
    row = V.row(st, [i, b, t] + [cells[c] for c in COLS[3:]])
    ok, raises = V.call(st, V.get(DEV, cls), row, lst, base)
    generic = And(Not(V.is_none(i)), present(V, b, ids.member))
    mine, scope = spec(V, cells, base)
    verdict(V, cls, ok, raises, And(generic, mine), lambda c: (Not(generic) if c == "DeviceSpecError" else
                                                              And(generic, Not(mine)) if c == err else False),
            And(generic, mine, scope))


def load_rows(V, d, base):
    u = lambda x: V.div(x, base)
    hi, lo = V.default(d["PMAX"], 0), V.default(d["PMIN"], -INF)
    return And(Not(V.is_none(d["Q/P"])), V.le(hi, 0), V.le(lo, hi)), True


def reactive(V, d, qmax, qmin, L):
    return [V.le(L["qmin"], L["qmax"]), V.le(L["qplus"], L["qmax"]), V.le(L["qmin"], L["qminus"]), V.le(L["qminus"], L["qplus"])]


def gen_rows(slack):
    def f(V, d, base):
        from .devs import limits, gen_valid
        L = limits(V, d, base, "gen", slack)
        c = [V.le(L["pmin"], L["pmax"]), V.le(L["pmin"], L["pplus"]), V.le(L["pplus"], L["pmax"])]
        c += reactive(V, d, L["qmax"], L["qmin"], L)
        if not slack:
            c += [V.le(0, L["pmax"]), V.le(0, L["pmin"])]
        return And(*c), gen_valid(V, L, slack)
    return f


def des_rows(V, d, base):
    from .devs import limits, des_valid
    none = V.is_none(d["SOC_MAX"])
    d = dict(d, SOC_MAX=V.default(d["SOC_MAX"], 0))
    L = limits(V, d, base, "des")
    c = [V.le(L["pmin"], 0), V.le(0, L["pmax"]), V.le(L["pmin"], L["pminus"]), V.le(L["pminus"], L["pplus"]),
         V.le(L["pplus"], L["pmax"])] + reactive(V, d, L["qmax"], L["qmin"], L)
    c += [V.le(0, L["socmin"]), V.le(L["socmin"], L["socmax"]), V.lt(0, L["eff"]), V.le(L["eff"], 1), Not(none)]
    return And(*c), des_valid(V, L)


def loads(V):
    device(V.on("load row") or V, "Load", [-1], load_rows, "LoadSpecError")


def slack_gen(V):
    device(V.on("slack generator row") or V, "ClassicalGen", [0], gen_rows(True), "GenSpecError")


def classical(V):
    device(V.on("classical generator row") or V, "ClassicalGen", [1], gen_rows(False), "GenSpecError")


def renewable(V):
    device(V.on("renewable generator row") or V, "RenewableGen", [2], gen_rows(False), "GenSpecError")


def storage(V):
    device(V.on("storage row") or V, "StorageUnit", [3], des_rows, "StorageSpecError")


class Table:
    """A table of the network description: any number of rows, cells absent or numbers."""

    def __init__(self, V, st, name, cols, ids=()):
        self.V, self.name = V, name
        n = V.int(name + ".rows")
        st.assume(n >= 0)
        V.ctx.add_once(n >= 0)
        self.n = n
        self.base = Base(name.upper(), I, member=lambda j: And(j >= 0, j < n), pos=lambda j: j, count=n)
        self.base.order = lambda v: v
        V.ctx.bases[self.base.name] = self.base
        self.fn, self.none = {}, {}
        for c in cols:
            so = I if c in ids else R
            self.fn[c] = z3.Function("%s.%s" % (name, c), I, so)
            self.none[c] = z3.Function("%s.%s.none" % (name, c), I, B)
        self.cols = cols
        j = V.ctx.index_var(self.base)
        row = Snap(ArrO([One(self.cell(c, j)) for c in cols]))
        self.ref = V.eng.alloc(st, ArrO([For(self.base, j, True, [One(row)])]))

    def cell(self, c, j):
        return mk_choice([(self.none[c](j), None), (Not(self.none[c](j)), self.fn[c](j))])

    def is_(self, c, j, v):
        return And(Not(self.none[c](j)), self.fn[c](j) == v)

    def some(self, f):
        j = self.V.ctx.index_var(self.base)
        return self.V.ctx.mk_ex(self.base, j, f(j))

    def sk(self, st, tag):
        j = self.V.ctx.skolem(self.base, tag)
        self.V.ctx.note_index(self.base, j)
        st.assume(self.base.member(j))
        return j

    def count(self, f):
        j = self.V.ctx.index_var(self.base)
        return self.V.ctx.mk_count(self.base, j, f(j))


BUSC = ["BUS_ID", "BUS_TYPE", "BASE_KV", "VMAX", "VMIN"]
BRC = ["F_BUS", "T_BUS", "BR_R", "BR_X", "BR_B", "RATE", "TAP", "SHIFT"]


def network(V):
    """check_network_specs on tables of any size."""
    V.on("network")
    st = V.state()
    base = V.real("baseMVA")
    T = {"bus": Table(V, st, "bus", BUSC, BUSC[:2]), "device": Table(V, st, "device", COLS, COLS[:3]),
         "branch": Table(V, st, "branch", BRC, BRC[:2])}
    net = V.eng.alloc(st, DictO([("one", "baseMVA", base)] + [("one", k, t.ref) for k, t in T.items()]))
    ok, raises = V.call(st, V.get(CHECK, "check_network_specs"), net)
    if not V.normal("check_network_specs", ok):
        return
    V.reach("a network with several buses, devices and lines", ok.pc + [T["bus"].n > 2, T["device"].n > 2, T["branch"].n > 2])
    bus_, dev_, br_ = T["bus"], T["device"], T["branch"]
    eq = lambda a, b: V.eng.equals(st, a, b)
    slack = lambda t, c, k: t.is_(c, k, 0)
    parallel = lambda a, b: Or(And(eq(br_.cell("F_BUS", a), br_.cell("F_BUS", b)), eq(br_.cell("T_BUS", a), br_.cell("T_BUS", b))),
                               And(eq(br_.cell("F_BUS", a), br_.cell("T_BUS", b)), eq(br_.cell("T_BUS", a), br_.cell("F_BUS", b))))
    known = lambda v: bus_.some(lambda k: eq(bus_.cell("BUS_ID", k), v))

    # accepted => consistent
    s = ok.st.copy()
    V.prove("accepted: the base power is positive", s, base > 0)
    V.prove("accepted: one slack bus", s, bus_.count(lambda k: slack(bus_, "BUS_TYPE", k)) == 1)
    V.prove("accepted: one slack device", s, dev_.count(lambda k: slack(dev_, "DEV_TYPE", k)) == 1)
    a, b = bus_.sk(s, "a"), bus_.sk(s, "b")
    d, e = dev_.sk(s, "d"), dev_.sk(s, "e")
    l, m = br_.sk(s, "l"), br_.sk(s, "m")
    with_ = lambda *c: s.pc + [b2z(x) for x in c]
    V.prove("accepted: the slack device is on the slack bus", with_(slack(bus_, "BUS_TYPE", a), slack(dev_, "DEV_TYPE", d)),
            eq(bus_.cell("BUS_ID", a), dev_.cell("BUS_ID", d)))
    V.prove("accepted: bus identifiers are unique", with_(a != b), Not(eq(bus_.cell("BUS_ID", a), bus_.cell("BUS_ID", b))))
    V.prove("accepted: device identifiers are unique", with_(d != e), Not(eq(dev_.cell("DEV_ID", d), dev_.cell("DEV_ID", e))))
    V.prove("accepted: no parallel lines, in either direction", with_(l != m), Not(parallel(l, m)))
    V.prove("accepted: no line from a bus to itself", s, Not(eq(br_.cell("F_BUS", l), br_.cell("T_BUS", l))))
    # by the check of the tables or by the line's own constructor
    j = V.ctx.index_var(bus_.base)
    ids = V.eng.alloc(s, ListO([For(bus_.base, j, True, [One(bus_.cell("BUS_ID", j))])]))
    row = V.row(s, [br_.cell(c, l) for c in BRC])
    built, _ = V.call(s, V.get(BRM, "TransmissionLine"), row, base, ids)
    if V.normal("the line is built", built):
        V.prove("accepted: lines start at an existing bus", built, known(br_.cell("F_BUS", l)))
        V.prove("accepted: lines end at an existing bus", built, known(br_.cell("T_BUS", l)))

    # rejected with class X => a defect of class X
    pairs = lambda t, f: t.some(lambda i: t.some(lambda j: And(i != j, f(i, j))))
    defect = {
        "BaseMVAError": base <= 0,
        "BusSpecError": Or(bus_.count(lambda k: slack(bus_, "BUS_TYPE", k)) != 1,
                           pairs(bus_, lambda i, j: eq(bus_.cell("BUS_ID", i), bus_.cell("BUS_ID", j)))),
        "DeviceSpecError": Or(dev_.count(lambda k: slack(dev_, "DEV_TYPE", k)) != 1,
                              bus_.some(lambda i: dev_.some(lambda j: And(slack(bus_, "BUS_TYPE", i), slack(dev_, "DEV_TYPE", j),
                                                                          Not(eq(bus_.cell("BUS_ID", i), dev_.cell("BUS_ID", j)))))),
                              pairs(dev_, lambda i, j: eq(dev_.cell("DEV_ID", i), dev_.cell("DEV_ID", j)))),
        "BranchSpecError": Or(pairs(br_, parallel), br_.some(lambda k: eq(br_.cell("F_BUS", k), br_.cell("T_BUS", k))),
                              br_.some(lambda k: Or(Not(known(br_.cell("F_BUS", k))), Not(known(br_.cell("T_BUS", k)))))),
    }
    for k, r in enumerate(raises):
        w = getattr(r.exc, "where", None)
        V.prove("%s (%d)%s is raised for such a defect" % (r.exc.cls.name, k, " at `%s`" % w if w else ""), r,
                defect.get(r.exc.cls.name, False))


UT = "gym_anm.envs.utils"
ERR = "gym_anm.errors"


def bounds_arg(V, st):
    """The simulator's declared ranges: quantity -> element -> ranges (arbitrary elements)."""
    from .c09 import UNITS
    elem = Base("ELEM", I)
    elem.order = lambda v: v
    brs = Base("LINE", z3.DeclareSort("LINEs"))
    V.ctx.bases[elem.name], V.ctx.bases[brs.name] = elem, brs
    f, t = z3.Function("line.f", brs.sort, I), z3.Function("line.t", brs.sort, I)
    ent, has, hasbr = [], {}, {}
    for q in UNITS:
        if q.startswith("branch"):
            b = V.ctx.index_var(brs)
            ent.append(("one", q, V.eng.alloc(st, DictO([("for", brs, b, True, (f(b), t(b)), 0)]))))
        else:
            h = z3.Function("reports." + q, I, B)
            i = V.ctx.index_var(elem)
            ent.append(("one", q, V.eng.alloc(st, DictO([("for", elem, i, h(i), i, 0)]))))
            has[q] = lambda x, h=h: And(elem.member(x), h(x))
    return V.eng.alloc(st, DictO(ent)), has, (brs, f, t), elem


def arguments(V):
    """Scalars, kind of observation, length of the auxiliary bounds."""
    V.on("arguments")
    for obs in ("state", "full", None, 3, "callable"):
        st = V.state()
        V.on("arguments, observation %s" % obs)
        K, dt, lamb, gamma = V.int("K"), V.real("delta_t"), V.real("lamb"), V.real("gamma")
        n = V.int("aux.rows")
        st.assume(n >= 0)
        none = V.bool("aux_bounds.none")
        lo, hi = z3.Function("aux.lo", I, R), z3.Function("aux.hi", I, R)
        aux = Choice([(none, None), (Not(none), V.eng.alloc(st, ArrO([Fn(n, lambda i: (lo(to_z3(i)), hi(to_z3(i))))])))])
        from ..interp import Builtin
        ov = Builtin("observation", lambda e, s, a, k: 0) if obs == "callable" else obs
        sb, _, _, _ = bounds_arg(V, st)
        ok, raises = V.call(st, V.get(UT, "check_env_args"), K, dt, lamb, gamma, ov, aux, sb)
        good = And(K >= 0, dt > 0, lamb >= 0, gamma >= 0, gamma <= 1, Or(none, n == K))
        if obs in ("state", "callable"):
            verdict(V, "check_env_args", ok, raises, good, "ArgsError")
        else:
            if ok is not None:
                V.prove("an observation that is neither a list, a callable nor \"state\" is rejected", ok, False)
            for k, r in enumerate(raises):
                V.prove("error class (%d)" % k, r, "ArgsError" in [x.name for x in r.exc.cls.mro()])
            if not raises:
                V.prove("rejected", st, False)


def observation(V):
    """A list of any number of declarations, each any quantity name, any nodes, any unit."""
    from .c09 import UNITS
    V.on("observation list")
    st = V.state()
    K = V.int("K")
    sb, has, (brs, lf, lt), elem = bounds_arg(V, st)
    n = V.int("declarations")
    st.assume(n >= 0)
    V.ctx.add_once(n >= 0)
    D = Base("DECL", I, member=lambda j: And(j >= 0, j < n), pos=lambda j: j, count=n)
    D.order = lambda v: v
    V.ctx.bases[D.name] = D
    d = V.ctx.index_var(D)
    names = list(UNITS) + ["aux", "nothing"]
    kind = z3.Function("decl.quantity", I, I)
    sel = z3.Function("decl.nodes", I, I)          # 0: "all", 1: list of numbers, 2: list of lines, 3: something else
    unit = z3.Function("decl.unit", I, I)
    size = z3.Function("decl.size", I, I)
    num, nnum = z3.Function("decl.num", I, I, I), z3.Function("decl.nnum", I, I)
    brf, brt, nbr = z3.Function("decl.brf", I, I, I), z3.Function("decl.brt", I, I, I), z3.Function("decl.nbr", I, I)
    units = sorted({u for q in UNITS for u in UNITS[q]}) + [None, "furlong"]
    sizes = (0, 1, 2, 3, 4)
    # (a selection of auxiliary variables is "all" or a list of numbers)
    D._facts = lambda j: [Implies(kind(j) == names.index("aux"), sel(j) <= 1), kind(j) >= 0, kind(j) < len(names), sel(j) >= 0, sel(j) < 5, unit(j) >= 0, unit(j) < len(units),
                          Or(*[size(j) == m for m in sizes]), nnum(j) >= 0, nbr(j) >= 0]

    for fn, m in ((kind, len(names)), (sel, 5), (unit, len(units)), (size, len(sizes))):
        V.ctx.enums[fn.name()] = tuple(range(m))

    def table(fn, vals, j):
        return mk_choice([(fn(j) == k, v) for k, v in enumerate(vals)])
    numbers = Snap(ListO([Fn(nnum(d), lambda m, d=d: num(d, to_z3(m)))]))
    lines = Snap(ListO([Fn(nbr(d), lambda m, d=d: (brf(d, to_z3(m)), brt(d, to_z3(m))))]))
    key, u = table(kind, names, d), table(unit, units, d)
    nodes = mk_choice([(sel(d) == 0, "all"), (sel(d) == 1, numbers), (sel(d) == 2, lines), (sel(d) == 3, "some"), (sel(d) == 4, None)])
    full = (key, nodes, u, 0)
    item = mk_choice([(size(d) == m, full[:m]) for m in sizes])
    obs = V.eng.alloc(st, ListO([For(D, d, True, [One(item)])]))
    ok, raises = V.call(st, V.get(UT, "check_env_args"), K, 1, 1, 0, obs, None, sb)
    # the specification, per declaration
    NAT = Base("NAT", I, member=lambda m: m >= 0, pos=lambda m: m)
    NAT.order = lambda v: v
    NAT = V.ctx.bases.setdefault("NAT", NAT)
    from ..contracts.env import DEFAULT_UNIT
    is_q = lambda j, q: kind(j) == names.index(q)

    def some_number(j, bad):
        m = V.ctx.index_var(NAT)
        return V.ctx.mk_ex(NAT, m, And(m < nnum(j), bad(num(j, m))))

    def some_line(j, bad):
        m = V.ctx.index_var(NAT)
        return V.ctx.mk_ex(NAT, m, And(m < nbr(j), bad(brf(j, m), brt(j, m))))

    def a_line(f, t):
        b = V.ctx.index_var(brs)
        return V.ctx.mk_ex(brs, b, And(lf(b) == f, lt(b) == t))
    unsupported = lambda j: kind(j) == names.index("nothing")
    malformed = lambda j: And(size(j) != 2, size(j) != 3)

    def bad_nodes(j, only=None):
        out = []
        if only in ("aux", None):
            out = [And(is_q(j, "aux"), sel(j) == 1, some_number(j, lambda x: Or(x < 0, x >= K)))]
        for q in UNITS if only is None else [only] if only in UNITS else []:
            if q.startswith("branch"):
                unknown = Or(And(sel(j) == 1, nnum(j) > 0), And(sel(j) == 2, some_line(j, lambda f, t: Not(a_line(f, t)))))
            else:
                unknown = Or(And(sel(j) == 1, some_number(j, lambda x: Not(has[q](x)))), And(sel(j) == 2, nbr(j) > 0))
            out.append(And(is_q(j, q), Or(unknown, sel(j) >= 3)))
        return Or(*out)

    def bad_unit(j):
        ok = [And(is_q(j, q), Or(*[unit(j) == units.index(u) for u in UNITS[q]])) for q in UNITS]
        ok.append(And(is_q(j, "aux"), unit(j) == units.index(None)))
        return And(size(j) == 3, Not(unsupported(j)), Not(Or(*ok)))

    def some(f):
        j = V.ctx.index_var(D)
        return V.ctx.mk_ex(D, j, f(j))
    defect = {"ObsSpaceError": Or(some(malformed), some(lambda j: And(Not(malformed(j)), bad_nodes(j)))),
              "ObsNotSupportedError": some(unsupported), "UnitsNotSupportedError": some(bad_unit), "ArgsError": K < 0}
    V.reach("accepted", ok.pc + [n > 1])
    V.prove("accepted only with a number of auxiliary variables >= 0", ok, K >= 0)
    j = V.ctx.skolem(D, "decl")
    V.ctx.note_index(D, j)
    s = ok.st.copy()
    s.assume(D.member(j))
    V.prove("every declaration of an accepted list has 2 or 3 elements", s, Not(malformed(j)))
    V.prove("every declaration of an accepted list names a reported quantity", s, Not(unsupported(j)))
    s.assume(Not(malformed(j)))
    V.prove("every unit of an accepted list is one of its quantity", s, Not(bad_unit(j)))
    m = V.ctx.skolem(NAT, "node")
    V.ctx.note_index(NAT, m)
    s.assume(m >= 0)
    for q in names[:-1]:
        s1 = s.copy()
        s1.assume(is_q(j, q))
        V.prove("the nodes selected for %s are \"all\" or a list" % q, s1, sel(j) <= 2)
        s2, s3 = s1.copy(), s1.copy()
        s2.assume(And(sel(j) == 1, m < nnum(j)))
        x = num(j, m)
        V.prove("every number selected for %s reports it" % q, s2,
                And(x >= 0, x < K) if q == "aux" else False if q.startswith("branch") else has[q](x))
        if q != "aux":
            s3.assume(And(sel(j) == 2, m < nbr(j)))
            V.prove("every line selected for %s reports it" % q, s3, a_line(brf(j, m), brt(j, m)) if q.startswith("branch") else False)
    for k, r in enumerate(raises):
        w = getattr(r.exc, "where", None)
        nm = r.exc.cls.name
        V.prove("%s (%d)%s is raised for such a defect" % (nm, k, " at `%s`" % w if w else ""), r, defect.get(nm, False))
        V.prove("%s (%d) is a configuration error" % (nm, k), r, "ANMEnvConfigurationError" in [c.name for c in r.exc.cls.mro()])
    V.assumptions.append("declarations are tuples; the node selection of auxiliary variables is \"all\" or a list of numbers")


PARTS = [network, arguments, observation, bus, line, loads, slack_gen, classical, renewable, storage]
