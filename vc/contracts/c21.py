"""C21: display server, messages, calendar, frame skipping."""
import datetime as _dt
from .c18 import *
from ..extmodels import Json, Text, connection
from ..lib import seq_of

SRV = "gym_anm.envs.anm6_env.rendering.py.servers"
REN = "gym_anm.envs.anm6_env.rendering.py.rendering"
LINES = [(0, 1), (1, 2), (1, 3), (2, 4), (2, 5)]


# ------------------------------------------------------------------ display server
class Server:
    """The websocket library's server: it sends a message to one client or to all connected ones."""

    def __init__(self, V, st, clients):
        self.V = V
        eng = V.eng
        self.sent = eng.alloc(st, ListO([]))
        c = ClassVal("WebsocketServer", "websocket_server.WebsocketServer", [], {}, external=True)

        def put(e, s, x):
            e.call(s, e.getattr(s, self.sent, "append"), [x], {})

        def one(e, s, a, k):
            d = dict(zip(("client", "msg"), a[1:]))
            d.update(k)
            put(e, s, ("one", e.getitem(s, d["client"], "id"), d["msg"]))

        def all_(e, s, a, k):
            put(e, s, ("all", None, a[1] if len(a) > 1 else k["msg"]))
        c.members = {"send_message": Builtin("send_message", one), "send_message_to_all": Builtin("send_message_to_all", all_)}
        self.ref = eng.alloc(st, Inst(c, {"clients": clients}))

    def log(self, st):
        return seq_of(self.V.eng, st, self.sent)


class Peer:
    """The dictionary describing one client; the library hands the same object to every callback."""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "client %s" % (self.i,)

    def subst(self, pairs):
        return Peer(subst(self.i, pairs))

    def terms(self):
        yield self.i

    def vc_same(self, o):
        return isinstance(o, Peer) and same(self.i, o.i)

    def vc_is(self, eng, st, o):
        return self.i == o.i if isinstance(o, Peer) else False

    def vc_eq(self, eng, st, o):
        return self.vc_is(eng, st, o)

    def vc_ite(self, c, o):
        return Peer(z3.If(b2z(c), to_z3(self.i), to_z3(o.i)))

    def vc_getitem(self, eng, st, k):
        if k == "id":
            return self.i
        if k in ("handler", "address"):
            return Opaque(k, "%s of client %s" % (k, self.i))
        eng.raise_if(st, True, "KeyError", repr(k))

    def vc_contains(self, eng, st, k):
        return k in ("id", "handler", "address")

    def vc_attr(self, eng, st, n):
        if n == "get":
            return Builtin("dict.get", lambda e, s, a, k: self.vc_getitem(e, s, a[0]) if a[0] in ("id", "handler", "address") else
                           (a[1] if len(a) > 1 else k.get("default")))
        raise Unsupported("method %s of a client" % n)


class Viewers:
    """The connected viewers (any number; identifiers are unique)."""

    def __init__(self, V, st):
        self.base = Base("VIEWER", I)
        self.base.order = lambda v: v
        V.ctx.bases[self.base.name] = self.base
        v = V.ctx.index_var(self.base)
        self.V = V
        self.list = V.eng.alloc(st, ListO([For(self.base, v, True, [One(Peer(v))])]))
        self.dict = V.eng.alloc(st, DictO([("for", self.base, v, True, v, Peer(v))]))


def client(V, st, i):
    return Peer(i)


def received(V, s, srv, viewer, conn):
    """Messages the given viewer gets, as [(condition, message)] (conn: the viewer is connected)."""
    out = []

    def go(seq, cond, sub):
        for c in seq:
            if isinstance(c, One):
                kind, who, msg = c.v
                if kind == "all":
                    out.append((And(cond, conn), msg))
                else:
                    out.append((And(cond, V.eq(who, viewer)), msg))
            elif isinstance(c, If):
                go(c.a, And(cond, c.g), sub)
                go(c.b, And(cond, Not(c.g)), sub)
            elif isinstance(c, For) and len(c.items) == 1 and isinstance(c.items[0], One):
                kind, who, msg = c.items[0].v
                if kind != "one" or not same(who, c.var):
                    raise Unsupported("messages sent in a loop")
                g = subst(And(c.cond, c.base.member(c.var)), [(c.var, viewer)])
                out.append((And(cond, b2z(g)), subst(msg, [(c.var, viewer)])))
            else:
                raise Unsupported("chunk of the message log %r" % (c,))
    go(srv.log(s), True, ())
    return out


class Display:
    """The display server after any history: `latest` is the latest initialization message (if any),
    sent by the client with identifier `sender`; identifiers are never reused."""

    def __init__(self, V, s=None):
        self.V = V
        eng = V.eng
        self.st = st = s or V.state()
        self.vs = Viewers(V, st)
        self.srv = Server(V, st, self.vs.list)
        self.latest = Text("latest", None)
        self.none = z3.Bool("no_init_message_yet")
        self.sender = z3.Int("sender")
        ws = client(V, st, self.sender)
        pick = lambda v: Choice([(self.none, None), (Not(self.none), v)])
        self.ws = V.make(st, V.get(SRV, "WsServer"), HOST="127.0.0.1", PORT=9001, address="ws://127.0.0.1:9001/",
                         clients=self.vs.dict, init_message=pick(self.latest), init_client=pick(ws), process=None)

    def invariant(self, st, none, latest):
        """init_message is the latest initialization message, and someone is recorded as its sender."""
        V = self.V
        m, c = V.attr(st, self.ws, "init_message"), V.attr(st, self.ws, "init_client")
        return And(*[Implies(And(g, Not(none)), same(v, latest)) for g, v in flat_alts(m)] +
                   [Implies(And(g, none), v is None) for g, v in flat_alts(m)] +
                   [Implies(g, b2z(Not(none)) if v is not None else none) for g, v in flat_alts(c)])


    def recorded(self, name, st, x, conn):
        """Exactly the connected viewers are recorded in `clients`, under their identifiers."""
        V = self.V
        d = V.attr(st, self.ws, "clients")
        V.prove("the connected viewers are recorded (%s)" % name, st, V.has(st, d, x) == b2z(conn))
        s1 = st.copy()
        s1.assume(conn)
        V.prove("under their identifiers (%s)" % name, s1, V.eng.is_(s1, V.item(s1, d, x), Peer(x)))


def exactly(V, name, s, rec, want):
    """The viewer gets exactly the messages `want`: [(condition, message)] with at most one."""
    n = sum([z3.If(b2z(c), 1, 0) for c, _ in rec], z3.IntVal(0))
    w = Or(*[c for c, _ in want]) if want else False
    V.prove(name + " (one message)", s, n == z3.If(b2z(w), z3.IntVal(1), z3.IntVal(0)))
    V.prove(name + " (unchanged)", s, And(*[Implies(And(c, c2), same(m, m2)) if not isinstance(m, Choice) else
                                            Implies(And(c, c2), And(*[Implies(g, same(v, m2)) for g, v in flat_alts(m)]))
                                            for c, m in rec for c2, m2 in want]))


def server_start(V):
    V.on("WsServer.__init__")
    eng = V.eng
    eng.contracts[SRV + ".WsServer._start_process"] = lambda e, st, fv, a, k: None
    eng.contracts[SRV + "._is_port_in_use"] = lambda e, st, fv, a, k: z3.Bool("port.used")
    eng.contracts[SRV + "._select_random_free_port"] = lambda e, st, fv, a, k: z3.Int("port")
    st = V.state()
    ok, raises = V.run(st, lambda s: eng.instantiate(s, V.get(SRV, "WsServer"), [], {}))
    V.no_raise("construction", raises)
    if not V.normal("construction", ok):
        return
    D = Display(V, ok.st.copy())
    D.ws = ok.value
    V.prove("no initialization message yet", ok, D.invariant(ok.st, True, None))


def new_client(V):
    V.on("WsServer.new_client")
    D = Display(V)
    s = D.st
    new, other = z3.Int("new"), z3.Int("other")
    s.assume(Not(D.vs.base.member(new)))
    s.assume(Implies(Not(D.none), new != D.sender))
    V.ctx.note_index(D.vs.base, new)
    V.ctx.note_index(D.vs.base, other)
    ok, raises = V.method(s, D.ws, "new_client", client(V, s, new), D.srv.ref)
    V.no_raise("any viewer", raises)
    if not V.normal("any viewer", ok):
        return
    V.reach("a viewer connects after an initialization message", ok.pc + [Not(D.none)])
    V.reach("a viewer connects before any initialization message", ok.pc + [D.none])
    rec = received(V, ok.st, D.srv, new, True)
    exactly(V, "the new viewer gets the latest initialization message", ok, rec, [(Not(D.none), D.latest)])
    s1 = ok.st.copy()
    s1.assume(other != new)
    exactly(V, "no one else gets a message", s1, received(V, s1, D.srv, other, D.vs.base.member(other)), [])
    D.recorded("after a connection", ok.st, other, Or(other == new, D.vs.base.member(other)))
    V.prove("the latest initialization message is kept for the next viewer", ok, D.invariant(ok.st, D.none, D.latest))


def message(V):
    V.on("WsServer.msg_received")
    D = Display(V)
    s = D.st
    eng = V.eng
    me, x = z3.Int("me"), z3.Int("viewer")
    for i in (me, x):
        V.ctx.note_index(D.vs.base, i)
    s.assume(D.vs.base.member(me))
    s.assume(D.vs.base.member(x))
    init, upd = z3.Bool("msg.is_init"), z3.Bool("msg.is_update")
    s.assume(Not(And(init, upd)))
    label = Choice([(init, "init"), (upd, "update"), (And(Not(init), Not(upd)), "something else")])

    def decoded(eng, st):
        return eng.alloc(st, DictO([("one", "messageLabel", label), ("one", "title", Opaque("str"))]))
    msg = Text("msg", decoded)
    ok, raises = V.method(s, D.ws, "msg_received", client(V, s, me), D.srv.ref, msg)
    V.no_raise("any message", raises)
    if not V.normal("any message", ok):
        return
    for n, c in (("an initialization message", init), ("an update", upd)):
        V.reach(n + " arrives", ok.pc + [c])
    rec = received(V, ok.st, D.srv, x, True)
    s1 = ok.st.copy()
    s1.assume(upd)
    exactly(V, "every connected viewer gets an update", s1, rec, [(upd, msg)])
    s1 = ok.st.copy()
    s1.assume(init)
    V.prove("an initialization message becomes the latest one", s1, D.invariant(s1, False, msg))
    s1 = ok.st.copy()
    s1.assume(Not(init))
    V.prove("other messages leave the latest initialization message alone", s1, D.invariant(s1, D.none, D.latest))


def leave(V):
    V.on("WsServer.client_left")
    for known in (True, False):
        D = Display(V)
        s = D.st
        me = z3.Int("me%d" % known)
        s.assume(D.vs.base.member(me) if known else Not(D.vs.base.member(me)))
        n = "any viewer" if known else "a viewer the server does not know"
        x = z3.Int("viewer")
        for i in (me, x):
            V.ctx.note_index(D.vs.base, i)
        ok, raises = V.method(s, D.ws, "client_left", client(V, s, me), D.srv.ref)
        V.no_raise(n, raises)
        if not V.normal(n, ok):
            return
        V.reach("the sender of the initialization message leaves (%s)" % n, ok.pc + [Not(D.none), me == D.sender])
        V.prove("the latest initialization message is kept (%s)" % n, ok, D.invariant(ok.st, D.none, D.latest))
        D.recorded("%s leaves" % n, ok.st, x, And(x != me, D.vs.base.member(x)))
        exactly(V, "no one gets a message (%s)" % n, ok, received(V, ok.st, D.srv, x, D.vs.base.member(x)), [])


# ------------------------------------------------------------------ messages
def watch(V, st):
    V.eng.sent = V.eng.alloc(st, ListO([]))
    return V.eng.sent


def sent(V, s):
    out = []
    for c in seq_of(V.eng, s, V.eng.sent):
        if not isinstance(c, One):
            raise Unsupported("messages sent under a condition or in a loop")
        out.append(c.v)
    return out


def json_ok(V, s, v, path="message"):
    """The value can be written as standard JSON (no inf/nan), as a formula."""
    if isinstance(v, Choice):
        return And(*[Implies(c, json_ok(V, s, x, path)) for c, x in flat_alts(v)])
    if v is None or isinstance(v, (str, bool)) or is_boolref(v):
        return True
    if isinstance(v, tuple):
        return And(*[json_ok(V, s, x, path) for x in v])
    o = V.eng.obj(s, v)
    if o is not None and o.kind == "dict":
        out = []
        for e in o.entries:
            if e[0] != "one" or not isinstance(e[1], str):
                raise Unsupported("key of a JSON object")
            out.append(json_ok(V, s, e[2], path + "." + e[1]))
        return And(*out)
    if o is not None and o.kind == "list":
        return seq_json(V, s, o.seq, path)
    if o is not None and o.kind == "arr":
        return False      # numpy arrays cannot be serialised
    if isinstance(v, (Opaque, Poison)):
        return isinstance(v, Opaque) and v.kind == "str"
    v = V.eng.num(v)
    if isinstance(v, float):
        return False
    return is_num(v)


def seq_json(V, s, seq, path):
    out = []
    for c in seq:
        if isinstance(c, One):
            out.append(json_ok(V, s, c.v, path))
        elif isinstance(c, Fn):
            i = z3.Int(V.ctx.fresh_name("entry"))
            out.append(Implies(And(i >= 0, i < to_z3(c.length)), b2z(V.as_bool(json_ok(V, s, c.fn(i), path)))))
        elif isinstance(c, If):
            out += [Implies(c.g, b2z(V.as_bool(seq_json(V, s, c.a, path)))), Implies(Not(c.g), b2z(V.as_bool(seq_json(V, s, c.b, path))))]
        elif isinstance(c, For):
            out.append(Implies(And(c.base.member(c.var), c.cond), b2z(V.as_bool(seq_json(V, s, c.items, path)))))
        else:
            raise Unsupported("JSON list %r" % (c,))
    return And(*out)


def finite_or_null(V, got, x):
    """got is x, or null where x is not finite."""
    out = []
    for c, v in flat_alts(x):
        w = V.eng.num(v)
        if isinstance(w, float):
            out.append(Implies(c, V.is_none(got)))
        else:
            out.append(Implies(c, V.eq(got, v)))
    return And(*out)


LISTS = (("pInjections", "p"), ("qInjections", "q"), ("sFlows", "s"), ("socStorage", "soc"), ("pPotential", "p_potential"),
         ("vMagn", "bus_v_magn"), ("reward", "costs"))


def update(V):
    """rendering.update for lists of any length with any (also non-finite) entries."""
    V.on("rendering.update")
    st = V.state()
    eng = V.eng
    watch(V, st)
    addr = "ws://host:1/"
    date = Date(z3.Real("date"))
    year = z3.Int("year_count")
    collapsed = z3.Bool("network_collapsed")
    vals, fns = {}, {}
    for _, a in LISTS:
        n = z3.Int(a + ".n")
        st.assume(n >= 0)
        V.ctx.add_once(n >= 0)
        f, k = z3.Function(a, I, R), z3.Function(a + ".kind", I, I)

        def fn(i, f=f, k=k):
            i = to_z3(i)
            return Choice([(k(i) == 1, INF), (k(i) == 2, -INF), (k(i) == 3, float("nan")), (And(k(i) != 1, k(i) != 2, k(i) != 3), f(i))])
        fns[a] = (n, fn)
        b = Base("L_" + a, I, member=lambda j, n=n: And(j >= 0, j < n), pos=lambda j: j, count=n)
        b.order = lambda v: v
        V.ctx.bases[b.name] = b
        j = V.ctx.index_var(b)
        vals[a] = eng.alloc(st, ListO([For(b, j, True, [One(fn(j))])]))
        fns[a] = (n, fn, b)
    ok, raises = V.call(st, V.get(REN, "update"), addr, date, year, vals["p"], vals["q"], vals["s"], vals["soc"], vals["p_potential"],
                        vals["bus_v_magn"], vals["costs"], collapsed)
    V.no_raise("any values", raises)
    if not V.normal("any values", ok):
        return
    s = ok.st
    out = sent(V, s)
    V.prove("one message is sent", s, len(out) == 1)
    if len(out) != 1:
        return
    to, js = out[0]
    V.prove("to the display server of the environment", s, to == addr)
    V.prove("a JSON text", s, isinstance(js, Json))
    if not isinstance(js, Json):
        return
    m, sm = js.value, s
    sm.heap = js.st.heap
    G = lambda k: V.item(sm, m, k)
    V.prove("labelled as an update", sm, same(G("messageLabel"), "update"))
    V.prove("well-formed (no inf, no nan)", sm, json_ok(V, sm, m))
    t = G("time")
    for k, n in enumerate(("month", "day", "hour", "minute")):
        V.prove("the calendar's %s" % n, sm, V.eq(V.item(sm, t, k), V.attr(sm, date, n)))
    V.prove("year count", sm, V.eq(G("yearCount"), year))
    V.prove("collapse of the network", sm, V.is_(G("networkCollapsed"), collapsed))
    for key, a in LISTS:
        n, fn, b = fns[a]
        V.prove("%s: all values" % key, sm, V.eq(eng.lib.b_len(eng, sm, [G(key)], {}), n))
        j = V.ctx.skolem(b, "j_" + a)
        V.ctx.note_index(b, j)
        s1 = sm.copy()
        s1.assume(b.member(j))
        V.prove("%s: the values in order" % key, s1, finite_or_null(V, V.item(s1, G(key), j), fn(j)))


class Any6:
    """ANM6 with any time step, discount, penalty weight and cost limits, on its own network."""

    def __init__(self, V, easy=False):
        self.V = V
        eng = V.eng
        self.st = st = V.state()
        eng.contracts[SIMQ + "._build_admittance_matrix"] = Easy.admittance.__get__(self)
        self.dt = z3.Real("delta_t")
        self.C = [V.opt("clip.%d" % k) for k in range(2)]
        for k in range(2):
            st.assume(z3.Real("clip.%d" % k) >= 0)
        st.assume(self.dt > 0)
        st.assume(And(z3.Real("lamb") >= 0, 0 <= z3.Real("gamma"), z3.Real("gamma") <= 1))
        clip = Choice([(z3.Bool("no_clipping"), None), (Not(z3.Bool("no_clipping")), tuple(self.C))])
        self.cls = V.get(ANM6M, "ANM6")
        self.ok, self.raises = V.run(st, lambda s: eng.instantiate(s, self.cls, [
            "state", 0, self.dt, z3.Real("gamma"), z3.Real("lamb"), None, clip], {}))
        if self.ok:
            self.env = self.ok.value
            self.sim = V.attr(self.ok.st, self.env, "simulator")


def rendering_models(V, E, s):
    """start() and its servers without the operating system."""
    eng = V.eng
    http = eng.alloc(s, Inst(ClassVal("HttpServer", "HttpServer", [], {}, external=True), {"address": "http://host:2", "process": Opaque("any")}))
    ws = eng.alloc(s, Inst(ClassVal("WsServer", "WsServer", [], {}, external=True), {"address": "ws://host:1/", "process": Opaque("any")}))
    eng.contracts[SRV + ".HttpServer"] = lambda e, st, cls, a, k: http
    eng.contracts[SRV + ".WsServer"] = lambda e, st, cls, a, k: ws
    eng.contracts[REN + ".write_html"] = lambda e, st, fv, a, k: None
    eng.trusted.add("callee contracts: HttpServer(), WsServer() start a process; write_html writes the page (no effect on the messages)")
    watch(V, s)
    return "ws://host:1/"


def state_dict(V, st, tag):
    """An arbitrary state of the simulator of the 6-bus network (contract of C09), possibly collapsed."""
    from .c09 import UNITS
    eng = V.eng
    ent, val = [], {}
    for q, us in UNITS.items():
        ids = range(6) if q.startswith("bus") else range(N_DEV) if q.startswith("dev") else DES if q.startswith("des") else \
            GENS if q.startswith("gen") else LINES
        inner = []
        for u in us:
            d = []
            for i in ids:
                x = z3.Real("%s.%s.%s.%s" % (tag, q, u, i))
                k = z3.Int("%s.%s.%s.%s.kind" % (tag, q, u, i))
                val[(q, u, i)] = Choice([(k == 1, INF), (k == 2, -INF), (k == 3, float("nan")), (And(k != 1, k != 2, k != 3), x)])
                d.append(("one", i, val[(q, u, i)]))
            inner.append(("one", u, eng.alloc(st, DictO(d))))
        ent.append(("one", q, eng.alloc(st, DictO(inner))))
    return eng.alloc(st, DictO(ent)), val


SHOWN = (("pInjections", "dev_p", "MW", range(N_DEV)), ("qInjections", "dev_q", "MVAr", range(N_DEV)), ("sFlows", "branch_s", "MVA", LINES),
         ("socStorage", "des_soc", "MWh", DES), ("pPotential", "gen_p_max", "MW", GENS), ("vMagn", "bus_v_magn", "pu", range(6)))


def at_any_time(V, E, s):
    """The environment in any running state, the simulator included."""
    eng = V.eng
    sd, val = state_dict(V, s, "now")
    eng.setattr(s, E.sim, "state", sd)
    X = dict(e_loss=z3.Real("e_loss"), penalty=z3.Real("penalty"), date=Date(z3.Real("date")), date_init=Date(z3.Real("date_init")),
             year_count=z3.Int("year_count"))
    for n, v in X.items():
        eng.setattr(s, E.env, n, v)
    # ANMEnv (C08): an environment is terminated exactly when its last load flow did not converge
    history(V, s, E.env, E.sim)
    X["converged"] = Not(z3.Bool("terminated"))
    return val, X


def check_update(V, s, msg, addr, val, X):
    to, js = msg
    V.prove("update: sent to the environment's display server", s, to == addr)
    V.prove("update: a JSON text", s, isinstance(js, Json))
    if not isinstance(js, Json):
        return
    s, m = s.copy(), js.value
    s.heap = js.st.heap
    V.prove("update: labelled as such", s, same(V.item(s, m, "messageLabel"), "update"))
    V.prove("update: well-formed", s, json_ok(V, s, m))
    for key, q, u, ids in SHOWN:
        V.prove("update: %s has one value per element" % key, s, V.eq(V.eng.lib.b_len(V.eng, s, [V.item(s, m, key)], {}), len(ids)))
        V.prove("update: %s in identifier order" % key, s,
                And(*[b2z(V.as_bool(finite_or_null(V, V.item(s, m, key, k), val[(q, u, i)]))) for k, i in enumerate(ids)]))
    V.prove("update: energy loss and penalty", s, And(V.eq(V.item(s, m, "reward", 0), X["e_loss"]), V.eq(V.item(s, m, "reward", 1), X["penalty"])))
    for k, n in enumerate(("month", "day", "hour", "minute")):
        V.prove("update: the current %s" % n, s, V.eq(V.item(s, m, "time", k), V.attr(s, X["date"], n)))
    V.prove("update: year count", s, V.eq(V.item(s, m, "yearCount"), X["year_count"]))
    V.prove("update: collapse", s, V.eq(z3.If(b2z(V.as_bool(V.item(s, m, "networkCollapsed"))), 1, 0), z3.If(X["converged"], 0, 1)))


def check_init_message(V, E, s, msg, addr):
    to, js = msg
    V.prove("initialization: sent to the environment's display server", s, to == addr)
    V.prove("initialization: a JSON text", s, isinstance(js, Json))
    if not isinstance(js, Json):
        return
    s, m = s.copy(), js.value
    s.heap = js.st.heap
    V.prove("initialization: labelled as such", s, same(V.item(s, m, "messageLabel"), "init"))
    V.prove("initialization: well-formed", s, json_ok(V, s, m))
    base = V.attr(s, E.sim, "baseMVA")
    dev = lambda i, n: V.attr(s, V.item(s, V.attr(s, E.sim, "devices"), i), n)
    bus = lambda i, n: V.attr(s, V.item(s, V.attr(s, E.sim, "buses"), i), n)
    line = lambda i, n: V.attr(s, V.item(s, V.attr(s, E.sim, "branches"), i), n)
    conc = lambda x: x if is_conc_num(x) else 0
    big = lambda i, q: max(abs(conc(dev(i, q + "_min"))), abs(conc(dev(i, q + "_max")))) * base
    types = {0: 0, 1: -1, 2: 2, 3: -1, 4: 2, 5: -1, 6: 3}
    for key, n, want in (("deviceType", N_DEV, lambda k: types[k]), ("pMax", N_DEV, lambda k: big(k, "p")), ("qMax", N_DEV, lambda k: big(k, "q")),
                         ("sRate", 5, lambda k: V.mul(line(LINES[k], "rate"), base)), ("vMagnMin", 6, lambda k: bus(k, "v_min")),
                         ("vMagnMax", 6, lambda k: bus(k, "v_max")), ("socMax", 1, lambda k: V.mul(dev(6, "soc_max"), base))):
        V.prove("initialization: %s has one value per element" % key, s, V.eq(V.eng.lib.b_len(V.eng, s, [V.item(s, m, key)], {}), n))
        V.prove("initialization: %s in identifier order" % key, s, And(*[V.eq(V.item(s, m, key, k), want(k)) for k in range(n)]))


def first_picture(V):
    V.on("ANM6.render (first call)")
    E = Any6(V)
    V.no_raise("construction", E.raises)
    if not V.normal("construction", E.ok):
        return
    s = E.ok.st.copy()
    addr = rendering_models(V, E, s)
    val, X = at_any_time(V, E, s)
    skip, c = z3.Int("skip_frames"), z3.Int("calls_since_the_last_picture")
    s.assume(And(skip >= 0, c >= 0))
    again = z3.Bool("rendered_before")
    for n, v in (("render_mode", None), ("is_rendering", again), ("skipped_frames", Choice([(again, c), (Not(again), None)]))):
        V.eng.setattr(s, E.env, n, v)
    V.eng.refusing = True
    ok, raises = V.run(s, lambda st: V.eng.call(st, V.eng.getattr(st, E.env, "render"), [], {"skip_frames": skip}))
    V.no_raise("any state", raises, allowed=("ConnectionError", "ConnectionRefusedError"))
    if not V.normal("any state", ok):
        return
    seq = seq_of(V.eng, ok.st, V.eng.sent)
    V.prove("the initialization message comes first", ok, bool(seq) and isinstance(seq[0], One))
    check_init_message(V, E, ok.st, seq[0].v, addr)
    msgs = guarded(V, seq[1:])
    n = sum([z3.If(b2z(g), 1, 0) for g, _ in msgs], z3.IntVal(0))
    due = skip == 0
    V.prove("then the state (at once if no frame is skipped)", ok, And(n <= 1, Implies(due, n == 1)))
    c = V.attr(ok.st, E.env, "skipped_frames")
    V.prove("calls are counted from then on", ok, And(V.le(0, c), V.le(c, skip)))
    V.prove("the rendering is on", ok, And(same(V.attr(ok.st, E.env, "render_mode"), "human"), V.as_bool(V.attr(ok.st, E.env, "is_rendering"))))
    for g, m in msgs:
        s1 = ok.st.copy()
        s1.assume(g)
        check_update(V, s1, m, addr, val, X)


def guarded(V, seq):
    """Messages of a log, as (condition, message)."""
    msgs = []

    def go(seq, g):
        for x in seq:
            if isinstance(x, One):
                msgs.append((g, x.v))
            elif isinstance(x, If):
                go(x.a, And(g, x.g))
                go(x.b, And(g, Not(x.g)))
            else:
                raise Unsupported("messages sent in a loop")
    go(seq, True)
    return msgs


def picture(V):
    """Any later call of render, with any number of skipped frames."""
    V.on("ANM6.render (later calls)")
    E = Any6(V)
    if not V.normal("construction", E.ok):
        return
    s = E.ok.st.copy()
    addr = rendering_models(V, E, s)
    val, X = at_any_time(V, E, s)
    eng = V.eng
    skip, c = z3.Int("skip_frames"), z3.Int("calls_since_the_last_picture")
    s.assume(And(skip >= 0, c >= 0, c <= skip))
    ws = eng.call(s, eng.contracts[SRV + ".WsServer"] and Builtin("ws", lambda e, st, a, k: eng.contracts[SRV + ".WsServer"](e, st, None, a, k)), [], {})
    for n, v in (("render_mode", "human"), ("is_rendering", True), ("skipped_frames", c), ("ws_server", ws), ("http_server", Opaque("any"))):
        eng.setattr(s, E.env, n, v)
    ok, raises = V.run(s, lambda st: eng.call(st, eng.getattr(st, E.env, "render"), [], {"skip_frames": skip}))
    V.no_raise("any state", raises)
    if not V.normal("any state", ok):
        return
    seq = seq_of(eng, ok.st, eng.sent)
    msgs = guarded(V, seq)
    due = c == skip
    for n, f in (("a picture is due", due), ("no picture is due", Not(due))):
        V.reach(n, ok.pc + [f])
    n = sum([z3.If(b2z(g), 1, 0) for g, _ in msgs], z3.IntVal(0))
    V.prove("one update every skip_frames + 1 calls", ok, n == z3.If(due, 1, 0))
    V.prove("calls since the last picture are counted", ok, V.eq(V.attr(ok.st, E.env, "skipped_frames"), z3.If(due, z3.IntVal(0), c + 1)))
    V.prove("the rendering stays on", ok, same(V.attr(ok.st, E.env, "render_mode"), "human"))
    for g, m in msgs:
        s1 = ok.st.copy()
        s1.assume(g)
        check_update(V, s1, m, addr, val, X)


def closing(V):
    """close() in any state: the servers are stopped, the next render() starts anew."""
    V.on("ANM6.close")
    E = Any6(V)
    if not V.normal("construction", E.ok):
        return
    s = E.ok.st.copy()
    rendering_models(V, E, s)
    at_any_time(V, E, s)
    eng = V.eng
    on = z3.Bool("is_rendering")
    mode = z3.Bool("rendering")
    s.assume(Implies(mode, on))
    http, ws = [eng.contracts[SRV + n](eng, s, None, [], {}) for n in (".HttpServer", ".WsServer")]
    for n, v in (("is_rendering", on), ("http_server", http), ("ws_server", ws)):
        eng.setattr(s, E.env, n, v)
    calls = []
    eng.contracts[REN + ".close"] = lambda e, st, fv, a, k: calls.append((st.copy(), list(a) + list(k.values())))
    eng.trusted.add("callee contract: rendering.close ends the two server processes")
    ok, raises = V.method(s, E.env, "close")
    V.no_raise("any state", raises)
    if not V.normal("any state", ok):
        return
    V.prove("the rendering is off", ok, V.is_none(V.attr(ok.st, E.env, "render_mode")))
    V.prove("servers are stopped at most once", ok, len(calls) <= 1)
    for st, a in calls:
        V.prove("the environment's own servers", st, len(a) == 2 and same(a[0], http) and same(a[1], ws))


# ------------------------------------------------------------------ calendar
def date_step(V):
    V.on("ANM6.step")
    E = Any6(V)
    if not V.normal("construction", E.ok):
        return
    s = E.ok.st.copy()
    at_any_time(V, E, s)
    eng = V.eng
    d0, d1 = z3.Real("date"), z3.Real("date_init")
    s.assume(d1 <= d0)
    out = tuple(Opaque("any", n) for n in ("obs", "reward", "terminated", "truncated", "info"))
    calls = []

    def base_step(e, st, fv, a, k):
        calls.append(list(a[1:]) + list(k.values()))
        e.trusted.add("callee contract: ANMEnv.step (C08, C12)")
        return out
    eng.contracts[ENVQ + ".step"] = base_step
    act = Opaque("any", "action")
    ok, raises = V.method(s, E.env, "step", act)
    V.no_raise("any state", raises)
    if not V.normal("any state", ok):
        return
    V.prove("the base environment takes one step with the action", ok, len(calls) == 1 and len(calls[0]) == 1 and same(calls[0][0], act))
    V.prove("its result is returned", ok, isinstance(ok.value, tuple) and len(ok.value) == 5 and And(*[same(x, y) for x, y in zip(ok.value, out)]))
    d = V.attr(ok.st, E.env, "date")
    V.prove("the date advances by exactly one time step", ok, isinstance(d, Date) and V.eq(d.s, d0 + 3600 * E.dt))
    di = V.attr(ok.st, E.env, "date_init")
    V.prove("the date of the reset is kept", ok, isinstance(di, Date) and V.eq(di.s, d1))
    V.prove("years since the reset", ok, V.eq(V.attr(ok.st, E.env, "year_count"), z3.ToInt((d0 + 3600 * E.dt - d1) / 86400) / 365))


def date_reset(V, easy=False):
    V.on("ANM6Easy.reset" if easy else "ANM6.reset")
    E = Easy(V) if easy else Any6(V)
    if not V.normal("construction", E.ok):
        return
    eng = V.eng
    t = z3.Int("t")
    obs = (Opaque("any", "observation"), Opaque("any", "info"))
    for given in (False, True):
        s = E.ok.st.copy()
        s.assume(And(t >= 0, t < 96))
        at_any_time(V, E, s)
        mode = z3.Bool("rendering")
        begun, c = z3.Bool("is_rendering"), z3.Int("calls_since_the_last_picture")
        s.assume(And(Implies(mode, begun), c >= 0))     # `picture` and `closing` show it
        for n, v in (("is_rendering", begun), ("skipped_frames", Choice([(mode, c), (Not(mode), None)]))):
            eng.setattr(s, E.env, n, v)
        eng.setattr(s, E.env, "_np_random", Rng("own"))
        calls = []

        def base_reset(e, st, fv, a, k):
            calls.append(dict(k))
            e.setattr(st, E.env, "render_mode", None)
            if easy:
                e.setattr(st, E.env, "state", sym_state(V, st, t))
            return obs
        eng.contracts[ENVQ + ".reset"] = base_reset
        d = Date(z3.Real("requested"))
        opts = eng.alloc(s, DictO([("one", "date_init", d)])) if given else None
        tag = " (date given)" if given else " (no date given)"
        ok, raises = V.run(s, lambda st: eng.call(st, eng.getattr(st, E.env, "reset"), [], {"options": opts}))
        V.no_raise("any state" + tag, raises)
        if not V.normal("any state" + tag, ok):
            continue
        V.prove("the base environment is reset once" + tag, ok, len(calls) == 1)
        x = V.attr(ok.st, E.env, "date")
        off = 900 * t if easy else 0
        if given:
            V.prove("the date starts at the requested one" + tag, ok, isinstance(x, Date) and V.eq(x.s, d.s + off))
        else:
            day = to_real(x.s) - off if isinstance(x, Date) else z3.RealVal(0)
            first, last = [int((_dt.datetime(2020, 12, 31) - _dt.datetime(1970, 1, 1)).total_seconds()) if k else
                           int((_dt.datetime(2020, 1, 1) - _dt.datetime(1970, 1, 1)).total_seconds()) for k in (0, 1)]
            V.prove("a whole day of 2020" + tag, ok, And(isinstance(x, Date), first <= day, day <= last, z3.ToReal(z3.ToInt(day / 86400)) * 86400 == day))
        y = V.attr(ok.st, E.env, "date_init")
        V.prove("years are counted from the date of the reset" + tag, ok, isinstance(y, Date) and V.eq(y.s, x.s))
        k = V.attr(ok.st, E.env, "skipped_frames")
        V.prove("calls of render() are counted across the reset" + tag, ok, Implies(mode, And(*[Implies(g, V.eq(v, c) if is_num(v) else False) for g, v in flat_alts(k)])))
        V.prove("year count restarts" + tag, ok, V.eq(V.attr(ok.st, E.env, "year_count"), 0))
        m = V.attr(ok.st, E.env, "render_mode")
        V.prove("the rendering goes on across the reset" + tag, ok, And(*[Implies(g, same(v, "human") if same(v, "human") else v is None and b2z(Not(mode)))
                                                                         for g, v in flat_alts(m)] + [Implies(And(mode, g), same(v, "human")) for g, v in flat_alts(m)]))


def easy_reset(V):
    date_reset(V, True)


PARTS = [server_start, new_client, message, leave, update, first_picture, picture, closing, date_step, date_reset, easy_reset]
