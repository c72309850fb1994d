"""Models of datetime, random number generators and the clock.

Dates and durations are exact numbers of seconds (datetime rounds to microseconds; not modelled).
Random draws are fresh values in the documented range, logged with the generator they come from;
draws from a generator other than an object of the program (numpy's and Python's global ones, fresh
unseeded generators, the clock) are logged as nondeterminism."""
import datetime as _dt
from fractions import Fraction
from .values import *
from .heap import *
from . import lib

DAY = 86400
EPOCH = _dt.datetime(1970, 1, 1)


class TD:
    """datetime.timedelta"""

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "TD(%s)" % (self.s,)

    def subst(self, pairs):
        return TD(subst(self.s, pairs))

    def terms(self):
        yield from z3_terms(self.s)

    def vc_same(self, o):
        return isinstance(o, TD) and same(self.s, o.s)

    def vc_binop(self, eng, st, op, a, b):
        if isinstance(a, TD) and isinstance(b, TD):
            if op in "+-":
                return TD(eng.arith(st, op, a.s, b.s))
            if op in ("/", "//"):
                return eng.arith(st, op, a.s, b.s)
            if op == "%":
                return TD(eng.arith(st, op, a.s, b.s))
            return NotImplemented
        if isinstance(a, TD) and is_num(eng.num(b)) and op in "*/":
            return TD(eng.arith(st, op, a.s, b))
        if isinstance(b, TD) and is_num(eng.num(a)) and op == "*":
            return TD(eng.arith(st, op, b.s, a))
        return NotImplemented

    def vc_cmp(self, eng, st, op, a, b):
        if isinstance(a, TD) and isinstance(b, TD):
            return eng.cmp_num(st, op, a.s, b.s)
        return NotImplemented

    def vc_eq(self, eng, st, o):
        return isinstance(o, TD) and eng.cmp_num(st, "==", self.s, o.s)

    def vc_abs(self, eng, st):
        return TD(lib.b_abs(eng, st, [self.s], {}))

    def vc_attr(self, eng, st, n):
        if n == "days":
            return floor_(eng, self.s, DAY)
        if n == "seconds":
            return floor_(eng, eng.arith(st, "-", self.s, eng.arith(st, "*", DAY, floor_(eng, self.s, DAY))), 1)
        if n == "total_seconds":
            return Builtin(n, lambda e, s, a, k: self.s)
        raise Unsupported("timedelta." + n)


def floor_(eng, x, unit):
    if is_conc_num(x):
        return int(Fraction(x) // unit)
    return z3.ToInt(to_real(x) / unit)


class Date:
    """datetime.datetime (naive), in seconds since 1970."""
    vc_truth = True

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Date(%s)" % (self.s,)

    def subst(self, pairs):
        return Date(subst(self.s, pairs))

    def terms(self):
        yield from z3_terms(self.s)

    def vc_same(self, o):
        return isinstance(o, Date) and same(self.s, o.s)

    def vc_binop(self, eng, st, op, a, b):
        if isinstance(a, Date) and isinstance(b, TD) and op in "+-":
            return Date(eng.arith(st, op, a.s, b.s))
        if isinstance(a, TD) and isinstance(b, Date) and op == "+":
            return Date(eng.arith(st, op, b.s, a.s))
        if isinstance(a, Date) and isinstance(b, Date) and op == "-":
            return TD(eng.arith(st, "-", a.s, b.s))
        return NotImplemented

    def vc_cmp(self, eng, st, op, a, b):
        if isinstance(a, Date) and isinstance(b, Date):
            return eng.cmp_num(st, op, a.s, b.s)
        return NotImplemented

    def vc_eq(self, eng, st, o):
        return isinstance(o, Date) and eng.cmp_num(st, "==", self.s, o.s)

    def vc_attr(self, eng, st, n):
        if is_conc_num(self.s):
            d = EPOCH + _dt.timedelta(seconds=float(self.s))
            if n in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
                return getattr(d, n)
        day = floor_(eng, self.s, DAY)
        if n in ("year", "month", "day"):
            return z3.Function("date." + n, I, I)(to_z3(day))
        hour = floor_(eng, self.s, 3600)
        minute = floor_(eng, self.s, 60)
        if n == "hour":
            return hour - 24 * to_z3(day)
        if n == "minute":
            return minute - 60 * to_z3(hour)
        if n == "second":
            return floor_(eng, self.s, 1) - 60 * to_z3(minute)
        raise Unsupported("datetime." + n)


I, R = z3.IntSort(), z3.RealSort()


def timedelta(eng):
    def make(e, s, cls, a, k):
        names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
        unit = (DAY, 1, Fraction(1, 10**6), Fraction(1, 1000), 60, 3600, 7 * DAY)
        d = dict(zip(names, a))
        d.update(k)
        t = 0
        for n, v in d.items():
            t = e.arith(s, "+", t, e.arith(s, "*", v, unit[names.index(n)]))
        return TD(t)
    return klass("timedelta", make, TD)


def klass(name, make, pycls):
    c = ClassVal(name, "datetime." + name, [], {}, external=True)
    c.construct = make
    c.check = lambda e, s, v: isinstance(v, pycls)
    return c


def datetime_(eng):
    def make(e, s, cls, a, k):
        names = ("year", "month", "day", "hour", "minute", "second")
        d = dict(zip(names, a))
        d.update(k)
        tail = {n: d.pop(n) for n in ("hour", "minute", "second") if n in d}
        day = []
        for n in ("year", "month", "day"):
            v = e.num(d[n])
            day.append(int(v) if is_conc_num(v) else v)
        if all(isinstance(x, int) for x in day):
            s0 = int((_dt.datetime(*day) - EPOCH).total_seconds())
        elif all(isinstance(x, int) for x in day[1:]):
            s0 = z3.Function("date.of_year.%d.%d" % tuple(day[1:]), I, I)(to_z3(day[0])) * DAY
        else:
            raise Unsupported("datetime() of a symbolic day")
        for n, u in (("hour", 3600), ("minute", 60), ("second", 1)):
            if n in tail:
                s0 = e.arith(s, "+", s0, e.arith(s, "*", tail[n], u))
        return Date(s0)
    c = klass("datetime", make, Date)
    c.members = {n: Builtin("datetime." + n, clock("datetime.datetime." + n, lambda e, x: Date(x)))
                 for n in ("now", "today", "utcnow")}
    return c


lib.EXT[("datetime", "timedelta")] = timedelta
lib.EXT[("datetime", "datetime")] = datetime_


# ------------------------------------------------------------------ randomness
def nondet(eng, st, what):
    eng.nondet.append((what, list(st.pc)))


def clock(name, wrap=lambda e, x: x):
    def f(e, s, a, k):
        nondet(e, s, name)
        x = z3.Real(e.ctx.fresh_name("clock"))
        return wrap(e, x)
    return f


class Rng:
    """A numpy.random.Generator of the program."""

    def __init__(self, tag, glob=False):
        self.tag, self.glob = tag, glob

    def __repr__(self):
        return "Rng(%s)" % self.tag

    def vc_same(self, o):
        return self is o

    def vc_attr(self, eng, st, n):
        def draw(kind, fn):
            def f(e, s, a, k):
                if self.glob:
                    nondet(e, s, "%s.%s" % (self.tag, n))
                v = fn(e, s, a, k)
                e.draws.append((self, n, list(s.pc), v))
                return v
            return Builtin("rng." + n, f)
        if n in ("integers", "randint"):
            return draw("int", integers)
        if n in ("uniform",):
            return draw("real", uniform)
        if n in ("random", "rand", "random_sample"):
            return draw("real", lambda e, s, a, k: unit(e, s, a, k))
        if n in ("normal", "standard_normal", "randn"):
            return draw("real", lambda e, s, a, k: shaped(e, s, a[2] if len(a) > 2 else k.get("size"), lambda nm: z3.Real(nm)))
        if n == "choice":
            return draw("any", choice)
        if n == "seed":
            return Builtin("rng.seed", lambda e, s, a, k: None)
        raise Unsupported("random generator method " + n)


def shaped(eng, st, size, mk):
    if size is None:
        return mk(eng.ctx.fresh_name("rng.draw"))
    n = size[0] if isinstance(size, tuple) and len(size) == 1 else size
    if isinstance(n, tuple):
        raise Unsupported("random matrix")
    f = z3.Function(eng.ctx.fresh_name("rng.draw"), I, mk("rng.x").sort())
    return eng.alloc(st, ArrO([Fn(n, lambda i: f(to_z3(i)))]))


def args(names, a, k, **default):
    d = dict(default)
    d.update(zip(names, a))
    d.update(k)
    return d


def integers(eng, st, a, k):
    d = args(("low", "high", "size", "dtype", "endpoint"), a, k, high=None, size=None, endpoint=False)
    lo, hi = (0, d["low"]) if d["high"] is None else (d["low"], d["high"])
    if d["size"] is not None:
        raise Unsupported("array of random integers")
    x = z3.Int(eng.ctx.fresh_name("rng.draw"))
    top = eng.cmp_num(st, "<=" if d["endpoint"] else "<", x, hi)
    eng.raise_if(st, Not(eng.cmp_num(st, "<" if not d["endpoint"] else "<=", lo, hi)), "ValueError", "low >= high")
    st.assume(And(eng.cmp_num(st, "<=", lo, x), top))
    return x


def uniform(eng, st, a, k):
    d = args(("low", "high", "size"), a, k, low=0, high=1, size=None)
    if d["size"] is not None:
        return shaped(eng, st, d["size"], z3.Real)
    x = z3.Real(eng.ctx.fresh_name("rng.draw"))
    lo, hi = d["low"], d["high"]
    for c1, l in flat_alts(lo):
        for c2, h in flat_alts(hi):
            inf = isinstance(l, float) or isinstance(h, float)
            if inf:
                eng.raise_if(st, And(c1, c2), "OverflowError", "Range exceeds valid bounds")
                continue
            eng.raise_if(st, And(c1, c2, eng.cmp_num(st, "<", h, l)), "ValueError", "high < low")
            st.assume(Implies(And(c1, c2), And(eng.cmp_num(st, "<=", l, x), eng.cmp_num(st, "<=", x, h))))
    return x


def unit(eng, st, a, k):
    size = a[0] if a else k.get("size")
    if size is not None:
        return shaped(eng, st, size, z3.Real)
    x = z3.Real(eng.ctx.fresh_name("rng.draw"))
    st.assume(And(x >= 0, x < 1))
    return x


def choice(eng, st, a, k):
    d = args(("a", "size", "replace", "p"), a, k, size=None)
    v = d["a"]
    if d["size"] is not None:
        raise Unsupported("array of random choices")
    n = eng.num(v) if not isinstance(v, (tuple, list, str)) else v
    if is_num(n):
        return integers(eng, st, [n], {})
    i = integers(eng, st, [lib.b_len(eng, st, [v], {})], {})
    return eng.getitem(st, v, i)


def fresh_rng(eng, st, a, k):
    seed = a[0] if a else k.get("seed")
    alts = flat_alts(seed)
    if any(v is None for _, v in alts):
        nondet(eng, st, "numpy.random.default_rng()")
    return Rng("default_rng(%s)" % (seed,))


for n in ("uniform", "normal", "rand", "randint", "randn", "random", "random_sample", "choice", "integers", "seed", "standard_normal"):
    lib.EXT[("numpy.random", n)] = lambda eng, n=n: Rng("numpy.random", True).vc_attr(eng, None, n)
lib.EXT[("numpy.random", "default_rng")] = lambda eng: Builtin("default_rng", fresh_rng)
lib.EXT[("numpy.random", "RandomState")] = lambda eng: Builtin("RandomState", fresh_rng)
lib.EXT[("numpy.random", "Generator")] = lambda eng: Opaque("any")
for n in ("uniform", "random", "choice", "seed"):
    lib.EXT[("random", n)] = lambda eng, n=n: Rng("random", True).vc_attr(eng, None, n)
lib.EXT[("random", "randint")] = lambda eng: Builtin("randint", lambda e, s, a, k: Rng("random", True).vc_attr(e, s, "integers").fn(
    e, s, [a[0], e.arith(s, "+", a[1], 1)], {}))
lib.EXT[("random", "randrange")] = lambda eng: Rng("random", True).vc_attr(eng, None, "integers")
for n in ("time", "perf_counter", "monotonic", "time_ns"):
    lib.EXT[("time", n)] = lambda eng, n=n: Builtin("time." + n, clock("time." + n))


# ------------------------------------------------------------------ JSON, sockets, browser
class Json:
    """The text json.dumps makes of a value (the value as it was then)."""
    vc_truth = True

    def __init__(self, st, value):
        self.st, self.value = st, value

    def __repr__(self):
        return "Json(%r)" % (self.value,)

    def subst(self, pairs):
        return self

    def terms(self):
        return iter(())

    def vc_same(self, o):
        return self is o

    def vc_isinstance(self, eng, st, cls):
        return getattr(cls, "name", None) == "str"

    def vc_eq(self, eng, st, o):
        if self is o:
            return True
        raise Unsupported("comparison of JSON texts")


class Text:
    """An arbitrary JSON text received; `decoded` builds its value."""
    vc_truth = True

    def __init__(self, name, decoded):
        self.name, self.decoded = name, decoded

    def __repr__(self):
        return "Text(%s)" % self.name

    def subst(self, pairs):
        return self

    def terms(self):
        return iter(())

    def vc_same(self, o):
        return self is o

    def vc_isinstance(self, eng, st, cls):
        return getattr(cls, "name", None) == "str"

    def vc_eq(self, eng, st, o):
        if self is o:
            return True
        if o is None:
            return False
        raise Unsupported("comparison of texts")

    def vc_attr(self, eng, st, n):
        if n in ("strip", "lstrip", "rstrip", "encode", "lower", "upper", "replace", "title"):
            return Builtin("str." + n, lambda e, s, a, k: Text("%s.%s()" % (self.name, n), self.decoded))
        raise Unsupported("attribute %s of %r" % (n, self))


def dumps(eng, st, a, k):
    from .lib import deepcopy_
    s = st.copy()
    return Json(s, a[0])


def loads(eng, st, a, k):
    x = a[0]
    if isinstance(x, Json):
        return deepcopy_json(eng, st, x)
    if isinstance(x, Text):
        return x.decoded(eng, st)
    raise Unsupported("json.loads of %r" % (x,))


def deepcopy_json(eng, st, x):
    raise Unsupported("json.loads of a text made by json.dumps")


def sink(eng, st):
    """Everything sent over connections, in order: a list of (connection, message)."""
    if getattr(eng, "sent", None) is None:
        raise Unsupported("a message is sent outside a contract that watches the network")
    return eng.sent


def connection(eng, st, a, k):
    c = getattr(eng, "_ws_class", None)
    if c is None:
        c = eng._ws_class = ClassVal("WebSocket", "websocket.WebSocket", [], {}, external=True)

        def send(e, s, a, k):
            e.call(s, e.getattr(s, sink(e, s), "append"), [(e.getattr(s, a[0], "address"), a[1])], {})
            return None
        c.members = {"send": Builtin("WebSocket.send", send), "close": Builtin("WebSocket.close", lambda e, s, a, k: None)}
    return eng.alloc(st, Inst(c, {"address": a[0]}))


def try_connection(eng, st, a, k):
    """Refused until the server listens."""
    b = z3.Bool(eng.ctx.fresh_name("refused"))
    eng.raise_if(st, b, "ConnectionRefusedError", "connection refused")
    return connection(eng, st, a, k)


lib.EXT[("json", "dumps")] = lambda eng: Builtin("json.dumps", dumps)
lib.EXT[("json", "loads")] = lambda eng: Builtin("json.loads", loads)
lib.EXT[("websocket", "create_connection")] = lambda eng: Builtin("create_connection", try_connection if getattr(eng, "refusing", False) else connection)
lib.EXT[("webbrowser", "open")] = lambda eng: Builtin("webbrowser.open", lambda e, s, a, k: True)


def get(eng, st, a, k):
    c = ClassVal("Response", "requests.Response", [], {}, external=True)
    return eng.alloc(st, Inst(c, {"status_code": z3.Int(eng.ctx.fresh_name("status"))}))


lib.EXT[("requests", "get")] = lambda eng: Builtin("requests.get", get)
lib.EXT[("math", "isfinite")] = lambda eng: Builtin("isfinite", lambda e, s, a, k: lib.NP["isfinite"](e, s, a, k))
lib.EXT[("websocket_server", "WebsocketServer")] = lambda eng: Opaque("any")
lib.EXT[("multiprocessing", "Process")] = lambda eng: Opaque("any")
lib.EXT[("http.server", "HTTPServer")] = lambda eng: Opaque("any")
lib.EXT[("http.server", "SimpleHTTPRequestHandler")] = lambda eng: Opaque("any")
lib.EXT[("contextlib", "redirect_stdout")] = lambda eng: Opaque("any")
lib.EXT[("os", "makedirs")] = lambda eng: Builtin("makedirs", lambda e, s, a, k: None)
lib.EXT[("os.path", "join")] = lambda eng: Builtin("join", lambda e, s, a, k: "/".join(x if isinstance(x, str) else "?" for x in a))
lib.EXT[("os.path", "exists")] = lambda eng: Builtin("exists", lambda e, s, a, k: z3.Bool(e.ctx.fresh_name("exists")))
for n in ("dirname", "abspath"):
    lib.EXT[("os.path", n)] = lambda eng, n=n: Builtin(n, lambda e, s, a, k: Opaque("str"))
