"""Verification context: fresh symbols, facts, aggregate atoms, prover."""
import time
import z3
from fractions import Fraction
from .values import *

_SOLVER_STATS = {"z3_calls": 0, "z3_s": 0.0, "norm": 0, "cvc5_calls": 0, "cvc5_s": 0.0, "syntactic": 0}


def stats():
    return _SOLVER_STATS


class AggDef:
    def __init__(self, kind, name, base, var, body, params, decl):
        self.kind, self.name, self.base, self.var, self.body = kind, name, base, var, body
        self.params, self.decl = params, decl


def children_memo(e, f, memo):
    k = e.get_id()
    if k in memo:
        return memo[k]
    r = f(e)
    memo[k] = r
    return r


class Ctx:
    def __init__(self):
        self.n = 0
        self.facts = []
        self.fact_ids = set()
        self.indexvars = {}      # name -> Base
        self.loopvars = []       # stack of generic loop variables in scope
        self.aggs = {}           # decl name -> AggDef
        self.aggkeys = {}
        self.bases = {}
        self.feas_cache = {}
        self.uf_axioms = []      # functions term -> [facts]
        self.pi = z3.Real("pi")
        self.facts.append(z3.And(self.pi > z3.RealVal("3.14159"), self.pi < z3.RealVal("3.1416")))
        self.known_idx = {}
        self.ifacts, self.fact_tpl, self.nl_cache = {}, {}, {}
        self.info_cache, self.own_cache = {}, {}
        self.enums = {}          # decl name -> values taken by a function of finite range
        self.enum_cache = {}
        self.nonneg_ids = {}
        self.holes = {}
        self.templates = []      # facts about arbitrary members: (variables, fact)
        self.pre_prefix = "pre!"
        self.deadline = None
        self.trusted = set()

    # ------------------------------------------------------------ symbols
    def fresh_name(self, tag):
        self.n += 1
        return "%s!%d" % (tag, self.n)

    def fresh(self, tag, sort=None, extra=()):
        """A fresh symbol; a function of the generic loop variables in scope."""
        sort = z3.RealSort() if sort is None else sort
        args = list(self.loopvars) + list(extra)
        name = self.fresh_name(tag)
        if not args:
            return z3.Const(name, sort)
        f = z3.Function(name, *([a.sort() for a in args] + [sort]))
        return f(*args)

    def index_var(self, base, tag=None):
        v = z3.Const(self.fresh_name((tag or base.name) + "_i"), base.sort)
        self.indexvars[v.decl().name()] = base
        self.bases[base.name] = base
        return v

    def skolem(self, base, tag="sk"):
        """A fresh index constant (arbitrary index)."""
        return self.index_var(base, tag)

    def note_index(self, base, t):
        """Register a member index term; its well-formedness facts are instantiated on demand."""
        if isinstance(t, int):
            t = z3.IntVal(t)
        key = (base.name, t.get_id())
        if key not in self.known_idx:
            self.known_idx[key] = t
            self.bases[base.name] = base

    def index_facts(self, base, t):
        """The well-formedness facts of a member index term (instantiated once):
        [[fact or None, template]]; a template is (variable, fact, gating symbols, index terms, constants, linear)."""
        key = (base.name, t.get_id())
        r = self.ifacts.get(key)
        ver = base.version() if base.version else 0
        if r is None or r[0] != ver:
            tpl = self.fact_tpl.get((base.name, ver))
            if tpl is None:
                v = z3.Const("#idx_" + base.name, base.sort)
                fs = [b2z(Implies(base.member(v), f)) for f in base.facts(v)]
                tpl = self.fact_tpl[(base.name, ver)] = [self.template(v, f) for f in fs if not z3.is_true(f)]
            r = self.ifacts[key] = (ver, t, [[None, x] for x in tpl])
        return r[2]

    def template(self, v, f):
        _, idx, apps, consts = self._collect([f]) + (free_consts(f),)
        syms = {n for n in apps if not n.startswith(("in_", "pos_"))
                and any(x.decl().kind() == z3.Z3_OP_UNINTERPRETED for x in apps[n])}
        gate = {n for n in syms if n not in self.enums}
        # index-valued functions (end points, buses of devices) do not gate
        terms = [(bn, t) for bn, d in idx.items() for t in d.values() if not t.eq(v)]
        ix = set()
        for _, t in terms:
            if z3.is_app(t) and t.num_args():
                ix.add(t.decl().name())
        gate -= ix
        return (v, f, gate, terms, [n for n in consts if n != v.decl().name()], not self.nonlinear(f), syms)

    def relevant(self, exprs, linear=False, depth=3):
        """Facts connected with the expressions through their index terms and symbols."""
        out, have = [], set()
        idxdone, names, syms = {}, set(), set()
        consts_of = {}
        newidx = []
        pending = self.facts

        def see_idx(bn, t):
            k = (bn, t.get_id())
            if k not in idxdone:
                idxdone[k] = t
                newidx.append((bn, t))

        def see_consts(consts):
            for n, c in consts.items():
                if n not in names:
                    names.add(n)
                    k = c.get_id()
                    for bn in self.bases:
                        if (bn, k) in self.known_idx:
                            see_idx(bn, self.known_idx[(bn, k)])

        def see(e):
            _, idx, apps, consts = self.info(e)
            for bn, d in idx.items():
                for t in d.values():
                    see_idx(bn, t)
            see_consts(consts)
            syms.update(apps)
        for e in exprs:
            if is_z3(e):
                see(e)
        waiting = []
        for _ in range(depth):
            n0 = len(out)
            for bn, t in newidx:
                waiting += [(t, x) for x in self.index_facts(self.bases[bn], t)]
            del newidx[:]
            rest = []
            sy = set(syms)
            for t, cell in waiting:
                v, f, gate, terms, consts, lin, sm = cell[1]
                if gate and not (gate & sy):
                    rest.append((t, cell))
                    continue
                if linear and not lin:
                    continue
                if cell[0] is None:
                    cell[0] = z3.substitute(f, (v, t))
                    cell.append([(bn, z3.substitute(x, (v, t))) for bn, x in terms])
                k = cell[0].get_id()
                if k in have:
                    continue
                have.add(k)
                out.append(cell[0])
                for bn, x in cell[2]:
                    see_idx(bn, x)
                    see_consts(free_consts(x))
                names.update(consts)
                syms.update(sm)
            waiting = rest
            rest = []
            for f in pending:
                ix = self.own_idx(f)
                if not ix or any(n in names for n in ix):
                    k = f.get_id()
                    if k in have:
                        continue
                    have.add(k)
                    if linear and self.nonlinear(f):
                        continue
                    out.append(f)
                    see(f)
                else:
                    rest.append(f)
            pending = rest
            if len(out) == n0:
                break
        return out

    def own_idx(self, f):
        k = f.get_id()
        r = self.own_cache.get(k)
        if r is None:
            r = self.own_cache[k] = (f, [n for n in self.info(f)[3] if n in self.indexvars and "!" in n])
        return r[1]

    def info(self, e):
        """(aggregates, index terms, applications, constants) of an expression, cached."""
        k = e.get_id()
        r = self.info_cache.get(k)
        if r is not None and r[0] == len(self.bases):
            return r[2]
        v = self._collect([e]) + (free_consts(e),)
        self.info_cache[k] = (len(self.bases), e, v)
        return v

    def collect(self, exprs):
        aggs, idx, apps = {}, {}, {}
        for e in exprs:
            if not is_z3(e):
                continue
            a, i, p, _ = self.info(e)
            aggs.update(a)
            for bn, d in i.items():
                idx.setdefault(bn, {}).update(d)
            for n, l in p.items():
                apps.setdefault(n, []).extend(l)
        return aggs, idx, apps

    def nonlinear(self, f):
        k = f.get_id()
        r = self.nl_cache.get(k)
        if r is not None:
            return r[1]
        res = False
        seen, stack = set(), [f]
        while stack:
            t = stack.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            kd = t.decl().kind()
            if kd == z3.Z3_OP_MUL and sum(1 for c in t.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                res = True
                break
            if kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(t.arg(1)) or z3.is_int_value(t.arg(1))):
                res = True
                break
            if kd == z3.Z3_OP_POWER:
                res = True
                break
            stack.extend(t.children())
        self.nl_cache[k] = (f, res)
        return res

    def add_fact(self, f):
        if f is True or (is_z3(f) and z3.is_true(f)):
            return
        f = b2z(f)
        self.facts.append(f)
        fc = free_consts(f)
        vs = [v for v in self.loopvars if v.decl().name() in fc]
        if vs:
            # instantiate where a symbol introduced with the fact is applied
            trig, weak = [], []
            for nm, ts in self.info(f)[2].items():
                if nm in self.aggs or nm.startswith(("in_", "pos_")) or nm.split(".")[0] in self.bases:
                    continue
                for x in ts:
                    if x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                        continue
                    pos = [next((j for j in range(x.num_args()) if x.arg(j).eq(v)), None) for v in vs]
                    if None not in pos:
                        (trig if "!" in nm else weak).append((nm, pos))
            trig = trig or weak
            trig = [t for n, t in enumerate(trig) if t not in trig[:n]]
            self.templates.append((vs, f, trig))

    # ------------------------------------------- finite-range functions (classes of members)
    def enum_info(self, c):
        """(term, frozenset of values making c true) when c only compares one finite-range term."""
        k = c.get_id()
        r = self.enum_cache.get(k)
        if r is not None:
            return r[1]
        v = self._enum_info(c)
        self.enum_cache[k] = (c, v)
        return v

    def _enum_info(self, c):
        if not self.enums or not z3.is_app(c):
            return None
        kd = c.decl().kind()
        if kd in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) and c.num_args() == 2:
            a, b = c.children()
            flip = False
            if z3.is_int_value(a):
                a, b, flip = b, a, True
            if not z3.is_int_value(b) or not z3.is_app(a):
                return None
            vals = self.enums.get(a.decl().name())
            if vals is None or a.num_args() == 0:
                return None
            n = b.as_long()
            f = {z3.Z3_OP_EQ: lambda x: x == n, z3.Z3_OP_DISTINCT: lambda x: x != n,
                 z3.Z3_OP_LE: (lambda x: n <= x) if flip else (lambda x: x <= n),
                 z3.Z3_OP_GE: (lambda x: n >= x) if flip else (lambda x: x >= n),
                 z3.Z3_OP_LT: (lambda x: n < x) if flip else (lambda x: x < n),
                 z3.Z3_OP_GT: (lambda x: n > x) if flip else (lambda x: x > n)}[kd]
            return a, frozenset(x for x in vals if f(x))
        if kd == z3.Z3_OP_NOT:
            r = self.enum_info(c.arg(0))
            return None if r is None else (r[0], frozenset(self.enums[r[0].decl().name()]) - r[1])
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            t, s = None, None
            for x in c.children():
                r = self.enum_info(x)
                if r is None or (t is not None and not t.eq(r[0])):
                    return None
                t, s = r[0], (r[1] if s is None else s & r[1] if kd == z3.Z3_OP_AND else s | r[1])
            return t, s
        return None

    def enum_formula(self, t, s):
        vals = self.enums[t.decl().name()]
        if not s:
            return False
        if len(s) == len(vals):
            return True
        return Or(*[t == v for v in sorted(s)])

    def enum_tree(self, t):
        """(term, {value: leaf}) of nested ites whose conditions all compare one finite-range term."""
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
            return None
        i = self.enum_info(t.arg(0))
        if i is None:
            return None
        term, yes = i
        out = {}
        for br, vals in ((t.arg(1), yes), (t.arg(2), frozenset(self.enums[term.decl().name()]) - yes)):
            sub = self.enum_tree(br)
            for v in vals:
                out[v] = sub[1][v] if sub is not None and sub[0].eq(term) else br
        return term, out

    def from_tree(self, term, tab):
        groups = []
        for v in sorted(tab):
            for g in groups:
                if g[0].eq(tab[v]):
                    g[1].add(v)
                    break
            else:
                groups.append([tab[v], {v}])
        zero = [g for g in groups if z3.is_rational_value(g[0]) and g[0].numerator_as_long() == 0
                or z3.is_int_value(g[0]) and g[0].as_long() == 0]
        groups = [g for g in groups if not any(g is z for z in zero)] + zero
        r = groups[-1][0]
        for leaf, vs in reversed(groups[:-1]):
            r = z3.If(b2z(self.enum_formula(term, vs)), leaf, r)
        return r

    def specialize(self, pc, e):
        """Simplify a term with the classes the path condition fixes."""
        if not self.enums or not is_z3(e) or not z3.is_app(e) or e.num_args() == 0:
            return e
        allowed = {}
        for p in pc:
            if is_z3(p):
                j = self.enum_info(p)
                if j is not None:
                    k = j[0].get_id()
                    allowed[k] = (j[0], (allowed[k][1] & j[1]) if k in allowed else j[1])
        if not allowed:
            return e
        memo = {}

        def go(t):
            k = t.get_id()
            if k in memo:
                return memo[k][1]
            r = t
            if z3.is_app(t) and t.num_args():
                if z3.is_bool(t):
                    i = self.enum_info(t)
                    if i is not None:
                        a = allowed.get(i[0].get_id())
                        if a is not None and a[1]:
                            r = z3.BoolVal(True) if a[1] <= i[1] else z3.BoolVal(False) if not (a[1] & i[1]) else t
                        memo[k] = (t, r)
                        return r
                kd = t.decl().kind()
                if kd == z3.Z3_OP_ITE:
                    c = go(t.arg(0))
                    r = go(t.arg(1)) if z3.is_true(c) else go(t.arg(2)) if z3.is_false(c) else None
                    if r is None:
                        a, b = go(t.arg(1)), go(t.arg(2))
                        r = a if a.eq(b) else z3.If(c, a, b)
                else:
                    ch = [go(x) for x in t.children()]
                    if any(not x.eq(y) for x, y in zip(ch, t.children())):
                        r = b2z(And(*ch)) if kd == z3.Z3_OP_AND else b2z(Or(*ch)) if kd == z3.Z3_OP_OR else \
                            b2z(Not(ch[0])) if kd == z3.Z3_OP_NOT else t.decl()(*ch)
            memo[k] = (t, r)
            return r
        return go(e)

    def canon(self, e):
        """Rewrite maximal comparisons of finite-range terms in a canonical form."""
        if not self.enums or not is_z3(e):
            return e
        memo = {}

        def go(t):
            k = t.get_id()
            if k in memo:
                return memo[k][1]
            r = t
            if z3.is_app(t) and t.num_args():
                if z3.is_bool(t):
                    i = self.enum_info(t)
                    if i is not None:
                        r = b2z(self.enum_formula(*i))
                        memo[k] = (t, r)
                        return r
                kd = t.decl().kind()
                if kd == z3.Z3_OP_AND or kd == z3.Z3_OP_OR:
                    groups, rest = {}, []
                    for x in t.children():
                        i = self.enum_info(x)
                        if i is None:
                            rest.append(go(x))
                        else:
                            g = groups.setdefault(i[0].get_id(), [i[0], None])
                            g[1] = i[1] if g[1] is None else (g[1] & i[1] if kd == z3.Z3_OP_AND else g[1] | i[1])
                    fs = [self.enum_formula(*g) for g in groups.values()] + rest
                    r = b2z(And(*fs) if kd == z3.Z3_OP_AND else Or(*fs))
                else:
                    ch = [go(x) for x in t.children()]
                    if kd == z3.Z3_OP_ITE and (z3.is_true(ch[0]) or z3.is_false(ch[0])):
                        r = ch[1] if z3.is_true(ch[0]) else ch[2]
                    elif kd == z3.Z3_OP_ITE and ch[1].eq(ch[2]):
                        r = ch[1]
                    elif kd == z3.Z3_OP_ITE:
                        r = t.decl()(*ch)
                        tr = self.enum_tree(r)
                        if tr is not None:
                            r = self.from_tree(*tr)
                    elif kd == z3.Z3_OP_NOT:
                        r = b2z(Not(ch[0]))
                    elif any(not x.eq(y) for x, y in zip(ch, t.children())):
                        r = t.decl()(*ch)
            memo[k] = (t, r)
            return r
        return go(e)

    def enum_decide(self, pc, c):
        """Settle c from the finite-range comparisons of the path condition alone (None: unknown)."""
        i = self.enum_info(c)
        if i is None:
            return None
        t, s = i
        allowed = frozenset(self.enums[t.decl().name()])
        for p in pc:
            if is_z3(p):
                j = self.enum_info(p)
                if j is not None and j[0].eq(t):
                    allowed = allowed & j[1]
        if not allowed:
            return None
        if allowed <= s:
            return True
        if not (allowed & s):
            return False
        return None

    def nonneg_term(self, t):
        """Syntactically nonnegative integer/real term."""
        if z3.is_int_value(t):
            return t.as_long() >= 0
        if z3.is_rational_value(t):
            return t.numerator_as_long() >= 0
        if not z3.is_app(t):
            return False
        n = t.decl().name()
        if n.startswith("pos_") and n[4:] in self.bases or n.startswith("count_") and n[6:] in self.bases:
            return True
        d = self.aggs.get(n)
        if d is not None and d.kind in ("sum", "psum"):
            return self.nonneg_term(d.body)
        kd = t.decl().kind()
        if kd == z3.Z3_OP_ITE:
            return self.nonneg_term(t.arg(1)) and self.nonneg_term(t.arg(2))
        if kd in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            return all(self.nonneg_term(x) for x in t.children())
        if kd == z3.Z3_OP_TO_REAL:
            return self.nonneg_term(t.arg(0))
        return t.get_id() in self.nonneg_ids

    def holds(self, pc, c):
        """Cheap check that c follows from the path condition."""
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_and(c):
            return all(self.holds(pc, x) for x in c.children())
        if any(is_z3(p) and p.eq(c) for p in pc):
            return True
        return self.enum_decide(pc, c) is True

    def lower(self, pc, p, N):
        """A lower bound of the polynomial p (over N.atoms) or None; strict position facts included."""
        p = dict(p)
        lb = p.pop((), Fraction(0))
        lin = {}
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1:
                lin[m[0][0]] = c
            elif c > 0 and all(self.nonneg_term(N.atoms[x]) for x, _ in m):
                pass
            else:
                return None
        # pair total - rank(j) >= 1 for a member j with the condition
        for x in list(lin):
            c = lin.get(x, 0)
            if c >= 0:
                continue
            t = N.atoms[x]
            n = t.decl().name()
            tot, gain = None, 0
            if n.startswith("pos_") and n[4:] in self.bases:
                b = self.bases[n[4:]]
                tot = z3.Int("count_" + b.name) if b.count is None else b.count
                if self.holds(pc, b.member(t.arg(0))):
                    gain = 1
                elif not self.holds(pc, b.member(t.arg(0))):
                    tot = None
            d = self.aggs.get(n)
            if d is not None and d.kind == "psum" and self._unit(d, t):
                key = ("sum", d.base.name, d.body.sexpr())
                ds = self.aggkeys.get(key)
                if ds is not None and not ds.params:
                    tot = z3.Const(ds.name, ds.sort) if ds.decl is None else ds.decl()
                elif ds is not None and len(ds.params) == len(d.params):
                    tot = ds.decl(*t.children()[1:])
                if self.holds(pc, d.base.member(t.arg(0))) and self.holds(pc, self.agg_body(t, t.arg(0)).arg(0)):
                    gain = 1
            if tot is None or not is_z3(tot):
                return None
            y = next((a for a in lin if N.atoms[a].eq(tot)), None)
            if y is None or lin[y] < -c:
                return None
            lin[y] += c
            lb += -c * gain
            del lin[x]
        for x, c in lin.items():
            if c == 0:
                continue
            if c < 0 or not self.nonneg_term(N.atoms[x]):
                return None
        return lb

    def order_decide(self, pc, c):
        """Settle an order comparison of counts and positions (None: unknown)."""
        neg = False
        while z3.is_not(c):
            c, neg = c.arg(0), not neg
        if not (z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c)):
            if z3.is_or(c) or z3.is_and(c):
                rs = [self.order_decide(pc, x) for x in c.children()]
                r = None
                if z3.is_or(c):
                    r = True if True in rs else False if all(x is False for x in rs) else None
                else:
                    r = False if False in rs else True if all(x is True for x in rs) else None
                return None if r is None else (r != neg)
            return None
        a, b = c.children()
        if a.sort() != z3.IntSort():
            return None
        if z3.is_ge(c) or z3.is_gt(c):
            a, b = b, a
        strict = z3.is_lt(c) or z3.is_gt(c)
        N = Normaliser(self)
        try:
            n1, d1 = N.rat(a)
            n2, d2 = N.rat(b)
        except OverflowError:
            return None
        if d1 != ONE or d2 != ONE:
            return None
        diff = psub(n2, n1)                      # a < b  <=>  diff >= 1 ; a <= b <=> diff >= 0
        need = 1 if strict else 0
        lb = self.lower(pc, diff, N)
        if lb is not None and lb >= need:
            return not neg
        lb = self.lower(pc, pneg(diff), N)       # b <= a
        if lb is not None and lb >= (0 if strict else 1):
            return neg
        return None

    # ------------------------------------------------------------ aggregates
    def _agg(self, kind, base, var, body, sort, extra_arg=False):
        if kind != "psum":
            base = base.base_root()
        body = b2z(body) if kind == "ex" else body
        body = self.canon(body)
        params = []
        order = []
        fc = free_consts(body)
        # order of appearance
        seen = set()
        stack = [body]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t):
                n = t.decl().name()
                if n in self.indexvars and not t.eq(var) and n in fc and n not in order:
                    order.append(n)
                    params.append(t)
            else:
                stack.extend(reversed(t.children()))
        cv = z3.Const("#v" + str(var.sort()), var.sort())
        pairs = [(var, cv)] + [(p, z3.Const("#p%d%s" % (i, p.sort()), p.sort())) for i, p in enumerate(params)]
        cbody = z3.substitute(body, *pairs)
        key = (kind, base.name, cbody.sexpr())
        d = self.aggkeys.get(key)
        if d is None:
            self.n += 1
            name = "%s#%d" % (kind, self.n)
            sorts = ([var.sort()] if extra_arg else []) + [p.sort() for p in params] + [sort]
            decl = z3.Function(name, *sorts) if len(sorts) > 1 else None
            d = AggDef(kind, name, base, cv, cbody, [q for _, q in pairs[1:]], decl)
            d.sort = sort
            self.aggkeys[key] = d
            self.aggs[name] = d
            self.bases[base.name] = base
        return d, params

    reindex = None      # set by the interpreter

    def mk_sum(self, base, var, cond, value):
        """Sum of `value` over the members of base with cond (finite numbers)."""
        if is_conc_num(value) and value == 0 or cond is False:
            return 0
        value = to_z3(value)
        if is_z3(cond):
            body = z3.If(cond, value, z3.RealVal(0) if value.sort() == z3.RealSort() else z3.IntVal(0))
        else:
            body = value
            if not mentions(value, var):
                return value * self.count(base)
        body = z3.simplify(body, som=False) if z3.is_rational_value(body) else body
        if self.reindex is not None and base.name.startswith("range"):
            r = self.reindex(base, var, body)
            if r is not None:
                return self.mk_sum(*r)
        d, params = self._agg("sum", base, var, body, body.sort())
        return d.decl(*params) if d.decl is not None else z3.Const(d.name, d.sort)

    def count(self, base):
        if base.count is not None:
            return base.count
        c = z3.Int("count_" + base.name)
        self.add_once(c >= 0)
        base.count = c
        return c

    def add_once(self, f):
        if f.get_id() not in self.fact_ids:
            self.fact_ids.add(f.get_id())
            self.facts.append(f)

    def mk_count(self, base, var, cond):
        if cond is True:
            return self.count(base)
        if cond is False:
            return 0
        return self.mk_sum(base, var, cond, 1)

    def mk_psum(self, base, var, cond, value, at):
        """Sum of value over members strictly before `at` with cond."""
        if is_conc_num(value) and value == 0 or cond is False:
            return 0
        if cond is True and is_conc_num(value) and value == 1:
            return self.pos(base, at)
        value = to_z3(value)
        if cond is True and not mentions(value, var):
            return value * self.pos(base, at)
        zero = z3.RealVal(0) if value.sort() == z3.RealSort() else z3.IntVal(0)
        body = value if cond is True else z3.If(cond, value, zero)
        d, params = self._agg("psum", base, var, body, body.sort(), extra_arg=True)
        return d.decl(at, *params)

    def pos(self, base, at):
        if base.pos is not None:
            return base.pos(at)
        f = z3.Function("pos_" + base.name, base.sort, z3.IntSort())
        return f(at)

    def mk_ex(self, base, var, cond):
        if cond is False:
            return False
        cond = b2z(cond)
        d, params = self._agg("ex", base, var, cond, z3.BoolSort())
        return d.decl(*params) if d.decl is not None else z3.Const(d.name, z3.BoolSort())

    def mk_ext(self, which, base, var, cond, value):
        """max / min of value over members with cond (assumed non-empty)."""
        value = to_z3(value)
        pack = z3.If(b2z(cond), value, value)  # keep value; cond kept separately
        f = z3.Function("extpack_%s" % value.sort(), z3.BoolSort(), value.sort(), value.sort())
        d, params = self._agg(which, base, var, f(b2z(cond), value), value.sort())
        return d.decl(*params) if d.decl is not None else z3.Const(d.name, d.sort)

    def is_agg(self, t):
        return z3.is_app(t) and t.decl().name() in self.aggs

    def agg_body(self, app, at):
        """(def, body of the aggregate application with the bound variable := at)."""
        d = self.aggs[app.decl().name()]
        args = app.children()
        if d.kind == "psum":
            args = args[1:]
        pairs = [(d.var, at)] + list(zip(d.params, args))
        return z3.substitute(d.body, *pairs)

    # ------------------------------------------------------------ lemmas
    def _collect(self, exprs):
        """All aggregate applications and index terms in expressions."""
        aggs, idx, apps = {}, {}, {}
        seen = set()
        stack = [e for e in exprs if is_z3(e)]
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if not z3.is_app(t):
                continue
            name = t.decl().name()
            if name in self.aggs:
                aggs[i] = t
                if self.aggs[name].kind == "psum":
                    b = self.aggs[name].base
                    idx.setdefault(b.name, {})[t.arg(0).get_id()] = t.arg(0)
            elif t.num_args() == 0:
                b = self.indexvars.get(name)
                if b is not None:
                    idx.setdefault(b.name, {})[i] = t
            else:
                pre = name.split(".")[0] if "." in name else (name[3:] if name.startswith("in_") else
                                                                 name[4:] if name.startswith("pos_") else None)
                if pre in self.bases and t.arg(0).sort() == self.bases[pre].sort:
                    a = t.arg(0)
                    idx.setdefault(pre, {})[a.get_id()] = a
                apps.setdefault(name, []).append(t)
            stack.extend(t.children())
        return aggs, idx, apps

    def lemmas(self, exprs, rounds=2, ineq=True):
        """Sound lemma instances about the aggregates occurring in exprs."""
        out = []
        done = set()
        keep = []
        cur = list(exprs)
        skc = {}

        def mem(base, t):
            self.note_index(base, t)
            return base.member(t)

        for rnd in range(rounds):
            aggs, idx, apps = self.collect(cur + out)
            new = []
            for n, (vs, f, trig) in enumerate(self.templates):
                for name, pos in trig:
                    for t in apps.get(name, ()):
                        c = [t.arg(j) for j in pos]
                        k2 = ("tpl", n) + tuple(x.get_id() for x in c)
                        if k2 in done or all(x.eq(v) for x, v in zip(c, vs)):
                            continue
                        done.add(k2)
                        keep.append(c)
                        new.append(z3.substitute(f, *zip(vs, c)))
            al = list(aggs.values())
            for a in al:
                d = self.aggs[a.decl().name()]
                key = ("u", a.get_id())
                if key in done:
                    pass
                else:
                    done.add(key)
                    if d.kind == "ex":
                        sk = self.skolem(d.base, "wit")
                        new.append(Implies(a, And(mem(d.base, sk), self.agg_body(a, sk))))
                        skc[a.get_id()] = sk
                    elif d.kind in ("sum", "psum"):
                        sk = self.skolem(d.base, "sk")
                        body = self.agg_body(a, sk)
                        m = mem(d.base, sk)
                        new.append(Or(a >= 0, And(m, body < 0)))
                        sk2 = self.skolem(d.base, "sk")
                        body2 = self.agg_body(a, sk2)
                        new.append(Or(a <= 0, And(mem(d.base, sk2), body2 > 0)))
                    elif d.kind in ("max", "min"):
                        sk = self.skolem(d.base, "ext")
                        body = self.agg_body(a, sk)
                        c, v = body.arg(0), body.arg(1)
                        # attained if non-empty
                        ex = self.mk_ex_from(d, a)
                        new.append(Implies(ex, And(mem(d.base, sk), c, a == v)))
                        new.append(b2z(True))
                if d.kind == "ex":
                    for t in idx.get(d.base.name, {}).values():
                        k2 = ("i", a.get_id(), t.get_id())
                        if k2 in done:
                            continue
                        done.add(k2)
                        new.append(Implies(And(mem(d.base, t), self.agg_body(a, t)), a))
                elif d.kind in ("max", "min"):
                    for t in idx.get(d.base.name, {}).values():
                        k2 = ("i", a.get_id(), t.get_id())
                        if k2 in done:
                            continue
                        done.add(k2)
                        body = self.agg_body(a, t)
                        c, v = body.arg(0), body.arg(1)
                        new.append(Implies(And(mem(d.base, t), c), (a >= v) if d.kind == "max" else (a <= v)))
                elif d.kind == "sum" and ineq:
                    for t in idx.get(d.base.name, {}).values():
                        k2 = ("e", a.get_id(), t.get_id())
                        if k2 in done or t.decl().name().startswith("sk!"):
                            continue
                        done.add(k2)
                        sk = self.skolem(d.base, "sk")
                        bt = self.agg_body(a, t)
                        new.append(Implies(mem(d.base, t),
                                           Or(a >= bt, And(mem(d.base, sk), self.agg_body(a, sk) < 0))))
                    if self._unit(d, a):
                        # two different members that count: the count is at least two
                        ts = [t for t in idx.get(d.base.name, {}).values()
                              if not t.decl().name().startswith(("sk!", "ext!"))][:12]
                        for x in range(len(ts)):
                            for y in range(x):
                                k2 = ("two", a.get_id(), ts[x].get_id(), ts[y].get_id())
                                if k2 in done:
                                    continue
                                done.add(k2)
                                new.append(Implies(And(mem(d.base, ts[x]), mem(d.base, ts[y]), ts[x] != ts[y],
                                                       self.agg_body(a, ts[x]) == 1, self.agg_body(a, ts[y]) == 1), a >= 2))
                elif d.kind == "psum":
                    t = a.arg(0)
                    # psum(t) + body(t) <= total for nonnegative bodies
                    k2 = ("t", a.get_id())
                    if k2 not in done:
                        done.add(k2)
                        v = self.index_var(d.base)
                        tot, ps = self._agg("sum", d.base, v, self.agg_body(a, v), d.sort)
                        ta = tot.decl(*ps) if tot.decl is not None else z3.Const(tot.name, tot.sort)
                        sk = self.skolem(d.base, "sk")
                        new.append(Implies(mem(d.base, t),
                                           Or(a + self.agg_body(a, t) <= ta,
                                              And(mem(d.base, sk), self.agg_body(a, sk) < 0))))
            for i in range(len(al)):
                for j in range(i + 1, len(al)):
                    a, b = al[i], al[j]
                    da, db = self.aggs[a.decl().name()], self.aggs[b.decl().name()]
                    if da.base is not db.base or da.kind != db.kind:
                        continue
                    k2 = ("p", a.get_id(), b.get_id())
                    if k2 in done:
                        continue
                    done.add(k2)
                    if da.kind == "sum":
                        sk = self.skolem(da.base, "sk")
                        m = mem(da.base, sk)
                        ba, bb = self.agg_body(a, sk), self.agg_body(b, sk)
                        new.append(Or(a == b, And(m, ba != bb)))
                        if ineq:
                            for (x, y, bx, by) in ((a, b, 0, 1), (b, a, 1, 0)):
                                s2 = self.skolem(da.base, "sk")
                                m2 = mem(da.base, s2)
                                new.append(Or(x <= y, And(m2, self.agg_body(x, s2) > self.agg_body(y, s2))))
                    elif da.kind == "psum":
                        if a.arg(0).eq(b.arg(0)):
                            sk = self.skolem(da.base, "sk")
                            m = mem(da.base, sk)
                            new.append(Or(a == b, And(m, self.agg_body(a, sk) != self.agg_body(b, sk))))
                        elif da is db:
                            # injectivity on members whose body is 1
                            new.append(Implies(And(mem(da.base, a.arg(0)), mem(da.base, b.arg(0)),
                                                   self.agg_body(a, a.arg(0)) == 1,
                                                   self.agg_body(b, b.arg(0)) == 1,
                                                   a == b, self._unit(da, a)), a.arg(0) == b.arg(0)))
                    elif da.kind in ("max", "min"):
                        sk = self.skolem(da.base, "sk")
                        ba, bb = self.agg_body(a, sk), self.agg_body(b, sk)
                        m = mem(da.base, sk)
                        new.append(Or(a == b, And(m, Or(ba.arg(0) != bb.arg(0), And(ba.arg(0), ba.arg(1) != bb.arg(1))))))
            # positions
            for name, ts in apps.items():
                if name.startswith("pos_"):
                    base = self.bases.get(name[4:])
                    if base is None:
                        continue
                    uniq = {t.get_id(): t for t in ts}
                    ul = list(uniq.values())
                    for i, t in enumerate(ul):
                        k2 = ("pos", t.get_id())
                        if k2 not in done:
                            done.add(k2)
                            new.append(Implies(mem(base, t.arg(0)), And(t >= 0, t < self.count(base))))
                        for u in ul[:i]:
                            k2 = ("pp", t.get_id(), u.get_id())
                            if k2 not in done:
                                done.add(k2)
                                m2 = And(mem(base, t.arg(0)), mem(base, u.arg(0)))
                                new.append(Implies(And(m2, t == u), t.arg(0) == u.arg(0)))
            new = [b2z(x) for x in new if x is not True]
            out.extend(new)
            if not new:
                break
        return out

    def _unit(self, d, a):
        """body in {0,1} everywhere (checked syntactically: If(c,1,0))."""
        b = d.body
        return z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and b.arg(1).eq(z3.IntVal(1)) and b.arg(2).eq(z3.IntVal(0))

    def mk_ex_from(self, d, a):
        body = d.body
        c = body.arg(0)
        pairs = list(zip(d.params, a.children()))
        c2 = z3.substitute(c, *pairs) if pairs else c
        v = self.index_var(d.base)
        c2 = z3.substitute(c2, (d.var, v))
        r = self.mk_ex(d.base, v, c2)
        return b2z(r)

    # ------------------------------------------------------------ prover
    def solver_check(self, fs, timeout, want_model=False, tactic=None):
        t0 = time.time()
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set("timeout", int(timeout * 1000))
        for f in fs:
            s.add(f)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        _SOLVER_STATS["z3_calls"] += 1
        _SOLVER_STATS["z3_s"] += time.time() - t0
        m = s.model() if (want_model and r == z3.sat) else None
        return r, m

    def feasible(self, conds, timeout=2.0):
        """May the conjunction hold?  False only if refuted."""
        conds = [c for c in conds if c is not True]
        for c in conds:
            if c is False or (is_z3(c) and z3.is_false(c)):
                return False
        if not conds:
            return True
        zs = [b2z(c) for c in conds]
        key = tuple(sorted(c.get_id() for c in zs)) + (len(self.facts),)
        if key in self.feas_cache:
            return self.feas_cache[key]
        t0 = time.time()
        res = True
        nl = any(self.nonlinear(c) for c in zs)
        lin = [c for c in zs if not self.nonlinear(c)] if nl else zs
        lf = self.relevant(lin, linear=True)
        r = self._quick(lin + lf, 500)
        if r != z3.unsat:
            aggs, _, apps = self.collect(lin)
            if aggs:
                lem = [l for l in self.lemmas(lin, rounds=1) if not self.nonlinear(l)]
                r = self._quick(lin + lem + self.relevant(lin + lem, linear=True), 700)
            if r != z3.unsat and nl:
                r = self._quick(zs + self.relevant(zs), 300)
        res = r != z3.unsat
        _SOLVER_STATS["z3_s"] += time.time() - t0
        self.feas_cache[key] = res
        self._keep = getattr(self, "_keep", [])
        self._keep.append(zs)
        return res

    def _quick(self, fs, ms):
        s = z3.SimpleSolver()
        s.set("timeout", ms)
        for f in fs:
            s.add(f)
        _SOLVER_STATS["z3_calls"] += 1
        try:
            return s.check()
        except z3.Z3Exception:
            return z3.unknown

    def valid(self, hyps, goal, timeout=3.0):
        """Quick validity test used inside the engine (alignment, dispatch)."""
        if goal is True:
            return True
        if goal is False:
            return not self.feasible(hyps)
        if z3.is_true(goal):
            return True
        r = self.prove(hyps, goal, timeout=timeout, deep=False)
        return r[0] == "proved"

    def prove(self, hyps, goal, timeout=20.0, deep=True):
        """-> (status, info): proved / refuted (candidate model) / unknown."""
        if isinstance(goal, bool):
            if goal:
                _SOLVER_STATS["syntactic"] += 1
                return ("proved", "syntactic")
            if not self.feasible(hyps):
                return ("proved", "z3")
        if isinstance(hyps, (list, tuple)):
            hyps = [b2z(h) for h in hyps if h is not True]
        g = b2z(goal)
        if z3.is_true(g):
            _SOLVER_STATS["syntactic"] += 1
            return ("proved", "syntactic")
        if z3.is_eq(g) and g.arg(0).eq(g.arg(1)):
            _SOLVER_STATS["syntactic"] += 1
            return ("proved", "syntactic")
        # 1. plain z3, short
        ng = z3.Not(g)
        ax = self.instantiate_axioms(hyps + [g])
        lem = self.lemmas(hyps + [g] + ax, rounds=2 if deep else 1)
        ax2 = self.instantiate_axioms(lem)
        fs = ax + hyps + lem + ax2
        fs = self.relevant(fs + [ng]) + fs
        r, m = self.solver_check(fs + [ng], 0.7 if deep else timeout, want_model=True)
        if r == z3.unsat:
            return ("proved", "z3")
        if not deep:
            return ("refuted" if r == z3.sat else "unknown", m)
        # 2. normaliser with case splitting
        try:
            if self.prove_split(hyps, g, depth=0):
                _SOLVER_STATS["norm"] += 1
                return ("proved", "normaliser")
            if self.by_known_sum(hyps, g):
                _SOLVER_STATS["norm"] += 1
                return ("proved", "normaliser")
        except RecursionError:
            pass
        r2, m2 = self.solver_check(fs + [ng], timeout, want_model=True)
        if r2 == z3.unsat:
            return ("proved", "z3")
        if r2 == z3.sat:
            lem = self.lemmas(hyps + [g] + ax, rounds=4)
            fs = ax + hyps + lem + self.instantiate_axioms(lem)
            r3, m3 = self.solver_check(self.relevant(fs + [ng], depth=5) + fs + [ng], timeout, want_model=True)
            if r3 == z3.unsat:
                return ("proved", "z3")
            if r3 == z3.sat:
                # once more, with the lemmas about the indices that the facts mention
                rel = self.relevant(fs + [ng], depth=5)
                lem = self.lemmas(hyps + [g] + ax + rel, rounds=2)
                fs4 = ax + hyps + lem + self.instantiate_axioms(lem)
                r4, m4 = self.solver_check(self.relevant(fs4 + [ng], depth=5) + fs4 + [ng], timeout, want_model=True)
                if r4 == z3.unsat:
                    return ("proved", "z3")
                return ("refuted", m4 or m3)
            return ("refuted" if r3 == z3.sat else "unknown", m3 or m2)
        # 3. cvc5
        st = self.cvc5_check(fs + [ng], timeout)
        if st == "unsat":
            return ("proved", "cvc5")
        return ("unknown", None)

    def cvc5_check(self, fs, timeout):
        import subprocess, tempfile, os
        t0 = time.time()
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
            fn = f.name
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), fn], capture_output=True, text=True,
                               timeout=timeout + 5)
            out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
        except Exception:
            out = "unknown"
        finally:
            os.unlink(fn)
        _SOLVER_STATS["cvc5_calls"] += 1
        _SOLVER_STATS["cvc5_s"] += time.time() - t0
        return out

    # axioms of the elementary functions -----------------------------------
    def instantiate_axioms(self, exprs):
        out = []
        seen = set()
        stack = [e for e in exprs if is_z3(e)]
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(t):
                n = t.decl().name()
                if n == "cabs":
                    re, im = t.children()
                    out.append(z3.And(t >= 0, t * t == re * re + im * im))
                elif n == "carg":
                    out.append(z3.And(t > -self.pi, t <= self.pi))
                elif n in ("cos_", "sin_"):
                    a = t.arg(0)
                    c, s = z3.Function("cos_", z3.RealSort(), z3.RealSort())(a), z3.Function("sin_", z3.RealSort(), z3.RealSort())(a)
                    out.append(c * c + s * s == 1)
                elif n == "sqrt_":
                    a = t.arg(0)
                    out.append(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
                stack.extend(t.children())
        uniq = {}
        for o in out:
            uniq[o.get_id()] = o
        return list(uniq.values())

    # ------------------------------------------------ normaliser and splitting
    def first_ite(self, e):
        """An ite condition in e without nested ite, or None."""
        seen = set()
        stack = [e]
        best = None
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(t):
                    best = t.arg(0)
                    if not self._has_ite(best):
                        return best
                    stack.append(best)
                else:
                    stack.extend(t.children())
        return best

    def _has_ite(self, e):
        seen = set()
        stack = [e]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(t):
                    return True
                stack.extend(t.children())
        return False

    def assume_in(self, e, c, val):
        e = z3.substitute(e, (c, z3.BoolVal(val)))
        if z3.is_not(c):
            e = z3.substitute(e, (c.arg(0), z3.BoolVal(not val)))
        return self.simp(e)

    def simp(self, e):
        """Remove ites/connectives with constant conditions (keeps arithmetic)."""
        memo = {}

        def go(t):
            k = t.get_id()
            if k in memo:
                return memo[k][1]
            if not z3.is_app(t) or t.num_args() == 0:
                r = t
            else:
                ch = [go(x) for x in t.children()]
                kind = t.decl().kind()
                if kind == z3.Z3_OP_ITE:
                    if z3.is_true(ch[0]):
                        r = ch[1]
                    elif z3.is_false(ch[0]):
                        r = ch[2]
                    elif ch[1].eq(ch[2]):
                        r = ch[1]
                    else:
                        r = z3.If(*ch)
                elif kind == z3.Z3_OP_AND:
                    r = b2z(And(*ch))
                elif kind == z3.Z3_OP_OR:
                    r = b2z(Or(*ch))
                elif kind == z3.Z3_OP_NOT:
                    r = b2z(Not(ch[0]))
                else:
                    r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
            memo[k] = (t, r)
            return r
        return go(e)

    def prove_split(self, hyps, g, depth):
        """Prove an (in)equation by ite case splits and polynomial normal forms."""
        if self.deadline and time.time() > self.deadline:
            return False
        g = self.simp(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return not self.feasible(hyps)
        if z3.is_and(g):
            return all(self.prove_split(hyps, c, depth) for c in g.children())
        if depth > 14:
            return False
        c = self.first_ite(g)
        if c is not None:
            ok = True
            for val in (True, False):
                h = c if val else Not(c)
                h2 = hyps + [b2z(h)]
                if not self.feasible(h2):
                    continue
                if not self.prove_split(h2, self.assume_in(g, c, val), depth + 1):
                    return False
            return ok
        if z3.is_eq(g) and z3.is_arith(g.arg(0)):
            if self.eq_norm(hyps, g.arg(0), g.arg(1), depth):
                return True
        elif not z3.is_bool(g):
            return False
        ax = self.instantiate_axioms(hyps + [g])
        lem = self.lemmas(hyps + [g] + ax, rounds=2)
        fs = ax + self.instantiate_axioms(lem) + hyps + lem + [z3.Not(g)]
        r, _ = self.solver_check(self.relevant(fs) + fs, 3.0)
        return r == z3.unsat

    def eq_norm(self, hyps, a, b, depth=0):
        N = Normaliser(self)
        try:
            n1, d1 = N.rat(a)
            n2, d2 = N.rat(b)
        except OverflowError:
            return False
        diff = psub(pmul(n1, d2), pmul(n2, d1))
        diff = N.reduce(diff)
        for d in (d1, d2):
            if not self.nonzero(hyps, d, N):
                return False
        if not diff:
            return True
        # linear combination of sums
        groups = {}
        rest = {}
        for mono, coef in diff.items():
            sums = [x for x in mono if self._is_sum_atom(N.atoms[x[0]])]
            if not sums:
                rest[mono] = coef
                continue
            if len(sums) != 1 or sums[0][1] != 1:
                return False
            sid = sums[0][0]
            other = tuple(x for x in mono if x[0] != sid)
            d = self.aggs[N.atoms[sid].decl().name()]
            groups.setdefault(d.base.name, {}).setdefault(sid, {})[other] = coef
        if not groups:
            return False
        if rest and not N.reduce(rest) == {}:
            return False
        for bname, ss in groups.items():
            base = self.bases[bname]
            sk = self.skolem(base, "pw")
            self.note_index(base, sk)
            total = z3.RealVal(0)
            for sid, poly in ss.items():
                body = self.agg_body(N.atoms[sid], sk)
                total = total + N.to_expr(poly) * body
            g = total == 0
            if not self.prove_split(hyps + [b2z(base.member(sk))], g, depth + 1):
                return False
        return True

    def by_known_sum(self, hyps, g):
        """An equation between sums that differs from an assumed one by a reordering of the summands."""
        def mentions_sum(e):
            return any(self.aggs[a.decl().name()].kind == "sum" for a in self.collect([e])[0].values())

        def equation(e):
            return z3.is_eq(e) and z3.is_arith(e.arg(0)) and mentions_sum(e)

        if not equation(g):
            return False
        tried = 0
        for h in hyps:
            guard, e = True, h
            if z3.is_or(h) and h.num_args() == 2 and z3.is_not(h.arg(0)):
                guard, e = h.arg(0).arg(0), h.arg(1)
            elif z3.is_implies(h):
                guard, e = h.arg(0), h.arg(1)
            if not equation(e) or tried >= 6:
                continue
            tried += 1
            if guard is not True and not self.valid(hyps, guard):
                continue
            for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if self.prove_split(hyps, g.arg(0) - g.arg(1) == x - y, 8):
                    return True
        return False

    def nonzero(self, hyps, d, N):
        """Is the denominator (a polynomial) nonzero under the hypotheses?"""
        if len(d) == 1:
            # a monomial: each of its atoms
            (mono, coef), = d.items()
            return coef != 0 and all(self.nonzero1(hyps, N.atoms[x]) for x, e in mono)
        return self.nonzero1(hyps, N.to_expr(d))

    def nonzero1(self, hyps, e):
        key = (e.get_id(),) + tuple(sorted(h.get_id() for h in hyps))
        memo = self.__dict__.setdefault("nz_cache", {})
        r = memo.get(key)
        if r is None:
            c = e == 0
            ax = self.instantiate_axioms(hyps + [c])
            fs = ax + hyps
            res, _ = self.solver_check(self.relevant(fs + [c]) + fs + [c], 3.0)
            memo[key] = r = (res == z3.unsat, e, hyps)
            if not r[0]:
                self.nz_failed = getattr(self, "nz_failed", [])
                self.nz_failed.append(e)
        return r[0]

    def _is_sum_atom(self, t):
        return z3.is_app(t) and t.decl().name() in self.aggs and self.aggs[t.decl().name()].kind == "sum"


# ---------------------------------------------------------- polynomial algebra
def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pneg(p):
    return {m: -c for m, c in p.items()}


def psub(p, q):
    return padd(p, pneg(q))


def mono_mul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > 200000:
        raise OverflowError
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


ONE = {(): Fraction(1)}


class Normaliser:
    def __init__(self, ctx):
        self.ctx = ctx
        self.atoms = {}
        self.memo = {}
        self.byname = {}

    def atom(self, t):
        i = t.get_id()
        self.atoms[i] = t
        return {((i, 1),): Fraction(1)}

    def canon(self, t):
        """Atom with normalised arguments (so cos(x+0) is cos(x))."""
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        ch = []
        for x in t.children():
            if z3.is_arith(x):
                n, d = self.rat(x)
                e = self.to_expr(n, x.sort())
                if d != ONE:
                    e = e / self.to_expr(d)
                ch.append(e)
            else:
                ch.append(x)
        return t.decl()(*ch)

    def rat(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._rat(t)
        self.memo[k] = (t, r)
        return r

    def _rat(self, t):
        if z3.is_int_value(t):
            v = t.as_long()
            return ({(): Fraction(v)} if v else {}), ONE
        if z3.is_rational_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): v} if v else {}), ONE
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            ch = t.children()
            n, d = self.rat(ch[0])
            for c in ch[1:]:
                n2, d2 = self.rat(c)
                if k == z3.Z3_OP_SUB:
                    n2 = pneg(n2)
                if d == d2:
                    n = padd(n, n2)
                else:
                    n, d = padd(pmul(n, d2), pmul(n2, d)), pmul(d, d2)
                n = self.reduce(n)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.rat(t.arg(0))
            return pneg(n), d
        if k == z3.Z3_OP_MUL:
            n, d = ONE, ONE
            for c in t.children():
                n2, d2 = self.rat(c)
                n, d = self.reduce(pmul(n, n2)), self.reduce(pmul(d, d2))
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.rat(t.arg(0))
            n2, d2 = self.rat(t.arg(1))
            return self.reduce(pmul(n, d2)), self.reduce(pmul(d, n2))
        if k == z3.Z3_OP_TO_REAL:
            return self.rat(t.arg(0))
        if k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) or (k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1):
            e = t.arg(1).as_long() if z3.is_int_value(t.arg(1)) else t.arg(1).numerator_as_long()
            n, d = self.rat(t.arg(0))
            rn, rd = ONE, ONE
            for _ in range(abs(e)):
                rn, rd = self.reduce(pmul(rn, n)), self.reduce(pmul(rd, d))
            return (rn, rd) if e >= 0 else (rd, rn)
        return self.atom(self.canon(t)), ONE

    def reduce(self, p):
        """Rewrite sin^2 -> 1 - cos^2, cabs^2 -> re^2+im^2, sqrt^2 -> arg."""
        changed = True
        n = 0
        while changed:
            changed = False
            n += 1
            if n > 60:
                break
            for m, c in list(p.items()):
                for x, e in m:
                    if e < 2:
                        continue
                    t = self.atoms[x]
                    nm = t.decl().name() if z3.is_app(t) else ""
                    if nm == "sin_":
                        cs = self.canon(z3.Function("cos_", z3.RealSort(), z3.RealSort())(t.arg(0)))
                        rep = psub(ONE, pmul(self.atom(cs), self.atom(cs)))
                    elif nm == "cabs":
                        r1, d1 = self.rat(t.arg(0))
                        r2, d2 = self.rat(t.arg(1))
                        if d1 != ONE or d2 != ONE:
                            continue
                        rep = padd(pmul(r1, r1), pmul(r2, r2))
                    elif nm == "sqrt_":
                        r1, d1 = self.rat(t.arg(0))
                        if d1 != ONE:
                            continue
                        rep = r1
                    else:
                        continue
                    rest = tuple((y, f) if y != x else (y, f - 2) for y, f in m if y != x or f > 2)
                    p = dict(p)
                    del p[m]
                    p = padd(p, pmul({rest: c}, rep))
                    changed = True
                    break
                if changed:
                    break
        return p

    def to_expr(self, p, sort=None):
        if not p:
            return z3.RealVal(0) if sort is None or sort == z3.RealSort() else z3.IntVal(0)
        terms = []
        isint = sort == z3.IntSort()
        for m, c in sorted(p.items()):
            e = z3.IntVal(c.numerator) if isint and c.denominator == 1 else z3.RealVal(c)
            fs = []
            for x, k in m:
                fs.extend([self.atoms[x]] * k)
            if fs and c == 1:
                e = fs[0]
                for f in fs[1:]:
                    e = e * f
            else:
                for f in fs:
                    e = e * f
            terms.append(e)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r
