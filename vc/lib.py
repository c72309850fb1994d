"""Models of the Python builtins and of the library functions the code calls (trusted)."""
import z3
from .values import *
from .heap import *

INF = float("inf")
COS = z3.Function("cos_", z3.RealSort(), z3.RealSort())
SIN = z3.Function("sin_", z3.RealSort(), z3.RealSort())
EXP = z3.Function("exp_", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt_", z3.RealSort(), z3.RealSort())
CABS = z3.Function("cabs", z3.RealSort(), z3.RealSort(), z3.RealSort())
CARG = z3.Function("carg", z3.RealSort(), z3.RealSort(), z3.RealSort())


# ------------------------------------------------------------------ sequences
def seq_of(eng, st, v):
    return eng.iter_seq(st, v)


def is_arr(eng, st, v):
    o = eng.obj(st, v)
    return o is not None and o.kind in ("arr", "list", "mat")


def new_arr(eng, st, seq):
    return eng.alloc(st, ArrO(list(seq)))


def map_seq(eng, st, seq, f):
    """f(state, value) over every item; f may raise."""
    out = []
    for c in seq:
        if isinstance(c, One):
            out.append(One(f(st, c.v)))
        elif isinstance(c, If):
            d = eng.decide(st, c.g)
            if d is True or d is False:
                out += map_seq(eng, st, c.a if d else c.b, f)
                continue
            a, b = st.copy(), st.copy()
            a.assume(d)
            b.assume(Not(d))
            ra, rb = map_seq(eng, a, c.a, f), map_seq(eng, b, c.b, f)
            st.take(eng.merge(d, a, b))
            out.append(If(d, ra, rb))
        elif isinstance(c, (For, Fn)):
            out += map_generic(eng, st, c, lambda s, items: map_seq(eng, s, items, f))
        else:
            raise Unsupported("elementwise operation on a growing sequence")
    return out


def map_generic(eng, st, c, run):
    from . import loops
    base, i, cond, items = loops.norm_chunk(eng, c)
    box = {}

    def body(b):
        try:
            box["items"] = run(b, items)
        except loops.PathEnd_():
            return None
        return b

    res = loops.generic_run(eng, st, base, i, cond, body, [])
    if any(w[0] in ("obj", "fld", "attr") for w in res.written):
        raise Unsupported("elementwise operation with side effects")
    out = loops.apply_effects(eng, res, st)
    if out is None:
        raise loops.PathEnd_()()
    st.take(out)
    if res.end is None:
        return []
    its = [loops.snap_value(eng, res.end, x, res.oid0, base, i, cond) for x in box["items"]]
    return [For(base, i, cond, its)] if its else []


def same_family(eng, a, b):
    """Two For chunks over the same members in the same order (conditions syntactically equal)."""
    if not (isinstance(a, For) and isinstance(b, For)) or a.base is not b.base:
        return False
    cb = subst(b.cond, [(b.var, a.var)]) if is_z3(b.cond) else b.cond
    return same(a.cond, cb) or (isinstance(a.cond, bool) and a.cond == cb)


def single(c):
    return len(c.items) == 1 and isinstance(c.items[0], One)


def zip_seqs(eng, st, seqs, strict=False):
    """Sequence of tuples (truncated to the shortest)."""
    seqs = [list(s) for s in seqs]
    out = []
    while all(seqs):
        heads = [s[0] for s in seqs]
        if all(isinstance(h, One) for h in heads):
            out.append(One(tuple(h.v for h in heads)))
            for s in seqs:
                s.pop(0)
            continue
        fam = [h for h in heads if isinstance(h, For)]
        if fam and all(isinstance(h, (For,)) and single(h) for h in heads) and all(cond_equal(eng, st, fam[0], h) for h in heads):
            f0 = fam[0]
            out.append(For(f0.base, f0.var, f0.cond, [One(tuple(subst(h.items[0].v, [(h.var, f0.var)]) for h in heads))]))
            for s in seqs:
                s.pop(0)
            continue
        # general alignment by position against the first single family of the heads
        lens = [eng.seq_len(st, s) for s in seqs]
        if all(l == 1 if is_conc_num(l) else eng.decide(st, eng.cmp_num(st, "==", l, 1)) is True for l in lens):
            out.append(One(tuple(eng.seq_at(st, s, 0) for s in seqs)))
            return out
        base_n = None
        for n, s in enumerate(seqs):
            if len(s) == 1 and isinstance(s[0], For) and single(s[0]):
                if base_n is None or is_range(seqs[base_n][0]) and not is_range(s[0]):
                    base_n = n
        if base_n is not None:
            f0 = seqs[base_n][0]
            rank = eng.ctx.mk_psum(f0.base, f0.var, f0.cond, 1, f0.var)
            items, extra = [], True
            for n, s in enumerate(seqs):
                if n == base_n:
                    items.append(f0.items[0].v)
                    continue
                c = eng.cmp_num(st, "<=", lens[base_n], lens[n])
                if eng.decide(st, c) is not True:
                    extra = And(extra, eng.cmp_num(st, "<", rank, lens[n]))
                s2 = st.copy()
                eng.ctx.note_index(f0.base, f0.var)
                s2.assume(b2z(f0.base.member(f0.var)))
                s2.assume(f0.cond)
                rank_facts(eng, s2, f0, rank)
                eng.ctx.loopvars.append(f0.var)
                try:
                    items.append(eng.seq_at(s2, s, rank))
                finally:
                    eng.ctx.loopvars.pop()
            out.append(For(f0.base, f0.var, And(f0.cond, extra), [One(tuple(items))]))
            return out
        n = lens[0]
        for l in lens[1:]:
            c = eng.decide(st, eng.cmp_num(st, "<=", n, l))
            n = n if c is True else l if c is False else Ite(c, n, l)
        ss = [list(s) for s in seqs]
        s0 = st.copy()
        out.append(Fn(n, lambda i: tuple(eng.seq_at(s0.copy(), s, i) for s in ss)))
        return out
    return out


def is_range(c):
    """A family over positions (its k-th member is k)."""
    t = z3.Int("k!probe")
    return c.base.sort == z3.IntSort() and c.base.pos is not None and c.cond is True and is_z3(c.base.pos(t)) and c.base.pos(t).eq(t)


def rank_facts(eng, st, f, rank):
    """0 <= rank < count for a member of the family."""
    cnt = eng.ctx.mk_count(f.base, f.var, f.cond)
    if is_z3(rank):
        st.assume(rank >= 0)
        st.assume(b2z(eng.cmp_num(st, "<", rank, cnt)))


def cond_equal(eng, st, a, b):
    if a is b or same_family(eng, a, b):
        return True
    if a.base is not b.base:
        return False
    cb = subst(b.cond, [(b.var, a.var)]) if is_z3(b.cond) else b.cond
    m = a.base.member(a.var)
    eng.ctx.note_index(a.base, a.var)
    return eng.ctx.valid([x for x in st.pc if is_z3(x)] + [b2z(m)], b2z(a.cond) == b2z(cb))


def seq_rev(eng, st, seq):
    if all(isinstance(c, One) for c in seq):
        return list(reversed(seq))
    n = eng.seq_len(st, seq)
    s0 = st.copy()
    return [Fn(n, lambda i: eng.seq_at(s0.copy(), seq, eng.arith(s0, "-", eng.arith(s0, "-", n, 1), i)))]


def enumerate_seq(eng, st, seq, start=0):
    out, pos = [], start
    for c in seq:
        if isinstance(c, One):
            out.append(One((pos, c.v)))
            pos = eng.arith(st, "+", pos, 1)
        elif isinstance(c, For) and single(c):
            r = eng.ctx.mk_psum(c.base, c.var, c.cond, 1, c.var)
            if is_z3(r):
                eng.ctx.loopvars.append(c.var)
                try:
                    eng.ctx.add_fact(Implies(And(c.base.member(c.var), c.cond),
                                             And(r >= 0, eng.cmp_num(st, "<", r, eng.ctx.mk_count(c.base, c.var, c.cond)))))
                finally:
                    eng.ctx.loopvars.pop()
            out.append(For(c.base, c.var, c.cond, [One((eng.arith(st, "+", pos, r), c.items[0].v))]))
            pos = eng.arith(st, "+", pos, eng.ctx.mk_count(c.base, c.var, c.cond))
        elif isinstance(c, Fn):
            p0, f = pos, c.fn
            out.append(Fn(c.length, lambda i, p0=p0, f=f: (eng.arith(st, "+", p0, i), f(i))))
            pos = eng.arith(st, "+", pos, c.length)
        elif isinstance(c, If):
            la, lb = eng.seq_len(st, c.a), eng.seq_len(st, c.b)
            out.append(If(c.g, enumerate_seq(eng, st, c.a, pos), enumerate_seq(eng, st, c.b, pos)))
            pos = eng.arith(st, "+", pos, Ite(c.g, la, lb))
        elif isinstance(c, For):
            # one element per member plus conditional ones: positions by partial sums
            l = eng.seq_len(st, c.items)
            r = eng.ctx.mk_psum(c.base, c.var, c.cond, l, c.var)
            out.append(For(c.base, c.var, c.cond, enumerate_seq(eng, st, c.items, eng.arith(st, "+", pos, r))))
            pos = eng.arith(st, "+", pos, eng.ctx.mk_sum(c.base, c.var, c.cond, l))
        else:
            raise Unsupported("enumerate")
    return out


def seq_sum(eng, st, seq, start=0):
    tot = start
    for c in seq:
        if isinstance(c, One):
            tot = add_any(eng, st, tot, c.v)
        elif isinstance(c, If):
            a, b = seq_sum(eng, st, c.a), seq_sum(eng, st, c.b)
            tot = add_any(eng, st, tot, merge_val(c.g, a, b))
        elif isinstance(c, (For, Fn)):
            if isinstance(c, Fn):
                from . import loops
                base, i, cond, items = loops.norm_chunk(eng, c)
                c = For(base, i, cond, items)
            inner = seq_sum(eng, st, c.items)
            tot = add_any(eng, st, tot, eng.agg_sum(st, c.base, c.var, c.cond, inner))
        else:
            raise Unsupported("sum of a growing sequence")
    return tot


def add_any(eng, st, a, b):
    if is_boolref(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    return eng.binop(st, "+", a, b)


def seq_quant(eng, st, seq, forall):
    """all / any of a sequence of truth values."""
    out = []
    for c in seq:
        if isinstance(c, One):
            out.append(arr_truth(eng, st, c.v, forall))
        elif isinstance(c, If):
            out.append(merge_bool(c.g, seq_quant(eng, st, c.a, forall), seq_quant(eng, st, c.b, forall)))
        elif isinstance(c, (For, Fn)):
            if isinstance(c, Fn):
                from . import loops
                base, i, cond, items = loops.norm_chunk(eng, c)
                c = For(base, i, cond, items)
            t = seq_quant(eng, st, c.items, forall)
            if forall:
                out.append(Not(eng.ctx.mk_ex(c.base, c.var, And(c.cond, Not(t)))))
            else:
                out.append(eng.ctx.mk_ex(c.base, c.var, And(c.cond, t)))
        else:
            raise Unsupported("all/any")
    return And(*out) if forall else Or(*out)


def arr_truth(eng, st, v, forall):
    o = eng.obj(st, v)
    if o is not None and o.kind == "arr":
        return seq_quant(eng, st, o.seq, forall)
    return eng.truth(st, v)


def merge_bool(g, a, b):
    return Or(And(g, a), And(Not(g), b))


def seq_ext(eng, st, seq, which):
    """max / min of a sequence of numbers -> (value, nonempty condition)."""
    val, ne = None, False
    op = ">=" if which == "max" else "<="
    for c in seq:
        if isinstance(c, One):
            v, n = c.v, True
        elif isinstance(c, If):
            va, na = seq_ext(eng, st, c.a, which)
            vb, nb = seq_ext(eng, st, c.b, which)
            if va is None:
                v, n = vb, And(Not(c.g), nb)
            elif vb is None:
                v, n = va, And(c.g, na)
            else:
                v, n = merge_val(c.g, va, vb), merge_bool(c.g, na, nb)
        elif isinstance(c, (For, Fn)):
            if isinstance(c, Fn):
                from . import loops
                base, i, cond, items = loops.norm_chunk(eng, c)
                c = For(base, i, cond, items)
            v0, n0 = seq_ext(eng, st, c.items, which)
            if v0 is None:
                continue
            v0 = eng.num(v0)
            if isinstance(v0, (Choice, float)):
                raise Unsupported("max of extended numbers over a family")
            n = eng.ctx.mk_ex(c.base, c.var, And(c.cond, n0))
            v = eng.ctx.mk_ext(which, c.base, c.var, And(c.cond, n0), v0)
        else:
            raise Unsupported("max")
        if val is None:
            val, ne = v, n
        else:
            better = eng.cmp(st, op, val, v)
            r = merge_val(better, val, v) if not isinstance(better, bool) else (val if better else v)
            if ne is True and n is True:
                val = r
            else:
                val = mk_choice([(And(ne, n), r), (And(ne, Not(n)), val), (And(Not(ne), n), v), (And(Not(ne), Not(n)), 0)])
            ne = Or(ne, n)
    return val, ne


def nonneg(eng, st, n):
    n = eng.num(n)
    if isinstance(n, int):
        return max(n, 0)
    d = eng.decide(st, eng.cmp_num(st, ">=", n, 0))
    return n if d is True else 0 if d is False else Ite(d, n, 0)


# -------------------------------------------------------------------- arrays
def arr_map2(eng, st, a, b, f):
    oa, ob = eng.obj(st, a), eng.obj(st, b)
    if oa is not None and oa.kind == "mat" or ob is not None and ob.kind == "mat":
        return mat_map2(eng, st, a, b, f)
    sa = oa.seq if oa is not None and oa.kind in ("arr", "list") else None
    sb = ob.seq if ob is not None and ob.kind in ("arr", "list") else None
    if oa is not None and oa.overlays or ob is not None and ob.overlays:
        if oa is not None and oa.overlays:
            sa = flatten_overlays(eng, st, oa)
        if ob is not None and ob.overlays:
            sb = flatten_overlays(eng, st, ob)
    if sa is not None and sb is not None:
        def two_d(s):
            return len(s) > 0 and isinstance(s[0], One) and is_arr(eng, st, s[0].v)
        if two_d(sa) != two_d(sb) and two_d(sa):
            return new_arr(eng, st, map_seq(eng, st, sa, lambda s, x: arr_map2(eng, s, x, b, f)))
        la, lb = eng.seq_len(st, sa), eng.seq_len(st, sb)
        if la == 1 and isinstance(la, int) and not (isinstance(lb, int) and lb == 1):
            x = eng.seq_at(st, sa, 0)
            return new_arr(eng, st, map_seq(eng, st, sb, lambda s, y: f(s, x, y)))
        if lb == 1 and isinstance(lb, int) and not (isinstance(la, int) and la == 1):
            y = eng.seq_at(st, sb, 0)
            return new_arr(eng, st, map_seq(eng, st, sa, lambda s, x: f(s, x, y)))
        ne = eng.decide(st, Not(eng.cmp_num(st, "==", la, lb)))
        if ne is not False:
            eng.raise_if(st, ne, "ValueError", "operands could not be broadcast together")
        z = zip_seqs(eng, st, [sa, sb])
        return new_arr(eng, st, map_seq(eng, st, z, lambda s, p: elt2(eng, s, p[0], p[1], f)))
    if sa is not None:
        return new_arr(eng, st, map_seq(eng, st, sa, lambda s, x: elt2(eng, s, x, b, f)))
    return new_arr(eng, st, map_seq(eng, st, sb, lambda s, y: elt2(eng, s, a, y, f)))


def elt2(eng, st, x, y, f):
    if is_arr(eng, st, x) or is_arr(eng, st, y):
        return arr_map2(eng, st, x, y, f)
    return f(st, x, y)


def mat_map2(eng, st, a, b, f):
    """Elementwise operation on 2-D arrays (same shape, or with a scalar)."""
    oa, ob = eng.obj(st, a), eng.obj(st, b)
    ma, mb = oa is not None and oa.kind == "mat", ob is not None and ob.kind == "mat"
    s0 = st.copy()
    if ma and mb:
        for x, y in ((oa.rows, ob.rows), (oa.cols, ob.cols)):
            eng.raise_if(st, Not(eng.cmp_num(st, "==", x, y)), "ValueError", "operands could not be broadcast together")
        return eng.alloc(st, MatO(oa.rows, oa.cols, lambda i, j: f(s0.copy(), mat_entry(eng, s0, oa, i, j), mat_entry(eng, s0, ob, i, j))))
    m, x = (oa, b) if ma else (ob, a)
    if is_arr(eng, st, x):
        raise Unsupported("matrix arithmetic with a vector")
    if m.tag == "sparse":
        raise Unsupported("sparse matrix arithmetic")
    if ma:
        # evaluated once, so that an exception (division by zero) is seen
        f(st, z3.RealVal(1), x)
        return eng.alloc(st, MatO(m.rows, m.cols, lambda i, j: f(s0.copy(), mat_entry(eng, s0, m, i, j), x)))
    return eng.alloc(st, MatO(m.rows, m.cols, lambda i, j: f(s0.copy(), x, mat_entry(eng, s0, m, i, j))))


def arr_binop(eng, st, op, a, b):
    if op == "@":
        return matmul(eng, st, a, b)
    oa, ob = eng.obj(st, a), eng.obj(st, b)
    if op == "*" and oa is not None and oa.kind == "mat" and oa.tag == "sparse" and is_arr(eng, st, b):
        if ob.kind == "mat":
            raise Unsupported("product of matrices")
        return mat_vec(eng, st, oa, b)
    for v in (a, b):
        o = eng.obj(st, v)
        if o is not None and o.kind == "inst":
            raise Unsupported("array with object")
    if op in ("&", "|"):
        g = And if op == "&" else Or
        return arr_map2(eng, st, a, b, lambda s, x, y: g(eng.truth(s, x), eng.truth(s, y)))
    return arr_map2(eng, st, a, b, lambda s, x, y: np_arith(eng, s, op, x, y))


def np_arith(eng, st, op, x, y):
    """numpy scalar arithmetic: division by zero gives inf/nan (not modelled: a non-number)."""
    return eng.binop(st, op, x, y)


def arr_cmp(eng, st, op, a, b):
    if a is None or b is None:
        raise Unsupported("array compared with None")
    return arr_map2(eng, st, a, b, lambda s, x, y: eng.cmp(s, op, x, y))


def matmul(eng, st, a, b):
    oa = eng.obj(st, a)
    if oa is not None and oa.kind == "mat":
        return mat_vec(eng, st, oa, b)
    sa, sb = seq_of(eng, st, a), seq_of(eng, st, b)
    if sa and isinstance(sa[0], One) and is_arr(eng, st, sa[0].v):
        return new_arr(eng, st, [One(dot(eng, st, seq_of(eng, st, r.v), sb)) for r in sa])
    return dot(eng, st, sa, sb)


def dot(eng, st, sa, sb):
    z = zip_seqs(eng, st, [sa, sb])
    return seq_sum(eng, st, map_seq(eng, st, z, lambda s, p: eng.binop(s, "*", p[0], p[1])))


def scalar1(eng, st, v, f):
    """Apply f elementwise on arrays, else on the scalar (Choices distributed)."""
    if isinstance(v, Choice):
        return eng.map1(st, v, lambda s, x: scalar1(eng, s, x, f))
    o = eng.obj(st, v)
    if o is not None and o.kind in ("arr", "list"):
        return new_arr(eng, st, map_seq(eng, st, o.seq, lambda s, x: scalar1(eng, s, x, f)))
    if hasattr(v, "vc_arr"):
        return v.vc_arr(eng, st, f)
    if v is None:
        eng.raise_if(st, True, "TypeError", "unsupported operand None")
    return f(st, v)


def scalar2(eng, st, a, b, f):
    if isinstance(a, Choice) or isinstance(b, Choice):
        return eng.map2(st, a, b, lambda s, x, y: scalar2(eng, s, x, y, f))
    if is_arr(eng, st, a) or is_arr(eng, st, b):
        return arr_map2(eng, st, a, b, lambda s, x, y: scalar2(eng, s, x, y, f))
    if a is None or b is None:
        eng.raise_if(st, True, "TypeError", "unsupported operand None")
    return f(st, a, b)


def maxmin(eng, st, a, b, which):
    c = eng.cmp(st, ">=" if which == "max" else "<=", a, b)
    for v in (a, b):
        if isinstance(v, float) and isnan(v):
            return float("nan")
    return merge_val(c, a, b) if not isinstance(c, bool) else (a if c else b)


def np_abs(eng, st, v):
    if hasattr(v, "vc_abs"):
        return v.vc_abs(eng, st)
    v = eng.num(v)
    if isinstance(v, CNum):
        re, im = v.re, v.im
        if is_conc_num(im) and im == 0:
            return np_abs(eng, st, re)
        if isinstance(re, (Choice, float)) or isinstance(im, (Choice, float)):
            raise Unsupported("magnitude of a non-finite complex number")
        return CABS(to_real(re), to_real(im))
    if isinstance(v, float):
        return abs(v)
    if is_conc_num(v):
        return abs(v)
    c = eng.decide(st, eng.cmp_num(st, ">=", v, 0))
    return merge_val(c, v, eng.arith(st, "*", -1, v)) if not isinstance(c, bool) else (v if c else eng.arith(st, "*", -1, v))


def np_sign(eng, st, v):
    v = eng.num(v)
    if isinstance(v, float):
        return v if isnan(v) else (1 if v > 0 else -1)
    if isinstance(v, CNum):
        raise Unsupported("sign of a complex number")
    if is_conc_num(v):
        return (v > 0) - (v < 0)
    return Ite(eng.cmp_num(st, ">", v, 0), 1, Ite(eng.cmp_num(st, "<", v, 0), -1, 0))


def np_conj(eng, st, v):
    v = eng.num(v)
    if isinstance(v, CNum):
        return CNum(v.re, eng.arith(st, "*", -1, v.im))
    return v


def cos_(x):
    if is_conc_num(x) and x == 0:
        return 1
    return COS(to_real(x))


def sin_(x):
    if is_conc_num(x) and x == 0:
        return 0
    return SIN(to_real(x))


def np_exp(eng, st, v):
    v = eng.num(v)
    if isinstance(v, CNum):
        if any(isinstance(x, (Choice, float)) for x in (v.re, v.im)):
            raise Unsupported("exponential of a non-finite number")
        c = CNum(cos_(v.im), sin_(v.im))
        if is_conc_num(v.re) and v.re == 0:
            return c
        return eng.carith(st, "*", CNum(EXP(to_real(v.re)), 0), c)
    if is_conc_num(v) and v == 0:
        return 1
    if isinstance(v, float):
        return INF if v > 0 else 0
    return EXP(to_real(v))


def np_angle(eng, st, v):
    v = eng.cplx(v)
    if any(isinstance(x, (Choice, float)) for x in (v.re, v.im)):
        raise Unsupported("angle of a non-finite number")
    return CARG(to_real(v.re), to_real(v.im))


def np_clip(eng, st, x, lo, hi):
    def one(s, v, l, h):
        if l is not None:
            v = scalar2(eng, s, v, l, lambda s2, a, b: maxmin(eng, s2, a, b, "max"))
        if h is not None:
            v = scalar2(eng, s, v, h, lambda s2, a, b: maxmin(eng, s2, a, b, "min"))
        return v
    return one(st, x, lo, hi)


def arr_getitem(eng, st, ref, o, k):
    """arr[k] with k an index, an index array, a boolean mask or a tuple (2-D)."""
    if isinstance(k, tuple):
        if len(k) == 2:
            rk, ck = k
            rows = o.seq
            if isinstance(rk, SliceVal_()):
                if not (rk.lo is None and rk.hi is None and rk.step is None):
                    rows = eng.seq_slice(st, rows, rk.lo, rk.hi)
                return eng.view(st, ref, ArrO(map_seq(eng, st, rows, lambda s, r: eng.getitem(s, r, ck))))
            if is_arr(eng, st, rk):
                sub = arr_getitem(eng, st, ref, o, rk)
                return new_arr(eng, st, map_seq(eng, st, eng.obj(st, sub).seq, lambda s, r: eng.getitem(s, r, ck)))
            return eng.getitem(st, eng.seq_get(st, rows, rk), ck)
        raise Unsupported("array index")
    if is_arr(eng, st, k):
        ks = seq_of(eng, st, k)
        f = first_item(ks)
        if isinstance(f, bool) or is_boolref(f):
            return new_arr(eng, st, mask_seq(eng, st, o.seq, ks))
        return new_arr(eng, st, map_seq(eng, st, ks, lambda s, i: eng.seq_get(s, o.seq, i)))
    return eng.seq_get(st, o.seq, k)


def mask_seq(eng, st, seq, mask):
    """The items at the positions where the mask is true."""
    def flt(items):
        out = []
        for c in items:
            if isinstance(c, One):
                t = eng.truth(st, c.v[0])
                if t is True:
                    out.append(One(c.v[1]))
                elif t is not False:
                    out.append(If(t, [One(c.v[1])], []))
            elif isinstance(c, For):
                it = flt(c.items)
                if len(it) == 1 and isinstance(it[0], If) and not it[0].b:
                    out.append(For(c.base, c.var, And(c.cond, it[0].g), it[0].a))
                elif it:
                    out.append(For(c.base, c.var, c.cond, it))
            else:
                raise Unsupported("boolean mask")
        return out
    return flt(zip_seqs(eng, st, [mask, seq]))


def SliceVal_():
    from .interp import SliceVal
    return SliceVal


def slice_set(eng, st, ref, o, k, v):
    """arr[lo:hi] = value or sequence of the same length (numpy semantics)."""
    if o.kind != "arr" or k.step not in (None, 1) or seq_is_pre(o) or (o.overlays and o.overlays[0][0] == "pre"):
        raise Unsupported("slice assignment")
    seq = flatten_overlays(eng, st, o) if o.overlays else list(o.seq)
    full = k.lo is None and k.hi is None
    mid = seq if full else eng.seq_slice(st, seq, k.lo, k.hi)
    n = eng.seq_len(st, mid)
    if is_arr(eng, st, v) or eng.obj(st, v) is not None and eng.obj(st, v).kind == "list" or isinstance(v, tuple):
        new = seq_of(eng, st, v)
        m = eng.seq_len(st, new)
        eng.raise_if(st, Not(eng.cmp_num(st, "==", m, n)), "ValueError", "could not broadcast")
    else:
        new = map_seq(eng, st, mid, lambda s, x: v)
    if not full:
        pre = eng.seq_slice(st, seq, None, k.lo) if k.lo is not None else []
        post = eng.seq_slice(st, seq, k.hi, None) if k.hi is not None else []
        new = list(pre) + list(new) + list(post)
    eng.set_obj(st, ref, o.new(seq=new, overlays=()))


def list_set(eng, st, ref, o, k, v):
    if isinstance(k, SliceVal_()):
        return slice_set(eng, st, ref, o, k, v)
    if isinstance(k, tuple):
        if len(k) == 2:
            eng.setitem(st, eng.seq_get(st, o.seq, k[0]), k[1], v)
            return
        raise Unsupported("array assignment")
    k = eng.num(eng.force(st, k))
    if isinstance(k, Choice):
        raise Unsupported("assignment at several positions")
    if isinstance(k, int) and not o.overlays:
        # position inside leading / trailing single items
        seq = list(o.seq)
        if k >= 0 and all(isinstance(c, One) for c in seq[:k + 1]) and k < len(seq):
            seq[k] = One(v)
            eng.set_obj(st, ref, o.new(seq=seq))
            return
        if k < 0 and -k <= len(seq) and all(isinstance(c, One) for c in seq[k:]):
            seq[k] = One(v)
            eng.set_obj(st, ref, o.new(seq=seq))
            return
    if seq_is_pre(o):
        # inside a generic iteration: overlay
        from .loops import Restart
        raise Restart(("obj", ref.oid))
    n = eng.seq_len(st, o.seq)
    neg = eng.decide(st, eng.cmp_num(st, "<", k, 0))
    if neg is True:
        k = eng.arith(st, "+", k, n)
    elif neg is not False:
        k = Ite(neg, eng.arith(st, "+", k, n), k)
    eng.raise_if(st, Or(eng.cmp_num(st, "<", k, 0), eng.cmp_num(st, ">=", k, n)), "IndexError")
    if isinstance(v, Accum):
        if is_conc_num(v.addend) and v.addend == 0:
            return
        eng.set_obj(st, ref, o.new(overlays=tuple(o.overlays) + (("one", "add", (k,), v.addend),)))
        return
    eng.set_obj(st, ref, o.new(overlays=tuple(o.overlays) + (("one", "set", (k,), v),)))


def seq_is_pre(o):
    return any(isinstance(c, Pre) for c in o.seq)


def overlay_get(eng, st, o, k, ref=None):
    if isinstance(k, SliceVal_()):
        o2 = o.new(seq=flatten_overlays(eng, st, o), overlays=())
        new = o2.new(seq=eng.seq_slice(st, o2.seq, k.lo, k.hi))
        return eng.view(st, ref, new) if o.kind == "arr" else eng.alloc(st, new)
    k = eng.num(eng.force(st, k))
    n = eng.seq_len(st, o.seq)
    neg = eng.decide(st, eng.cmp_num(st, "<", k, 0))
    if neg is True:
        k = eng.arith(st, "+", k, n)
    elif neg is not False:
        raise Unsupported("index of unknown sign")
    eng.raise_if(st, eng.cmp_num(st, ">=", k, n), "IndexError")
    if o.overlays and o.overlays[0][0] == "pre":
        for e in o.overlays[1:]:
            if not (e[0] == "one" and eng.decide(st, eng.cmp_num(st, "==", e[2][0], k)) is False):
                raise Unsupported("array read after a write in the same iteration")
        return Accum(o.overlays[0][1], k, 0, None, None)
    return overlay_at(eng, st, o, k)


def overlay_at(eng, st, o, k):
    v = eng.seq_at(st, o.seq, k)
    return apply_overlays(eng, st, v, o.overlays, (k,))


def apply_overlays(eng, st, v, ovs, k):
    for e in ovs:
        if e[0] == "one":
            _, op, kk, x = e
            c = And(*[eng.cmp_num(st, "==", a, b) for a, b in zip(kk, k)])
            c = eng.decide(st, c)
            if c is False:
                continue
            nv = x if op == "set" else eng.binop(st, "+", v, x)
            v = nv if c is True else merge_val(c, nv, v)
        elif e[0] == "for":
            _, base, var, cond, op, kk, x = e
            c = And(cond, *[eng.cmp_num(st, "==", a, b) for a, b in zip(kk, k)])
            if op == "add":
                s = eng.agg_sum(st, base, var, c, x)
                v = eng.binop(st, "+", v, s)
            else:
                ii = None
                for a, b in zip(kk, k):
                    ii = ii if ii is not None else eng.invert(base, var, a, b)
                if ii is not None:
                    eng.ctx.note_index(base, ii)
                    p = [(var, ii)]
                    g = eng.decide(st, And(base.member(ii), subst(c, p)))
                    nv = subst(x, p)
                    v = nv if g is True else v if g is False else merge_val(g, nv, v)
                    # injectivity of the key is needed for the last write to be the only one
                    inj_check(eng, st, base, var, cond, kk)
                else:
                    inj_check(eng, st, base, var, cond, kk)
                    ex = eng.decide(st, eng.ctx.mk_ex(base, var, c))
                    if ex is False:
                        continue
                    w = eng.ctx.fresh("cell_" + base.name, base.sort)
                    eng.ctx.note_index(base, w)
                    eng.ctx.add_fact(Implies(ex, And(base.member(w), subst(c, [(var, w)]))))
                    nv = subst(x, [(var, w)])
                    v = nv if ex is True else merge_val(ex, nv, v)
        elif e[0] == "if":
            a = apply_overlays(eng, st, v, e[2], k)
            b = apply_overlays(eng, st, v, e[3], k)
            v = merge_val(e[1], a, b)
        else:
            raise Unsupported("array overlay")
    return v


def inj_check(eng, st, base, var, cond, kk):
    key = (base.name, var.get_id(), tuple(x.get_id() if is_z3(x) else x for x in kk))
    memo = eng.__dict__.setdefault("_injmemo", {})
    if key in memo:
        if memo[key] is False:
            raise Unsupported("array cells written more than once")
        return
    i, j = eng.ctx.index_var(base), eng.ctx.index_var(base)
    eng.ctx.note_index(base, i)
    eng.ctx.note_index(base, j)
    p, q = [(var, i)], [(var, j)]
    hyp = [b2z(base.member(i)), b2z(base.member(j))]
    for x in (subst(cond, p), subst(cond, q)):
        if is_z3(x):
            hyp.append(x)
    for a in kk:
        c = eng.cmp_num(st, "==", subst(a, p), subst(a, q))
        if is_z3(c):
            hyp.append(c)
    if base.inj:
        hyp += [b2z(x) for x in base.inj(i, j)]
    ok = eng.ctx.valid([x for x in st.pc if is_z3(x)] + hyp, i == j)
    memo[key] = ok
    if not ok:
        raise Unsupported("array cells written more than once")


def flatten_overlays(eng, st, o):
    """Sequence with the overlays applied elementwise."""
    s0 = st.copy()
    out, pos = [], 0
    for c in o.seq:
        if isinstance(c, One):
            out.append(One(apply_overlays(eng, st, c.v, o.overlays, (pos,))))
            pos = eng.arith(st, "+", pos, 1)
        elif isinstance(c, Fn):
            p0, f = pos, c.fn
            out.append(Fn(c.length, lambda i, p0=p0, f=f: apply_overlays(eng, s0.copy(), f(i), o.overlays, (eng.arith(s0, "+", p0, i),))))
            pos = eng.arith(st, "+", pos, c.length)
        elif isinstance(c, For) and single(c):
            r = eng.arith(st, "+", pos, eng.ctx.mk_psum(c.base, c.var, c.cond, 1, c.var))
            s2 = st.copy()
            eng.ctx.note_index(c.base, c.var)
            s2.assume(b2z(c.base.member(c.var)))
            s2.assume(c.cond)
            out.append(For(c.base, c.var, c.cond, [One(apply_overlays(eng, s2, c.items[0].v, o.overlays, (r,)))]))
            pos = eng.arith(st, "+", pos, eng.ctx.mk_count(c.base, c.var, c.cond))
        else:
            raise Unsupported("overlaid sequence")
    return out


# ------------------------------------------------------------------- matrices
def mat_rows(eng, st, ref):
    raise Unsupported("iteration over a matrix")


def mat_entry(eng, st, o, i, j):
    v = o.entry(i, j)
    return apply_overlays(eng, st, v, o.overlays, (i, j))


def mat_getitem(eng, st, ref, o, k):
    if isinstance(k, tuple) and len(k) == 2:
        S = SliceVal_()
        rk, ck = k
        full = lambda x: isinstance(x, S) and x.lo is None and x.hi is None and x.step is None
        if not isinstance(rk, S) and not isinstance(ck, S) and not is_arr(eng, st, rk) and not is_arr(eng, st, ck):
            rk, ck = eng.num(eng.force(st, rk)), eng.num(eng.force(st, ck))
            for x, n in ((rk, o.rows), (ck, o.cols)):
                ln = n if not isinstance(n, list) else eng.seq_len(st, n)
                eng.raise_if(st, eng.cmp_num(st, ">=", x, ln), "IndexError")
                if eng.decide(st, eng.cmp_num(st, "<", x, 0)) is not False:
                    raise Unsupported("matrix index of unknown sign")
            if o.overlays and o.overlays[0][0] == "pre":
                for e in o.overlays[1:]:
                    if e[0] != "one":
                        raise Unsupported("matrix read in a loop")
                    c = eng.decide(st, And(*[eng.cmp_num(st, "==", a, b) for a, b in zip(e[2], (rk, ck))]))
                    if c is not False:
                        # allowed when this write adds to the same cell later: additions commute
                        if e[1] != "add":
                            raise Unsupported("matrix cell read after it was written in the same iteration")
                return Accum(o.overlays[0][1], (rk, ck), 0, None, None)
            return mat_entry(eng, st, o, rk, ck)
        if o.tag != "sparse":
            # a row or a column of a dense array
            for x, y, n, row in ((rk, ck, o.rows, True), (ck, rk, o.cols, False)):
                if full(y) and not isinstance(x, S) and not is_arr(eng, st, x):
                    x = eng.num(eng.force(st, x))
                    if not is_arith(to_z3(x)):
                        break
                    ln = n if not isinstance(n, list) else eng.seq_len(st, n)
                    eng.raise_if(st, eng.cmp_num(st, ">=", x, ln), "IndexError")
                    if eng.decide(st, eng.cmp_num(st, "<", x, 0)) is not False:
                        raise Unsupported("matrix index of unknown sign")
                    s0, oo = st.copy(), o
                    other = o.cols if row else o.rows
                    if isinstance(other, list):
                        break
                    return eng.alloc(st, ArrO([Fn(other, lambda j: mat_entry(eng, s0, oo, x, j) if row else mat_entry(eng, s0, oo, j, x))]))
        return mat_select(eng, st, o, rk, ck)
    raise Unsupported("matrix index")


def mat_select(eng, st, o, rk, ck):
    S = SliceVal_()

    def axis(x, n, labels):
        """-> (length, function position -> index, labels or None)"""
        if isinstance(x, S):
            if x.lo is None and x.hi is None:
                return n, (lambda i: i), labels
            if x.step not in (None, 1):
                raise Unsupported("matrix slice")
            if labels is not None and not (x.hi is None and isinstance(eng.num(x.lo), int) and x.lo >= 0):
                raise Unsupported("matrix slice")

            def bound(v, d):
                if v is None:
                    return d
                v = eng.num(eng.force(st, v))
                neg = eng.decide(st, eng.cmp_num(st, "<", v, 0))
                if neg is True:
                    v = eng.arith(st, "+", v, n)
                    neg = eng.decide(st, eng.cmp_num(st, "<", v, 0))
                    return 0 if neg is True else v if neg is False else Ite(neg, 0, v)
                if neg is not False:
                    raise Unsupported("slice bound of unknown sign")
                big = eng.decide(st, eng.cmp_num(st, ">", v, n))
                return n if big is True else v if big is False else Ite(big, n, v)
            lo, hi = bound(x.lo, 0), bound(x.hi, n)
            ls = eng.seq_slice(st, labels, x.lo, None) if labels is not None else None
            ln = nonneg(eng, st, eng.sub_simpl(st, hi, lo))
            return ln, (lambda i: eng.arith(st, "+", i, lo)), ls
        seq = seq_of(eng, st, x)
        ls = list(seq) if labels is None else map_seq(eng, st, seq, lambda s, i: eng.seq_get(s, labels, i))
        return eng.seq_len(st, seq), (lambda i: eng.seq_at(st.copy(), seq, i)), ls
    nr, fr, rl = axis(rk, o.rows, o.rowl)
    nc, fc, cl = axis(ck, o.cols, o.coll)
    s0 = st.copy()
    oo = o
    shifted = any(isinstance(x, S) and x.lo is not None and l is None for x, l in ((rk, rl), (ck, cl)))
    lab = None
    if (rl is not None or cl is not None) and not shifted and not (o.lab is None and (o.rowl or o.coll)):
        lab = o.lab if o.lab is not None else (lambda i, j: mat_entry(eng, s0, oo, i, j))
    if lab is None:
        rl = cl = None
    return eng.alloc(st, MatO(nr, nc, lambda i, j: mat_entry(eng, s0, oo, fr(i), fc(j)), (), o.tag, lab, rl, cl))


def retag(o, tag):
    return MatO(o.rows, o.cols, o.entry, o.overlays, tag, o.lab, o.rowl, o.coll)


def mat_set(eng, st, ref, o, k, v):
    if not (isinstance(k, tuple) and len(k) == 2):
        raise Unsupported("matrix assignment")
    rk, ck = [eng.num(eng.force(st, x)) for x in k]
    for x, n in ((rk, o.rows), (ck, o.cols)):
        eng.raise_if(st, eng.cmp_num(st, ">=", x, n), "IndexError")
        if eng.decide(st, eng.cmp_num(st, "<", x, 0)) is not False:
            raise Unsupported("matrix index of unknown sign")
    if isinstance(v, Accum):
        e = ("one", "add", (rk, ck), v.addend)
    else:
        if isinstance(v, Choice) and any(isinstance(w, Accum) for _, w in v.alts):
            raise Unsupported("conditional matrix update")
        e = ("one", "set", (rk, ck), v)
    eng.set_obj(st, ref, MatO(o.rows, o.cols, o.entry, tuple(o.overlays) + (e,), o.tag))


# ------------------------------------------------------------------- objects
def obj_attr(eng, st, v, o, name):
    from .interp import DictView, SeqVal
    B = lambda f: Builtin(name, f)
    if o.kind in ("dict", "set"):
        if name in ("keys", "values", "items"):
            return B(lambda e, s, a, k: DictView(v, name))
        if name == "get":
            return B(lambda e, s, a, k: e.dict_get(s, v, a[0], a[1] if len(a) > 1 else None, raising=False))
        if name == "update":
            def upd(e, s, a, k):
                src = e.obj(s, a[0]) if a else None
                if src is not None and src.kind == "dict":
                    for ent in src.entries:
                        if ent[0] == "one":
                            e.dict_set(s, v, ent[1], ent[2])
                        else:
                            cur = e.obj(s, v)
                            e.set_obj(s, v, type(cur)(tuple(cur.entries) + (ent,)))
                elif a:
                    for ent in seq_entries(e, s, e.iter_seq(s, a[0]), True):
                        if ent[0] == "one":
                            e.dict_set(s, v, ent[1], ent[2])
                        else:
                            cur = e.obj(s, v)
                            e.set_obj(s, v, type(cur)(tuple(cur.entries) + (ent,)))
                for kk, x in k.items():
                    e.dict_set(s, v, kk, x)
            return B(upd)
        if name == "add" and o.kind == "set":
            return B(lambda e, s, a, k: set_add(e, s, v, a[0]))
        if name == "copy":
            return B(lambda e, s, a, k: e.alloc(s, type(o)(e.obj(s, v).entries)))
        if name == "pop":
            return B(lambda e, s, a, k: dict_pop(e, s, v, *a))
        if name == "setdefault":
            def sd(e, s, a, k):
                m = e.decide(s, e.dict_lookup(s, e.obj(s, v).entries, a[0])[1])
                if m is True:
                    e.dict_set(s, v, a[0], a[1] if len(a) > 1 else None)
                elif m is not False:
                    raise Unsupported("setdefault")
                return e.dict_get(s, v, a[0])
            return B(sd)
        if name == "clear":
            return B(lambda e, s, a, k: e.set_obj(s, v, type(o)(())))
    if o.kind in ("list", "arr"):
        if name == "append":
            def app(e, s, a, k):
                cur = e.obj(s, v)
                if isinstance(a[0], Accum):
                    raise Unsupported("accumulator appended")
                e.set_obj(s, v, cur.new(seq=list(cur.seq) + [One(a[0])]))
            return B(app)
        if name == "extend":
            def ext(e, s, a, k):
                cur = e.obj(s, v)
                e.set_obj(s, v, cur.new(seq=list(cur.seq) + seq_of(e, s, a[0])))
            return B(ext)
        if name == "sort":
            def srt(e, s, a, k):
                cur = e.obj(s, v)
                e.set_obj(s, v, cur.new(seq=sorted_seq(e, s, cur.seq, k.get("key"), k.get("reverse", False))))
            return B(srt)
        if name == "index":
            return B(lambda e, s, a, k: seq_index(e, s, e.obj(s, v).seq, a[0]))
        if name == "copy":
            return B(lambda e, s, a, k: e.alloc(s, e.obj(s, v)))
        if name in ("clear",) and o.kind == "list":
            return B(lambda e, s, a, k: e.set_obj(s, v, ListO([])))
        if name == "insert" and o.kind == "list":
            def ins(e, s, a, k):
                cur = e.obj(s, v)
                if a[0] == 0:
                    e.set_obj(s, v, cur.new(seq=[One(a[1])] + list(cur.seq)))
                else:
                    raise Unsupported("list.insert")
            return B(ins)
    if o.kind == "arr":
        if name == "size":
            return arr_size(eng, st, v)
        if name == "shape":
            return arr_shape(eng, st, v)
        if name == "T":
            return arr_T(eng, st, v)
        if name in ("real", "imag"):
            return scalar1(eng, st, v, lambda s, x: getattr(eng.cplx(x), "re" if name == "real" else "im"))
        if name in ("ravel", "squeeze"):
            return B(lambda e, s, a, k: e.view(s, v, ArrO(e.obj(s, v).seq, e.obj(s, v).overlays)))
        if name in ("tolist", "flatten", "astype", "toarray"):
            return B(lambda e, s, a, k: e.alloc(s, ListO(e.obj(s, v).seq) if name == "tolist" else ArrO(e.obj(s, v).seq, e.obj(s, v).overlays)))
        if name in ("conj", "conjugate"):
            return B(lambda e, s, a, k: scalar1(e, s, v, lambda s2, x: np_conj(e, s2, x)))
        if name in ("sum", "max", "min", "all", "any"):
            return B(lambda e, s, a, k: NP[name](e, s, [v] + list(a), k))
        if name == "ndim":
            return 1
        if name == "dtype":
            return Opaque("dtype")
        if name == "dot":
            return B(lambda e, s, a, k: matmul(e, s, v, a[0]))
    if o.kind == "mat":
        if name == "shape":
            return (o.rows, o.cols)
        if name in ("toarray", "tocsr", "tocsc", "copy", "todense"):
            return B(lambda e, s, a, k: e.alloc(s, retag(e.obj(s, v), "sparse" if name.startswith("tocs") else None if name == "toarray" else e.obj(s, v).tag)))
        if name in ("real", "imag"):
            part = "re" if name == "real" else "im"
            oo = o
            s0 = st.copy()
            return eng.alloc(st, MatO(o.rows, o.cols, lambda i, j: getattr(eng.cplx(mat_entry(eng, s0, oo, i, j)), part), (), o.tag))
        if name in ("dot",):
            return B(lambda e, s, a, k: mat_vec(e, s, e.obj(s, v), a[0]))
    eng.raise_if(st, True, "AttributeError", name) if o.kind in ("dict", "set") and not name.startswith("_") and False else None
    raise Unsupported("attribute %s of %s" % (name, o.kind))


def set_obj_attr(eng, st, v, o, name, val):
    return False


def set_add(eng, st, ref, x):
    o = eng.obj(st, ref)
    es = o.entries
    if any(e[0] == "one" and same(e[1], x) for e in es) and all(e[0] == "one" for e in es):
        return None
    eng.set_obj(st, ref, SetO(tuple(es) + (("one", x, True),)))


def dict_pop(eng, st, ref, k, *default):
    o = eng.obj(st, ref)
    es = list(o.entries)
    for n, e in enumerate(es):
        if e[0] == "one" and same(e[1], k):
            if all(x[0] == "one" for x in es[n:]):
                v = e[2]
                eng.set_obj(st, ref, type(o)(tuple(es[:n] + es[n + 1:])))
                return v
    alts, miss = eng.dict_lookup(st, o.entries, k)
    miss = eng.decide(st, miss)
    if default:
        if miss is True:
            return default[0]
        if miss is not False:
            alts = [(c, v) for c, v in alts] + [(miss, default[0])]
    else:
        eng.raise_if(st, miss, "KeyError", "pop of a missing key")
    eng.set_obj(st, ref, type(o)(tuple(without_key(eng, st, es, k))))
    return mk_choice(alts) if len(alts) > 1 else alts[0][1]


def without_key(eng, st, es, k):
    out = []
    for e in es:
        if e[0] == "one":
            c = eng.equals(st, e[1], k)
            c = c if isinstance(c, bool) else eng.decide(st, c)
            if c is False:
                out.append(e)
            elif c is not True:
                out.append(("if", c, (), (e,)))
        elif e[0] == "for":
            _, base, var, cond, key, val = e
            out.append(("for", base, var, And(cond, Not(eng.equals(st, key, k))), key, val))
        elif e[0] == "if":
            out.append(("if", e[1], tuple(without_key(eng, st, e[2], k)), tuple(without_key(eng, st, e[3], k))))
        else:
            raise Unsupported("removal of a key")
    return out


def value_attr(eng, st, v, name):
    from .interp import ExcVal, SliceVal
    if hasattr(v, "vc_attr"):
        return v.vc_attr(eng, st, name)
    if isinstance(v, Opaque):
        if v.kind == "any":
            return Opaque("any")
        return opaque_attr(eng, st, v, name)
    n = eng.num(v) if not isinstance(v, (tuple, str)) else v
    if isinstance(n, CNum) or is_num(n):
        c = eng.cplx(n)
        if name == "real":
            return c.re
        if name == "imag":
            return c.im
        if name in ("conjugate", "conj"):
            return Builtin(name, lambda e, s, a, k: np_conj(e, s, n))
        if name == "item":
            return Builtin(name, lambda e, s, a, k: v)
        if name == "size":
            return 1
        if name == "shape":
            return ()
        if name == "copy":
            return Builtin(name, lambda e, s, a, k: v)
        if name == "is_integer":
            if is_arith(n):
                return Builtin(name, lambda e, s, a, k: z3.IsInt(to_real(n)))
            return Builtin(name, lambda e, s, a, k: Fraction(n).denominator == 1 if not isinstance(n, float) else False)
    if isinstance(v, str):
        return Builtin(name, lambda e, s, a, k: str_method(e, s, v, name, a))
    if isinstance(v, tuple):
        if name == "index":
            return Builtin(name, lambda e, s, a, k: seq_index(e, s, [One(x) for x in v], a[0]))
    if isinstance(v, ExcVal):
        return Opaque("any")
    if isinstance(v, FuncVal) and name in ("__name__", "__doc__"):
        return v.node.name if name == "__name__" else None
    raise Unsupported("attribute %s of %r" % (name, v))


def str_method(eng, st, v, name, args):
    if all(isinstance(a, (str, int)) for a in args) and name in ("startswith", "endswith", "upper", "lower", "split", "strip", "replace"):
        r = getattr(v, name)(*args)
        return eng.new_list(st, r) if isinstance(r, list) else r
    if name == "format":
        return Opaque("str")
    if name == "join":
        return Opaque("str")
    raise Unsupported("str." + name)


def opaque_attr(eng, st, v, name):
    if v.kind == "logger":
        return Builtin("log", lambda e, s, a, k: None)
    if v.kind in ("str",):
        return Opaque("any")
    if v.kind == "dtype":
        return Opaque("any")
    raise Unsupported("attribute %s of %r" % (name, v))


def opaque_call(eng, st, f, args, kw):
    if f.kind == "any":
        return Opaque("any")
    raise Unsupported("call of %r" % (f,))


def opaque_getitem(eng, st, o, k):
    if o.kind == "any":
        return Opaque("any")
    raise Unsupported("subscript of %r" % (o,))


def opaque_binop(eng, st, op, a, b):
    if any(isinstance(x, Opaque) and x.kind in ("str", "any") for x in (a, b)):
        return Opaque("any")
    raise Unsupported("operator on %r %r" % (a, b))


def opaque_cmp(eng, st, op, a, b):
    if a is b and op == "==":
        return True
    raise Unsupported("comparison of %r and %r" % (a, b))


def seq_index(eng, st, seq, x):
    if all(isinstance(c, One) for c in seq):
        alts, rem = [], True
        for n, c in enumerate(seq):
            e = eng.decide(st, And(rem, eng.equals(st, c.v, x)))
            if e is not False:
                alts.append((e, n))
            if e is True:
                return n
            rem = And(rem, Not(eng.equals(st, c.v, x)))
        eng.raise_if(st, rem, "ValueError")
        return mk_choice(alts)
    pos = 0
    for c in seq:
        if isinstance(c, For) and single(c) and len(seq) == 1:
            eng.raise_if(st, Not(eng.exists_key(st, c.base, c.var, c.cond, c.items[0].v, x)), "ValueError")
            i = eng.invert(c.base, c.var, c.items[0].v, x)
            if i is None:
                i = eng.witness_index(st, c.base, c.var, c.cond, c.items[0].v, x)
            eng.check_injective(st, c.base, c.var, c.cond, c.items[0].v)
            return eng.ctx.mk_psum(c.base, c.var, c.cond, 1, i)
    raise Unsupported("list.index")


def arr_size(eng, st, v):
    n = 0
    o = eng.obj(st, v)
    if all(isinstance(c, One) and is_arr(eng, st, c.v) for c in o.seq) and o.seq:
        for c in o.seq:
            n = eng.arith(st, "+", n, arr_size(eng, st, c.v))
        return n
    return eng.seq_len(st, o.seq)


def arr_shape(eng, st, v):
    o = eng.obj(st, v)
    n = eng.seq_len(st, o.seq)
    it = first_item(o.seq)
    if it is not None and is_arr(eng, st, it):
        return (n,) + arr_shape(eng, st, it)
    return (n,)


def first_item(seq):
    for c in seq:
        if isinstance(c, One):
            return c.v
        if isinstance(c, For) and c.items:
            return first_item(c.items)
        if isinstance(c, If):
            return first_item(c.a) if c.a else first_item(c.b)
        if isinstance(c, Fn):
            return c.fn(z3.Int("probe!"))
    return None


def arr_T(eng, st, v):
    o = eng.obj(st, v)
    it = first_item(o.seq)
    if it is None or not is_arr(eng, st, it):
        return v
    rows = o.seq
    if all(isinstance(c, One) for c in rows):
        rs = [seq_of(eng, st, c.v) for c in rows]
        z = zip_seqs(eng, st, rs)
        return new_arr(eng, st, map_seq(eng, st, z, lambda s, t: new_arr(eng, s, [One(x) for x in t])))
    if len(rows) == 1 and isinstance(rows[0], (For, Fn)):
        # rows(k) = [items(j)...] : transpose by swapping the families
        from . import loops
        base, k, cond, items = loops.norm_chunk(eng, rows[0])
        if len(items) == 1 and isinstance(items[0], One):
            inner = seq_of(eng, st, items[0].v)
            return new_arr(eng, st, map_seq(eng, st, inner, lambda s, x: eng.alloc(s, ArrO([For(base, k, cond, [One(x)])]))))
    raise Unsupported("transpose")


def mat_vec(eng, st, o, vec):
    """Matrix times vector."""
    if eng.obj(st, vec) is None:
        raise Unsupported("matrix times non-vector")
    seq = seq_of(eng, st, vec)
    n = eng.seq_len(st, seq)
    ne = eng.decide(st, Not(eng.cmp_num(st, "==", n, o.cols)))
    if ne is not False:
        eng.raise_if(st, ne, "ValueError", "dimension mismatch")
    s0 = st.copy()
    if o.overlays:
        lab = None
    else:
        lab = o.lab

    def row(i):
        """The entry of the row with label i (position, if the rows are not labelled)."""
        if lab is not None and o.coll is not None:
            z = zip_seqs(eng, s0, [o.coll, seq])
            s1 = s0.copy()
            return seq_sum(eng, s1, map_seq(eng, s1, z, lambda s, p: eng.binop(s, "*", lab(i, p[0]), p[1])))
        rb = eng.range_base(o.cols)
        k = eng.ctx.index_var(rb)
        s1 = s0.copy()
        eng.ctx.loopvars.append(k)
        eng.ctx.note_index(rb, k)
        s1.assume(rb.member(k))
        try:
            e = eng.binop(s1, "*", (lab or (lambda a, b: mat_entry(eng, s1, o, a, b)))(i, k), eng.seq_at(s1, seq, k))
        finally:
            eng.ctx.loopvars.pop()
        return eng.agg_sum(s1, rb, k, True, e)
    if lab is not None and o.rowl is not None:
        return new_arr(eng, st, map_seq(eng, st, o.rowl, lambda s, r: row(r)))
    return new_arr(eng, st, [Fn(o.rows, row)])


# ------------------------------------------------------------------ builtins
def b_len(eng, st, a, k):
    v = a[0]
    from .interp import DictView, SeqVal
    if isinstance(v, Choice):
        return eng.map1(st, v, lambda s, x: b_len(eng, s, [x], {}))
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, DictView):
        return eng.dict_len(st, eng.obj(st, v.ref).entries)
    o = eng.obj(st, v)
    if o is not None:
        if o.kind in ("list", "arr"):
            return eng.seq_len(st, o.seq)
        if o.kind == "dict":
            return eng.dict_len(st, o.entries)
        if o.kind == "set":
            return set_len(eng, st, o)
        if o.kind == "mat":
            return o.rows
        if o.kind == "inst" and eng.has_attr(st, v, "__len__"):
            return eng.call(st, eng.getattr(st, v, "__len__"), [], {})
    if hasattr(v, "vc_len"):
        return v.vc_len(eng, st)
    if v is None or is_num(eng.num(v)) :
        eng.raise_if(st, True, "TypeError", "object has no len()")
    raise Unsupported("len of %r" % (v,))


def set_len(eng, st, o):
    """Number of distinct elements; a fresh number with the facts that hold of it."""
    es = o.entries
    if all(e[0] == "one" for e in es):
        n = 0
        seen = []
        for e in es:
            new = True
            for x in seen:
                new = And(new, Not(eng.equals(st, x, e[1])))
            n = eng.arith(st, "+", n, Ite(new, 1, 0) if not isinstance(new, bool) else int(new))
            seen.append(e[1])
        return n
    # families: distinct iff pairwise distinct
    tot = 0
    fams = []
    for e in es:
        if e[0] == "for":
            tot = eng.arith(st, "+", tot, eng.ctx.mk_count(e[1], e[2], e[3]))
            fams.append((e[1], e[2], e[3], e[4]))
        elif e[0] == "one":
            tot = eng.arith(st, "+", tot, 1)
            fams.append((None, None, True, e[1]))
        else:
            raise Unsupported("size of a conditional set")
    dup, wit = [], []
    for n, (b1, v1, c1, k1) in enumerate(fams):
        for m in range(n, len(fams)):
            b2, v2, c2, k2 = fams[m]
            i = eng.ctx.index_var(b1) if b1 is not None else None
            j = eng.ctx.index_var(b2) if b2 is not None else None
            x = subst(k1, [(v1, i)]) if i is not None else k1
            y = subst(k2, [(v2, j)]) if j is not None else k2
            cc = And(subst(c1, [(v1, i)]) if i is not None else True, subst(c2, [(v2, j)]) if j is not None else True,
                     eng.equals(st, x, y))
            if n == m:
                if b1 is None:
                    continue
                cc = And(cc, i != j)
            e = cc
            # a witness of the duplicate, when the set is smaller than the number of insertions
            w, wp = cc, []
            for b, v in ((b1, i), (b2, j)):
                if v is not None:
                    sk = eng.ctx.skolem(b, "wit")
                    eng.ctx.note_index(b, sk)
                    w, wp = subst(w, [(v, sk)]), wp + [b.member(sk)]
            wit.append(And(*wp, w))
            if j is not None:
                e = eng.ctx.mk_ex(b2, j, e)
            if i is not None:
                e = eng.ctx.mk_ex(b1, i, e)
            dup.append(e)
    d = Or(*dup)
    size = eng.ctx.fresh("setsize", z3.IntSort())
    t = to_z3(tot)
    eng.ctx.add_fact(Implies(Not(d), size == t))
    st.assume(b2z(Or(size == t, *wit)))
    eng.ctx.add_fact(Implies(d, size < t))
    eng.ctx.add_fact(size >= 0)
    return size


def b_range(eng, st, a, k):
    from .interp import SeqVal
    a = [eng.num(eng.force(st, x)) for x in a]
    for x in a:
        if isinstance(x, (Fraction, float)) or (is_arith(x) and x.sort() == z3.RealSort()):
            eng.raise_if(st, True, "TypeError", "'float' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in a):
        return SeqVal([One(x) for x in range(*a)])
    if len(a) == 1:
        return SeqVal([Fn(nonneg(eng, st, a[0]), lambda i: i)])
    if len(a) == 2:
        lo = a[0]
        return SeqVal([Fn(nonneg(eng, st, eng.sub_simpl(st, a[1], lo)), lambda i: eng.arith(st, "+", lo, i))])
    raise Unsupported("range with a step")


def to_int(eng, st, v):
    if isinstance(v, Choice):
        return eng.map1(st, v, lambda s, x: to_int(eng, s, x))
    if isinstance(v, str):
        raise Unsupported("int of a string")
    if v is None:
        eng.raise_if(st, True, "TypeError", "int() argument None")
    if hasattr(v, "vc_int"):
        return v.vc_int(eng, st)
    o = eng.obj(st, v)
    if o is not None and o.kind == "arr":
        return to_int(eng, st, eng.seq_get(st, o.seq, 0))
    v = eng.num(v)
    if isinstance(v, float):
        eng.raise_if(st, True, "ValueError" if isnan(v) else "OverflowError")
    if isinstance(v, int):
        return int(v)
    if isinstance(v, Fraction):
        return int(v)
    if is_arith(v):
        if v.sort() == z3.IntSort():
            return v
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0)
        if eng.decide(st, z3.IsInt(v)) is True or eng.decide(st, v >= 0) is True:
            return z3.ToInt(v)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    raise Unsupported("int of %r" % (v,))


def to_float(eng, st, v):
    if isinstance(v, Choice):
        return eng.map1(st, v, lambda s, x: to_float(eng, s, x))
    if v is None:
        eng.raise_if(st, True, "TypeError", "float() argument None")
    if isinstance(v, str):
        if v in ("inf", "-inf", "nan"):
            return float(v)
        return norm_conc(float(v))
    v = eng.num(v)
    if isinstance(v, float):
        return v
    if is_conc_num(v):
        return Fraction(v)
    return to_real(v)


def b_minmax(which):
    def f(eng, st, a, k):
        if len(a) == 1:
            seq = seq_of(eng, st, a[0])
        else:
            seq = [One(x) for x in a]
        key = k.get("key")
        if key is not None:
            raise Unsupported("max with a key")
        v, ne = seq_ext(eng, st, seq, which)
        if "default" in k:
            if v is None:
                return k["default"]
            return v if ne is True else merge_val(ne, v, k["default"])
        eng.raise_if(st, Not(ne) if v is not None else True, "ValueError", "max() arg is an empty sequence")
        return v
    return f


def isinstance_(eng, st, v, cls):
    if isinstance(cls, tuple):
        return Or(*[isinstance_(eng, st, v, c) for c in cls])
    if isinstance(v, Choice):
        return Or(*[And(c, isinstance_(eng, st, w, cls)) for c, w in eng.live(st, v)])
    if isinstance(v, Poison):
        raise Unsupported("use of untracked variable: " + v.why)
    if isinstance(v, Elem):
        return Or(*[cond(v.idx) for c, cond in v.base.classes if isinstance(cls, ClassVal) and c.is_sub(cls)])
    if isinstance(cls, ClassVal) and hasattr(cls, "check"):
        return cls.check(eng, st, v)
    o = eng.obj(st, v)
    if isinstance(cls, ClassVal):
        if cls.name == "object":
            return True
        if o is not None and o.kind == "inst":
            return o.cls.is_sub(cls)
        from .interp import ExcVal
        if isinstance(v, ExcVal):
            return v.cls.is_sub(cls)
        return False
    if hasattr(v, "vc_isinstance"):
        return v.vc_isinstance(eng, st, cls)
    if isinstance(cls, Opaque):
        raise Unsupported("isinstance of an unknown class")
    raise Unsupported("isinstance")


def b_sorted(eng, st, a, k):
    seq = seq_of(eng, st, a[0])
    return eng.alloc(st, ListO(sorted_seq(eng, st, seq, k.get("key"), k.get("reverse", False))))


def sorted_seq(eng, st, seq, key, reverse):
    if reverse is not False:
        raise Unsupported("reverse sort")
    kf = (lambda s, x: eng.call(s, key, [x], {})) if key is not None else (lambda s, x: x)
    if all(isinstance(c, One) for c in seq):
        ks = [eng.num(kf(st, c.v)) if not isinstance(kf(st, c.v), (str, tuple)) else kf(st, c.v) for c in seq]
        if all(is_conc_num(x) or isinstance(x, str) for x in ks) or all(isinstance(x, tuple) and all(is_conc_num(y) for y in x) for x in ks):
            return [c for _, c in sorted(zip(ks, seq), key=lambda t: t[0])]
        if len(seq) <= 1:
            return list(seq)
        raise Unsupported("sort of symbolic items")
    if len(seq) == 1 and isinstance(seq[0], For) and single(seq[0]):
        f = seq[0]
        s2 = st.copy()
        eng.ctx.note_index(f.base, f.var)
        s2.assume(b2z(f.base.member(f.var)))
        s2.assume(f.cond)
        eng.ctx.loopvars.append(f.var)
        try:
            kv = kf(s2, f.items[0].v)
        finally:
            eng.ctx.loopvars.pop()
        kn = eng.num(kv) if not isinstance(kv, (tuple,)) else kv
        if is_boolref(kv) or isinstance(kv, bool):
            # stable: those with key False, then those with key True, each in the order they came
            parts = [For(f.base, f.var, And(f.cond, c), f.items) for c in (Not(kv), kv) if c is not False]
            cnt = lambda c: to_z3(eng.ctx.mk_count(c.base, c.var, c.cond))
            eng.ctx.add_fact(z3.Sum([cnt(c) for c in parts]) == cnt(f))
            return [d for c in parts for d in collapse_unique(eng, st, c)]
        if isinstance(kn, int):
            return list(seq)
        if not is_arith(kn):
            raise Unsupported("sort key")
        if getattr(f.base, "order", None) is not None and is_z3(kn) and f.base.order(f.var).eq(kn):
            return list(seq)
        b = sorted_base(eng, f.base, f.var, kn)
        return [For(b, f.var, f.cond, f.items)]
    raise Unsupported("sort")


def collapse_unique(eng, st, c):
    """A family with exactly one member: that member."""
    cond = c.cond
    if not is_z3(cond):
        return [c]
    ctx = eng.ctx
    eqs, stack = [], [cond]
    while stack:
        t = stack.pop()
        if z3.is_not(t) and z3.is_not(t.arg(0)):
            stack.append(t.arg(0).arg(0))
        elif z3.is_and(t):
            stack.extend(t.children())
        elif z3.is_eq(t) and t.num_args() == 2:
            for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if a.eq(c.var) and c.var.decl().name() not in free_consts(b):
                    eqs.append(b)
    for u in eqs + [u for u in getattr(c.base, "named", ()) if not any(u.eq(x) for x in eqs)]:
        ctx.note_index(c.base, u)
        if eng.decide(st, And(c.base.member(u), subst(cond, [(c.var, u)]))) is True:
            j = ctx.skolem(c.base, "other")
            ctx.note_index(c.base, j)
            if eng.decide(st, Implies(And(c.base.member(j), subst(cond, [(c.var, j)])), j == u)) is not True:
                continue
            ctx.add_fact(Implies(And(*[x for x in st.pc]), to_z3(ctx.mk_count(c.base, c.var, cond)) == 1))
            return [subst(d, [(c.var, u)]) for d in c.items]
    return [c]


def sorted_base(eng, base, var, key):
    """The same members in the (stable) order of a key."""
    cv = z3.Const("#s" + str(var.sort()), var.sort())
    kk = z3.substitute(key, (var, cv))
    memo = eng.__dict__.setdefault("_sorted", {})
    h = (base.name, kk.sexpr())
    if h in memo:
        return memo[h]
    name = "%s_s%d" % (base.name, len(memo))
    pos = z3.Function("pos_" + name, base.sort, z3.IntSort())
    b = Base(name, base.sort, member=base.member, facts=base._facts, element=base.element, pos=lambda i: pos(i),
             count=base.count, classes=base.classes, inverse=base.inverse, inj=base.inj, root=base)
    b.count = eng.ctx.count(base)
    b.order = lambda i: z3.substitute(key, (var, i))
    b.rank_key = (var, key, base)
    memo[h] = b
    eng.ctx.bases[name] = b
    return b


def make_set(eng, st, seq):
    return eng.alloc(st, SetO(seq_entries(eng, st, seq, False)))


def make_dict(eng, st, seq):
    return eng.alloc(st, DictO(seq_entries(eng, st, seq, True)))


def seq_entries(eng, st, seq, pairs):
    es = []
    for c in seq:
        if isinstance(c, One):
            k, v = (c.v if pairs else (c.v, True))
            if not pairs and any(e[0] == "one" and same(e[1], k) for e in es):
                continue
            done = False
            if pairs and all(e[0] == "one" for e in es):
                for n, e in enumerate(es):
                    if same(e[1], k):
                        es[n] = ("one", e[1], v)
                        done = True
            if not done:
                es.append(("one", k, v))
        elif isinstance(c, For):
            from .loops import lift_entries
            es += lift_entries(c.base, c.var, c.cond, seq_entries(eng, st, c.items, pairs))
        elif isinstance(c, Fn):
            from . import loops
            base, i, cond, items = loops.norm_chunk(eng, c)
            es += loops.lift_entries(base, i, cond, seq_entries(eng, st, items, pairs))
        elif isinstance(c, If):
            es.append(("if", c.g, tuple(seq_entries(eng, st, c.a, pairs)), tuple(seq_entries(eng, st, c.b, pairs))))
        else:
            raise Unsupported("dict of a growing sequence")
    return es


def b_list(eng, st, a, k):
    return eng.alloc(st, ListO(list(seq_of(eng, st, a[0])))) if a else eng.alloc(st, ListO([]))


def b_tuple(eng, st, a, k):
    if not a:
        return ()
    seq = seq_of(eng, st, a[0])
    if all(isinstance(c, One) for c in seq):
        return tuple(c.v for c in seq)
    return eng.alloc(st, ListO(list(seq)))


def b_dict(eng, st, a, k):
    if a:
        o = eng.obj(st, a[0])
        if o is not None and o.kind == "dict":
            r = eng.alloc(st, DictO(o.entries))
        else:
            r = make_dict(eng, st, map_seq(eng, st, seq_of(eng, st, a[0]), lambda s, p: pair_of(eng, s, p)))
    else:
        r = eng.alloc(st, DictO([]))
    for n, v in k.items():
        eng.dict_set(st, r, n, v)
    return r


def pair_of(eng, st, p):
    if isinstance(p, tuple):
        return p
    o = eng.obj(st, p)
    if o is not None and o.kind in ("list", "arr"):
        return tuple(c.v for c in o.seq)
    raise Unsupported("dict item")


def b_set(eng, st, a, k):
    return make_set(eng, st, seq_of(eng, st, a[0])) if a else eng.alloc(st, SetO([]))


def b_zip(eng, st, a, k):
    from .interp import SeqVal
    return SeqVal(zip_seqs(eng, st, [seq_of(eng, st, x) for x in a]))


def b_enumerate(eng, st, a, k):
    from .interp import SeqVal
    start = a[1] if len(a) > 1 else k.get("start", 0)
    return SeqVal(enumerate_seq(eng, st, seq_of(eng, st, a[0]), start))


def b_sum(eng, st, a, k):
    return seq_sum(eng, st, seq_of(eng, st, a[0]), a[1] if len(a) > 1 else k.get("start", 0))


def b_abs(eng, st, a, k):
    return scalar1(eng, st, a[0], lambda s, x: np_abs(eng, s, x))


def b_any(eng, st, a, k):
    return seq_quant(eng, st, seq_of(eng, st, a[0]), False)


def b_all(eng, st, a, k):
    return seq_quant(eng, st, seq_of(eng, st, a[0]), True)


def b_callable(eng, st, a, k):
    v = a[0]
    if isinstance(v, Choice):
        return Or(*[And(c, b_callable(eng, st, [w], {})) for c, w in eng.live(st, v)])
    return isinstance(v, (FuncVal, BoundMethod, Builtin, ClassVal)) or hasattr(v, "vc_call")


def b_type(eng, st, a, k):
    v = a[0]
    o = eng.obj(st, v)
    if o is not None and o.kind == "inst":
        return o.cls
    if isinstance(v, Elem):
        try:
            return eng.class_of(st, v)
        except Unsupported:
            pass
    return Opaque("any")


def b_hasattr(eng, st, a, k):
    return eng.has_attr(st, a[0], a[1])


def b_round(eng, st, a, k):
    v = eng.num(a[0])
    if len(a) == 1 and isinstance(v, int):
        return v
    raise Unsupported("round")


def b_map(eng, st, a, k):
    from .interp import SeqVal
    if len(a) == 2:
        return SeqVal(map_seq(eng, st, seq_of(eng, st, a[1]), lambda s, x: eng.call(s, a[0], [x], {})))
    z = zip_seqs(eng, st, [seq_of(eng, st, x) for x in a[1:]])
    return SeqVal(map_seq(eng, st, z, lambda s, x: eng.call(s, a[0], list(x), {})))


def b_filter(eng, st, a, k):
    from .interp import SeqVal
    def flt(s, seq):
        out = []
        for c in seq:
            if isinstance(c, One):
                t = eng.decide(s, eng.truth(s, eng.call(s, a[0], [c.v], {}) if a[0] is not None else c.v))
                if t is True:
                    out.append(c)
                elif t is not False:
                    out.append(If(t, [c], []))
            elif isinstance(c, (For, Fn)):
                r = map_generic(eng, s, c, lambda s2, items: flt(s2, items))
                r2 = []
                for x in r:
                    if isinstance(x, For) and len(x.items) == 1 and isinstance(x.items[0], If) and not x.items[0].b:
                        x = For(x.base, x.var, And(x.cond, x.items[0].g), x.items[0].a)
                    r2.append(x)
                out += r2
            else:
                raise Unsupported("filter")
        return out
    return SeqVal(flt(st, seq_of(eng, st, a[1])))


def b_getattr(eng, st, a, k):
    if len(a) == 3 and not eng.has_attr(st, a[0], a[1]):
        return a[2]
    return eng.getattr(st, a[0], a[1])


def b_reversed(eng, st, a, k):
    from .interp import SeqVal
    return SeqVal(seq_rev(eng, st, seq_of(eng, st, a[0])))


def b_next(eng, st, a, k):
    from .interp import SeqVal
    if isinstance(a[0], SeqVal):
        seq = a[0].seq
        n = eng.seq_len(st, seq)
        empty = eng.cmp_num(st, "==", n, 0)
        if len(a) > 1:
            e = eng.decide(st, empty)
            if e is True:
                return a[1]
            v = first_of(eng, st, seq)
            return v if e is False else merge_val(e, a[1], v)
        eng.raise_if(st, empty, "StopIteration")
        return first_of(eng, st, seq)
    raise Unsupported("next")


def first_of(eng, st, seq):
    return eng.seq_at(st, seq, 0)


def b_print(eng, st, a, k):
    return None


def make_builtins(eng):
    out = {}
    F = dict(len=b_len, range=b_range, min=b_minmax("min"), max=b_minmax("max"), sorted=b_sorted, zip=b_zip,
             enumerate=b_enumerate, sum=b_sum, abs=b_abs, any=b_any, all=b_all, callable=b_callable,
             hasattr=b_hasattr, print=b_print, round=b_round, map=b_map, filter=b_filter, getattr=b_getattr,
             reversed=b_reversed, next=b_next, iter=lambda e, s, a, k: SeqV(e, s, a[0]))
    for n, f in F.items():
        out[n] = Builtin(n, f)
    out["isinstance"] = Builtin("isinstance", lambda e, s, a, k: isinstance_(e, s, a[0], a[1]))
    out["issubclass"] = Builtin("issubclass", lambda e, s, a, k: a[0].is_sub(a[1]))

    def ty(name, construct, check):
        c = ClassVal(name, "builtins." + name, [], {}, external=True)
        c.construct = lambda e, s, cls, a, k: construct(e, s, a, k)
        c.check = check
        out[name] = c
    isn = lambda v: is_num(v) or is_boolref(v)
    ty("int", lambda e, s, a, k: to_int(e, s, a[0]) if a else 0,
       lambda e, s, v: isinstance(v, int) or is_boolref(v) or (is_arith(v) and v.sort() == z3.IntSort()))
    ty("float", lambda e, s, a, k: to_float(e, s, a[0]) if a else Fraction(0),
       lambda e, s, v: isinstance(v, (Fraction, float)) or (is_arith(v) and v.sort() == z3.RealSort()))
    ty("bool", lambda e, s, a, k: e.truth(s, a[0]) if a else False, lambda e, s, v: isinstance(v, bool) or is_boolref(v))
    ty("str", lambda e, s, a, k: a[0] if a and isinstance(a[0], str) else Opaque("str"),
       lambda e, s, v: isinstance(v, str) or isinstance(v, SymStr) or (isinstance(v, Opaque) and v.kind == "str"))
    ty("complex", lambda e, s, a, k: CNum(e.num(a[0]), e.num(a[1]) if len(a) > 1 else 0), lambda e, s, v: isinstance(v, CNum))
    kind = lambda e, s, v: getattr(e.obj(s, v), "kind", None)
    ty("list", b_list, lambda e, s, v: kind(e, s, v) == "list")
    ty("tuple", b_tuple, lambda e, s, v: isinstance(v, tuple))
    ty("dict", b_dict, lambda e, s, v: kind(e, s, v) == "dict")
    ty("set", b_set, lambda e, s, v: kind(e, s, v) == "set")
    out["frozenset"] = out["set"]
    ty("type", b_type, lambda e, s, v: isinstance(v, ClassVal))
    obj = ClassVal("object", "builtins.object", [], {}, external=True)
    out["object"] = obj
    out["NotImplemented"] = Opaque("NotImplemented")
    out["__name__"] = "module"
    out["__file__"] = Opaque("str")
    return out


def SeqV(eng, st, v):
    from .interp import SeqVal
    return SeqVal(seq_of(eng, st, v))


# --------------------------------------------------------------------- numpy
NP = {}


def np_fn(name):
    def deco(f):
        for n in name.split():
            NP[n] = f
        return f
    return deco


for _n, _f in (("abs absolute", np_abs), ("sign", np_sign), ("conj conjugate", np_conj), ("exp", np_exp), ("angle", np_angle)):
    def _mk(f):
        return lambda eng, st, a, k: scalar1(eng, st, a[0], lambda s, x: f(eng, s, x))
    for _x in _n.split():
        NP[_x] = _mk(_f)

NP["maximum"] = lambda eng, st, a, k: scalar2(eng, st, a[0], a[1], lambda s, x, y: maxmin(eng, s, x, y, "max"))
NP["minimum"] = lambda eng, st, a, k: scalar2(eng, st, a[0], a[1], lambda s, x, y: maxmin(eng, s, x, y, "min"))
NP["fmax"], NP["fmin"] = NP["maximum"], NP["minimum"]


@np_fn("clip")
def _clip(eng, st, a, k):
    lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
    hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
    return np_clip(eng, st, a[0], lo, hi)


@np_fn("asarray atleast_1d asanyarray ascontiguousarray")
def _asarray(eng, st, a, k):
    if isinstance(a[0], Choice):
        return eng.map1(st, a[0], lambda s, x: _asarray(eng, s, [x], k))
    o = eng.obj(st, a[0])
    if o is not None and o.kind in ("arr", "mat"):
        return a[0]         # no copy
    return _array(eng, st, a, k)


@np_fn("array copy")
def _array(eng, st, a, k):
    v = a[0]
    o = eng.obj(st, v)
    if k.get("copy") is False and o is not None and o.kind in ("arr", "mat"):
        return v
    if o is not None and o.kind == "mat":
        return eng.alloc(st, o)
    if isinstance(v, (tuple,)) or o is not None and o.kind in ("list", "arr") or not is_num(eng.num(v)):
        if o is not None and o.overlays:
            return eng.alloc(st, ArrO(o.seq, o.overlays))
        seq = seq_of(eng, st, v)
        out = []
        for c in seq:
            if isinstance(c, One) and (isinstance(c.v, tuple) or (eng.obj(st, c.v) is not None and eng.obj(st, c.v).kind in ("list", "arr"))):
                out.append(One(_array(eng, st, [c.v], {})))
            else:
                out.append(c)
        return eng.alloc(st, ArrO(out))
    return v


def const_arr(eng, st, n, v):
    if isinstance(n, tuple):
        if len(n) == 1:
            return const_arr(eng, st, n[0], v)
        if len(n) == 2:
            r, c = [eng.num(x) for x in n]
            if isinstance(r, int) and isinstance(c, int):
                return eng.alloc(st, ArrO([One(const_arr(eng, st, c, v)) for _ in range(r)]))
            return eng.alloc(st, MatO(r, c, lambda i, j: v))
        raise Unsupported("3-D array")
    n = eng.num(eng.force(st, n))
    if isinstance(n, int):
        eng.raise_if(st, n < 0, "ValueError")
        return eng.alloc(st, ArrO([One(v) for _ in range(n)]))
    eng.raise_if(st, eng.cmp_num(st, "<", n, 0), "ValueError")
    return eng.alloc(st, ArrO([Fn(n, lambda i: v)]))


NP["zeros"] = lambda eng, st, a, k: const_arr(eng, st, a[0] if a else k["shape"], Fraction(0))
NP["empty"] = NP["zeros"]
NP["ones"] = lambda eng, st, a, k: const_arr(eng, st, a[0] if a else k["shape"], Fraction(1))
NP["full"] = lambda eng, st, a, k: const_arr(eng, st, a[0], a[1])


@np_fn("zeros_like")
def _zl(eng, st, a, k):
    return new_arr(eng, st, map_seq(eng, st, seq_of(eng, st, a[0]), lambda s, x: Fraction(0)))


def mat_concat(eng, st, ms, horiz):
    s0 = st.copy()

    def two(a, b):
        x, y = (a.rows, b.rows) if horiz else (a.cols, b.cols)
        eng.raise_if(st, Not(eng.cmp_num(st, "==", x, y)), "ValueError", "dimensions must match")
        n = a.cols if horiz else a.rows

        def entry(i, j):
            at = j if horiz else i
            c = eng.decide(st, eng.cmp_num(s0, "<", at, n))
            u = lambda: mat_entry(eng, s0, a, i, j)
            w = lambda: mat_entry(eng, s0, b, *((i, eng.arith(s0, "-", j, n)) if horiz else (eng.arith(s0, "-", i, n), j)))
            return u() if c is True else w() if c is False else Ite(c, u(), w())
        tot = eng.arith(st, "+", n, b.cols if horiz else b.rows)
        return MatO(a.rows, tot, entry) if horiz else MatO(tot, a.cols, entry)
    acc = ms[0]
    for m in ms[1:]:
        acc = two(acc, m)
    return eng.alloc(st, MatO(acc.rows, acc.cols, acc.entry, acc.overlays))


def mat_tiled(eng, st, o, m):
    """m copies of the matrix side by side."""
    s0 = st.copy()
    return MatO(o.rows, eng.arith(st, "*", o.cols, m), lambda i, j: mat_entry(eng, s0, o, i, eng.binop(s0.copy(), "%", j, o.cols)))


@np_fn("concatenate")
def _conc(eng, st, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else 0)
    parts = seq_of(eng, st, a[0])
    if not all(isinstance(c, One) for c in parts):
        raise Unsupported("concatenate")
    if parts and all(getattr(eng.obj(st, c.v), "kind", None) == "mat" for c in parts):
        return mat_concat(eng, st, [eng.obj(st, c.v) for c in parts], ax in (-1, 1))
    if ax in (-1, 1):
        it = first_item(seq_of(eng, st, parts[0].v)) if eng.obj(st, parts[0].v).kind != "mat" else None
        if it is not None and is_arr(eng, st, it):
            rows = zip_seqs(eng, st, [seq_of(eng, st, c.v) for c in parts])
            return new_arr(eng, st, map_seq(eng, st, rows, lambda s, t: new_arr(eng, s, [x for r in t for x in seq_of(eng, s, r)])))
    out = []
    for c in parts:
        o = eng.obj(st, c.v)
        if o is not None and o.overlays:
            out += flatten_overlays(eng, st, o)
        else:
            out += seq_of(eng, st, c.v)
    return new_arr(eng, st, out)


@np_fn("hstack")
def _hst(eng, st, a, k):
    parts = seq_of(eng, st, a[0])
    two = any(isinstance(c, One) and getattr(eng.obj(st, c.v), "kind", None) == "mat" for c in parts)
    return _conc(eng, st, [a[0]], {"axis": 1 if two else 0})


NP["append"] = lambda eng, st, a, k: new_arr(eng, st, seq_of(eng, st, a[0]) + (seq_of(eng, st, a[1]) if is_arr(eng, st, a[1]) or isinstance(a[1], tuple) else [One(a[1])]))


@np_fn("vstack stack")
def _vstack(eng, st, a, k):
    return _array(eng, st, [a[0]], {})


@np_fn("sum")
def _npsum(eng, st, a, k):
    o = eng.obj(st, a[0])
    if o is not None and o.kind in ("arr", "list"):
        it = first_item(o.seq)
        if it is not None and is_arr(eng, st, it):
            raise Unsupported("sum of a 2-D array")
        return seq_sum(eng, st, o.seq if not o.overlays else flatten_overlays(eng, st, o))
    return seq_sum(eng, st, seq_of(eng, st, a[0]))


for _w in ("max", "min"):
    def _mkx(w):
        def f(eng, st, a, k):
            if hasattr(a[0], "vc_ext"):
                return a[0].vc_ext(eng, st, w)
            v, ne = seq_ext(eng, st, seq_of(eng, st, a[0]), w)
            eng.raise_if(st, Not(ne) if v is not None else True, "ValueError")
            return v
        return f
    NP[_w] = NP["a" + _w] = _mkx(_w)


@np_fn("all")
def _npall(eng, st, a, k):
    return seq_quant(eng, st, seq_of(eng, st, a[0]), True) if is_arr(eng, st, a[0]) else eng.truth(st, a[0])


@np_fn("any")
def _npany(eng, st, a, k):
    return seq_quant(eng, st, seq_of(eng, st, a[0]), False) if is_arr(eng, st, a[0]) else eng.truth(st, a[0])


def fl_test(f):
    def g(eng, st, a, k):
        def one(s, x):
            x = eng.num(x)
            if isinstance(x, CNum):
                return Or(one_(eng, s, x.re), one_(eng, s, x.im))
            return f(x)

        def one_(e, s, x):
            return Or(*[And(c, f(eng.num(w))) for c, w in flat_alts(x)])

        def dist(s, v):
            if isinstance(v, Choice):
                return Or(*[And(c, one(s, w)) for c, w in eng.live(s, v)])
            o = eng.obj(s, v)
            if o is not None and o.kind in ("arr", "list"):
                return new_arr(eng, s, map_seq(eng, s, o.seq, lambda s2, x: dist(s2, x)))
            return one(s, v)
        return dist(st, a[0])
    return g


NP["isnan"] = fl_test(lambda x: isinstance(x, float) and isnan(x))
NP["isinf"] = fl_test(lambda x: isinstance(x, float) and isinf(x))
NP["isfinite"] = lambda eng, st, a, k: (lambda r: Not(r) if not is_arr(eng, st, r) else scalar1(eng, st, r, lambda s, x: Not(x)))(fl_test(lambda x: isinstance(x, float))(eng, st, a, k))


@np_fn("real")
def _real(eng, st, a, k):
    return scalar1(eng, st, a[0], lambda s, x: eng.cplx(x).re)


@np_fn("imag")
def _imag(eng, st, a, k):
    return scalar1(eng, st, a[0], lambda s, x: eng.cplx(x).im)


@np_fn("sqrt")
def _sqrt(eng, st, a, k):
    def f(s, x):
        x = eng.num(x)
        if isinstance(x, float):
            return x
        return SQRT(to_real(x))
    return scalar1(eng, st, a[0], f)


@np_fn("hypot")
def _hypot(eng, st, a, k):
    return scalar2(eng, st, a[0], a[1], lambda s, x, y: CABS(to_real(eng.num(x)), to_real(eng.num(y))))


@np_fn("cos")
def _cos(eng, st, a, k):
    return scalar1(eng, st, a[0], lambda s, x: cos_(eng.num(x)))


@np_fn("sin")
def _sin(eng, st, a, k):
    return scalar1(eng, st, a[0], lambda s, x: sin_(eng.num(x)))


@np_fn("deg2rad radians")
def _d2r(eng, st, a, k):
    return scalar1(eng, st, a[0], lambda s, x: eng.arith(s, "/", eng.arith(s, "*", x, eng.ctx.pi), 180))


@np_fn("rad2deg degrees")
def _r2d(eng, st, a, k):
    return scalar1(eng, st, a[0], lambda s, x: eng.arith(s, "/", eng.arith(s, "*", x, 180), eng.ctx.pi))


@np_fn("split")
def _split(eng, st, a, k):
    if len(a) != 2 or k or eng.obj(st, a[0]) is None or eng.obj(st, a[0]).kind != "arr" or not isinstance(a[1], (Ref, tuple)):
        raise Unsupported("numpy.split")
    cuts = a[1] if isinstance(a[1], tuple) else [c.v if isinstance(c, One) else None for c in eng.iter_seq(st, a[1])]
    if any(x is None for x in cuts):
        raise Unsupported("numpy.split")
    S = SliceVal_()
    cuts = [None, *cuts, None]
    return eng.alloc(st, ListO([One(eng.getitem(st, a[0], S(x, y, None))) for x, y in zip(cuts, cuts[1:])]))


@np_fn("square")
def _sq(eng, st, a, k):
    return scalar1(eng, st, a[0], lambda s, x: eng.binop(s, "*", x, x))


for _nm, _op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide true_divide", "/"), ("power", "**"), ("mod remainder", "%")):
    def _mko(op):
        return lambda eng, st, a, k: eng.binop(st, op, a[0], a[1])
    for _x in _nm.split():
        NP[_x] = _mko(_op)
NP["negative"] = lambda eng, st, a, k: eng.binop(st, "*", -1, a[0])


@np_fn("dot")
def _dot(eng, st, a, k):
    o = eng.obj(st, a[0])
    if o is not None and o.kind == "mat":
        return mat_vec(eng, st, o, a[1])
    return matmul(eng, st, a[0], a[1])


NP["matmul"] = _dot


@np_fn("where")
def _where(eng, st, a, k):
    if len(a) == 1:
        seq = seq_of(eng, st, a[0])
        en = enumerate_seq(eng, st, seq)

        def flt(items, s):
            out = []
            for c in items:
                if isinstance(c, One):
                    t = eng.truth(s, c.v[1])
                    if t is True:
                        out.append(One(c.v[0]))
                    elif t is not False:
                        out.append(If(t, [One(c.v[0])], []))
                elif isinstance(c, For):
                    it = flt(c.items, s)
                    if len(it) == 1 and isinstance(it[0], If) and not it[0].b:
                        out.append(For(c.base, c.var, And(c.cond, it[0].g), it[0].a))
                    elif it:
                        out.append(For(c.base, c.var, c.cond, it))
                else:
                    raise Unsupported("where")
            return out
        return (new_arr(eng, st, flt(en, st)),)
    def sel(s, c, x, y):
        t = eng.decide(s, eng.truth(s, c))
        return x if t is True else y if t is False else merge_val(t, x, y)
    if not is_arr(eng, st, a[0]):
        return sel(st, a[0], a[1], a[2])
    cs = seq_of(eng, st, a[0])
    if is_arr(eng, st, a[1]) and is_arr(eng, st, a[2]):
        z = zip_seqs(eng, st, [cs, seq_of(eng, st, a[1]), seq_of(eng, st, a[2])])
        return new_arr(eng, st, map_seq(eng, st, z, lambda s, t: sel(s, *t)))
    if is_arr(eng, st, a[1]):
        z = zip_seqs(eng, st, [cs, seq_of(eng, st, a[1])])
        return new_arr(eng, st, map_seq(eng, st, z, lambda s, t: sel(s, t[0], t[1], a[2])))
    if is_arr(eng, st, a[2]):
        z = zip_seqs(eng, st, [cs, seq_of(eng, st, a[2])])
        return new_arr(eng, st, map_seq(eng, st, z, lambda s, t: sel(s, t[0], a[1], t[1])))
    return new_arr(eng, st, map_seq(eng, st, cs, lambda s, c: sel(s, c, a[1], a[2])))


@np_fn("flip flipud")
def _flip(eng, st, a, k):
    from .interp import SliceVal
    o = eng.obj(st, _array(eng, st, [a[0]], {}))
    if o.kind != "arr" or len(a) > 1 or k:
        raise Unsupported("np.flip of a matrix")
    return eng.getitem(st, a[0] if eng.obj(st, a[0]).kind == "arr" else _array(eng, st, [a[0]], {}), SliceVal(None, None, -1))


@np_fn("linspace")
def _linspace(eng, st, a, k):
    lo, hi, n = [eng.num(x) for x in a[:3]]
    return new_arr(eng, st, [One(Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(i, n - 1)) for i in range(n)])


@np_fn("arange")
def _arange(eng, st, a, k):
    return new_arr(eng, st, b_range(eng, st, a, {}).seq)


@np_fn("allclose isclose array_equal")
def _allclose(eng, st, a, k):
    raise Unsupported("allclose")


@np_fn("isscalar")
def _isscalar(eng, st, a, k):
    return is_num(eng.num(a[0]))


@np_fn("size")
def _npsize(eng, st, a, k):
    return arr_size(eng, st, a[0])


@np_fn("shape")
def _npshape(eng, st, a, k):
    return arr_shape(eng, st, a[0])


@np_fn("transpose")
def _nptr(eng, st, a, k):
    return arr_T(eng, st, a[0])


@np_fn("tile")
def _tile(eng, st, a, k):
    n = eng.num(a[1])
    if isinstance(n, tuple) and len(n) == 2 and n[0] == 1:
        n = n[1]
    o = eng.obj(st, a[0])
    if o is not None and o.kind == "mat":
        eng.raise_if(st, eng.cmp_num(st, "<", n, 0), "ValueError")
        return eng.alloc(st, mat_tiled(eng, st, o, n))
    if isinstance(n, int):
        it = first_item(seq_of(eng, st, a[0]))
        if it is not None and is_arr(eng, st, it):
            return new_arr(eng, st, map_seq(eng, st, seq_of(eng, st, a[0]), lambda s, r: new_arr(eng, s, seq_of(eng, s, r) * n)))
        return new_arr(eng, st, seq_of(eng, st, a[0]) * n)
    raise Unsupported("tile")


def np_member(eng):
    def load(name):
        if name in NP:
            return Builtin("np." + name, lambda e, s, a, k, f=NP[name]: f(e, s, a, k))
        if name in ("inf", "Inf", "infty"):
            return INF
        if name == "nan":
            return float("nan")
        if name == "pi":
            return eng.ctx.pi
        if name == "newaxis":
            return None
        if name in ("float64", "float32", "int64", "int32", "complex128", "double"):
            c = ClassVal(name, "numpy." + name, [], {}, external=True)
            c.construct = lambda e, s, cls, a, k: a[0] if a else 0
            c.check = lambda e, s, v: False
            return c
        if name in ("ndarray", "generic"):
            c = ClassVal(name, "numpy." + name, [], {}, external=True)
            c.check = lambda e, s, v: getattr(e.obj(s, v), "kind", None) in ("arr", "mat")
            return c
        if name in ("integer", "floating", "number"):
            c = ClassVal(name, "numpy." + name, [], {}, external=True)
            c.check = lambda e, s, v: False
            return c
        if name == "linalg":
            return ModuleVal("numpy.linalg", loader=lambda n: ext_fn(eng, "numpy.linalg", n))
        if name == "random":
            return ModuleVal("numpy.random", loader=lambda n: ext_fn(eng, "numpy.random", n))
        raise Unsupported("numpy." + name)
    return load


EXT = {}      # (module, name) -> function(eng) -> value


def ext_fn(eng, module, name):
    h = eng.ext_overrides.get((module, name))
    if h is not None:
        return h
    f = EXT.get((module, name))
    if f is not None:
        return f(eng)
    raise Unsupported("%s.%s" % (module, name))


def ext(module, name):
    def deco(f):
        EXT[(module, name)] = f
        return f
    return deco


EXT[("logging", "getLogger")] = lambda eng: Builtin("getLogger", lambda e, s, a, k: Opaque("logger"))


def deepcopy_(eng, st, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.oid in memo:
            return memo[v.oid]
        o = st.heap.objs[v.oid]
        r = eng.alloc(st, o)
        memo[v.oid] = r
        st.heap.objs[r.oid] = deepcopy_obj(eng, st, o, memo)
        return r
    if isinstance(v, tuple):
        return tuple(deepcopy_(eng, st, x, memo) for x in v)
    if isinstance(v, Choice):
        return Choice([(c, deepcopy_(eng, st, w, memo)) for c, w in v.alts])
    if type(v).__name__ == "Snap":
        return v
    return v


def deepcopy_obj(eng, st, o, memo):
    D = lambda x: deepcopy_(eng, st, x, memo)

    def chunk(c):
        if isinstance(c, One):
            return One(D(c.v))
        if isinstance(c, If):
            return If(c.g, [chunk(x) for x in c.a], [chunk(x) for x in c.b])
        if isinstance(c, For):
            return For(c.base, c.var, c.cond, [chunk(x) for x in c.items])
        return c
    if o.kind in ("list", "arr"):
        return o.new(seq=[chunk(c) for c in o.seq])
    if o.kind in ("dict", "set"):
        return type(o)(tuple(("one", e[1], D(e[2])) if e[0] == "one" else e for e in o.entries))
    if o.kind == "inst":
        return Inst(o.cls, {k: (x if x is ABSENT else D(x)) for k, x in o.fields.items()}, o.open)
    return o


EXT[("copy", "deepcopy")] = lambda eng: Builtin("deepcopy", lambda e, s, a, k: deepcopy_(e, s, a[0]))


def copy_(eng, st, v):
    if isinstance(v, Ref):
        return eng.alloc(st, st.heap.objs[v.oid])
    return v


EXT[("copy", "copy")] = lambda eng: Builtin("copy", lambda e, s, a, k: copy_(e, s, a[0]))
EXT[("collections", "OrderedDict")] = lambda eng: eng.builtins["dict"]
EXT[("collections", "defaultdict")] = lambda eng: Opaque("defaultdict")
EXT[("scipy.sparse", "csc_matrix")] = lambda eng: Builtin("csc_matrix", lambda e, s, a, k: sparse_matrix(e, s, a, k))
EXT[("scipy.sparse", "csr_matrix")] = EXT[("scipy.sparse", "csc_matrix")]
EXT[("scipy.sparse", "hstack")] = lambda eng: Opaque("sparse")
EXT[("scipy.sparse", "vstack")] = lambda eng: Opaque("sparse")
def sp_solve(eng, st, a, k):
    h = getattr(eng, "spsolve", None)
    if h is None:
        raise Unsupported("spsolve")
    return h(eng, st, a, k)


EXT[("scipy.sparse.linalg", "spsolve")] = lambda eng: Builtin("spsolve", sp_solve)
EXT[("scipy.sparse.linalg", "MatrixRankWarning")] = lambda eng: eng.exc_class("MatrixRankWarning")
def sparse_matrix(eng, st, a, k):
    o = eng.obj(st, a[0])
    if o is None or o.kind != "mat":
        raise Unsupported("construction of a sparse matrix")
    return eng.alloc(st, retag(o, "sparse"))


def np_norm(eng, st, a, k):
    """numpy.linalg.norm of a vector (only the maximum norm)."""
    from .ghost import GVec, absmax
    o = a[1] if len(a) > 1 else k.get("ord")
    if not (isinstance(o, float) and o == INF):
        raise Unsupported("norm of order %r" % (o,))
    if isinstance(a[0], GVec):
        return absmax(eng, a[0].term)
    seq = map_seq(eng, st, seq_of(eng, st, a[0]), lambda s, x: np_abs(eng, s, x))
    v, ne = seq_ext(eng, st, seq, "max")
    return v


EXT[("numpy.linalg", "norm")] = lambda eng: Builtin("norm", np_norm)
EXT[("warnings", "catch_warnings")] = lambda eng: Builtin("catch_warnings", lambda e, s, a, k: Opaque("ctxmgr"))
EXT[("warnings", "simplefilter")] = lambda eng: Builtin("simplefilter", lambda e, s, a, k: None)
EXT[("warnings", "filterwarnings")] = EXT[("warnings", "simplefilter")]
EXT[("typing", "Optional")] = lambda eng: Opaque("any")
for _t in ("List", "Dict", "Tuple", "Any", "Union", "Callable"):
    EXT[("typing", _t)] = lambda eng: Opaque("any")
EXT[("gymnasium.envs.registration", "register")] = lambda eng: Builtin("register", lambda e, s, a, k: None)
EXT[("math", "pi")] = lambda eng: eng.ctx.pi
EXT[("math", "inf")] = lambda eng: INF
for _m in ("sqrt", "cos", "sin", "exp", "hypot", "isnan", "isinf"):
    EXT[("math", _m)] = lambda eng, _m=_m: Builtin(_m, lambda e, s, a, k: NP[_m](e, s, a, k))
EXT[("math", "fabs")] = lambda eng: Builtin("fabs", b_abs)
EXT[("itertools", "chain")] = lambda eng: Builtin("chain", lambda e, s, a, k: SeqC(e, s, a))


def SeqC(eng, st, a):
    from .interp import SeqVal
    out = []
    for x in a:
        out += seq_of(eng, st, x)
    return SeqVal(out)


def _pcopy(eng):
    return None


def make_external(eng):
    mods = {}
    eng.ext_overrides = {}

    def get(dotted):
        if dotted in mods:
            return mods[dotted]
        if dotted == "numpy":
            m = ModuleVal("numpy", loader=np_member(eng))
        else:
            def load(name, dotted=dotted):
                try:
                    return ext_fn(eng, dotted, name)
                except Unsupported:
                    if any(k[0] == dotted + "." + name or k[0].startswith(dotted + "." + name + ".") for k in EXT):
                        return get(dotted + "." + name)
                    raise
            m = ModuleVal(dotted, loader=load)
        mods[dotted] = m
        return m
    return get


# --------------------------------------------------------------------- cvxpy
class CvxVar:
    """cp.Variable / cp.Parameter: an array (or scalar) of symbolic reals with .value."""
    cvx_vector = True

    def __init__(self, name, arr, shape, kind):
        self.name, self.arr, self.shape, self.kind = name, arr, shape, kind
        self.cell = None        # parameters: the heap object holding .value
        self.new = ()

    def vc_binop(self, eng, st, op, a, b):
        a = a.arr if isinstance(a, CvxVar) else a
        b = b.arr if isinstance(b, CvxVar) else b
        return eng.binop(st, op, a, b)

    def vc_cmp(self, eng, st, op, a, b):
        a = a.arr if isinstance(a, CvxVar) else a
        b = b.arr if isinstance(b, CvxVar) else b
        return eng.cmp(st, op, a, b)

    def vc_eq(self, eng, st, o):
        return self is o

    def vc_getitem(self, eng, st, k):
        return eng.getitem(st, self.arr, k)

    def vc_arr(self, eng, st, f):
        return scalar1(eng, st, self.arr, f)

    def vc_iter(self, eng, st):
        return eng.iter_seq(st, self.arr)

    def vc_attr(self, eng, st, name):
        if name == "value":
            return eng.cvx_value(st, self)
        if name == "shape":
            return self.shape
        raise Unsupported("cvxpy attribute " + name)

    def vc_setattr(self, eng, st, name, val):
        if name == "value" and self.kind == "param":
            eng.cvx_set_param(st, self, val)
            return
        raise Unsupported("cvxpy attribute " + name)

    def subst(self, pairs):
        v = CvxVar(self.name, subst(self.arr, pairs), self.shape, self.kind)
        v.cell, v.new = self.cell, [(subst(t, pairs), js) for t, js in self.new]
        return v

    def vc_same(self, o):
        return isinstance(o, CvxVar) and self.name == o.name and same(self.arr, o.arr)

    def vc_len(self, eng, st):
        return self.shape[0]

    def terms(self):
        for t, _ in self.new:
            yield from z3_terms(t)


def cvx_variable(eng, st, a, k):
    return cvx_new(eng, st, a, k, "var")


def cvx_new(eng, st, a, k, kind):
    """A fresh decision variable or parameter; its entries are functions of the generic loop variables in scope."""
    from .interp import Snap
    shape = a[0] if a else k.get("shape", ())
    nonneg_ = k.get("nonneg", False)
    for x in k:
        if x not in ("shape", "nonneg", "name"):
            raise Unsupported("cvxpy variable attribute " + x)
    sh = shape if isinstance(shape, tuple) else (shape,)
    decl = eng.cvx_decls
    ctx = eng.ctx
    if sh == ():
        arr = ctx.fresh("cvx")
        terms = [(arr, None)]
    elif len(sh) == 1 and isinstance(eng.num(sh[0]), int):
        vs = [ctx.fresh("cvx") for _ in range(sh[0])]
        arr = Snap(ArrO([One(v) for v in vs]))
        terms = [(v, None) for v in vs]
    elif len(sh) == 1:
        j = z3.Int(ctx.fresh_name("j"))
        t = ctx.fresh("cvx", extra=(j,))
        n = eng.num(sh[0])
        arr = Snap(ArrO([Fn(n, lambda i: z3.substitute(t, (j, to_z3(i))))]))
        terms = [(t, (j,))]
    elif len(sh) == 2:
        j, l = z3.Int(ctx.fresh_name("j")), z3.Int(ctx.fresh_name("l"))
        t = ctx.fresh("cvx", extra=(j, l))
        arr = Snap(MatO(eng.num(sh[0]), eng.num(sh[1]), lambda x, y: z3.substitute(t, (j, to_z3(x)), (l, to_z3(y)))))
        terms = [(t, (j, l))]
    else:
        raise Unsupported("cvxpy variable of %d dimensions" % len(sh))
    cv = CvxVar(ctx.fresh_name("x"), arr, sh, kind)
    cv.new = terms
    decl.append((cv, nonneg_, list(eng.base_stack)))
    if kind == "param":
        cv.cell = eng.alloc(st, Inst(ClassVal("Parameter", "cvxpy.Parameter", [], {}, external=True), {"value": None}))
    return cv


def cvx_solution(eng, st, var, n):
    """Value after the n-th solve: the variable's own symbols after the first, others after later ones."""
    if n == 1:
        return var.arr

    def other(t):
        t = to_z3(t)
        if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            raise Unsupported("value of a variable after several solves")
        f = t.decl()
        g = z3.Function("%s@%d" % (f.name(), n), *[f.domain(j) for j in range(f.arity())], f.range()) if f.arity() else None
        return g(*t.children()) if g is not None else z3.Const("%s@%d" % (f.name(), n), f.range())
    if is_z3(var.arr):
        return other(var.arr)
    from .interp import Snap
    return Snap(ArrO(map_seq(eng, st, seq_of(eng, st, var.arr), lambda s, x: other(x))))


def cvx_check_param(eng, st, var, val):
    """cvxpy refuses values of another shape, and negative ones for non-negative parameters (ValueError)."""
    nn = next((n for v, n, _ in eng.cvx_decls if v.cell is not None and v.cell.oid == var.cell.oid), False)
    ob = eng.obj(st, val)
    if len(var.shape) == 2:
        if ob is not None and ob.kind == "mat":
            dims = (ob.rows, ob.cols)
        else:
            sh = eng.getattr(st, _array(eng, st, [val], {}), "shape")
            if not isinstance(sh, tuple) or len(sh) != 2:
                raise Unsupported("value of a cvxpy parameter")
            dims = sh
        for a, b in zip(dims, var.shape):
            eng.raise_if(st, eng.cmp_num(st, "!=", a, b), "ValueError")
        if nn:
            m = eng.obj(st, val)
            if m is None or m.kind != "mat":
                raise Unsupported("value of a cvxpy parameter")
            rb, cb = eng.range_base(m.rows), eng.range_base(m.cols)
            i, j = eng.ctx.index_var(rb), eng.ctx.index_var(cb)
            neg = b2z(eng.cmp_num(st, "<", mat_entry(eng, st, m, i, j), 0))
            eng.ctx.loopvars.append(i)
            eng.base_stack.append((rb, i))
            try:
                some = eng.ctx.mk_ex(cb, j, neg)
            finally:
                eng.ctx.loopvars.pop()
                eng.base_stack.pop()
            eng.raise_if(st, eng.ctx.mk_ex(rb, i, some), "ValueError")
    elif len(var.shape) == 1:
        v = _array(eng, st, [val], {})
        n = eng.seq_len(st, eng.obj(st, v).seq)
        eng.raise_if(st, eng.cmp_num(st, "!=", n, var.shape[0]), "ValueError")
        if nn:
            eng.raise_if(st, Not(eng.truth(st, NP["all"](eng, st, [arr_cmp(eng, st, ">=", v, 0)], {}))), "ValueError")


class CvxProblem:
    def __init__(self, obj, cons, sense):
        self.obj, self.cons, self.sense = obj, cons, sense

    def vc_attr(self, eng, st, name):
        if name == "solve":
            return Builtin("solve", lambda e, s, a, k: e.cvx_solve(s, self))
        if name == "status":
            c = z3.Bool("solver_converged_%d" % len(eng.solved))
            return mk_choice([(c, "optimal"), (Not(c), "optimal_inaccurate")])
        if name in ("constraints",):
            return self.cons
        if name in ("objective",):
            return ("min", self.obj)
        if name == "value":
            return Opaque("any")
        raise Unsupported("cvxpy problem attribute " + name)


def cvx_problem(eng, st, a, k):
    sense, obj = a[0]
    cons = a[1] if len(a) > 1 else k.get("constraints")
    p = CvxProblem(obj, cons, sense)
    eng.problems.append(p)
    return p


EXT[("cvxpy", "Variable")] = lambda eng: Builtin("cp.Variable", cvx_variable)
EXT[("cvxpy", "Problem")] = lambda eng: Builtin("cp.Problem", cvx_problem)
EXT[("cvxpy", "Minimize")] = lambda eng: Builtin("cp.Minimize", lambda e, s, a, k: ("min", a[0]))


def cvx_sumsq(eng, st, a, k):
    v = a[0].arr if isinstance(a[0], CvxVar) else a[0]
    if not is_arr(eng, st, v):
        return eng.binop(st, "*", v, v)
    return seq_sum(eng, st, map_seq(eng, st, seq_of(eng, st, v), lambda s, x: eng.binop(s, "*", x, x)))


EXT[("cvxpy", "sum_squares")] = lambda eng: Builtin("cp.sum_squares", cvx_sumsq)
EXT[("cvxpy", "abs")] = lambda eng: Builtin("cp.abs", b_abs)
EXT[("cvxpy", "maximum")] = lambda eng: Builtin("cp.maximum", lambda e, s, a, k: NP["maximum"](e, s, a, k))
EXT[("cvxpy", "minimum")] = lambda eng: Builtin("cp.minimum", lambda e, s, a, k: NP["minimum"](e, s, a, k))
EXT[("cvxpy", "pos")] = lambda eng: Builtin("cp.pos", lambda e, s, a, k: NP["maximum"](e, s, [0, a[0]], k))
EXT[("cvxpy", "square")] = lambda eng: Builtin("cp.square", lambda e, s, a, k: NP["square"](e, s, a, k))


def cvx_norm2sq(eng, st, a, k):
    raise Unsupported("cvxpy norm")


def cvx_sum(eng, st, a, k):
    v = a[0].arr if isinstance(a[0], CvxVar) else a[0]
    return seq_sum(eng, st, seq_of(eng, st, v))


EXT[("cvxpy", "sum")] = lambda eng: Builtin("cp.sum", cvx_sum)
EXT[("cvxpy", "Parameter")] = lambda eng: Builtin("cp.Parameter", lambda e, s, a, k: cvx_new(e, s, a, k, "param"))
