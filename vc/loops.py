"""The loop rule: one generic iteration summarises a loop over an unbounded collection.

The body is executed once for an arbitrary member i of the collection, on a state in which
every location the body writes holds a "hole" (its value at the start of iteration i).  The
effect of the iteration on each location must have one of the shapes below, for which the
effect of the whole loop is known exactly (by induction over the iterations):

  number      h -> h + e(i)              x0 + sum of e          (h at i: x0 + partial sum)
  flag        h -> ite(c(i), K, h)       ite(some c, K, x0)
  list        h -> h ++ items(i)         old ++ [items(i) for i]
  dict        h -> h + entries(i)        old + {entries(i) for i}
  dict cell   h[k] -> h[k] + e(i)        old[k] + sum of e over members with that key
  own field   i.f -> v(i)                family update
  field cell  k.f -> k.f + e(i)          scatter update
  matrix      h[j,k] -> v / h[j,k] + v   overlay family

Anything else is a variable the rule does not track (using it afterwards is Unsupported).
"""
import ast
import z3
from .values import *
from .heap import *


class Shape(Exception):
    pass


def assigned_names(nodes):
    out = []
    def go(n):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if n.id not in out:
                out.append(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name not in out:
                out.append(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.ExceptHandler) and n.name and n.name not in out:
            out.append(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                nm = a.asname or a.name.split(".")[0]
                if nm not in out:
                    out.append(nm)
        for ch in ast.iter_child_nodes(n):
            go(ch)
    for n in nodes:
        go(n)
    return out


class Cell:
    """A scalar location modified by the loop: ('env', name) or ('attr', oid, name)."""
    def __init__(self, loc, init):
        self.loc, self.init = loc, init
        self.hole = None
        self.kind = None      # num / bool / cnum / poison
        self.preset = False   # the hole is already the closed form at the start of iteration i


def mk_hole(eng, cell, real):
    v = eng.num(cell.init) if not isinstance(cell.init, bool) else cell.init
    vals = [w for _, w in flat_alts(v)]
    tag = "h_" + str(cell.loc[-1])
    if isinstance(v, bool) or is_boolref(v):
        cell.kind = "bool"
        cell.hole = eng.ctx.fresh(tag, z3.BoolSort())
    elif all((is_num(w) and fin(w)) or isinstance(w, float) for w in vals) and vals and not isinstance(v, float):
        cell.kind = "num"
        isint = not real and all((isinstance(w, int) or (is_arith(w) and w.sort() == z3.IntSort())) for w in vals)
        cell.hole = eng.ctx.fresh(tag, z3.IntSort() if isint else z3.RealSort())
    elif isinstance(v, CNum):
        cell.kind = "cnum"
        cell.hole = CNum(eng.ctx.fresh(tag + "_re"), eng.ctx.fresh(tag + "_im"))
    else:
        cell.kind = "poison"
        cell.hole = Poison("changes in a loop: %s" % (cell.loc[-1],))
    return cell.hole


def has_hole(t, holes):
    if not holes:
        return False
    for x in z3_terms(t):
        fc = free_consts(x)
        for h in holes:
            if is_z3(h):
                if z3.is_const(h):
                    if h.decl().name() in fc:
                        return True
                else:
                    if contains_app(x, h):
                        return True
    return False


def contains_app(t, h):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(h):
            return True
        stack.extend(x.children())
    return False


def z3_holes(h):
    if isinstance(h, CNum):
        return [h.re, h.im]
    return [h] if is_z3(h) else []


def addend_of(t, h, holes):
    """e with t == h + e (t a z3 term), or raise Shape."""
    if t.eq(h):
        return 0
    if not has_hole(t, [h]):
        raise Shape()
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL and t.arg(0).eq(h):
        return z3.RealVal(0)
    if k == z3.Z3_OP_ITE:
        if has_hole(t.arg(0), [h]):
            raise Shape()
        return Ite(t.arg(0), addend_of(t.arg(1), h, holes), addend_of(t.arg(2), h, holes))
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        e = None
        ch = t.children()
        rest = []
        for n, c in enumerate(ch):
            if has_hole(c, [h]):
                if e is not None or (k == z3.Z3_OP_SUB and n > 0):
                    raise Shape()
                e = addend_of(c, h, holes)
            else:
                rest.append(c if (k == z3.Z3_OP_ADD or n == 0) else -c)
        r = e
        for c in rest:
            if is_conc_num(r) and r == 0:
                r = c
            else:
                a, b = to_z3(r), c
                if a.sort() != b.sort():
                    a, b = to_real(a), to_real(b)
                r = a + b
        return r
    raise Shape()


def flag_of(t, h):
    """Boolean update of flag h: ('or', c) / ('and', c) or raise Shape."""
    if is_z3(t) and t.eq(h):
        return ("or", False)
    tt, ff = z3.substitute(t, (h, z3.BoolVal(True))), z3.substitute(t, (h, z3.BoolVal(False)))
    if has_hole(tt, [h]) or has_hole(ff, [h]):
        raise Shape()
    tt, ff = z3.simplify(tt), z3.simplify(ff)
    if z3.is_true(tt):
        return ("or", ff)
    if z3.is_false(ff):
        return ("and", tt)
    raise Shape()


class Indexed:
    """A vector known by its elements only (of an arbitrary indexable type)."""
    def __init__(self, length, fn):
        self.length, self.fn = length, fn

    def vc_getitem(self, eng, st, k):
        return eng.seq_get(st, [Fn(self.length, self.fn)], k)

    def vc_len(self, eng, st):
        return self.length

    def vc_iter(self, eng, st):
        return [Fn(self.length, self.fn)]

    def subst(self, pairs):
        return Indexed(subst(self.length, pairs), lambda k: subst_fn(self.fn, pairs, k))

    def terms(self):
        yield from z3_terms(self.length)
        yield from z3_terms(self.fn(z3.Int("#k")))


def subst_fn(fn, pairs, k):
    """fn(k) with the substitution applied to everything but k."""
    h = z3.Int("#arg")
    return subst(subst(fn(h), pairs), [(h, to_z3(k))])


def vector_of(eng, st, v):
    """Sequence of a one-dimensional list, array or cvxpy variable; None for anything else."""
    from .lib import CvxVar
    if isinstance(v, Indexed):
        return [Fn(v.length, v.fn)]
    if isinstance(v, CvxVar):
        v = v.arr
    o = v.obj if isinstance(v, Snap_()) else st.heap.objs.get(v.oid) if isinstance(v, Ref) else None
    if o is None or o.kind not in ("list", "arr") or o.overlays or any(isinstance(c, Pre) for c in o.seq):
        return None
    return list(o.seq)


def element_of(eng, st, seq, n, k, i=None, base=None):
    """Element at an arbitrary index k of a sequence of length n, or None if it is not a number."""
    kb = eng.range_base(n)
    more = [(base, i)] if i is not None else []
    for b, v in more:
        eng.ctx.loopvars.append(v)
        eng.base_stack.append((b, v))
    eng.ctx.loopvars.append(k)
    eng.base_stack.append((kb, k))
    eng.raises.append([])
    try:
        eng.ctx.note_index(kb, k)
        s2 = st.copy()
        s2.assume(kb.member(k))
        v = eng.seq_at(s2, seq, k)
    finally:
        eng.raises.pop()
        for _ in range(1 + len(more)):
            eng.ctx.loopvars.pop()
            eng.base_stack.pop()
    v = eng.num(v)
    return v if is_num(v) and fin(v) else None


def mk_recur(eng, st, base, i, cond, name):
    """Hole for a vector the loop computes anew in every iteration: element k at the start of iteration i is F(i, k)."""
    if cond is not True or base.pos is None or not is_z3(base.pos(i)) or not base.pos(i).eq(i):
        return None
    seq = vector_of(eng, st, st.env[name])
    if seq is None:
        return None
    n = eng.seq_len(st, seq)
    k = z3.Int(eng.ctx.fresh_name("k"))
    init = element_of(eng, st, seq, n, k)
    if init is None:
        return None
    F = z3.Function(eng.ctx.fresh_name("carried_" + name), z3.IntSort(), z3.IntSort(), z3.RealSort())
    return n, F, k, init


class IterResult:
    pass


def poison_env(eng, st, names, why):
    for n in names:
        st.env[n] = Poison(why + ": " + n)


def at_generic(eng, base, i, fn):
    """fn(i), for a generic i: whatever is named in it depends on i."""
    eng.ctx.loopvars.append(i)
    eng.base_stack.append((base, i))
    try:
        return fn(i)
    finally:
        eng.base_stack.pop()
        eng.ctx.loopvars.pop()


def norm_chunk(eng, c):
    """-> (base, var, cond, items) with a fresh variable."""
    if isinstance(c, Fn):
        n = to_z3(c.length)
        if any(v.decl().name() in free_consts(n) for v in eng.ctx.loopvars):
            # the bound goes into the condition: members of a base do not depend on generic variables
            base = eng.ctx.bases.get("NAT")
            if base is None:
                base = eng.ctx.bases["NAT"] = Base("NAT", z3.IntSort(), member=lambda i: i >= 0, pos=lambda i: i)
                base.order = lambda v: v
            i = eng.ctx.index_var(base)
            return base, i, i < n, [One(at_generic(eng, base, i, c.fn))]
        base = eng.range_base(c.length)
        i = eng.ctx.index_var(base)
        return base, i, True, [One(at_generic(eng, base, i, c.fn))]
    i = eng.ctx.index_var(c.base)
    p = [(c.var, i)]
    return c.base, i, subst(c.cond, p), subst(c.items, p)


# ------------------------------------------------------------- generic iteration
def generic_run(self, st, base, i, cond, body, locals_, seed=()):
    """Execute body(state) -> state or None for a generic member; extract the effects.

    locals_: names of local variables the body may assign.
    Returns (effects function applied to a state after the loop) through IterResult."""
    eng = self
    ctx = self.ctx
    written = set(seed)
    force_real = set()
    scatter = set()
    mark = (len(ctx.facts), len(ctx.templates))
    preset, nopreset = {}, set()
    recur = {}
    for attempt in range(14):
        if attempt:
            # facts of an abandoned attempt speak about symbols that no longer occur
            del ctx.facts[mark[0]:], ctx.templates[mark[1]:]
            eng._nth = {k: v for k, v in getattr(eng, "_nth", {}).items() if v[2] <= mark[0]}
            ctx.fact_ids = {f.get_id() for f in ctx.facts}
        b = st.copy()
        ctx.note_index(base, i)
        n0 = len(b.pc)
        mem = base.member(i)
        b.assume(mem)
        if cond is not True:
            b.assume(cond)
        ncond = len(b.pc)
        cells = {}
        toks = {}
        ctx.loopvars.append(i)
        eng.base_stack.append((base, i))
        nfr = len(st.fr.returns)
        nloops = [len(x) + len(y) for x, y in st.fr.loops]
        oid0 = eng.oid
        eng.raises.append([])
        log = set()
        eng.wlogs.append(log)
        saved_reads = dict(eng.start_reads)
        try:
            # holes
            for n in locals_:
                if n in st.env and st.env[n] is not ABSENT:
                    cell = Cell(("env", n), st.env[n])
                    if hasattr(st.env[n], "cvx_vector") and n not in recur:
                        recur[n] = mk_recur(eng, st, base, i, cond, n)
                    if recur.get(n) is not None:
                        nn, F = recur[n][:2]
                        cell.kind, cell.hole, cell.recur = "recur", Indexed(nn, lambda k, F=F: F(i, to_z3(k))), recur[n]
                    elif isinstance(st.env[n], (Ref, Snap_())) or isinstance(st.env[n], Poison):
                        cell.kind = "poison"
                        cell.hole = Poison("reassigned in a loop: " + n) if not isinstance(st.env[n], (Ref,)) else st.env[n]
                        if isinstance(st.env[n], Ref):
                            cell.kind = "ref"
                    elif ("env", n) in preset:
                        cell.kind, cell.hole, cell.preset = "num", preset[("env", n)], True
                    else:
                        mk_hole(eng, cell, ("env", n) in force_real)
                    cells[("env", n)] = cell
                    b.env[n] = cell.hole
                else:
                    b.env[n] = Poison("loop variable " + n + " before its assignment")
            for w in sorted(written, key=str):
                if w[0] == "obj":
                    o = b.heap.objs.get(w[1])
                    if o is None:
                        continue
                    tok = ("t", w[1], attempt, i.decl().name())
                    toks[w] = tok
                    if o.kind in ("list", "arr"):
                        if o.overlays:
                            raise Unsupported("loop over an overlaid list")
                        if w in scatter:
                            eng.pre_objs[tok] = o
                            b.heap.objs[w[1]] = o.new(seq=o.seq, overlays=(("pre", tok),))
                        else:
                            eng.pre_objs[tok] = o
                            b.heap.objs[w[1]] = o.new(seq=[Pre(tok)])
                    elif o.kind in ("dict", "set"):
                        eng.pre_objs[tok] = o
                        b.heap.objs[w[1]] = type(o)([("pre", tok)])
                    elif o.kind == "mat":
                        eng.pre_objs[tok] = o
                        b.heap.objs[w[1]] = MatO(o.rows, o.cols, o.entry, (("pre", tok),), o.tag)
                    elif o.kind == "inst":
                        f = dict(o.fields)
                        for a in w[2] if len(w) > 2 else []:
                            pass
                        eng.pre_objs[tok] = o
                    else:
                        raise Unsupported("loop writes %s" % o.kind)
                elif w[0] == "attr":
                    o = b.heap.objs.get(w[1])
                    if o is None:
                        continue
                    init = o.fields.get(w[2], ABSENT)
                    cell = Cell(w, init)
                    if init is ABSENT:
                        cell.kind, cell.hole = "poison", Poison("attribute first set in a loop: " + w[2])
                    elif isinstance(init, Ref):
                        cell.kind, cell.hole = "ref", init
                    else:
                        mk_hole(eng, cell, w in force_real)
                    cells[w] = cell
                    o2 = b.heap.objs[w[1]]
                    b.heap.objs[w[1]] = o2.set(w[2], cell.hole)
                elif w[0] == "fld":
                    key = w[1]
                    parent = b.heap.fields.get(key) or eng.base_fields.get(key)
                    tok = ("f", key, attempt, i.decl().name())
                    toks[w] = tok
                    if w in scatter:
                        b.heap.fields[key] = FMAdds(tok, parent)
                    else:
                        eng.start_reads[tok] = []
                        b.heap.fields[key] = FMStart(parent, tok)
            try:
                end = body(b)
            except Restart as r:
                if r.w in scatter:
                    raise Unsupported("loop effect on %s" % (r.w,))
                scatter.add(r.w)
                written.add(r.w)
                continue
        finally:
            eng.wlogs.pop()
            raised = eng.raises.pop()
            eng.base_stack.pop()
            ctx.loopvars.pop()
        new = set()
        for w in log:
            if w[0] == "obj" and w[1] <= oid0 and w not in written and st.heap.objs.get(w[1]) is not None:
                if st.heap.objs[w[1]].kind == "inst":
                    continue
                new.add(w)
            elif w[0] in ("attr",) and w[1] <= oid0 and w not in written:
                new.add(w)
            elif w[0] == "fld" and w not in written:
                new.add(w)
        if new:
            written |= new
            del st.fr.returns[nfr:]
            continue
        if end is not None:
            # sort mismatch of integer holes
            bad = False
            for loc, cell in cells.items():
                if cell.kind == "num" and cell.hole.sort() == z3.IntSort():
                    r = end.env.get(loc[1]) if loc[0] == "env" else end.heap.objs[loc[1]].fields.get(loc[2])
                    for _, w in flat_alts(r):
                        w = eng.num(w)
                        if (is_arith(w) and w.sort() == z3.RealSort()) or isinstance(w, (Fraction, float)):
                            if loc not in force_real:
                                force_real.add(loc)
                                bad = True
            # scatter needed?
            for w, tok in toks.items():
                if w[0] == "fld" and w not in scatter:
                    if not own_writes_only(eng, end, end.heap.fields[w[1]], tok, i):
                        scatter.add(w)
                        bad = True
            if bad:
                del st.fr.returns[nfr:]
                continue
            # vectors computed anew in every iteration
            for loc, cell in cells.items():
                n = loc[1]
                if loc[0] == "env" and cell.kind == "ref" and n not in recur and not same(end.env.get(n), cell.hole):
                    recur[n] = mk_recur(eng, st, base, i, cond, n) if vector_of(eng, end, end.env.get(n)) is not None else None
                    bad = bad or recur[n] is not None
            if bad:
                del st.fr.returns[nfr:]
                continue
            # counters: run again with their closed form in place of the hole
            more = False
            for loc, cell in cells.items():
                if loc[0] != "env" or cell.kind != "num" or loc in nopreset or not is_conc_num(cell.init) or cell.init != 0:
                    continue
                r = end.env.get(loc[1])
                if cell.preset:
                    r2 = closed_form(eng, st, base, i, cond, cell, r, cells)
                    if r2 is None or not r2.eq(cell.hole):
                        nopreset.add(loc)
                        del preset[loc]
                        more = True
                    continue
                if same(r, cell.hole) or cell.hole.sort() != z3.IntSort():
                    continue
                r2 = closed_form(eng, st, base, i, cond, cell, r, cells)
                if r2 is None:
                    nopreset.add(loc)
                else:
                    preset[loc] = r2
                    more = True
            if more:
                del st.fr.returns[nfr:]
                continue
        res = IterResult()
        res.end, res.raised, res.returns = end, raised, st.fr.returns[nfr:]
        del st.fr.returns[nfr:]
        res.cells, res.toks, res.n0, res.ncond, res.oid0 = cells, toks, n0, ncond, oid0
        res.base, res.i, res.cond, res.scatter, res.written = base, i, cond, scatter, written
        res.pre = st
        return res
    raise Unsupported("loop effects do not stabilise")


def closed_form(eng, st, base, i, cond, cell, r, cells):
    res = IterResult()
    res.base, res.i, res.cond = base, i, cond
    others = [z for c in cells.values() if c is not cell and not c.preset for z in z3_holes(c.hole)]
    try:
        out = scalar_effect(eng, st, res, cell, r, [], others)
    except Unsupported:
        return None
    if out is None or not is_z3(out[1]) or not z3.is_app(out[1]) or out[1].num_args() == 0:
        return None
    n = out[1].decl().name()
    if not (n.startswith("pos_") or (n in eng.ctx.aggs and eng.ctx.aggs[n].kind == "psum")):
        return None
    return out[1]


class Restart(Exception):
    def __init__(self, w):
        self.w = w


def Snap_():
    from .interp import Snap
    return Snap


def own_writes_only(eng, st, fm, tok, i):
    """All writes since FMStart(tok) are at index i, and so are all reads of it."""
    for r in eng.start_reads.get(tok, []):
        if not (is_z3(r) and r.eq(i)):
            if eng.idx_eq(st, r, i) is not True:
                return False
    ok = [True]
    seen = set()

    def go(m):
        if id(m) in seen:
            return
        seen.add(id(m))
        if isinstance(m, FMStart):
            return
        if isinstance(m, FMPoint):
            if not (is_z3(m.idx) and m.idx.eq(i)) and eng.idx_eq(st, m.idx, i) is not True:
                ok[0] = False
            go(m.parent)
        elif isinstance(m, FMMerge):
            go(m.a)
            go(m.b)
        elif isinstance(m, (FMFamily, FMScatter)):
            ok[0] = False
        elif isinstance(m, FMAdds):
            ok[0] = False
    go(fm)
    return ok[0]


def snap_value(eng, st, v, oid0, base, i, cond, seen=None):
    """Replace references to objects allocated in the iteration by immutable snapshots."""
    Snap = Snap_()
    if isinstance(v, Ref):
        if v.oid <= oid0:
            return v
        return Snap(snap_obj(eng, st, st.heap.objs[v.oid], oid0, base, i, cond))
    if isinstance(v, Snap):
        return Snap(snap_obj(eng, st, v.obj, oid0, base, i, cond))
    if isinstance(v, tuple):
        return tuple(snap_value(eng, st, x, oid0, base, i, cond) for x in v)
    if isinstance(v, Choice):
        return Choice([(c, snap_value(eng, st, w, oid0, base, i, cond)) for c, w in v.alts])
    if isinstance(v, BoundMethod):
        return BoundMethod(snap_value(eng, st, v.self_val, oid0, base, i, cond), v.func)
    if isinstance(v, One):
        return One(snap_value(eng, st, v.v, oid0, base, i, cond))
    if isinstance(v, If):
        return If(v.g, [snap_value(eng, st, x, oid0, base, i, cond) for x in v.a],
                  [snap_value(eng, st, x, oid0, base, i, cond) for x in v.b])
    if isinstance(v, For):
        return For(v.base, v.var, v.cond, [snap_value(eng, st, x, oid0, base, i, cond) for x in v.items])
    return v


def snap_entries(eng, st, es, oid0, base, i, cond):
    S = lambda x: snap_value(eng, st, x, oid0, base, i, cond)
    out = []
    for e in es:
        if e[0] == "one":
            out.append(("one", S(e[1]), S(e[2])))
        elif e[0] == "for":
            out.append(("for", e[1], e[2], e[3], S(e[4]), S(e[5])))
        elif e[0] == "if":
            out.append(("if", e[1], snap_entries(eng, st, e[2], oid0, base, i, cond), snap_entries(eng, st, e[3], oid0, base, i, cond)))
        else:
            out.append(e)
    return tuple(out)


def snap_obj(eng, st, o, oid0, base, i, cond):
    S = lambda x: snap_value(eng, st, x, oid0, base, i, cond)
    if o.kind == "inst":
        return Inst(o.cls, {k: (v if v is ABSENT else S(v)) for k, v in o.fields.items()}, o.open)
    if o.kind in ("list", "arr"):
        return o.new(seq=[S(c) for c in o.seq], overlays=o.overlays)
    if o.kind in ("dict", "set"):
        return type(o)(snap_entries(eng, st, o.entries, oid0, base, i, cond))
    return o


def guard_entries(g, es):
    return es if g is True else [("if", g, tuple(es), ())]


def lift_entries(base, i, cond, es):
    """Entries of a generic iteration -> entries of the loop."""
    out = []
    for e in es:
        if e[0] == "one":
            out.append(("for", base, i, cond, e[1], e[2]))
        elif e[0] == "add":
            out.append(("foradd", base, i, cond, e[1], e[2]))
        elif e[0] == "if":
            out += lift_entries(base, i, And(cond, e[1]), e[2])
            out += lift_entries(base, i, And(cond, Not(e[1])), e[3])
        elif e[0] == "for":
            raise Unsupported("nested families in a dict")
        elif e[0] == "foradd":
            raise Unsupported("nested accumulation in a dict")
        else:
            raise Unsupported("dict entry %s in a loop" % e[0])
    return out


def exit_index(eng, base, i, cnd):
    """(existence atom, witness index) for 'some member satisfies cnd'."""
    ex = eng.ctx.mk_ex(base, i, cnd)
    w = eng.ctx.fresh("first_" + base.name, base.sort)
    eng.ctx.note_index(base, w)
    c = subst(cnd, [(i, w)])
    eng.ctx.add_fact(Implies(ex, And(base.member(w), c)))
    return ex, w


def apply_effects(self, res, st):
    """State after the loop (None if every iteration certainly leaves the loop)."""
    eng, ctx = self, self.ctx
    base, i, cond, end = res.base, res.i, res.cond, res.end
    pairs = []          # hole -> value at the start of iteration i
    final = {}
    pending = []
    allholes = [z for c in res.cells.values() for z in z3_holes(c.hole)]
    # scalar cells
    todo = list(res.cells.items())
    if end is None:
        todo = []
    progress = True
    while todo and progress:
        progress = False
        for loc, cell in list(todo):
            r = end.env.get(loc[1]) if loc[0] == "env" else end.heap.objs[loc[1]].fields.get(loc[2])
            others = [z for l2, c2 in todo if l2 != loc and not c2.preset for z in z3_holes(c2.hole)]
            out = scalar_effect(eng, st, res, cell, r, pairs, others)
            if out is None:
                continue
            progress = True
            todo.remove((loc, cell))
            after, at_i = out
            final[loc] = after
            if cell.preset:
                if not is_z3(at_i) or not at_i.eq(cell.hole):
                    raise Unsupported("loop counter")
            elif at_i is not None:
                for h, v in zip(z3_holes(cell.hole), z3_holes(at_i) if isinstance(at_i, CNum) else [at_i]):
                    v = to_z3(v) if not isinstance(v, bool) and not is_boolref(v) else b2z(v)
                    if v.sort() != h.sort():
                        v = to_real(v)
                    pairs.append((h, v))
            else:
                for h in z3_holes(cell.hole):
                    pending.append((h, cell))
    for loc, cell in todo:
        final[loc] = Poison("changes in a loop: %s" % (loc[-1],))
        for h in z3_holes(cell.hole):
            pending.append((h, cell))
    bad_holes = [h for h, _ in pending]

    def S(v):
        if bad_holes and has_hole(v, bad_holes):
            raise Unsupported("loop-carried value of %s" % [str(c.loc[-1]) for h, c in pending if has_hole(v, [h])])
        return subst(v, pairs) if pairs else v

    Sc = lambda c: S(c) if not isinstance(c, bool) else c
    out = st.copy()
    # conditions under which an iteration leaves the loop
    leave = []
    exits = []
    for ex, se in res.raised:
        c = Sc(And(*se.pc[res.ncond:]))
        leave.append(c)
        exits.append(("raise", ex, se, c))
    for (sr, rv) in res.returns:
        c = Sc(And(*sr.pc[res.ncond:]))
        leave.append(c)
        exits.append(("return", rv, sr, c))
    for kind, x, se, c in exits:
        exa, w = exit_index(eng, base, i, And(cond, c))
        s2 = st.copy()
        for loc in res.cells:
            if loc[0] == "env":
                s2.env[loc[1]] = Poison("modified by an interrupted loop")
        for wr in res.written:
            if wr[0] == "obj":
                s2.heap.objs.pop(wr[1], None)
            elif wr[0] == "attr":
                o = s2.heap.objs.get(wr[1])
                if o is not None:
                    s2.heap.objs[wr[1]] = o.set(wr[2], Poison("modified by an interrupted loop"))
            elif wr[0] == "fld":
                s2.heap.fields[wr[1]] = FMPoison()
        s2.assume(exa)
        if kind == "raise":
            eng.raises[-1].append((x, s2))
        else:
            v = snap_value(eng, se, x, res.oid0, base, i, cond)
            v = subst(S(v), [(i, w)])
            st.fr.returns.append((s2, v))
    if leave:
        nl = ctx.mk_ex(base, i, And(cond, Or(*leave)))
        n2 = eng.decide(out, nl)
        if n2 is True:
            return None
        out.assume(Not(nl))
        for _, _, _, c in exits:
            cc = And(cond, c)
            if not (is_z3(nl) and And(cond, Or(*leave)) is cc):
                out.assume(Not(ctx.mk_ex(base, i, cc)))
    if end is None:
        # no iteration completes: the loop runs zero times
        out.assume(Not(ctx.mk_ex(base, i, cond)))
        return out
    # scalar results
    for loc, v in final.items():
        if loc[0] == "env":
            out.env[loc[1]] = v
        else:
            o = out.heap.objs[loc[1]]
            out.heap.objs[loc[1]] = o.set(loc[2], v)
    for n, v in end.env.items():
        if n not in st.env or st.env[n] is ABSENT:
            out.env[n] = Poison("loop variable %s after the loop" % n)
    # heap objects
    snap = lambda v: S(snap_value(eng, end, v, res.oid0, base, i, cond))
    for w, tok in res.toks.items():
        if w[0] == "obj":
            o0 = st.heap.objs[w[1]]
            o1 = end.heap.objs[w[1]]
            if o1.kind in ("list", "arr"):
                if w in res.scatter:
                    ov = lift_overlays(base, i, cond, strip_pre(o1.overlays, tok), snap, Sc)
                    out.heap.objs[w[1]] = o0.new(overlays=tuple(o0.overlays) + tuple(ov))
                else:
                    new = strip_pre_seq(o1.seq, tok)
                    new = [snap(c) for c in new]
                    out.heap.objs[w[1]] = o0.new(seq=list(o0.seq) + ([For(base, i, cond, new)] if new else []))
            elif o1.kind in ("dict", "set"):
                es = strip_pre_entries(o1.entries, tok)
                es = snap_entries(eng, end, es, res.oid0, base, i, cond)
                from .interp import subst_entries
                if bad_holes:
                    for x in flat_entry_values(es):
                        S(x)
                es = subst_entries(es, pairs) if pairs else es
                out.heap.objs[w[1]] = type(o0)(tuple(o0.entries) + tuple(lift_entries(base, i, cond, es)))
            elif o1.kind == "mat":
                ov = lift_overlays(base, i, cond, strip_pre(o1.overlays, tok), snap, Sc)
                out.heap.objs[w[1]] = MatO(o0.rows, o0.cols, o0.entry, tuple(o0.overlays) + tuple(ov), o0.tag)
        elif w[0] == "fld":
            key = w[1]
            fm = end.heap.fields[key]
            parent = st.heap.fields.get(key) or eng.base_fields.get(key)
            if w in res.scatter:
                if not isinstance(fm, FMAdds):
                    raise Unsupported("field update in a loop: %s" % (key,))
                cur = parent
                for k, a in fm.adds:
                    if is_conc_num(a) and a == 0:
                        continue
                    cur = FMScatter(cur, base, i, cond, S(k), S(a))
                out.heap.fields[key] = cur
            else:
                v = fm.read(eng, end, i)
                v = snap(v)
                out.heap.fields[key] = FMFamily(parent, base, i, cond, v)
    for k, v in end.heap.fields.items():
        if k not in out.heap.fields:
            out.heap.fields[k] = v
    # references that survive
    return out


class FMPoison:
    def read(self, eng, st, idx):
        raise Unsupported("field modified by an interrupted loop")


def flat_entry_values(es):
    for e in es:
        if e[0] == "if":
            yield e[1]
            yield from flat_entry_values(e[2])
            yield from flat_entry_values(e[3])
        else:
            for x in e[1:]:
                if not isinstance(x, Base):
                    yield x


def strip_pre_seq(seq, tok):
    if seq and isinstance(seq[0], Pre) and seq[0].tok == tok:
        new = list(seq[1:])
        if any(isinstance(c, Pre) for c in new):
            raise Unsupported("list duplicated in a loop")
        return new
    raise Unsupported("list rebuilt in a loop")


def strip_pre_entries(es, tok):
    es = list(es)
    if es and es[0][0] == "pre" and es[0][1] == tok:
        return es[1:]
    raise Unsupported("dict rebuilt in a loop")


def strip_pre(ov, tok):
    ov = list(ov)
    if ov and ov[0][0] == "pre" and ov[0][1] == tok:
        return ov[1:]
    raise Unsupported("array rebuilt in a loop")


def lift_overlays(base, i, cond, ov, snap, Sc):
    out = []
    for e in ov:
        if e[0] == "one":
            out.append(("for", base, i, cond, e[1], snap(e[2]) if not isinstance(e[2], tuple) else tuple(snap(x) for x in e[2]), snap(e[3])))
        elif e[0] == "if":
            out += lift_overlays(base, i, And(cond, Sc(e[1])), e[2], snap, Sc)
            out += lift_overlays(base, i, And(cond, Not(Sc(e[1]))), e[3], snap, Sc)
        elif e[0] == "for":
            out.append(("for2", base, i, cond, [e]))
            raise Unsupported("nested array families")
        else:
            raise Unsupported("array update in a loop")
    return out


def scalar_effect(eng, st, res, cell, r, pairs, others):
    """(value after the loop, value at the start of iteration i) or None (not yet)."""
    base, i, cond = res.base, res.i, res.cond
    ctx = eng.ctx
    if cell.kind == "recur":
        return recur_effect(eng, st, res, cell, r, pairs, others)
    if cell.kind == "ref":
        if same(r, cell.hole):
            return cell.init, None
        return Poison("reassigned in a loop: %s" % (cell.loc[-1],)), None
    if cell.kind == "poison":
        if r is cell.hole:
            return cell.init, None
        return Poison("assigned in a loop: %s" % (cell.loc[-1],)), None
    if same(r, cell.hole):
        return cell.init, cell.init
    if isinstance(r, Poison):
        return Poison("assigned in a loop: %s" % (cell.loc[-1],)), None
    if isinstance(r, (Ref,)) or r is None or isinstance(r, str):
        return Poison("assigned in a loop: %s" % (cell.loc[-1],)), None
    try:
        if cell.kind == "bool":
            h = cell.hole
            if isinstance(r, bool):
                r = z3.BoolVal(r)
            if not is_boolref(r):
                raise Shape()
            op, c = flag_of(r, h)
            if has_hole(c, others):
                return None
            c = subst(c, pairs) if pairs and not isinstance(c, bool) else c
            if op == "or":
                after = Or(cell.init, ctx.mk_ex(base, i, And(cond, c)))
            else:
                after = And(cell.init, Not(ctx.mk_ex(base, i, And(cond, Not(c)))))
            return after, None
        if cell.kind == "cnum":
            rc = eng.cplx(r) if not isinstance(r, Choice) else None
            if rc is None:
                raise Shape()
            outs, ats = [], []
            for h, t, x0 in ((cell.hole.re, rc.re, cell.init.re), (cell.hole.im, rc.im, cell.init.im)):
                a = 0 if (is_z3(t) and t.eq(h)) else addend_of(to_real(t) if not is_z3(t) else t, h, others)
                if has_hole(a, others):
                    return None
                a = subst(a, pairs) if pairs and is_z3(a) else a
                outs.append(eng.arith(st, "+", x0, ctx.mk_sum(base, i, cond, a)))
                ats.append(eng.arith(st, "+", x0, ctx.mk_psum(base, i, cond, a, i)))
            return CNum(*outs), CNum(*ats)
        # numbers, possibly with infinite alternatives
        alts = []
        for c, w in flat_alts(r):
            w = eng.num(w)
            if isinstance(w, float):
                if has_hole(c, z3_holes(cell.hole)):
                    raise Shape()
                alts.append((c, w))
            elif is_z3(w):
                if has_hole(c, z3_holes(cell.hole)) if is_z3(c) else False:
                    raise Shape()
                alts.append((c, addend_of(w, cell.hole, others)))
            else:
                raise Shape()
        for c, a in alts:
            if has_hole(a, others) or (is_z3(c) and has_hole(c, others)):
                return None
        if pairs:
            alts = [(subst(c, pairs) if is_z3(c) else c, subst(a, pairs) if is_z3(a) else a) for c, a in alts]
        a = mk_choice(alts)
        tot = eng.agg_sum(st, base, i, cond, a)
        after = eng.arith(st, "+", cell.init, tot)
        at_i = None
        if not isinstance(a, (Choice, float)) and not isinstance(cell.init, Choice):
            at_i = eng.arith(st, "+", cell.init, ctx.mk_psum(base, i, cond, a, i))
        return after, at_i
    except Shape:
        if not isinstance(r, Choice) and not has_hole(r, z3_holes(cell.hole)) and not mentions(r, i) and not has_hole(r, others):
            # the same value in every iteration
            r2 = subst(r, pairs) if pairs else r
            return merge_val(ctx.mk_ex(base, i, cond), r2, cell.init), None
        mm = geometric_effect(eng, st, res, cell, r, pairs, others)
        if mm is not None:
            return mm
        return Poison("changes in a loop: %s" % (cell.loc[-1],)), None


def recur_effect(eng, st, res, cell, r, pairs, others):
    base, i = res.base, res.i
    n, F, k, init = cell.recur
    bad = Poison("recomputed in a loop: %s" % (cell.loc[-1],)), None
    if isinstance(cell.init, Ref) and ("obj", cell.init.oid) in res.written:
        return bad
    if r is cell.hole:
        return cell.init, None
    seq = vector_of(eng, res.end, r)
    if seq is None:
        return bad
    m = eng.seq_len(res.end, seq)
    if eng.decide(res.end, eng.cmp_num(res.end, "==", m, n)) is not True:
        return bad
    v = element_of(eng, res.end, [snap_value(eng, res.end, c, res.oid0, base, i, True) for c in seq], n, k, i, base)
    if v is None or has_hole(v, others):
        return bad if v is None else None
    v = to_real(to_z3(subst(v, pairs) if pairs and is_z3(v) else v))
    if has_hole(v, [z for c in res.cells.values() for z in z3_holes(c.hole)]):
        return bad
    t = z3.Int(eng.ctx.fresh_name("t"))
    rng = And(t >= 0, t <= to_z3(base.count), k >= 0, k < to_z3(n))
    fact = Implies(rng, F(t, k) == z3.If(t == 0, to_real(to_z3(init)), z3.substitute(v, (i, t - 1))))
    eng.ctx.templates.append(([t, k], fact, [(F.name(), [0, 1])]))
    N = to_z3(base.count)
    return Indexed(n, lambda j: F(N, to_z3(j))), None


def geometric_effect(eng, st, res, cell, r, pairs, others):
    """x = x * c with the same c in every iteration of an unfiltered loop: x0 * c**position."""
    base, i = res.base, res.i
    h = cell.hole
    if res.cond is not True or not is_z3(r) or not is_arith(r) or not is_z3(h) or not z3.is_mul(r) or isinstance(cell.init, Choice):
        return None
    ks = r.children()
    mine = [x for x in ks if x.eq(h)]
    c = [x for x in ks if not x.eq(h)]
    if len(mine) != 1 or len(c) != 1 or has_hole(c[0], z3_holes(h)) or has_hole(c[0], others) or mentions(c[0], i):
        return None
    c = subst(c[0], pairs) if pairs else c[0]
    f = z3.Function("pow_", z3.RealSort(), z3.RealSort(), z3.RealSort())
    at = lambda n: eng.arith(st, "*", cell.init, f(to_real(c), to_real(to_z3(n))))
    return at(base.count), at(eng.ctx.pos(base, i))


# ------------------------------------------------------------------------- for
def for_generic(self, s, c, st):
    base, i, cond, items = norm_chunk(self, c)
    names = assigned_names([s.target]) + [n for n in assigned_names(s.body) if n not in assigned_names([s.target])]

    def body(b):
        cur = b
        return run_items(self, s, items, cur)

    res = generic_run(self, st, base, i, cond, body, names)
    return apply_effects(self, res, st)


def run_items(self, s, items, st):
    for c in items:
        if st is None:
            return None
        if isinstance(c, One):
            st, brk = self.body_once_safe(s, st, c.v)
            if brk:
                raise Unsupported("break in a loop over an unbounded collection")
        elif isinstance(c, If):
            g = self.decide(st, c.g)
            if g is True or g is False:
                st = run_items(self, s, c.a if g else c.b, st)
            else:
                a, b = st.copy(), st.copy()
                a.assume(g)
                b.assume(Not(g))
                ra, rb = run_items(self, s, c.a, a), run_items(self, s, c.b, b)
                st = self.merge(g, ra, rb) if ra is not None and rb is not None else (ra or rb)
        elif isinstance(c, (For, Fn)):
            st = for_generic(self, s, c, st)
        else:
            raise Unsupported("iteration")
    return st


def comp_generic(self, g, rest, leaf, c, st):
    base, i, cond, items = norm_chunk(self, c)
    names = assigned_names([g.target])
    for r in rest:
        names += [n for n in assigned_names([r.target]) if n not in names]
    box = {}

    def body(b):
        try:
            box["items"] = self.comp_seq(g, rest, leaf, items, b)
        except PathEnd_():
            return None
        return b

    res = generic_run(self, st, base, i, cond, body, names)
    if any(w[0] != "x" for w in res.written):
        for w in res.written:
            if w[0] in ("obj", "fld", "attr"):
                raise Unsupported("comprehension with side effects")
    if res.end is None:
        out = apply_effects(self, res, st)
        if out is None:
            raise PathEnd_()()
        st.take(out)
        return []
    its = [snap_value(self, res.end, x, res.oid0, base, i, cond) for x in box["items"]]
    saved = {n: st.env.get(n, ABSENT) for n in names}
    out = apply_effects(self, res, st)
    if out is None:
        raise PathEnd_()()
    st.take(out)
    for n, v in saved.items():
        if v is ABSENT:
            st.env.pop(n, None)
        else:
            st.env[n] = v
    # a filter at the top level becomes the condition of the family
    if len(its) == 1 and isinstance(its[0], If) and not its[0].b:
        from .lib import collapse_unique
        g = its[0].g
        if is_z3(g) and z3.is_not(g) and z3.is_eq(g.arg(0)) and any(x.eq(i) for x in g.arg(0).children()):
            # everything but one member: one fewer than all of them
            rest_ = For(base, i, And(cond, g.arg(0)), its[0].a)
            if collapse_unique(self, st, rest_)[0] is not rest_:
                cnt = lambda c: to_z3(self.ctx.mk_count(base, i, c))
                self.ctx.add_fact(cnt(And(cond, g)) + cnt(And(cond, g.arg(0))) == cnt(cond))
        return collapse_unique(self, st, For(base, i, And(cond, g), its[0].a))
    if not its:
        return []
    return [For(base, i, cond, its)]


def PathEnd_():
    from .interp import PathEnd
    return PathEnd


# ----------------------------------------------------------------------- while
def s_While(self, s, st):
    return self.while_loop(s, st)


def none_test(e):
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Is) and isinstance(e.left, ast.Name) \
            and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
        return e.left.id


def while_loop(self, s, st):
    """while C: B.   The state after the loop is (zero iterations) the state before with
    not C, or (peeled last iteration) an arbitrary state S of the modified locations in
    which C held, after one execution of B, with not C (or at a break of it)."""
    names = assigned_names(s.body)
    # zero iterations / first test
    first = st
    c0 = self.decide(first, self.truth(first, self.ev(s.test, first)))
    if c0 is False:
        return self.block(s.orelse, first) if s.orelse else first
    n0 = len(first.pc)
    outs = []
    if c0 is not True:
        z = first.copy()
        z.assume(Not(c0))
        z = self.block(s.orelse, z) if s.orelse else z
        if z is not None:
            outs.append(z)
    # arbitrary iteration: havoc
    b = first.copy()
    if c0 is not True:
        b.assume(c0)
    written = set()
    dropped = set()
    for attempt in range(40):
        h = b.copy()
        for n in names:
            if n in st.env and st.env[n] is not ABSENT:
                o = self.obj(st, st.env[n])
                if o is not None and o.kind == "mat" and ("tile", n) not in dropped:
                    # candidate: the matrix of the start, repeated side by side
                    m = self.ctx.fresh("copies_" + n, z3.IntSort())
                    h.assume(m >= 1)
                    h.env[n] = self.alloc(h, self.lib.mat_tiled(self, h, o, m))
                    continue
                # an iteration runs only when the test holds: `while x is None`
                h.env[n] = None if n == none_test(s.test) else havoc_like(self, st, n, st.env[n])
            else:
                h.env[n] = Poison("variable %s in a while loop" % n)
        for w in sorted(written, key=str):
            if w[0] == "attr":
                v = b.heap.objs[w[1]].fields.get(w[2], ABSENT)
                x = Poison("attribute %s in a while loop" % w[2]) if v is ABSENT or isinstance(v, Ref) else havoc_like(self, st, w[2], v)
                h.heap.objs[w[1]] = h.heap.objs[w[1]].set(w[2], x)
            else:
                h.heap.fields[w[1]] = FMPoison()
        cands = while_candidates(self, st, names, written, b)
        log = set()
        self.wlogs.append(log)
        oid0 = self.oid
        nret = len(st.fr.returns)
        mark = (len(self.ctx.facts), len(self.ctx.templates), len(self.side_obs))
        self.raises.append([])
        h.fr.loops.append(([], []))
        end = None
        inv_at = lambda s, keep=cands: [(k, f(s)) for k, f in keep if k not in dropped]
        # established on entry
        before = set(dropped)
        for k, f in inv_at(b):
            if f is not True and self.ctx.prove(b.pc, f, timeout=2.0, deep=False)[0] != "proved":
                dropped.add(k)
        if any(k[0] == "tile" for k in dropped - before):
            # the havoc used this candidate: start again without it
            self.wlogs.pop()
            self.raises.pop()
            st.fr.loops.pop()
            continue
        try:
            c = self.truth(h, self.ev(s.test, h))
            h.assume(c)
            for k, f in inv_at(h):
                if k.__class__ is not tuple or k[0] != "tile":
                    h.assume(f)
            start = h.copy()
            try:
                end = self.block(s.body, h)
            except PathEnd_():
                end = None
        finally:
            self.wlogs.pop()
            raised = self.raises.pop()
            brk, cont = st.fr.loops.pop()
        new = {w for w in log if not (w[0] in ("obj", "attr") and w[1] > oid0)} - written
        new = {w for w in new if not (w[0] == "obj" and b.heap.objs[w[1]].kind == "inst")}
        bad = [w for w in new if w[0] not in ("attr", "fld")]
        if bad:
            raise Unsupported("while loop writes %s" % (bad,))
        again = bool(new)
        written |= new
        for x in cont:
            end = self.merge_guard(And(*x.pc[n0:]), x, end, n0) if end is not None else x
        e2 = None
        if end is not None and not again:
            e2 = end
            c = self.decide(e2, self.truth(e2, self.ev(s.test, e2)))
            if c is not False:
                # the loop goes on: invariants are preserved
                g = e2.copy()
                if c is not True:
                    g.assume(c)
                for k, f in inv_at(g):
                    if f is not True and self.ctx.prove(g.pc, f, timeout=2.0, deep=False)[0] != "proved":
                        dropped.add(k)
                        again = True
                if not again:
                    self.while_cont.append((st.fr.func.qual if st.fr.func else None, start, g))
        if again:
            del st.fr.returns[nret:]
            del self.ctx.facts[mark[0]:], self.ctx.templates[mark[1]:], self.side_obs[mark[2]:]
            self.ctx.fact_ids = {f.get_id() for f in self.ctx.facts}
            continue
        for ex, se in raised:
            self.raises[-1].append((ex, se))
        if e2 is not None and c is not True:
            if c is not False:
                e2.assume(Not(c))
            e2 = self.block(s.orelse, e2) if s.orelse else e2
            if e2 is not None:
                outs.append(e2)
        outs += brk
        break
    else:
        raise Unsupported("while loop: no stable set of written locations")
    if not outs:
        return None
    acc = outs[-1]
    for r in reversed(outs[:-1]):
        g = And(*r.pc[n0:])
        # paths of a havocked iteration are not told apart by their conditions: use a fresh choice
        t = self.ctx.fresh("path", z3.BoolSort())
        acc = self.merge_fresh(t, r, acc, n0)
    return acc


def while_candidates(eng, st, names, written, b):
    """Candidate invariants over the integers the loop changes: bounds by their start value and by
    the constants of the function, and constant differences (kept if established and preserved)."""
    ints = []
    for n in names:
        v = b.env.get(n, ABSENT)
        v = v if isinstance(v, bool) or v is ABSENT else eng.num(v) if isinstance(v, (int, Fraction)) else v
        if isinstance(v, int) and not isinstance(v, bool):
            ints.append((n, v, lambda s, n=n: s.env[n]))
    for w in written:
        if w[0] == "attr":
            v = b.heap.objs[w[1]].fields.get(w[2], ABSENT)
            if isinstance(v, int) and not isinstance(v, bool):
                ints.append(("%d.%s" % (w[1], w[2]), v, lambda s, w=w: s.heap.objs[w[1]].fields[w[2]]))
    consts = set()
    if st.fr.func is not None:
        for x in ast.walk(st.fr.func.node):
            if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool):
                consts.add(x.value)
    for v in list(b.env.values()):
        if isinstance(v, int) and not isinstance(v, bool):
            consts.add(v)
    out = []
    T = lambda s, f: to_z3(f(s))
    for n, v, f in ints:
        out.append((("ge", n), lambda s, f=f, v=v: T(s, f) >= v))
        out.append((("le", n), lambda s, f=f, v=v: T(s, f) <= v))
        for k in sorted(consts):
            if k > v:
                out.append((("lt", n, k), lambda s, f=f, k=k: T(s, f) < k))
                out.append((("le", n, k), lambda s, f=f, k=k: T(s, f) <= k))
    for x in range(len(ints)):
        for y in range(x):
            d = ints[x][1] - ints[y][1]
            out.append((("diff", ints[x][0], ints[y][0]), lambda s, f=ints[x][2], g=ints[y][2], d=d: T(s, f) - T(s, g) == d))
    mats = []
    for n in names:
        o = eng.obj(b, b.env.get(n, ABSENT)) if b.env.get(n, ABSENT) is not ABSENT else None
        if o is not None and o.kind == "mat":
            mats.append((n, o))

            def tiled(s, n=n, o=o):
                x = eng.obj(s, s.env[n]) if isinstance(s.env.get(n, ABSENT), Ref) else None
                if x is None or x.kind != "mat":
                    return False
                if x is o:
                    return True
                i, j = eng.ctx.fresh("row", z3.IntSort()), eng.ctx.fresh("col", z3.IntSort())
                s2 = s.copy()
                inside = And(i >= 0, eng.cmp_num(s2, "<", i, o.rows), j >= 0, eng.cmp_num(s2, "<", j, x.cols))
                s2.assume(inside)
                a, c = eng.lib.mat_entry(eng, s2, x, i, j), eng.lib.mat_entry(eng, s2, o, i, eng.binop(s2, "%", j, o.cols))
                return And(eng.cmp_num(s2, "==", x.rows, o.rows), eng.cmp_num(s2, ">=", x.cols, o.cols), eng.cmp_num(s2, ">=", o.cols, 1),
                           eng.cmp_num(s2, "==", eng.binop(s2, "%", x.cols, o.cols), 0), Implies(inside, eng.equals(s2, a, c)))
            out.append((("tile", n), tiled))
    for x in range(len(mats)):
        for y in range(x):
            def cols(s, n=mats[x][0], m=mats[y][0]):
                p, q = [eng.obj(s, s.env[k]) if isinstance(s.env.get(k, ABSENT), Ref) else None for k in (n, m)]
                return False if p is None or q is None or p.kind != "mat" or q.kind != "mat" else eng.cmp_num(s, "==", p.cols, q.cols)
            out.append((("cols", mats[x][0], mats[y][0]), cols))
    for nx, _ in mats:
        for ny, _ in mats:
            if nx != ny:
                def colsge(s, n=nx, m=ny):
                    p, q = [eng.obj(s, s.env[k]) if isinstance(s.env.get(k, ABSENT), Ref) else None for k in (n, m)]
                    return False if p is None or q is None or p.kind != "mat" or q.kind != "mat" else eng.cmp_num(s, ">=", p.cols, q.cols)
                out.append((("colsge", nx, ny), colsge))
    # a value computed from another changed value before the loop: computed from its current one
    from .ghost import GVec, identical
    locs = []
    for n in names:
        v = b.env.get(n, ABSENT)
        if v is not ABSENT:
            locs.append((n, v, lambda s, n=n: s.env.get(n, ABSENT)))
    for w in written:
        if w[0] == "attr":
            v = b.heap.objs[w[1]].fields.get(w[2], ABSENT)
            if v is not ABSENT:
                locs.append(("%d.%s" % (w[1], w[2]), v, lambda s, w=w: s.heap.objs[w[1]].fields.get(w[2], ABSENT)))
    src = [(n, v, f) for n, v, f in locs if isinstance(v, GVec)]
    for n, v, f in locs:
        if isinstance(v, (Ref, Poison)):
            continue
        try:
            ts = list(z3_terms(v))
        except Unsupported:
            continue
        for m, u, g in src:
            if m == n or not any(has_subterm(t, u.term) for t in ts):
                continue

            def inv(s, v=v, f=f, u=u, g=g):
                x, y = f(s), g(s)
                if x is ABSENT or isinstance(x, Poison) or not isinstance(y, GVec):
                    return False
                return identical(x, subst(v, [(u.term, y.term)]))
            out.append((("def", n, m), inv))
    return out


def has_subterm(t, u):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.eq(u):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


def havoc_like(eng, st, n, v):
    if isinstance(v, bool) or is_boolref(v):
        return eng.ctx.fresh("w_" + n, z3.BoolSort())
    v2 = eng.num(v)
    if isinstance(v2, int) or (is_arith(v2) and v2.sort() == z3.IntSort()):
        return eng.ctx.fresh("w_" + n, z3.IntSort())
    if is_num(v2):
        return eng.ctx.fresh("w_" + n)
    if isinstance(v2, Choice) and all(is_num(w) or isinstance(w, float) for _, w in v2.alts):
        t = eng.ctx.fresh("w_" + n)
        k = eng.ctx.fresh("wk_" + n, z3.IntSort())
        return Choice([(k == 0, t), (k == 1, float("inf")), (And(k != 0, k != 1), float("nan"))])
    if hasattr(v, "vc_havoc"):
        return v.vc_havoc(eng, st, n)
    o = eng.obj(st, v)
    if o is not None and o.kind == "arr":
        return eng.lib.havoc_arr(eng, st, n, o)
    return Poison("changes in a while loop: " + n)
