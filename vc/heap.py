"""Persistent heap: objects, field maps of collections, merging."""
from .values import *


class Inst:
    kind = "inst"

    def __init__(self, cls, fields, open_=False):
        self.cls, self.fields, self.open = cls, fields, open_

    def set(self, name, v):
        f = dict(self.fields)
        f[name] = v
        return Inst(self.cls, f, self.open)


class ListO:
    """list / deque-like; also tuple-built sequences of unbounded length."""
    kind = "list"

    def __init__(self, seq, overlays=()):
        self.seq, self.overlays = list(seq), tuple(overlays)

    def new(self, seq=None, overlays=None):
        return type(self)(self.seq if seq is None else seq, self.overlays if overlays is None else overlays)


class ArrO(ListO):
    kind = "arr"


class MatO:
    """2-D array: axis label sequences and an entry function of two labels.

    overlays: ('one', op, (i, j), val) / ('for', base, var, cond, [(op, (i, j), val)...])
    with op 'set' or 'add'; keys are positions.
    """
    kind = "mat"

    def __init__(self, rows, cols, entry, overlays=(), tag=None, lab=None, rowl=None, coll=None):
        self.rows, self.cols, self.entry, self.overlays, self.tag = rows, cols, entry, tuple(overlays), tag
        # rows / columns selected by index sequences: entry(i, j) = lab(rowl[i], coll[j])
        self.lab, self.rowl, self.coll = lab, rowl, coll


class DictO:
    """entries: ('one', k, v) ('for', base, var, cond, k, v) ('if', g, ea, eb)
    ('pre', tok) ('add', k, addend) ('foradd', base, var, cond, k, addend)"""
    kind = "dict"

    def __init__(self, entries):
        self.entries = tuple(entries)


class SetO(DictO):
    kind = "set"


# ------------------------------------------------------------------ field maps
class FMBase:
    def __init__(self, fn):
        self.fn = fn

    def read(self, eng, st, idx):
        return self.fn(idx)


class FMPoint:
    def __init__(self, parent, idx, val):
        self.parent, self.idx, self.val = parent, idx, val

    def read(self, eng, st, idx):
        if same(idx, self.idx):
            return self.val
        eq = eng.idx_eq(st, idx, self.idx)
        if eq is True:
            return self.val
        if eq is False:
            return self.parent.read(eng, st, idx)
        return merge_val(eq, self.val, self.parent.read(eng, st, idx))


class FMFamily:
    def __init__(self, parent, base, var, cond, val):
        self.parent, self.base, self.var, self.cond, self.val = parent, base, var, cond, val

    def read(self, eng, st, idx):
        idx = idx if is_z3(idx) else to_z3(idx)
        pairs = [(self.var, idx)]
        eng.ctx.note_index(self.base, idx)
        c = And(self.base.member(idx), subst(self.cond, pairs))
        c = eng.decide(st, c)
        v = subst(self.val, pairs) if c is not False else None
        if c is True:
            return v
        old = self.parent.read(eng, st, idx)
        if c is False:
            return old
        return merge_val(c, v, old)


class FMScatter:
    """value at idx = parent value + sum over members with cond and key == idx of addend"""
    def __init__(self, parent, base, var, cond, key, addend):
        self.parent, self.base, self.var, self.cond, self.key, self.addend = parent, base, var, cond, key, addend

    def read(self, eng, st, idx):
        old = self.parent.read(eng, st, idx)
        s = eng.agg_sum(st, self.base, self.var, And(self.cond, self.key == to_z3(idx)), self.addend)
        return eng.add(st, old, s)


class FMMerge:
    def __init__(self, g, a, b):
        self.g, self.a, self.b = g, a, b

    def read(self, eng, st, idx):
        return merge_val(self.g, self.a.read(eng, st, idx), self.b.read(eng, st, idx))


class FMStart:
    """Marks the map at the start of a generic iteration (own-element mode)."""
    def __init__(self, parent, tok):
        self.parent, self.tok = parent, tok

    def read(self, eng, st, idx):
        eng.note_start_read(self.tok, idx)
        return self.parent.read(eng, st, idx)


class FMAdds:
    """Scatter mode inside a generic iteration: cell updates cell[k] += addend."""
    def __init__(self, tok, parent, adds=()):
        self.tok, self.parent, self.adds = tok, parent, tuple(adds)

    def read(self, eng, st, idx):
        return Accum(self.tok, (len(self.adds), idx), 0, None, None)


class Heap:
    def __init__(self):
        self.objs = {}
        self.fields = {}

    def copy(self):
        h = Heap()
        h.objs = dict(self.objs)
        h.fields = dict(self.fields)
        return h


def merge_seq(g, a, b):
    n = 0
    while n < len(a) and n < len(b) and same(a[n], b[n]):
        n += 1
    if n == len(a) and n == len(b):
        return a
    pre, ra, rb = a[:n], a[n:], b[n:]
    if len(ra) == len(rb) and all(isinstance(x, One) and isinstance(y, One) for x, y in zip(ra, rb)):
        return pre + [One(merge_val(g, x.v, y.v)) for x, y in zip(ra, rb)]
    return pre + [If(g, ra, rb)]


def entry_same(x, y):
    if x is y:
        return True
    if x[0] != y[0] or len(x) != len(y):
        return False
    if x[0] in ("one", "add"):
        return same(x[1], y[1]) and same(x[2], y[2])
    return False


def merge_entries(g, a, b):
    n = 0
    while n < len(a) and n < len(b) and entry_same(a[n], b[n]):
        n += 1
    if n == len(a) and n == len(b):
        return a
    ra, rb = a[n:], b[n:]
    if len(ra) == len(rb) and all(x[0] == "one" and y[0] == "one" and same(x[1], y[1]) for x, y in zip(ra, rb)):
        return tuple(a[:n]) + tuple(("one", x[1], merge_val(g, x[2], y[2])) for x, y in zip(ra, rb))
    return tuple(a[:n]) + (("if", g, tuple(ra), tuple(rb)),)


def merge_overlays(g, a, b):
    n = 0
    while n < len(a) and n < len(b) and (a[n] is b[n] or entry_same(a[n], b[n])):
        n += 1
    if n == len(a) == len(b):
        return a
    return tuple(a[:n]) + (("if", g, tuple(a[n:]), tuple(b[n:])),)


def merge_obj(g, a, b):
    if a is b:
        return a
    if a.kind != b.kind:
        raise Unsupported("merge of different object kinds")
    if a.kind == "inst":
        if a.cls is not b.cls:
            raise Unsupported("merge of different classes")
        f = {}
        for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
            x = a.fields.get(k, ABSENT)
            y = b.fields.get(k, ABSENT)
            f[k] = x if same(x, y) else merge_val(g, x, y)
        return Inst(a.cls, f, a.open)
    if a.kind in ("list", "arr"):
        if len(a.overlays) or len(b.overlays):
            if same(a.seq, b.seq):
                return a.new(overlays=merge_overlays(g, a.overlays, b.overlays))
            raise Unsupported("merge of overlaid sequences")
        return a.new(seq=merge_seq(g, a.seq, b.seq))
    if a.kind in ("dict", "set"):
        return type(a)(merge_entries(g, a.entries, b.entries))
    if a.kind == "mat":
        if a.rows is b.rows and a.cols is b.cols and a.entry is b.entry:
            return MatO(a.rows, a.cols, a.entry, merge_overlays(g, a.overlays, b.overlays), a.tag)
        raise Unsupported("merge of matrices")
    raise Unsupported("merge of objects")


def merge_fm(g, a, b):
    if a is b:
        return a
    if isinstance(a, FMAdds) and isinstance(b, FMAdds):
        n = 0
        while n < len(a.adds) and n < len(b.adds) and a.adds[n] is b.adds[n]:
            n += 1
        adds = list(a.adds[:n])
        for k, v in a.adds[n:]:
            adds.append((k, merge_val(g, v, 0)))
        for k, v in b.adds[n:]:
            adds.append((k, merge_val(g, 0, v)))
        return FMAdds(a.tok, a.parent, adds)
    return FMMerge(g, a, b)


def merge_heap(g, a, b):
    if a is b:
        return a
    h = Heap()
    for k in list(a.objs) + [k for k in b.objs if k not in a.objs]:
        x, y = a.objs.get(k), b.objs.get(k)
        if x is None or y is None:
            h.objs[k] = x or y
        else:
            h.objs[k] = merge_obj(g, x, y)
    for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
        x, y = a.fields.get(k), b.fields.get(k)
        if x is None or y is None:
            # lazily created base map on one side only: identical base
            h.fields[k] = FMMerge(g, x, _Lazy(k)) if x is not None and not isinstance(x, FMBase) else (
                FMMerge(g, _Lazy(k), y) if y is not None and not isinstance(y, FMBase) else (x or y))
        else:
            h.fields[k] = merge_fm(g, x, y)
    return h


class _Lazy:
    def __init__(self, key):
        self.key = key

    def read(self, eng, st, idx):
        return eng.base_field(self.key).read(eng, st, idx)
