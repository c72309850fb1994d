"""Models of the parts of gymnasium the environments use (trusted: gymnasium 1.0 semantics)."""
from .values import *
from .heap import *
from . import lib, extmodels


def attr_set(eng, st, v, name, val):
    for w in eng.wlogs:
        w.add(("attr", v.oid, name))
    eng.set_obj(st, v, eng.obj(st, v).set(name, val))


def env_class(eng):
    """gymnasium.Env: reset(seed=, options=) reseeds the random generator, nothing else."""
    if getattr(eng, "_gym_env", None) is not None:
        return eng._gym_env

    def reset(e, s, a, k):
        seed = k.get("seed")
        rng = e.getattr(s, a[0], "_np_random")
        out = []
        for c, v in flat_alts(seed):
            out.append((c, rng if v is None else extmodels.Rng(("seed", v))))
        attr_set(e, s, a[0], "_np_random", mk_choice(out) if len(out) > 1 else out[0][1])
        return None

    def close(e, s, a, k):
        return None
    c = ClassVal("Env", "gymnasium.Env", [], {}, external=True)
    c.members = {"reset": Builtin("Env.reset", reset), "close": Builtin("Env.close", close), "_np_random": extmodels.Rng("unseeded"),
                 "np_random": PropertyVal(Builtin("Env.np_random", lambda e, s, a, k: e.getattr(s, a[0], "_np_random"))),
                 "metadata": Opaque("any"), "spec": None}
    eng._gym_env = c
    return c


def box_class(eng):
    if getattr(eng, "_gym_box", None) is not None:
        return eng._gym_box
    c = ClassVal("Box", "gymnasium.spaces.Box", [], {}, external=True)

    def construct(e, s, cls, a, k):
        names = ("low", "high", "shape", "dtype")
        d = dict(zip(names, a))
        d.update(k)
        lo, hi = lib._array(e, s, [d["low"]], {}), lib._array(e, s, [d["high"]], {})
        ok = lib.NP["all"](e, s, [lib.arr_cmp(e, s, "<=", lo, hi)], {})
        e.raise_if(s, Not(e.truth(s, ok)), "ValueError", "low > high")
        n = e.seq_len(s, e.obj(s, lo).seq)
        return e.alloc(s, Inst(cls, {"low": lo, "high": hi, "shape": (n,), "dtype": d.get("dtype"), "_shape": (n,)}))

    def contains(e, s, a, k):
        o, x = e.obj(s, a[0]), a[1]
        # the same box and vector give the same formula (computed under weaker or equal assumptions)
        key = tuple(tuple(id(c) for c in e.obj(s, v).seq) if e.obj(s, v) is not None and e.obj(s, v).kind in ("list", "arr")
                    and not e.obj(s, v).overlays else id(v) for v in (o.fields["low"], o.fields["high"], x))
        ids = {f.get_id() for f in s.pc if is_z3(f)}
        for k2, pc, keep, val in e._box_memo:
            if k2 == key and pc <= ids:
                return val
        val = contains_(e, s, a, k)
        e._box_memo.append((key, ids, (o, e.obj(s, o.fields["low"]), e.obj(s, o.fields["high"]), e.obj(s, x), list(s.pc)), val))
        return val

    def contains_(e, s, a, k):
        o, x = e.obj(s, a[0]), a[1]
        lo, hi = o.fields["low"], o.fields["high"]
        n = lib.b_len(e, s, [lo], {})
        m = lib.b_len(e, s, [x], {})
        c1 = e.decide(s, e.equals(s, n, m))
        if c1 is False:
            return False
        s2 = s
        if c1 is not True:
            s2 = s.copy()
            s2.assume(c1)
        inside = And(e.truth(s2, lib.NP["all"](e, s2, [lib.arr_cmp(e, s2, ">=", x, lo)], {})),
                     e.truth(s2, lib.NP["all"](e, s2, [lib.arr_cmp(e, s2, "<=", x, hi)], {})))
        return And(c1, inside)
    eng._box_memo = []
    c.construct = construct
    c.members = {"contains": Builtin("Box.contains", contains)}
    eng._gym_box = c
    return c


lib.EXT[("gymnasium", "Env")] = env_class
lib.EXT[("gymnasium.spaces", "Box")] = box_class
