"""C10: state and observation vectors list the declared quantities in declared order."""
from .env import *


def reported(E, sim, aux):
    """The reported quantity of an element (aux: by index)."""
    def f(s, q, u, x):
        return aux(x) if q == "aux" else sim[(q, u)](x)
    return f


def limited(V, E, f):
    def g(s, q, u, x):
        v = f(s, q, u, x)
        if q == "aux":
            if E.aux_bounds is None:
                return v
            lo, hi = E.AL(x), E.AH(x)
        else:
            lo, hi = E.lo[(q, u)](x), E.hi[(q, u)](x)
        out = []
        for c1, l in flat_alts(lo):
            for c2, h in flat_alts(hi):
                w = v if isinstance(l, float) else z3.If(v < l, l, v)
                out.append((And(c1, c2), w if isinstance(h, float) else z3.If(w > h, h, w)))
        return mk_choice(out)
    return g


def step_vectors(V, entries, obs, aux=False, name=""):
    E = Env(V, obs=obs, aux=aux)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    s = E.running(terminated=False)
    s.assume(E.in_space(s, "action_space", E.action))
    ok, raises = E.step(s)
    V.no_raise("step", raises)
    if not V.normal("step", ok):
        return
    s1 = ok.st.copy()
    s1.assume(E.conv)
    V.reach("converged step", s1)
    nl, ng = E.N.count(lambda j: E.N.typ(j) == -1), E.count_gen()
    rep = reported(E, E.simstate, lambda k: E.X(nl + ng + k))
    if obs is None:
        check_vector(V, E, STATE_ENTRIES, s1, V.attr(s1, E.env, "state"), rep, "state")
    check_vector(V, E, entries, s1, ok.value[0], limited(V, E, rep), "observation")


def state(V):
    V.on("ANMEnv.step, observation 'state'")
    step_vectors(V, STATE_ENTRIES, None)


def state_aux(V):
    V.on("ANMEnv.step, observation 'state', bounded auxiliary variables")
    step_vectors(V, STATE_ENTRIES, None, aux=True)


ALL = list(DEFAULT_UNIT)


def list_all(V):
    V.on("ANMEnv.step, observation list, 'all', default units")
    ent = [(q, "all", ()) for q in ALL]
    step_vectors(V, ent, declare(ent))


def list_nodes(V):
    """Arbitrary node lists of arbitrary length, explicit units."""
    V.on("ANMEnv.step, observation list, arbitrary elements, explicit units")
    ent = [(q, "list", None if q == "aux" else UNITS[q][-1]) for q in reversed(ALL)]
    step_vectors(V, ent, declare(ent), aux=True)


def reset_vectors(V, entries, obs, aux=False):
    E = Env(V, obs=obs, aux=aux)
    if not V.normal("ANMEnv.__init__", E.ok):
        return
    Rr = Reset(V, E)
    s = E.running()
    ok, raises = Rr.run(s)
    if not V.normal("reset", ok):
        return
    s1 = ok.st
    V.reach("reset", s1)
    rep = reported(E, Rr.simstate, lambda k: Rr.f(Rr.want - E.K + k))
    if obs is None:
        check_vector(V, E, STATE_ENTRIES, s1, V.attr(s1, E.env, "state"), rep, "state")
    check_vector(V, E, entries, s1, ok.value[0], limited(V, E, rep), "observation")


def reset_state(V):
    V.on("ANMEnv.reset, observation 'state', bounded auxiliary variables")
    reset_vectors(V, STATE_ENTRIES, None, aux=True)


def reset_list(V):
    V.on("ANMEnv.reset, observation list, arbitrary elements")
    ent = [(q, "list", None if q == "aux" else UNITS[q][-1]) for q in reversed(ALL)]
    reset_vectors(V, ent, declare(ent))


def given(V):
    from .c11 import given as g
    g(V)


from .build import construction  # noqa: E402

PARTS = [state, state_aux, list_all, list_nodes, reset_state, reset_list, given, construction]
