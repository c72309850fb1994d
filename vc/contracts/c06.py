"""C06: StorageUnit.update_soc; the charge limits are an invariant of the transition."""
from .devs import *


def update(V):
    from .c05 import make_storage
    r = make_storage(V)
    if r is None:
        return
    st, dev, L, d = r
    soc, dt, p = [V.real(n) for n in ("soc", "dt", "p")]
    eff, lo, hi = L["eff"], L["socmin"], L["socmax"]
    # an earlier update, with another charge, power and time step
    V.on("StorageUnit.update_soc")
    soc0, dt0, p0 = [V.real(n) for n in ("soc0", "dt0", "p0")]
    V.eng.setattr(st, dev, "soc", soc0)
    V.eng.setattr(st, dev, "p", p0)
    st.assume(And(dt0 > 0, V.le(lo, soc0), V.le(soc0, hi)))
    st = earlier(V, st, dev, "update_soc", dt0)
    if st is None:
        return
    V.eng.setattr(st, dev, "soc", soc)
    V.eng.setattr(st, dev, "p", p)
    V.eng.setattr(st, dev, "q", V.real("q"))
    st.assume(And(dt > 0, V.le(lo, soc), V.le(soc, hi)))
    # postcondition of map_pq (C05): p is sustainable
    st.assume(And(V.le(V.div(V.sub(soc, hi), V.mul(dt, eff)), p), V.le(p, V.div(V.mul(eff, V.sub(soc, lo)), dt))))
    V.reach("sustainable power", st)
    ok, raises = V.method(st, dev, "update_soc", dt)
    V.no_raise("sustainable power", raises)
    if not V.normal("sustainable power", ok):
        return
    s = ok.st
    new = V.attr(s, dev, "soc")
    V.reach("updated", s)
    V.prove("discharging: decreases by the injected energy over the efficiency", s.pc + [p > 0],
            V.eq(new, V.sub(soc, V.div(V.mul(dt, p), eff))))
    V.prove("charging: increases by the absorbed energy times the efficiency", s.pc + [p <= 0],
            V.eq(new, V.sub(soc, V.mul(V.mul(dt, eff), p))))
    V.prove("stays within the charge limits", s, And(V.le(lo, new), V.le(new, hi)))
    V.prove("frame: p unchanged", s, V.eq(V.attr(s, dev, "p"), p))
    V.prove("frame: limits unchanged", s, And(V.eq(V.attr(s, dev, "soc_min"), lo), V.eq(V.attr(s, dev, "soc_max"), hi)))


PARTS = [update]


def transition(V):
    from . import trans
    V.on("Simulator.transition")
    r = trans.run_transition(V)
    if r is None:
        return
    N, C, inp, st, ok = r
    trans.check_soc(V, N, ok.st)
    trans.frame(V, N, ok.st)


PARTS.append(transition)
