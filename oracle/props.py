"""Run-time contracts: one function per property; each runs one generated case on the real code.

Returns a key describing a non-trivial case (None if trivial); raises Violation or Skip.
"""
import datetime as dt
import json
import math
import random
import types

import numpy as np

import gen
import ref as R
import rt
from gen import pick, around
from rt import Scripted, Simulator, Skip, Violation, near, ok, same, snapshot, vnear, volts
from gym_anm.simulator.components import Load, TransmissionLine
from gym_anm.simulator.components.devices import ClassicalGen, RenewableGen, StorageUnit

PI = math.pi
QP = 2e-3  # tolerance on projections computed by the external QP solver (relative to the scale)


XTOL = 1e-3  # two runs of the external QP solver (OSQP adapts its step size to wall-clock time)


def rdt(r):
    return float(pick(r, 0.25, 0.5, 1.0, 0.1, 2.0))


def new_sim(r, **kw):
    net = gen.network(r, **kw)
    delta, lamb = rdt(r), pick(r, 0, 1, 100, 1000, 12.5)
    return net, R.Net(net), delta, lamb, Simulator(net, delta, lamb)


def transition(sim, args):
    return sim.transition(*args)


def start(r, ref, sim):
    """Gives every storage unit a charge by a reset with a random initial state."""
    s0 = gen.init_state(r, ref)
    return s0, sim.reset(s0)


def desc(net):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in net.items()}


# ------------------------------------------------------------------ C01
def C01(r, case):
    base = pick(r, 1, 10, 100.0)
    row = gen.network(r, n_bus=2)["branch"][0]
    row = np.array([row[0], row[1], *row[2:]], dtype=object)
    if r.random() < 0.5:
        row[7] = float(r.uniform(0, 360))
    if r.random() < 0.5:
        row[6] = float(r.uniform(0.3, 3))
    line = TransmissionLine(row, base, [int(row[0]), int(row[1])])
    want = R.Line(row, base)
    ends = []
    for _ in range(2):
        k = int(r.integers(4))
        m, a = r.uniform(0.2, 1.6), r.uniform(-PI, PI)
        ends.append(complex(m * math.cos(a), m * math.sin(a)) if k else complex(pick(r, 1, 0, -1), pick(r, 0, 1)))
    vf, vt = ends
    for vf, vt in ((vf, vt), (vt, vf)):
        line.compute_currents(np.complex128(vf), np.complex128(vt))
        line.compute_power_flows(np.complex128(vf), np.complex128(vt))
        chk_line(line, want, vf, vt)
    return row.tolist(), vf, vt


def chk_line(line, want, vf, vt):
    i_f, i_t = want.currents(vf, vt)
    ok(near(line.i_from, i_f), "sending-end current differs from the pi-model", got=line.i_from, want=i_f, vf=vf, vt=vt)
    ok(near(line.i_to, i_t), "receiving-end current differs from the pi-model", got=line.i_to, want=i_t, vf=vf, vt=vt)
    sf, st = want.flows(vf, vt)
    tol = 1e-8
    ok(near(line.p_from, sf.real, tol) and near(line.q_from, sf.imag, tol), "sending-end flow", got=(line.p_from, line.q_from), want=sf)
    ok(near(line.p_to, st.real, tol) and near(line.q_to, st.imag, tol), "receiving-end flow", got=(line.p_to, line.q_to), want=st)
    m = max(abs(sf), abs(st))
    ok(near(abs(line.s_apparent_max), m, tol) or abs(sf.real) < 1e-9, "apparent flow is not the larger end", got=line.s_apparent_max, want=m)
    if abs(sf.real) > 1e-9 * (1 + m):
        ok(np.sign(line.s_apparent_max) == np.sign(sf.real) or m == 0, "sign of the apparent flow", got=line.s_apparent_max, want=sf.real)


# ------------------------------------------------------------------ C02
def real_y(sim, ref):
    Y = sim.Y_bus.toarray()
    ids = list(ref.buses)
    if Y.shape[0] != len(ids) or ids == list(range(len(ids))):
        return Y[ids, :][:, ids]
    return Y


def C02(r, case):
    net, ref, _, _, sim = new_sim(r, n_bus=int(r.integers(2, 8)))
    Y = real_y(sim, ref)
    ids = list(ref.buses)
    v = r.normal(size=len(ids)) + 1j * r.normal(size=len(ids))
    i = Y @ v
    want = ref.bus_currents(dict(zip(ids, v)))
    for k, b in enumerate(ids):
        ok(near(i[k], want[b], 1e-8), "nodal current is not the sum of the line currents", bus=b, got=i[k], want=want[b], net=desc(net))
    # the same with the currents the line objects of the simulator report
    cur = {b: 0j for b in ids}
    vv = dict(zip(ids, v))
    for (f, t), br in sim.branches.items():
        br.compute_currents(vv[f], vv[t])
        cur[f] += br.i_from
        cur[t] += br.i_to
    for k, b in enumerate(ids):
        ok(near(i[k], cur[b], 1e-8), "admittance matrix disagrees with the line model", bus=b, got=i[k], want=cur[b])
    return desc(net)


# ------------------------------------------------------------------ C03
def C03(r, case):
    heavy = pick(r, 1.0, 1.0, 2.0, 6.0, 30.0)
    net, ref, delta, lamb, sim = new_sim(r, heavy=heavy)
    s0, conv = start(r, ref, sim)
    keys = [("reset", bool(conv))]
    chk_pf(ref, sim, conv, net)
    for _ in range(2):
        out = sim.transition(*gen.setpoints(r, ref))
        chk_pf(ref, sim, out[4], net)
        ok(bool(out[4]) == bool(sim.pfe_converged), "returned and recorded convergence differ")
        keys.append(bool(out[4]))
    return keys, desc(net)


def chk_pf(ref, sim, conv, net=None):
    if not conv:
        return
    v = {i: complex(b.v) for i, b in sim.buses.items()}
    rv = volts(sim)
    ids = list(ref.buses)
    for i in ids:
        ok(near(v[i], rv[i], 1e-9), "reported voltage is not the bus voltage", bus=i)
    Y = ref.ybus()
    vec = np.array([rv[i] for i in ids])
    s = vec * np.conj(Y @ vec)
    for k, i in enumerate(ids):
        if i == ref.slack_bus:
            continue
        want = sum(complex(d.p, d.q) for d in sim.devices.values() if d.bus_id == i)
        want2 = sum(complex(sim.state["dev_p"]["pu"][d.id], sim.state["dev_q"]["pu"][d.id]) for d in ref.devs.values() if d.bus == i)
        ok(near(want, want2, 1e-9), "reported device injections", bus=i)
        tol = 1e-5 * (1 + 1e-6) + 1e-10
        ok(abs(s[k].real - want.real) <= tol and abs(s[k].imag - want.imag) <= tol,
           "power is not balanced although convergence was reported", bus=i, got=s[k], want=want, net=desc(net) if net else None)
    sb = ref.buses[ref.slack_bus]
    ok(near(rv[sb.id], sb.vmax, 1e-9), "slack bus is not at its fixed voltage", got=rv[sb.id], want=sb.vmax)
    k = ids.index(sb.id)
    sd = sim.state
    got = complex(sd["dev_p"]["pu"][ref.slack_dev], sd["dev_q"]["pu"][ref.slack_dev])
    ok(near(got, s[k], 1e-7), "slack device does not supply the power drawn at the slack bus", got=got, want=s[k])
    for (f, t), l in ref.lines.items():
        br = sim.branches[(f, t)]
        chk_line(br, l, rv[f], rv[t])


# ------------------------------------------------------------------ C04 / C05
BUILD = {-1: Load, 0: ClassicalGen, 1: ClassicalGen, 2: RenewableGen, 3: StorageUnit}


def obj_row(row):
    a = np.empty(len(row), dtype=object)
    a[:] = row
    return a


def C04(r, case):
    base = pick(r, 1, 10, 100.0)
    typ = pick(r, -1, 1, 2, 2)
    row = gen.dev_row(r, 3, 7, typ, base, float(pick(r, 0.1, 1.0, 3.0)))
    dev = BUILD[typ](obj_row(row), [0, 7], base)
    d = R.Dev(row, base)
    chk_limits(dev, d)
    for _ in range(3):
        if typ == -1:
            p = around(r, d.pmin, d.pmax, 1.0)
            dev.map_pq(p)
            want = R.clip(p, d.pmin, d.pmax)
            ok(near(dev.p, want) and near(dev.q, want * d.qp), "load set-point", row=row, base=base, p=p, got=(dev.p, dev.q), want=(want, want * d.qp))
        else:
            pot = around(r, d.pmin, d.pmax, 0.5)
            dev.p_pot = pot
            ok(near(dev.p_pot, R.clip(pot, d.pmin, d.pmax)), "available power is not limited to the generator's range", got=dev.p_pot, want=pot)
            p, q = around(r, d.pmin, d.pmax, 0.5), around(r, d.qmin, d.qmax, 0.5)
            dev.map_pq(p, q)
            chk_proj(dev, d.halfplanes(pot=pot), p, q, row, base)
    if case % 4 == 0:
        sim_proj(r, False)
    return row, base


def C05(r, case):
    base = pick(r, 1, 10, 100.0)
    row = gen.dev_row(r, 3, 7, 3, base, float(pick(r, 0.1, 1.0, 3.0)))
    dev = StorageUnit(obj_row(row), [0, 7], base)
    d = R.Dev(row, base)
    chk_limits(dev, d)
    for _ in range(3):
        delta = rdt(r)
        dev.soc = pick(r, d.socmin, d.socmax, float(r.uniform(d.socmin, d.socmax)))
        soc = float(dev.soc)
        p, q = around(r, d.pmin, d.pmax, 0.5), around(r, d.qmin, d.qmax, 0.5)
        dev.map_pq(p, q, delta)
        H = d.halfplanes(soc=soc, dt=delta)
        chk_proj(dev, H, p, q, (row, soc, delta), base)
        ok(near(dev.soc, soc), "map_pq changed the state of charge")
    if case % 4 == 0:
        sim_proj(r, True)
    return row, base


def chk_proj(dev, H, p, q, what, base):
    want = R.closest(H, p, q)
    if want is None:
        raise Skip  # empty region: excluded (limits leave no feasible point)
    got = (float(dev.p), float(dev.q))
    scale = max([0.05, abs(p - want[0]), abs(q - want[1]), abs(want[0]), abs(want[1])])
    if R.violation(H, p, q) <= 0 and R.violation(H, p, q) == 0:
        scale = max(0.05, abs(p), abs(q))
    ok(all(map(math.isfinite, got)) and R.violation(H, *got) <= QP * scale,
       "operating point outside the feasible region", unit=what, base=base, request=(p, q), got=got, want=want)
    ok(math.hypot(got[0] - want[0], got[1] - want[1]) <= 2 * QP * scale,
       "operating point is not the feasible point closest to the request", unit=what, base=base, request=(p, q), got=got, want=want)


def chk_limits(dev, d):
    ok(near(dev.p_min, d.pmin) and near(dev.p_max, d.pmax) and near(dev.q_min, d.qmin) and near(dev.q_max, d.qmax),
       "limits in per-unit", got=(dev.p_min, dev.p_max, dev.q_min, dev.q_max), want=(d.pmin, d.pmax, d.qmin, d.qmax))


def chk_devices(ref, sim, soc0, args, delta):
    """Every non-slack device operates at the closest feasible point to the MW/MVAr request."""
    pl, pp, ps, qs = args
    B = ref.base
    for i, d in ref.devs.items():
        dev = sim.devices[i]
        if d.load:
            w = R.clip(pl[i] / B, d.pmin, d.pmax)
            ok(near(dev.p, w) and near(dev.q, w * d.qp), "load set-point", dev=i, got=(dev.p, dev.q), want=(w, w * d.qp))
        elif d.nsg:
            ok(near(dev.p_pot, R.clip(pp[i] / B, d.pmin, d.pmax)), "available power", dev=i, got=dev.p_pot, want=pp[i] / B)
            H = d.halfplanes(pot=pp[i] / B)
            if R.closest(H, 0, 0) is not None:
                chk_proj(dev, H, ps[i] / B, qs[i] / B, i, B)
        elif d.des:
            chk_proj(dev, d.halfplanes(soc=soc0[i], dt=delta), ps[i] / B, qs[i] / B, i, B)


def sim_proj(r, des):
    net, ref, delta, lamb, sim = new_sim(r, types=(3, 3, -1) if des else (-1, 1, 2))
    start(r, ref, sim)
    soc0 = {i: float(sim.devices[i].soc) for i in ref.des}
    args = gen.setpoints(r, ref)
    sim.transition(*args)
    chk_devices(ref, sim, soc0, args, delta)


# ------------------------------------------------------------------ C06
def next_soc(d, soc, p, delta):
    return soc - delta * p / d.eff if p > 0 else soc - delta * p * d.eff


def C06(r, case):
    net, ref, delta, lamb, sim = new_sim(r, types=(3, 3, 3, -1, 2), n_dev=int(r.integers(1, 5)))
    if not ref.des:
        raise Skip
    s0, _ = start(r, ref, sim)
    nd = len(ref.devs)
    for k, i in enumerate(ref.des):
        d = ref.devs[i]
        want = R.clip(s0[2 * nd + k] / ref.base, d.socmin, d.socmax)
        ok(near(sim.devices[i].soc, want), "charge after reset", dev=i, got=sim.devices[i].soc, want=want)
    moved = 0
    for _ in range(4):
        before = {i: float(sim.devices[i].soc) for i in ref.des}
        args = gen.setpoints(r, ref)
        if r.random() < 0.4:
            for i in ref.des:
                args[2][i] = pick(r, -1, 1) * 5 * ref.base
        sim.transition(*args)
        for i in ref.des:
            d, dev = ref.devs[i], sim.devices[i]
            want = next_soc(d, before[i], float(dev.p), delta)
            tol = 2e-4 * max(0.3, abs(float(dev.p))) * delta / d.eff  # accuracy of the QP solver at the charge limits
            inside = d.socmin + tol < want < d.socmax - tol
            ok(abs(dev.soc - want) <= (1e-9 if inside else tol), "state of charge does not track the exchanged energy", dev=i, before=before[i], p=dev.p, dt=delta, eff=d.eff, got=dev.soc, want=want)
            ok(d.socmin - 1e-9 <= dev.soc <= d.socmax + 1e-9, "state of charge leaves its limits", dev=i, got=dev.soc, lim=(d.socmin, d.socmax))
            ok(near(sim.state["des_soc"]["pu"][i], dev.soc), "reported charge", dev=i)
            moved += abs(dev.soc - before[i]) > 1e-4
    return moved, desc(net)


# ------------------------------------------------------------------ C07
def costs(ref, sim, delta, lamb):
    st = sim.state
    e = 0.0
    for i, d in ref.devs.items():
        p = float(st["dev_p"]["pu"][i])
        if not d.des:
            e += p
        if d.rer:
            e += max(0.0, float(st["gen_p_max"]["pu"][i]) - p)
    v = volts(sim)
    pen = 0.0
    for i, b in ref.buses.items():
        m = abs(v[i])
        pen += max(0.0, m - b.vmax) + max(0.0, b.vmin - m)
    for (f, t), l in ref.lines.items():
        sf, st_ = l.flows(v[f], v[t])
        pen += max(0.0, (max(abs(sf), abs(st_)) if sf.real else 0.0) - l.rate)
    return delta * e, delta * lamb * pen


def C07(r, case):
    net, ref, delta, lamb, sim = new_sim(r, heavy=pick(r, 1.0, 2.0, 3.0))
    start(r, ref, sim)
    nz = 0
    for _ in range(3):
        _, rew, e, pen, conv = sim.transition(*gen.setpoints(r, ref))
        if not conv:
            continue
        we, wp = costs(ref, sim, delta, lamb)
        ok(near(e, we, 1e-7), "energy loss", got=e, want=we, net=desc(net))
        ok(near(pen, wp, 1e-6), "penalty", got=pen, want=wp, net=desc(net))
        ok(near(rew, -(we + wp), 1e-6), "reward is not minus (energy loss + penalty)", got=rew, want=-(we + wp))
        nz += wp > 0
    return nz, desc(net)


# ------------------------------------------------------------------ environments
def lists(r, ref, K, sim=None):
    """A random observation declaration (list) and its expansion [(key, ids, unit)]."""
    U = {"bus_p": ("MW", "pu"), "bus_q": ("MVAr", "pu"), "bus_v_magn": ("pu", "kV"), "bus_v_ang": ("degree", "rad"),
         "bus_i_magn": ("pu", "kA"), "bus_i_ang": ("degree", "rad"), "dev_p": ("MW", "pu"), "dev_q": ("MVAr", "pu"),
         "des_soc": ("MWh", "pu"), "gen_p_max": ("MW", "pu"), "branch_p": ("MW", "pu"), "branch_q": ("MVAr", "pu"),
         "branch_s": ("MVA", "pu"), "branch_i_magn": ("pu",), "branch_i_ang": ("degree", "rad")}
    keys = list(U)
    obs, exp = [], []
    for _ in range(int(r.integers(1, 8))):
        if K and r.random() < 0.2:
            ids = [int(x) for x in r.permutation(K)[: int(r.integers(1, K + 1))]]
            if r.random() < 0.4:
                obs.append(("aux", "all"))
                ids = list(range(K))
            elif r.random() < 0.5:
                obs.append(("aux", ids))
            else:
                obs.append(("aux", ids, None))
            exp.append(("aux", ids, None))
            continue
        k = pick(r, *keys)
        if k.startswith("bus"):
            allids = list(ref.buses)
        elif k.startswith("dev"):
            allids = list(ref.devs)
        elif k.startswith("des"):
            allids = list(ref.des)
        elif k.startswith("gen"):
            allids = list(ref.nsg)
        else:
            allids = list(ref.lines)
        unit = pick(r, *U[k])
        given = r.random() < 0.6
        ids = "all" if (r.random() < 0.5 or not allids) else [allids[j] for j in r.permutation(len(allids))[: int(r.integers(1, len(allids) + 1))]]
        o = (k, ids, unit) if given else (k, ids)
        obs.append(list(o) if r.random() < 0.3 else o)
        exp.append((k, allids if ids == "all" else list(ids), unit if given else U[k][0]))
    return obs, exp


def bounds(ref, key, i, unit):
    """Documented operating range of a quantity."""
    B = ref.base
    inf = math.inf
    if key in ("dev_p", "dev_q", "gen_p_max", "des_soc"):
        d = ref.devs[i]
        lo, hi = {"dev_p": lambda: (d.pmin, d.pmax), "dev_q": lambda: (d.qmin, d.qmax), "gen_p_max": lambda: (d.pmin, d.pmax),
                  "des_soc": lambda: (d.socmin, d.socmax)}[key]()
        return (lo, hi) if unit == "pu" else (lo * B, hi * B)
    if key in ("bus_p", "bus_q"):
        ds = [d for d in ref.devs.values() if d.bus == i]
        lo = sum(d.pmin if key == "bus_p" else d.qmin for d in ds)
        hi = sum(d.pmax if key == "bus_p" else d.qmax for d in ds)
        return (lo, hi) if unit == "pu" else (lo * B, hi * B)
    if key == "bus_v_magn" and i == ref.slack_bus:
        b = ref.buses[i]
        return (b.vmax, b.vmax) if unit == "pu" else (b.vmax * b.kv, b.vmax * b.kv)
    if key == "bus_v_ang" and i == ref.slack_bus:
        return (0.0, 0.0)
    if key.endswith("_ang"):
        return (-180.0, 180.0) if unit == "degree" else (-PI, PI)
    return (-inf, inf)


def quantity(ref, sim, key, i, unit):
    """The documented value of a quantity, computed from device powers/charges and bus voltages."""
    B = ref.base
    st = sim.state
    if key in ("dev_p", "dev_q"):
        x = float(getattr(sim.devices[i], key[-1]))
        return x if unit == "pu" else x * B
    if key == "des_soc":
        return float(sim.devices[i].soc) * (1 if unit == "pu" else B)
    if key == "gen_p_max":
        return float(sim.devices[i].p_pot) * (1 if unit == "pu" else B)
    v = {k: complex(b.v) for k, b in sim.buses.items()}
    if key.startswith("branch"):
        l = ref.lines[i]
        vf, vt = v[l.f], v[l.t]
        sf, st_ = l.flows(vf, vt)
        i_f, _ = l.currents(vf, vt)
        if key == "branch_p":
            return sf.real * (1 if unit == "pu" else B)
        if key == "branch_q":
            return sf.imag * (1 if unit == "pu" else B)
        if key == "branch_s":
            return math.copysign(max(abs(sf), abs(st_)), sf.real) * (1 if unit == "pu" else B)
        if key == "branch_i_magn":
            return math.copysign(abs(i_f), i_f.real)
        a = np.angle(i_f)
        return a if unit == "rad" else a * 180 / PI
    b = ref.buses[i]
    cur = ref.bus_currents(v)
    if key in ("bus_p", "bus_q"):
        if i == ref.slack_bus:
            s = v[i] * cur[i].conjugate()
        else:
            s = sum((complex(sim.devices[d.id].p, sim.devices[d.id].q) for d in ref.devs.values() if d.bus == i), 0j)
        x = s.real if key == "bus_p" else s.imag
        return x * (1 if unit == "pu" else B)
    if key == "bus_v_magn":
        return abs(v[i]) * (1 if unit == "pu" else b.kv)
    if key == "bus_v_ang":
        a = np.angle(v[i])
        return a if unit == "rad" else a * 180 / PI
    if key == "bus_i_magn":
        return abs(cur[i]) * (1 if unit == "pu" else B / b.kv)
    a = np.angle(cur[i])
    return a if unit == "rad" else a * 180 / PI


ANG_TOL = 1e-6


def q_near(key, got, want, unit):
    if key.endswith("_ang"):
        turn = 360 if unit == "degree" else 2 * PI
        dlt = abs(got - want) % turn
        return min(dlt, turn - dlt) <= (1e-5 if unit == "degree" else 1e-7)
    return near(got, want, 1e-7)


ALLQ = [("bus_p", "pu"), ("bus_p", "MW"), ("bus_q", "pu"), ("bus_q", "MVAr"), ("bus_v_magn", "pu"), ("bus_v_magn", "kV"),
        ("bus_v_ang", "rad"), ("bus_v_ang", "degree"), ("bus_i_magn", "pu"), ("bus_i_magn", "kA"), ("bus_i_ang", "rad"),
        ("bus_i_ang", "degree"), ("dev_p", "pu"), ("dev_p", "MW"), ("dev_q", "pu"), ("dev_q", "MVAr"), ("des_soc", "pu"),
        ("des_soc", "MWh"), ("gen_p_max", "pu"), ("gen_p_max", "MW"), ("branch_p", "pu"), ("branch_p", "MW"),
        ("branch_q", "pu"), ("branch_q", "MVAr"), ("branch_s", "pu"), ("branch_s", "MVA"), ("branch_i_magn", "pu"),
        ("branch_i_ang", "rad"), ("branch_i_ang", "degree")]


def ids_of(ref, key):
    return {"bus": ref.buses, "dev": ref.devs, "des": ref.des, "gen": ref.nsg, "bra": ref.lines}[key[:3]]


# ------------------------------------------------------------------ C09
def chk_state(ref, sim, net=None):
    st = sim.state
    v = {k: complex(b.v) for k, b in sim.buses.items()}
    cur = ref.bus_currents(v)
    for key, unit in ALLQ:
        ids = list(ids_of(ref, key))
        ok(set(st[key][unit]) == set(ids), "elements reported for " + key, got=list(st[key][unit]), want=ids)
        for i in ids:
            if key.startswith("bus_i_ang") and abs(cur[i]) < 1e-6:
                continue
            if key.startswith("branch"):
                i_f, _ = ref.lines[i].currents(v[ref.lines[i].f], v[ref.lines[i].t])
                if key == "branch_i_ang" and abs(i_f) < 1e-6:
                    continue
                if key == "branch_i_magn" and abs(i_f.real) < 1e-9:
                    continue
                sf, _ = ref.lines[i].flows(v[ref.lines[i].f], v[ref.lines[i].t])
                if key == "branch_s" and abs(sf.real) < 1e-9:
                    continue
            got, want = float(st[key][unit][i]), float(quantity(ref, sim, key, i, unit))
            ok(q_near(key, got, want, unit), f"reported {key} [{unit}]", element=i, got=got, want=want, net=desc(net) if net else None)


def with_heavy(net, ref):
    """The network with a load (30) whose range admits a demand no load flow can serve."""
    bus = [i for i in ref.buses if i != ref.slack_bus][0]
    rows = [list(x) for x in net["device"].tolist()] + [[30, bus, -1, 0.1, 0, -200.0 * ref.base] + [None] * 9]
    net = dict(net, device=gen._arr(rows))
    return net, R.Net(net)


def chk_state_devices(ref, sim, net):
    """The quantities of the state that do not come from the load flow (also when that has no solution)."""
    st = sim.state
    for key, unit in ALLQ:
        if key not in ("dev_p", "dev_q", "des_soc", "gen_p_max"):
            continue
        for i in ids_of(ref, key):
            if i == ref.slack_dev:
                continue
            dev = sim.devices[i]
            want = {"dev_p": "p", "dev_q": "q", "des_soc": "soc", "gen_p_max": "p_pot"}[key]
            want = float(getattr(dev, want)) * (1 if unit == "pu" else ref.base)
            got = float(st[key][unit][i])
            ok(near(got, want), f"reported {key} [{unit}] after a load flow without solution", element=i, got=got, want=want, net=desc(net))


def C09(r, case):
    if case % 5 == 4:
        net = gen.network(r)
        net, ref = with_heavy(net, R.Net(net))
        delta, lamb = rdt(r), pick(r, 0, 1, 100)
        sim = Simulator(net, delta, lamb)
        s0 = gen.init_state(r, ref)
        s0[list(ref.devs).index(30)] = -150.0 * ref.base * int(r.integers(0, 2))
        sim.reset(s0)
        k = 0
        for _ in range(3):
            a = gen.setpoints(r, ref)
            a[0][30] = -150.0 * ref.base if r.random() < 0.7 else 0.0
            out = sim.transition(*a)
            ok(out[0] is sim.state or same(out[0], sim.state), "returned state is not the state")
            if out[4]:
                chk_state(ref, sim, net)
            else:
                chk_state_devices(ref, sim, net)
                k += 1
        return k, desc(net)
    net, ref, delta, lamb, sim = new_sim(r)
    _, conv = start(r, ref, sim)
    n = 0
    if conv:
        chk_state(ref, sim, net)
        n += 1
    for _ in range(2):
        out = sim.transition(*gen.setpoints(r, ref))
        if out[4]:
            ok(out[0] is sim.state or same(out[0], sim.state), "returned state is not the state")
            chk_state(ref, sim, net)
            n += 1
    return n, desc(net)


# ------------------------------------------------------------------ env cases
class Case:
    pass


def env_case(r, obs="list", K=None, steps=3, heavy=1.0, clipping="rand", aux_bounds="rand", collapse=False, gamma=None, **kw):
    c = Case()
    c.net = gen.network(r, heavy=heavy, **kw)
    c.ref = R.Net(c.net)
    c.K = int(r.integers(0, 4)) if K is None else K
    c.delta, c.lamb = rdt(r), pick(r, 0, 1, 100, 50.5)
    c.gamma = gamma if gamma is not None else pick(r, 0.9, 0.995, 0.0, 0.5)
    if aux_bounds == "rand":
        c.ab = None if r.random() < 0.4 else np.array([[-1.0 - float(r.random()), float(r.random())] for _ in range(c.K)]).reshape(c.K, 2)
    else:
        c.ab = aux_bounds
    if clipping == "rand":
        e, p = float(np.round(r.uniform(0, 0.3), 3)), float(np.round(r.uniform(0, 20), 3))
        c.clip = pick(r, None, (e, p), (None, p), (e, None), (1, 100), (e, p))
    else:
        c.clip = clipping
    c.s0 = gen.init_state(r, c.ref, c.K)
    c.nv = [gen.next_vars(r, c.ref, c.K) for _ in range(steps)]
    c.exp = None
    if obs == "list":
        c.obs, c.exp = lists(r, c.ref, c.K)
    elif obs == "state":
        c.obs = "state"
    else:
        c.obs = obs
    if c.obs == "state":
        c.exp = state_decl(c.ref, c.K)
    return c


def state_decl(ref, K):
    return [("dev_p", list(ref.devs), "MW"), ("dev_q", list(ref.devs), "MVAr"), ("des_soc", ref.des, "MWh"),
            ("gen_p_max", ref.nsg, "MW"), ("aux", list(range(K)), None)]


def make_env(c, **kw):
    args = dict(observation=c.obs, K=c.K, delta_t=c.delta, gamma=c.gamma, lamb=c.lamb, aux_bounds=c.ab,
                costs_clipping=c.clip, inits=[c.s0], nexts=c.nv)
    args.update(kw)
    return Scripted(c.net, **args)


def converges(c):
    sim = Simulator(c.net, c.delta, c.lamb)
    return bool(sim.reset(c.s0))


def reset(env, c):
    if not converges(c):
        raise Skip
    return env.reset()


def an_action(r, c, env=None):
    """A random action of the action space as documented."""
    B = c.ref.base
    a = []
    for grp in (c.ref.nsg, c.ref.des):
        for k in ("p", "q"):
            for i in grp:
                d = c.ref.devs[i]
                lo, hi = (d.pmin, d.pmax) if k == "p" else (d.qmin, d.qmax)
                lo2 = lo if math.isfinite(lo) else (hi if math.isfinite(hi) else 0) - 3.0
                hi2 = hi if math.isfinite(hi) else (lo if math.isfinite(lo) else 0) + 3.0
                lo2, hi2 = lo2 * B, hi2 * B
                x = pick(r, lo2, hi2, float(r.uniform(lo2, hi2)), float(r.uniform(lo2, hi2)))
                if math.isfinite(lo) and x < lo * B: x = lo * B
                if math.isfinite(hi) and x > hi * B: x = hi * B
                a.append(x)
    a = np.array(a, dtype=float)
    if env is not None and a.shape == env.action_space.shape:
        a = np.clip(a, env.action_space.low, env.action_space.high)  # last-bit rounding of p.u. * baseMVA
    return a


def expected_obs(c, env, exp, clip=True):
    out = []
    for key, ids, unit in exp:
        for i in ids:
            if key == "aux":
                x = float(env.state[len(env.state) - c.K + i])
                lo, hi = (-math.inf, math.inf) if c.ab is None else map(float, c.ab[i])
            else:
                x = float(quantity(c.ref, env.simulator, key, i, unit))
                lo, hi = bounds(c.ref, key, i, unit)
            out.append((key, i, unit, R.clip(x, lo, hi) if clip else x))
    return out


def singular(c, sim, key, i):
    """Quantities whose sign or angle is decided by rounding noise."""
    if not (key.endswith("_ang") or key in ("branch_s", "branch_i_magn")):
        return False
    v = {k: complex(b.v) for k, b in sim.buses.items()}
    if key == "bus_i_ang":
        z = c.ref.bus_currents(v)[i]
    elif key == "bus_v_ang":
        z = v[i]
    else:
        l = c.ref.lines[i]
        z = l.currents(v[l.f], v[l.t])[0] if key != "branch_s" else l.flows(v[l.f], v[l.t])[0]
    if key in ("branch_s", "branch_i_magn"):
        return abs(z.real) < 1e-8
    return abs(z) < 1e-6 or (z.real < 0 and abs(z.imag) < 1e-6)


def chk_obs(c, env, obs, exp, clip=True, what="observation"):
    want = expected_obs(c, env, exp, clip)
    ok(isinstance(obs, np.ndarray) and obs.shape == (len(want),), f"{what} has the wrong shape", got=getattr(obs, "shape", None), want=len(want))
    for g, (key, i, unit, x) in zip(obs, want):
        if singular(c, env.simulator, key, i) if key != "aux" else False:
            continue
        ok(q_near(key, float(g), x, unit), f"{what}: component {key}[{i}] in {unit}", got=g, want=x)


# ------------------------------------------------------------------ C08
def C08(r, case):
    collapse = case % 2 == 1
    c = env_case(r, obs=pick(r, "list", "state", None) or (lambda s: np.array([s[0], 1.0])), steps=5, heavy=pick(r, 1.0, 2.5),
                 gamma=pick(r, 0.9, 0.995, 0.0, 1.0, 0.5))
    if collapse:
        add_heavy_load(c, r)
    env = make_env(c)
    o, _ = reset(env, c)
    if collapse:
        heavy_next(c, env, int(r.integers(0, 3)))
    c1, c2 = c.clip if c.clip is not None else (None, None)
    c1 = math.inf if c1 is None else c1
    c2 = math.inf if c2 is None else c2
    dead = False
    deadat = None
    for k in range(5):
        a = an_action(r, c, env)
        n0 = env.n_next
        before = snapshot_sim(env.simulator) if dead else None
        t0 = env.timestep
        obs, rew, term, trunc, info = env.step(a)
        ok(trunc is False or trunc == False, "an episode was marked truncated")
        if dead:
            ok(rew == 0 and term and not np.any(obs) and obs.shape == o.shape, "a step after the collapse", got=(obs, rew, term))
            ok(env.n_next == n0 and same(before, snapshot_sim(env.simulator)), "something was simulated after the collapse")
            continue
        conv = bool(env.simulator.pfe_converged)
        ok(bool(term) == (not conv), "terminated without collapse or vice versa", term=term, conv=conv)
        if conv:
            we, wp = costs(c.ref, env.simulator, c.delta, c.lamb)
            e = math.copysign(min(abs(we), c1), we)
            p = min(max(wp, 0), c2)
            ok(near(rew, -(e + p), 1e-6), "reward is not minus the clipped costs", got=rew, want=-(e + p), clip=c.clip, costs=(we, wp))
            ok(-(c1 + c2) - 1e-9 <= rew <= c1 + 1e-9, "reward outside the interval implied by the bounds", got=rew)
            ok(near(env.e_loss, e, 1e-6) and near(env.penalty, p, 1e-6), "recorded costs", got=(env.e_loss, env.penalty), want=(e, p))
        else:
            dead, deadat = True, k
            want = -c2 / (1 - c.gamma) if c.gamma < 1 else (-math.inf if True else 0)
            if not (c.gamma == 1 and c2 == 0) and not (math.isnan(want)):
                ok(near(rew, want, 1e-9), "reward of the collapse", got=rew, want=want)
            ok(not np.any(obs) and obs.shape == o.shape, "observation after the collapse is not the zero vector", got=obs)
            ok(not np.any(env.state) and env.state.shape == (2 * len(c.ref.devs) + len(c.ref.des) + len(c.ref.nsg) + c.K,), "state after the collapse", got=env.state)
    if dead and converges(c):
        env.n_next = 0
        o2, _ = env.reset()
        ok(vnear(o, o2, 1e-3) and not env.terminated, "reset after the collapse", got=o2, want=o)
        env.nexts = [gen.next_vars(r, c.ref, c.K)]
        out = env.step(an_action(r, c, env))
        ok(bool(out[2]) == (not env.simulator.pfe_converged), "the episode after a reset is still terminated")
    return collapse, dead, deadat, c.clip


def snapshot_sim(sim):
    return ([(i, float(d.p), float(d.q), None if d.soc is None else float(d.soc)) for i, d in sim.devices.items()],
            [(i, complex(b.v).real, complex(b.v).imag) for i, b in sim.buses.items()])


def add_heavy_load(c, r):
    """Adds a load whose range admits a demand no load flow can serve."""
    bus = [i for i in c.ref.buses if i != c.ref.slack_bus][0]
    did = 30
    row = [did, bus, -1, 0.1, 0, -200.0 * c.ref.base] + [None] * 9
    dv = [list(x) for x in c.net["device"].tolist()] + [row]
    c.net["device"] = gen._arr(dv)
    c.ref = R.Net(c.net)
    c.s0 = gen.init_state(r, c.ref, c.K)
    k = list(c.ref.devs).index(did)
    c.s0[k] = -0.01 * c.ref.base
    c.nv = [gen.next_vars(r, c.ref, c.K) for _ in c.nv]
    j = c.ref.loads.index(did)
    for v in c.nv:
        v[j] = -0.01 * c.ref.base
    if isinstance(c.obs, list):
        c.obs, c.exp = lists(r, c.ref, c.K)
    elif c.obs == "state":
        c.exp = state_decl(c.ref, c.K)
    c.heavy = j


def heavy_next(c, env, at):
    env.nexts[min(at, len(env.nexts) - 1)] = np.array(env.nexts[min(at, len(env.nexts) - 1)])
    env.nexts[min(at, len(env.nexts) - 1)][c.heavy] = -150.0 * c.ref.base


# ------------------------------------------------------------------ C10
def C10(r, case):
    mode = case % 3
    c = env_case(r, obs="list" if mode else "state")
    calls = []
    if mode == 2:
        def fn(s):
            calls.append(np.array(s))
            return np.array([np.sum(s), s[0], 2 * s[-1]])
        c.obs, c.exp = fn, None
    env = make_env(c)
    obs, _ = reset(env, c)
    n = 0
    for k in range(3):
        if k:
            out = env.step(an_action(r, c, env))
            if out[2]:
                break
            obs = out[0]
        chk_obs(c, env, env.state, state_decl(c.ref, c.K), clip=False, what="state")
        aux = c.s0 if k == 0 else c.nv[k - 1]
        ok(c.K == 0 or vnear(env.state[-c.K:], aux[-c.K:]), "auxiliary variables in the state", got=env.state[-c.K:] if c.K else [], want=aux)
        if c.exp is not None:
            chk_obs(c, env, obs, c.exp)
        else:
            s = env.state
            ok(vnear(obs, [np.sum(s), s[0], 2 * s[-1]], 1e-9), "callable observation", got=obs, state=s)
            ok(vnear(calls[-1], s), "callable observation computed from another vector")
        n += 1
    return n, str(c.obs)[:200]


# ------------------------------------------------------------------ C11
def C11(r, case):
    mode = case % 4
    collapse = case % 5 == 4
    c = env_case(r, obs="state" if mode == 0 else "list", heavy=pick(r, 1.0, 2.0))
    if collapse:
        add_heavy_load(c, r)
    nobs = int(r.integers(1, 5))
    if mode == 3:
        c.obs, c.exp = (lambda s: np.resize(s, nobs) * 1.0), None
    env = make_env(c)
    obs, _ = reset(env, c)
    if c.exp is not None:
        sp = env.observation_space
        want = []
        for key, ids, unit in c.exp:
            for i in ids:
                if key == "aux":
                    want.append((-math.inf, math.inf) if c.ab is None else tuple(map(float, c.ab[i])))
                else:
                    want.append(bounds(c.ref, key, i, unit))
        ok(sp.shape == (len(want),), "size of the observation space", got=sp.shape, want=len(want))
        for k, (lo, hi) in enumerate(want):
            ok(near(sp.low[k], lo, 1e-12) and near(sp.high[k], hi, 1e-12), f"bounds of observation component {k}", got=(sp.low[k], sp.high[k]), want=(lo, hi))
    else:
        sp = env.observation_space
        ok(sp.shape == (nobs,) and np.all(np.isneginf(sp.low)) and np.all(np.isposinf(sp.high)), "space of a callable observation", got=sp)
    ok(sp.contains(obs), "observation of reset outside the observation space", got=obs, space=sp)
    if collapse:
        heavy_next(c, env, 1)
    for k in range(3):
        o, _, term, _, _ = env.step(an_action(r, c, env))
        ok(o.shape == sp.shape, "shape of the observation", got=o.shape)
        if term:
            ok(not np.any(o), "observation after a collapse is not zero", got=o)
        else:
            ok(sp.contains(o), "observation of step outside the observation space", got=o, space=sp)
    return mode, collapse, desc(c.net)


# ------------------------------------------------------------------ C12
def C12(r, case):
    c = env_case(r, obs="state", K=int(r.integers(0, 2)), types=(1, 2, 3, 3, -1), n_dev=int(r.integers(2, 7)))
    if not c.ref.nsg and not c.ref.des:
        raise Skip
    env = make_env(c)
    B = c.ref.base
    want = []
    for grp in (c.ref.nsg, c.ref.des):
        for k in ("p", "q"):
            for i in grp:
                d = c.ref.devs[i]
                lo, hi = (d.pmin, d.pmax) if k == "p" else (d.qmin, d.qmax)
                want.append((lo * B, hi * B))
    sp = env.action_space
    ok(sp.shape == (len(want),), "size of the action space", got=sp.shape, want=len(want))
    for k, (lo, hi) in enumerate(want):
        ok(near(sp.low[k], lo, 1e-12) and near(sp.high[k], hi, 1e-12), f"bounds of action component {k}", got=(sp.low[k], sp.high[k]), want=(lo, hi))
    reset(env, c)
    for k in range(3):
        a = an_action(r, c, env)
        soc0 = {i: float(env.simulator.devices[i].soc) for i in c.ref.des}
        try:
            out = env.step(a)
        except AssertionError as e:
            ok(False, "an action of the action space was rejected", action=a, space=sp, err=str(e)[:200])
        ng, nd = len(c.ref.nsg), len(c.ref.des)
        ps = dict(zip(c.ref.nsg, a[:ng])) | dict(zip(c.ref.des, a[2 * ng: 2 * ng + nd]))
        qs = dict(zip(c.ref.nsg, a[ng: 2 * ng])) | dict(zip(c.ref.des, a[2 * ng + nd:]))
        nv = c.nv[k]
        pl = dict(zip(c.ref.loads, nv))
        pp = dict(zip(c.ref.nsg, nv[len(c.ref.loads):]))
        chk_devices(c.ref, env.simulator, soc0, (pl, pp, ps, qs), c.delta)
        if out[2]:
            break
    return len(want), desc(c.net)


# ------------------------------------------------------------------ C13
def C13(r, case):
    from gym_anm.errors import EnvInitializationError, EnvNextVarsError
    c = env_case(r, obs="state", types=(-1, -1, 1, 2, 3), n_dev=int(r.integers(2, 8)))
    nd = len(c.ref.devs)
    if case % 6 == 5:  # wrong sizes
        env = make_env(c)
        bad = c.s0[:-1] if r.random() < 0.5 else np.append(c.s0, 0.0)
        env.inits = [bad]
        try:
            env.reset()
            ok(False, "an initial state of the wrong size was accepted", size=bad.size, want=c.s0.size)
        except EnvInitializationError:
            pass
        env.inits, env.n_init = [c.s0], 0
        reset(env, c)
        v = c.nv[0]
        env.nexts = [v[:-1] if r.random() < 0.5 else np.append(v, 0.0)]
        if env.nexts[0].size == 0 and v.size == 0:
            raise Skip
        try:
            env.step(an_action(r, c, env))
            ok(False, "a vector of the wrong size was accepted", size=env.nexts[0].size, want=v.size)
        except EnvNextVarsError:
            pass
        return "sizes", c.s0.size
    env = make_env(c)
    reset(env, c)
    B = c.ref.base
    for k in range(3):
        out = env.step(an_action(r, c, env))
        nv = c.nv[k]
        sim = env.simulator
        for j, i in enumerate(c.ref.loads):
            d = c.ref.devs[i]
            w = R.clip(nv[j] / B, d.pmin, d.pmax)
            ok(near(sim.devices[i].p, w) and near(sim.devices[i].q, w * d.qp), "demand of a load", dev=i, got=sim.devices[i].p, want=w)
            ok(near(sim.state["dev_p"]["MW"][i], w * B), "reported demand", dev=i)
        for j, i in enumerate(c.ref.nsg):
            d = c.ref.devs[i]
            w = R.clip(nv[len(c.ref.loads) + j] / B, d.pmin, d.pmax)
            ok(near(sim.devices[i].p_pot, w), "available power of a generator", dev=i, got=sim.devices[i].p_pot, want=w)
            ok(near(sim.state["gen_p_max"]["MW"][i], w * B), "reported available power", dev=i)
            ok(sim.devices[i].p <= max(w, d.pmin) + QP * max(1, w), "generator above its available power", dev=i, got=sim.devices[i].p, want=w)
        if out[2]:
            break
        ok(env.state.size == 2 * nd + len(c.ref.des) + len(c.ref.nsg) + c.K, "size of the state")
        ok(c.K == 0 or vnear(env.state[-c.K:], nv[len(nv) - c.K:]), "auxiliary variables of the next state", got=env.state, want=nv)
    return c.K, desc(c.net)


# ------------------------------------------------------------------ C14
def C14(r, case):
    from gym_anm.errors import EnvInitializationError
    c = env_case(r, obs=pick(r, "state", "list"), steps=4)
    if case % 12 == 11:
        add_heavy_load(c, r)
        bad = np.array(c.s0)
        bad[list(c.ref.devs).index(30)] = -150 * c.ref.base
        env = make_env(c)
        n_bad = pick(r, 99, 3, 1000)
        good = converges(c)
        if not good:
            raise Skip
        env.inits = [np.array(bad) for _ in range(min(n_bad, 120))] + [c.s0]
        try:
            env.reset()
            ok(n_bad < 100, "no error although 100 attempts failed")
            ok(env.n_init == n_bad + 1, "number of attempts", got=env.n_init, want=n_bad + 1)
        except EnvInitializationError:
            ok(n_bad >= 100, "initialization error although attempt %d converges" % (n_bad + 1))
            ok(env.n_init == 100, "number of attempts before the error", got=env.n_init)
        return "attempts", n_bad
    collapse = case % 4 == 2
    if collapse:
        add_heavy_load(c, r)
    # realisation
    env = make_env(c)
    hist = env_hist(r, c, collapse)
    want_obs, _ = reset(env, c)
    chk_reset(c, env)
    # differential: an identical environment with a different history
    obs2, _ = hist.reset(**pick(r, {}, {}, {"options": {}}, {"seed": 3, "options": {"a": 1}}, {"seed": 5})), None
    chk_reset(c, hist)
    obs2 = obs2[0] if isinstance(obs2, tuple) else obs2
    o2 = obs2[0] if isinstance(obs2, tuple) else obs2
    # (phases of currents that may be zero, signs of powers that may be zero: left to the comparison of the states)
    keep = [key not in ("bus_i_ang", "branch_i_ang", "branch_s", "branch_i_magn") for key, nodes, _ in c.exp for _ in nodes]
    ok(len(want_obs) == len(o2) == len(keep), "size of the observation", got=len(o2), want=len(keep))
    K_ = lambda x: [v for v, k in zip(x, keep) if k]
    sa, sb = env.simulator.state, hist.simulator.state
    tight = all(near(sa[q]["pu"][i], sb[q]["pu"][i], 1e-8) for q in ("dev_p", "dev_q") for i in sa[q]["pu"])
    ok(vnear(K_(want_obs), K_(o2), XTOL if tight else 0.05), "reset depends on the history", got=o2, want=want_obs)
    hist.nexts, hist.n_next = [np.array(v) for v in c.nv], 0
    for k in range(3):
        a = an_action(r, c, env)
        A, B = env.step(a), hist.step(np.array(a))
        ok(A[2] == B[2] and env.timestep == hist.timestep == k + 1, "step %d after the reset depends on the history" % k, got=B[:3], want=A[:3])
        sa, sb = env.simulator.state, hist.simulator.state
        if not A[2]:
            # the injections agree up to the QP solver's tolerance; what follows from them agrees tightly only where they do
            ok(all(near(sa[q]["pu"][i], sb[q]["pu"][i], XTOL) for q in ("dev_p", "dev_q") for i in sa[q]["pu"]), "device powers depend on the history", got=sb, want=sa)
            tight = all(near(sa[q]["pu"][i], sb[q]["pu"][i], 1e-8) for q in ("dev_p", "dev_q") for i in sa[q]["pu"])
            tol = XTOL if tight else 0.05
            ok(deep_near(sa, sb, tol), "simulator state depends on the history", got=sb, want=sa)
        else:
            tol = XTOL
        rtol = tol if tol == XTOL else tol * (1 + c.lamb)
        ok(vnear(K_(A[0]), K_(B[0]), tol) and near(A[1], B[1], rtol), "step %d after the reset depends on the history" % k, got=B[:3], want=A[:3])
        ok(vnear(env.state, hist.state, tol), "state after the reset depends on the history", got=hist.state, want=env.state)
        ok(near(env.e_loss, hist.e_loss, rtol) and near(env.penalty, hist.penalty, rtol), "recorded costs depend on the history")
        if A[2]:
            break
    return desc(c.net)


def deep_near(a, b, tol=XTOL):
    if isinstance(a, dict) and isinstance(a.get("branch_s"), dict):
        # two power flow solutions of the same point (up to the solver's tolerance): the sign of the apparent power is
        # that of an active power which may be zero, the phase of a current that may be zero
        if set(a) != set(b):
            return False
        for k, x in a.items():
            y = b[k]
            if k in ("bus_i_ang", "branch_i_ang"):
                m = a[k.replace("_ang", "_magn")]["pu"], b[k.replace("_ang", "_magn")]["pu"]
                big = {i for i in m[0] if min(abs(m[0][i]), abs(m[1].get(i, 0))) > 0.1}
                if set(x) != set(y):
                    return False
                for u in x:
                    t = 2 * math.pi if u == "rad" else 360
                    if set(x[u]) != set(y[u]):
                        return False
                    if any(not near(abs((x[u][i] - y[u][i] + t / 2) % t - t / 2) + 1, 1, 20 * tol * (t / 6)) for i in big):
                        return False
            elif k in ("branch_s", "branch_i_magn"):
                for u in x:
                    if set(x[u]) != set(y[u]) or not all(deep_near(abs(x[u][i]), abs(y[u][i]), tol) for i in x[u]):
                        return False
            elif not deep_near(x, y, tol):
                return False
        return True
    if isinstance(a, dict):
        return set(a) == set(b) and all(deep_near(a[k], b[k], tol) for k in a)
    return near(a, b, tol) or (math.isnan(a) and math.isnan(b))


def env_hist(r, c, collapse=False):
    """An environment built alike with a random history (resets, steps, possibly a failed step)."""
    env = make_env(c)
    other = [gen.init_state(r, c.ref, c.K) for _ in range(2)]
    for s in other:
        sim = Simulator(c.net, c.delta, c.lamb)
        if sim.reset(s):
            env.inits = [s]
            env.n_init = 0
            env.nexts = [gen.next_vars(r, c.ref, c.K) for _ in range(3)]
            env.n_next = 0
            env.reset()
            n = int(r.integers(0, 3))
            if collapse:
                n += 1
                for k in range(n - 1, len(env.nexts)):
                    env.nexts[k][c.heavy] = -150.0 * c.ref.base
                n += int(r.integers(0, 2))
            for _ in range(n):
                env.step(an_action(r, c, env))
            if r.random() < 0.3:
                env.nexts = [np.zeros(99)]
                try:
                    env.step(an_action(r, c, env))
                except Exception:
                    pass
    env.inits, env.n_init = [c.s0], 0
    env.nexts, env.n_next = c.nv, 0
    return env


def chk_reset(c, env):
    ref, B, s0 = c.ref, c.ref.base, c.s0
    nd, ns, ng = len(ref.devs), len(ref.des), len(ref.nsg)
    sim = env.simulator
    for k, (i, d) in enumerate(ref.devs.items()):
        p, q = s0[k] / B, s0[nd + k] / B
        dev = sim.devices[i]
        if d.load:
            w = R.clip(p, d.pmin, d.pmax)
            ok(near(dev.p, w) and near(dev.q, w * d.qp), "load after reset", dev=i, got=(dev.p, dev.q), want=w)
        elif d.nsg:
            pot = s0[2 * nd + ns + ref.nsg.index(i)] / B
            ok(near(dev.p_pot, R.clip(pot, d.pmin, d.pmax)), "available power after reset", dev=i, got=dev.p_pot, want=pot)
            chk_proj(dev, d.halfplanes(pot=pot), p, q, i, B)
        elif d.des:
            soc = d.socmin if p <= 0 else d.socmax
            chk_proj(dev, d.halfplanes(soc=soc, dt=c.delta), p, q, i, B)
            w = R.clip(s0[2 * nd + ref.des.index(i)] / B, d.socmin, d.socmax)
            ok(near(dev.soc, w), "charge after reset", dev=i, got=dev.soc, want=w)
            ok(near(sim.state["des_soc"]["pu"][i], w) and near(sim.state["des_soc"]["MWh"][i], w * B), "reported charge after reset", dev=i)
            ok(near(env.state[2 * nd + ref.des.index(i)], w * B), "charge in the state after reset", dev=i)
    ok(c.K == 0 or vnear(env.state[-c.K:], s0[len(s0) - c.K:]), "auxiliary variables after reset", got=env.state, want=s0)
    ok(env.timestep == 0 and env.e_loss == 0 and env.penalty == 0 and not env.terminated, "counters after reset", got=(env.timestep, env.e_loss, env.penalty, env.terminated))


# ------------------------------------------------------------------ C15
def C15(r, case):
    from gym_anm import errors as E
    from gym_anm.simulator.components import errors as SE
    net = gen.network(r)
    ref = R.Net(net)
    Simulator(net, 0.5, 100)  # accepted
    n = {k: (np.array(v.tolist(), dtype=object) if isinstance(v, np.ndarray) else v) for k, v in net.items()}
    k = case % 5
    if k == 0:
        return c15_args(r, n, ref, E)
    bad, err = corrupt(r, n, ref, SE)
    try:
        if r.random() < 0.5:
            Simulator(n, 0.5, 100)
        else:
            Scripted(n, "state", 0, 0.5, 0.9, 100)
    except err as e:
        exact = {SE.BusSpecError, SE.BranchSpecError, SE.BaseMVAError, SE.LoadSpecError, SE.GenSpecError, SE.StorageSpecError, SE.DeviceSpecError}
        return bad
    except Exception as e:
        ok(False, f"inconsistent network ({bad}) rejected with {type(e).__name__} ({e}) instead of {err.__name__}", net=desc(n))
    ok(False, f"inconsistent network was accepted: {bad}", net=desc(n))


def corrupt(r, n, ref, SE):
    bus, dev, br = n["bus"], n["device"], n["branch"]
    nb, ndv, nbr = len(bus), len(dev), len(br)
    free = [i for i in range(40) if i not in ref.buses][0]
    bi = int(r.integers(nb)); di = int(r.integers(ndv)); li = int(r.integers(nbr))
    si = [k for k in range(nb) if bus[k][1] == 0][0]
    pq = [k for k in range(nb) if bus[k][1] != 0]
    sd = [k for k in range(ndv) if dev[k][2] == 0][0]
    oth = [k for k in range(ndv) if dev[k][2] != 0]
    loads = [k for k in oth if dev[k][2] == -1]
    gens = [k for k in range(ndv) if dev[k][2] in (1, 2)]
    des = [k for k in oth if dev[k][2] == 3]
    eps = float(pick(r, 1e-3, 1.0, 50))
    C = []

    def add(name, err, f):
        C.append((name, err, f))

    def setv(a, i, j, v):
        def f():
            a[i, j] = v
        return f
    add("baseMVA = 0", SE.BaseMVAError, lambda: n.__setitem__("baseMVA", 0))
    add("baseMVA < 0", SE.BaseMVAError, lambda: n.__setitem__("baseMVA", -eps))
    add("no slack bus", SE.BusSpecError, setv(bus, si, 1, 1))
    add("two slack buses", SE.BusSpecError, setv(bus, pick(r, *pq), 1, 0))
    add("no slack device", SE.DeviceSpecError, setv(dev, sd, 2, 1))
    if oth:
        add("two slack devices", SE.DeviceSpecError, setv(dev, pick(r, *oth), 2, 0))
        add("duplicate device", SE.DeviceSpecError, setv(dev, pick(r, *oth), 0, dev[sd][0]))
        add("device on unknown bus", SE.DeviceSpecError, setv(dev, pick(r, *oth), 1, free))
        add("device without bus", SE.DeviceSpecError, setv(dev, pick(r, *oth), 1, None))
        add("unknown device type", SE.DeviceSpecError, setv(dev, pick(r, *oth), 2, pick(r, 4, -2, 7, 1.5, None)))
    add("slack device elsewhere", SE.DeviceSpecError, setv(dev, sd, 1, bus[pick(r, *pq)][0]))
    add("duplicate bus", SE.BusSpecError, setv(bus, pick(r, *pq), 0, bus[si][0]))
    add("bus type", SE.BusSpecError, setv(bus, pick(r, *pq), 1, pick(r, 2, -1, None)))
    add("base kV", SE.BusSpecError, setv(bus, bi, 2, pick(r, 0, -eps, None)))
    add("VMAX", SE.BusSpecError, setv(bus, bi, 3, pick(r, -eps, None)))
    add("VMIN", SE.BusSpecError, setv(bus, pick(r, *pq), 4, pick(r, -eps, None)))
    add("VMIN > VMAX", SE.BusSpecError, lambda k=pick(r, *pq): bus.__setitem__((k, 4), float(bus[k][3]) + eps))
    if nbr > 1:
        o = pick(r, *[k for k in range(nbr) if k != li])
        add("parallel line", SE.BranchSpecError, lambda: (br.__setitem__((li, 0), br[o][0]), br.__setitem__((li, 1), br[o][1])))
        add("reversed parallel line", SE.BranchSpecError, lambda: (br.__setitem__((li, 0), br[o][1]), br.__setitem__((li, 1), br[o][0])))
    add("line to itself", SE.BranchSpecError, setv(br, li, 0, br[li][1]))
    add("line from unknown bus", SE.BranchSpecError, setv(br, li, 0, free))
    add("line to unknown bus", SE.BranchSpecError, setv(br, li, 1, pick(r, free, None)))
    add("r < 0", SE.BranchSpecError, setv(br, li, 2, -eps))
    add("x < 0", SE.BranchSpecError, setv(br, li, 3, -eps))
    add("r = x = 0", SE.BranchSpecError, lambda: (br.__setitem__((li, 2), pick(r, 0, None)), br.__setitem__((li, 3), pick(r, 0.0, None))))
    add("b < 0", SE.BranchSpecError, setv(br, li, 4, -eps))
    add("rate < 0", SE.BranchSpecError, setv(br, li, 5, -eps))
    add("tap <= 0", SE.BranchSpecError, setv(br, li, 6, pick(r, 0, -eps)))
    add("shift", SE.BranchSpecError, setv(br, li, 7, pick(r, -eps, 360 + eps)))
    P = 1 + eps

    def rows(ks, name, err, *sets):
        if ks:
            k = pick(r, *ks)
            add(name, err, lambda: [dev.__setitem__((k, j), v) for j, v in sets])
    L, G, S = SE.LoadSpecError, SE.GenSpecError, SE.StorageSpecError
    rows(loads, "load without Q/P", L, (3, None))
    rows(loads, "load PMAX > 0", L, (4, eps))
    rows(loads, "load PMAX < PMIN", L, (4, -P), (5, -1.0))
    rows(loads, "load PMIN > PMAX = None", L, (4, None), (5, eps))
    for ks, E_ in ((gens, G), (des, S), ([sd], G)):
        nm = E_.__name__
        if ks != [sd]:
            rows(ks, nm + " PMAX < 0", E_, (4, -eps))
        if E_ is G and ks != [sd]:
            rows(ks, nm + " PMIN < 0", E_, (5, -eps))
            rows(ks, nm + " PMIN > PMAX", E_, (4, 1.0), (5, P))
        elif E_ is S:
            rows(ks, nm + " PMIN > 0", E_, (5, eps))
        else:
            rows(ks, nm + " PMIN > PMAX (slack)", E_, (4, 1.0), (5, P), (8, None))
        rows(ks, nm + " QMIN > QMAX", E_, (6, 1.0), (7, P), (10, None), (11, None))
        full = [(4, 10.0), (5, 0.0), (6, 5.0), (7, -5.0), (8, 8.0), (10, 4.0), (11, -4.0)]
        if E_ is S:
            full = [(4, 10.0), (5, -10.0), (6, 5.0), (7, -5.0), (8, 8.0), (9, -8.0), (10, 4.0), (11, -4.0), (12, 10.0), (13, 0.0), (14, 0.9)]
        base = dict(full)

        def var(name, **kw):
            d = dict(base)
            d.update({int(k[1:]): v for k, v in kw.items()})
            rows(ks, nm + " " + name, E_, *d.items())
        var("P+ < PMIN", _8=-10.0 - eps if E_ is S else -eps, _9=None)
        var("P+ > PMAX", _8=10 + eps)
        var("Q+ > QMAX", _10=5 + eps)
        var("Q- < QMIN", _11=-5 - eps)
        var("Q+ < Q-", _10=-1.0, _11=1.0)
        if E_ is S:
            var("P- < PMIN", _9=-10 - eps)
            var("P- > PMAX", _9=10 + eps, _8=None)
            var("P+ < P-", _8=-3.0, _9=-2.0)
            var("SOC_MIN < 0", _13=-eps)
            var("SOC_MAX None", _12=None)
            var("SOC_MAX < 0", _12=-eps, _13=None)
            var("SOC_MAX < SOC_MIN", _13=10 + eps)
            var("EFF", _14=pick(r, 0, 0.0, -0.1, 1.0001, 2))
    name, err, f = C[int(r.integers(len(C)))]
    f()
    return name, err


def c15_args(r, n, ref, E):
    good = dict(observation="state", K=2, delta_t=0.5, gamma=0.9, lamb=100, aux_bounds=np.array([[0, 1], [0, 2]]))
    obs, exp = lists(r, ref, 2)
    okargs = dict(good, observation=pick(r, "state", obs, lambda s: s), gamma=pick(r, 0, 1, 0.5), lamb=pick(r, 0, 3),
                  aux_bounds=pick(r, None, good["aux_bounds"]))
    Scripted(n, **okargs)
    bid, did = list(ref.buses)[0], list(ref.devs)[0]
    A, O = E.ArgsError, (E.ObsSpaceError,)
    cases = [("K", -1, A), ("delta_t", 0, A), ("delta_t", -0.5, A), ("gamma", -0.01, A), ("gamma", 1.01, A), ("lamb", -1, A),
             ("lamb", -0.5, A), ("aux_bounds", np.array([[0, 1]]), A), ("aux_bounds", np.array([[0, 1]] * 3), A),
             ("observation", "full", A), ("observation", 3, A), ("observation", None, A),
             ("observation", [("bus_p",)], O), ("observation", [("bus_p", "all", "MW", 1)], O),
             ("observation", [("power", "all")], E.ObsNotSupportedError), ("observation", [("bus_p", [bid, 77])], O),
             ("observation", [("dev_p", [did, 88], "MW")], O), ("observation", [("des_soc", [ref.slack_dev])], O),
             ("observation", [("gen_p_max", [ref.slack_dev])], O), ("observation", [("aux", [0, 2])], O),
             ("observation", [("aux", [-1])], O), ("observation", [("bus_p", "some")], O), ("observation", [("bus_p", 3)], O),
             ("observation", [("bus_p", "all", "MVAr")], E.UnitsNotSupportedError), ("observation", [("dev_q", "all", "MW")], E.UnitsNotSupportedError),
             ("observation", [("branch_p", [(55, 66)])], O), ("observation", [("dev_p", "all"), ("bus_v_magn", "all", "kA")], E.UnitsNotSupportedError)]
    name, val, err = cases[int(r.integers(len(cases)))]
    args = dict(good)
    args[name] = val
    if name == "K":
        args["aux_bounds"] = None
    try:
        Scripted(n, **args)
    except err:
        return "args", name, str(val)
    except Exception as e:
        ok(False, f"argument {name}={val!r} rejected with {type(e).__name__} ({e})")
    ok(False, f"argument {name}={val!r} was accepted")


# ------------------------------------------------------------------ C16
def C16(r, case):
    c = env_case(r, obs=pick(r, "list", "state"), steps=4)
    c.s0 = gen.init_state(r, c.ref, c.K)
    if case % 4 == 3:
        return c16_forecast(r)
    given = {"net": c.net, "obs": c.obs, "s0": c.s0, "nv": c.nv, "ab": c.ab, "clip": c.clip}
    before = snapshot(given)
    env = make_env(c)

    def chk(when):
        for k in given:
            ok(same(before[k], given[k]), f"{when} modified the caller's data ({k})", got=given[k], want=before[k])
    chk("building the environment")
    obs, _ = reset(env, c)
    chk("reset")
    handed = [(obs, np.array(obs)), (env.state, np.array(env.state))]
    for k in range(4):
        a = an_action(r, c, env)
        a0 = np.array(a)
        out = env.step(a)
        ok(same(a, a0), "step modified the action")
        chk("step")
        for x, y in handed:
            ok(same(x, y), "a state or observation handed out earlier was changed by a later step", got=x, want=y)
        handed += [(out[0], np.array(out[0])), (env.state, np.array(env.state))]
        if out[2]:
            break
    env.n_init, env.n_next = 0, 0
    env.reset()
    chk("reset")
    for x, y in handed:
        ok(same(x, y), "a state or observation handed out earlier was changed by a reset", got=x, want=y)
    # the simulator alone
    sim = Simulator(c.net, c.delta, c.lamb)
    s0 = np.array(c.s0)
    sim.reset(c.s0)
    ok(same(s0, c.s0), "Simulator.reset modified the initial state")
    args = gen.setpoints(r, c.ref)
    old = snapshot(args)
    sim.transition(*args)
    ok(same(old, args), "Simulator.transition modified its arguments")
    chk("Simulator")
    return desc(c.net)


def c16_forecast(r):
    from gym_anm.agents import MPCAgent
    c, env = mpc_case(r)
    N = int(r.integers(1, 4))
    fl, fg = rand_forecast(r, c, N)

    class Ag(MPCAgent):
        def forecast(self, env):
            return fl, fg
    before = (np.array(fl), np.array(fg), snapshot(c.net), np.array(c.s0))
    ag = Ag(env.simulator, env.action_space, 0.9, planning_steps=N)
    sim0 = snapshot_sim(env.simulator)
    st0 = snapshot(env.simulator.state)
    lo, hi = np.array(env.action_space.low), np.array(env.action_space.high)
    solve(ag, env)
    ok(same(before[0], fl) and same(before[1], fg), "the agent modified the forecasts")
    ok(same(before[2], c.net) and same(before[3], c.s0), "the agent modified the caller's data")
    ok(same(st0, env.simulator.state) and same(sim0, snapshot_sim(env.simulator)), "the agent modified the simulator's state")
    ok(same(lo, env.action_space.low) and same(hi, env.action_space.high), "the agent modified the action space")
    return "forecast", N


# ------------------------------------------------------------------ C17
def C17(r, case):
    net, ref, delta, lamb, sim = new_sim(r, n_dev=int(r.integers(1, 8)))
    got = sim.state_bounds
    for key, unit in ALLQ:
        ids = list(ids_of(ref, key))
        ok(set(got[key]) == set(ids), "elements with declared range of " + key, got=list(got[key]), want=ids)
        for i in ids:
            lo, hi = (float(x) for x in got[key][i][unit])
            w = bounds(ref, key, i, unit)
            ok(near(lo, w[0], 1e-12) and near(hi, w[1], 1e-12), f"declared range of {key} [{unit}]", element=i, got=(lo, hi), want=w, net=desc(net))
            ok(lo <= hi, f"declared range of {key} is empty", element=i, got=(lo, hi))
    sp = sim.get_rendering_specs()
    B = ref.base
    for i, b in ref.buses.items():
        ok(vnear(sp["bus_v"][i]["pu"], (b.vmin, b.vmax)) and vnear(sp["bus_v"][i]["kV"], (b.vmin * b.kv, b.vmax * b.kv)), "voltage limits for display", bus=i, got=sp["bus_v"][i])
    for i, l in ref.lines.items():
        ok(vnear(sp["branch_s"][i]["pu"], (0, l.rate)) and vnear(sp["branch_s"][i]["MVA"], (0, l.rate * B)), "line ratings for display", line=i, got=sp["branch_s"][i], want=l.rate)
    for i, d in ref.devs.items():
        ok(sp["dev_type"][i] == d.type, "device types for display", dev=i)
        ok(vnear(sp["dev_p"][i]["MW"], bounds(ref, "dev_p", i, "MW")) and vnear(sp["dev_q"][i]["MVAr"], bounds(ref, "dev_q", i, "MVAr")), "device limits for display", dev=i)
    return desc(net)


# ------------------------------------------------------------------ C18
PROFILE = json.loads(open(__file__.replace("props.py", "anm6_profiles.json")).read())


def C18(r, case):
    from gym_anm.envs import ANM6Easy
    seed = int(r.integers(0, 10**6))
    steps = pick(r, 3, 5, 100) if case % 6 == 0 else 4
    A, B = ANM6Easy(), ANM6Easy()
    if r.random() < 0.5:  # a history in one of them
        B.reset(seed=int(r.integers(100)))
        for _ in range(2):
            B.step(np.clip(r.normal(size=6) * 20, B.action_space.low, B.action_space.high))
    oa, _ = A.reset(seed=seed)
    ob, _ = B.reset(seed=seed)
    ok(vnear(oa, ob, 1e-3), "two resets with the same seed differ", got=ob, want=oa)
    ok(A.date == B.date, "dates differ")
    ok(A.state.shape == (18,) and oa.shape == (18,), "size of the state", got=A.state.shape)
    init = A.init_state()
    ok(init.size == 18, "size of the initial state", got=init.size)
    lo, hi = 0.0, 100.0
    ok(lo <= init[14] <= hi and lo <= A.state[14] <= hi, "initial charge is not feasible", got=init[14])
    t = A.state[-1]
    ok(t == int(t) and 0 <= t < 96, "initial quarter-hour", got=t)
    ok(init[-1] == int(init[-1]) and 0 <= init[-1] < 96, "initial quarter-hour", got=init[-1])
    chk_profile(A, int(t))
    for k in range(steps):
        if B.terminated or A.terminated:
            break
        a = r.uniform(A.action_space.low, A.action_space.high) * pick(r, 0.2, 1)
        x, y = A.step(a), B.step(np.array(a))
        ok(vnear(x[0], y[0], 1e-3) and near(x[1], y[1], 1e-3) and x[2] == y[2], "trajectories differ", got=y[:3], want=x[:3])
        if x[2]:
            break
        t = (t + 1) % 96
        ok(A.state[-1] == t, "quarter-hour does not advance by one modulo 96", got=A.state[-1], want=t)
        ok(x[0][-1] == t, "quarter-hour in the observation", got=x[0][-1], want=t)
        chk_profile(A, int(t))
    # any quarter hour, wrap-around included
    s = np.array(A.state)
    for q in (int(r.integers(96)), 95, 0):
        s[-1] = q
        nv = A.next_vars(s)
        w = [PROFILE["load"][j][(q + 1) % 96] for j in range(3)] + [PROFILE["gen"][j][(q + 1) % 96] for j in range(2)] + [(q + 1) % 96]
        ok(vnear(nv, w), "stochastic variables are not the entries of the profiles", quarter=q, got=nv, want=w)
    return seed, steps


def chk_profile(env, t):
    for j, i in enumerate((1, 3, 5)):
        want = R.clip(PROFILE["load"][j][t], [-10, -30, -30][j], 0)
        ok(near(env.simulator.state["dev_p"]["MW"][i], want), "demand is not the profile's entry", quarter=t, dev=i, got=env.simulator.state["dev_p"]["MW"][i], want=want)
    for j, i in enumerate((2, 4)):
        want = R.clip(PROFILE["gen"][j][t], 0, [30, 50][j])
        ok(near(env.simulator.state["gen_p_max"]["MW"][i], want), "available power is not the profile's entry", quarter=t, dev=i, got=env.simulator.state["gen_p_max"]["MW"][i], want=want)


# ------------------------------------------------------------------ C19
def C19(r, case):
    from gym_anm.agents import MPCAgentConstant, MPCAgentPerfect
    if case % 2:
        c, env = mpc_case(r)
        N = int(r.integers(1, 6))
        ag = MPCAgentConstant(env.simulator, env.action_space, 0.9, planning_steps=N)
        for k in range(3):
            fl, fg = ag.forecast(env)
            fl, fg = np.array(fl), np.array(fg)
            st = env.simulator.state
            ok(fl.shape[-1:] == (N,) or not c.ref.loads, "shape of the load forecast", got=fl.shape, want=(len(c.ref.loads), N))
            for j, i in enumerate(c.ref.loads):
                ok(vnear(fl[j], [float(env.simulator.devices[i].p)] * N), "constant load forecast", dev=i, got=fl[j], want=env.simulator.devices[i].p)
            for j, i in enumerate(c.ref.nsg):
                ok(vnear(fg[j], [float(env.simulator.devices[i].p_pot)] * N), "constant generation forecast", dev=i, got=fg[j], want=env.simulator.devices[i].p_pot)
            ok(len(fl) == len(c.ref.loads) and len(fg) == len(c.ref.nsg), "size of the forecasts") if c.ref.loads and c.ref.nsg else None
            if r.random() < 0.5:
                try:
                    ag.act(env)    # the agent is used in between
                except Exception:
                    pass
            if env.step(an_action(r, c, env))[2]:
                break
        return "constant", N, desc(c.net)
    from gym_anm.envs import ANM6Easy
    env = ANM6Easy()
    env.reset(seed=int(r.integers(10**6)))
    N = int(pick(r, 1, 2, 5, 96, 97, 100, 192, 193, 300, int(r.integers(1, 400))))
    ag = MPCAgentPerfect(env.simulator, env.action_space, 0.9, planning_steps=N)
    for t in (int(env.state[-1]), int(r.integers(96)), 95, 94):
        env.state = np.array(env.state)
        env.state[-1] = t
        fl, fg = ag.forecast(env)
        ok(np.shape(fl) == (3, N) and np.shape(fg) == (2, N), "shape of the forecasts", got=(np.shape(fl), np.shape(fg)), N=N)
        for k in range(N):
            q = (t + 1 + k) % 96
            ok(vnear(np.array(fl)[:, k], [PROFILE["load"][j][q] / 100 for j in range(3)]), "perfect load forecast", t=t, k=k, N=N, got=np.array(fl)[:, k])
            ok(vnear(np.array(fg)[:, k], [PROFILE["gen"][j][q] / 100 for j in range(2)]), "perfect generation forecast", t=t, k=k, N=N, got=np.array(fg)[:, k])
    return "perfect", N


# ------------------------------------------------------------------ C20
def mpc_case(r, finite=True):
    for _ in range(20):
        c = env_case(r, obs="state", K=0, steps=3, n_dev=int(r.integers(3, 7)), absent=0.05 if finite else 0.2,
                     types=(-1, 1, 2, 3, 3))
        if not (c.ref.loads and c.ref.nsg and c.ref.des):
            continue
        if not all(math.isfinite(x) for i in c.ref.nsg + c.ref.des for x in (c.ref.devs[i].pmin, c.ref.devs[i].pmax)):
            continue
        if converges(c):
            env = make_env(c)
            env.reset()
            return c, env
    raise Skip


def rand_forecast(r, c, N):
    fl = np.array([[-float(r.uniform(0, 0.2)) for _ in range(N)] for _ in c.ref.loads]).reshape(len(c.ref.loads), N)
    fg = np.array([[c.ref.devs[i].pmin + float(r.uniform(0, 1.2)) * (c.ref.devs[i].pmax - c.ref.devs[i].pmin) for _ in range(N)] for i in c.ref.nsg]).reshape(len(c.ref.nsg), N)
    return fl, fg


def solve(ag, env):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            a = ag.act(env)
        except TypeError as e:
            if "NoneType" in str(e):
                raise Skip  # infeasible plan: excluded
            raise
    return a


def dc_lp(c, N, fl, fg, soc0, gamma, margin, lamb, delta, fix=None, cut=None):
    """Independent LP of the documented N-stage DC OPF; returns the optimal value (or None)."""
    from scipy.optimize import linprog
    ref = c.ref
    bus, dev, des, lines = list(ref.buses), list(ref.devs), ref.des, list(ref.lines)
    nb, nd, ns, nl = len(bus), len(dev), len(des), len(lines)
    per = nb + nd + 2 * ns + nl
    nv = per * N
    TH, PD, CH, DI, OV = 0, nb, nb + nd, nb + nd + ns, nb + nd + 2 * ns
    Y = ref.ybus()
    cost = np.zeros(nv)
    Ae, be, Au, bu = [], [], [], []
    lo, hi = np.full(nv, -np.inf), np.full(nv, np.inf)
    sus = {(f, t): Y[bus.index(f), bus.index(t)].imag for f, t in lines}
    for k in range(N):
        o = k * per
        for j, b in enumerate(bus):
            lo[o + TH + j], hi[o + TH + j] = (0, 0) if b == ref.slack_bus else (-PI, PI)
            row = np.zeros(nv)
            for (f, t) in lines:
                # the DC flow leaving bus b on the line (B_ij of the nodal matrix, seen from b)
                if b in (f, t):
                    other = t if b == f else f
                    B = Y[bus.index(b), bus.index(other)].imag
                    row[o + TH + j] += B
                    row[o + TH + bus.index(other)] -= B
            for m, i in enumerate(dev):
                if ref.devs[i].bus == b:
                    row[o + PD + m] -= 1
            Ae.append(row); be.append(0.0)
        for m, i in enumerate(dev):
            d = ref.devs[i]
            if d.load:
                x = fl[ref.loads.index(i)][k]
                lo[o + PD + m] = hi[o + PD + m] = x
            elif d.nsg:
                lo[o + PD + m], hi[o + PD + m] = d.pmin, min(d.pmax, fg[ref.nsg.index(i)][k])
                if lo[o + PD + m] > hi[o + PD + m]:
                    return None
            elif d.des:
                lo[o + PD + m], hi[o + PD + m] = d.pmin, d.pmax
            if d.slack or d.type == 1:
                cost[o + PD + m] += gamma ** k
        for s, i in enumerate(des):
            d = ref.devs[i]
            lo[o + CH + s] = lo[o + DI + s] = 0
            row = np.zeros(nv)
            row[o + PD + dev.index(i)] = 1; row[o + DI + s] = -1; row[o + CH + s] = 1
            Ae.append(row); be.append(0.0)
            row = np.zeros(nv)
            for kk in range(k + 1):
                row[kk * per + CH + s] += delta * d.eff
                row[kk * per + DI + s] -= delta / d.eff
            Au.append(row); bu.append(d.socmax - soc0[i])
            Au.append(-row); bu.append(soc0[i] - d.socmin)
        for e, (f, t) in enumerate(lines):
            l = ref.lines[(f, t)]
            lo[o + OV + e] = 0
            cost[o + OV + e] = gamma ** k * lamb
            if math.isfinite(l.rate):
                for sg in (1, -1):
                    row = np.zeros(nv)
                    B = sus[(f, t)] * sg
                    row[o + TH + bus.index(f)] += B
                    row[o + TH + bus.index(t)] -= B
                    row[o + OV + e] = -1
                    Au.append(row); bu.append(margin * l.rate)
    if fix is not None:
        for i, x in fix.items():
            lo[PD + dev.index(i)], hi[PD + dev.index(i)] = x - cut, x + cut
    res = linprog(cost, A_ub=np.array(Au) if Au else None, b_ub=bu if Au else None, A_eq=np.array(Ae), b_eq=be,
                  bounds=np.stack([lo, hi], 1), method="highs")
    return None if res.status != 0 else (res.fun, {i: res.x[PD + dev.index(i)] for i in ref.nsg + des})


def C20(r, case):
    from gym_anm.agents import MPCAgent
    c, env = mpc_case(r)
    N = int(pick(r, 1, 1, 2, 3, 5, int(r.integers(1, 9))))
    gamma, margin = pick(r, 0.9, 0.5, 1.0), pick(r, 0.9, 0.5, 1.0, 0.1)
    F = []

    class Ag(MPCAgent):
        def forecast(self, e):
            return F[-1]
    ag = Ag(env.simulator, env.action_space, gamma, safety_margin=margin, planning_steps=N)
    n = 0
    for _ in range(2):
        F.append(rand_forecast(r, c, N))
        fl, fg = F[-1]
        soc0 = {i: float(env.simulator.devices[i].soc) for i in c.ref.des}
        best = dc_lp(c, N, fl, fg, soc0, gamma, margin, c.lamb, c.delta)
        if best is None:
            break  # no feasible plan: excluded
        a = solve(ag, env)
        ng, nd = len(c.ref.nsg), len(c.ref.des)
        ok(a.shape == (2 * ng + 2 * nd,), "size of the action", got=a.shape)
        ok(env.action_space.contains(np.asarray(a, dtype=float)), "action outside the action space", got=a, space=env.action_space)
        zq = list(a[ng:2 * ng]) + list(a[2 * ng + nd:])
        lohi = [(c.ref.devs[i].qmin, c.ref.devs[i].qmax) for i in c.ref.nsg + c.ref.des]
        ok(all(near(x, R.clip(0.0, lo * c.ref.base, hi * c.ref.base)) for x, (lo, hi) in zip(zq, lohi)), "reactive set-points are not zero", got=zq)
        B = c.ref.base
        fix = {i: x / B for i, x in zip(c.ref.nsg + c.ref.des, list(a[:ng]) + list(a[2 * ng:2 * ng + nd]))}
        scale = 1 + abs(best[0])
        got = dc_lp(c, N, fl, fg, soc0, gamma, margin, c.lamb, c.delta, fix=fix, cut=1e-4)
        ok(got is not None, "the first-stage plan violates the DC network model, limits or storage constraints", plan=fix, best=best, net=desc(c.net))
        lam = max(1.0, c.lamb)
        ok(got[0] <= best[0] + 2e-3 * scale, "the plan is not optimal for the documented objective", plan=fix, got=got[0], want=best[0], N=N, net=desc(c.net))
        v = getattr(getattr(ag, "dc_opf", None), "value", None)
        if v is not None and getattr(ag.dc_opf, "status", "") == "optimal":
            ok(abs(v - best[0]) <= 2e-3 * scale, "optimal value of the agent's problem", got=v, want=best[0], N=N, net=desc(c.net))
        n += 1
        if env.step(np.asarray(a, dtype=float))[2]:
            break
    return n, N, gamma, margin, desc(c.net)


# ------------------------------------------------------------------ C21
class FakeServer:
    """Stand-in of websocket_server.WebsocketServer recording what each client receives."""

    def __init__(self):
        self.clients, self.inbox = [], {}

    def send_message(self, client, msg):
        self.inbox.setdefault(client["id"], []).append(msg)

    def send_message_to_all(self, msg):
        for c in self.clients:
            self.send_message(c, msg)


def C21(r, case):
    from gym_anm.envs.anm6_env.rendering.py import servers
    if case % 2 == 0:
        return c21_server(r, servers)
    return c21_env(r)


def c21_server(r, servers):
    ws = servers.WsServer()
    srv = FakeServer()
    want, nid, latest, sender, log = {}, 0, None, None, []
    for k in range(int(r.integers(3, 25))):
        op = pick(r, "join", "leave", "init", "update", "update")
        if op == "join" or (op in ("leave", "update", "init") and not srv.clients):
            nid += 1
            cl = {"id": nid, "handler": object(), "address": ("127.0.0.1", nid)}
            srv.clients.append(cl)
            srv.inbox[nid], want[nid] = [], []
            log.append(("join", nid))
            ws.new_client(cl, srv)
            if latest is not None:
                want[nid].append(latest)
        elif op == "leave":
            cl = pick(r, *srv.clients)
            srv.clients.remove(cl)
            log.append(("leave", cl["id"]))
            ws.client_left(cl, srv)
        else:
            cl = pick(r, *srv.clients)
            msg = json.dumps({"messageLabel": op, "n": k, "title": "t\u00e9"}, separators=pick(r, (",", ":"), (", ", ": ")))
            log.append((op, cl["id"], k))
            ws.msg_received(cl, srv, msg)
            if op == "init":
                latest, sender = msg, cl["id"]
            else:
                for x in srv.clients:
                    want[x["id"]].append(msg)
        for i in want:
            ok(srv.inbox.get(i, []) == want[i], "messages received by a viewer", viewer=i, history=log, got=srv.inbox.get(i), want=want[i])
        ok(len(srv.inbox) == len(want), "message for an unknown viewer")
    return log


def c21_env(r):
    from gym_anm.envs import ANM6Easy
    from gym_anm.envs.anm6_env.anm6 import ANM6
    if r.random() < 0.5:
        env = ANM6Easy()
        s0 = None
    else:
        sim = None

        class E(ANM6):
            def init_state(self):
                return np.array([0.0] * 14 + [50.0, 30.0, 40.0])

            def next_vars(self, s):
                k = self.heavy
                return np.array([-2.0, -4.0 if not k else -90000.0, -1.0, 20.0, 10.0])
        env = E("state", 0, float(pick(r, 0.25, 0.5, 1.0, 2.05, 0.01, 24.0, 1000.0, 3000.0)), 0.9, 100, None, pick(r, (1, 100), None, (None, 50), (2, None)))
        env.heavy = False
        env.simulator.devices[3].p_min = -1e3    # so that a heavy load can collapse the network
    rt.SENT.clear()
    opts = None
    d0 = dt.datetime(2020, int(r.integers(1, 13)), int(r.integers(1, 28)))
    given = r.random() < 0.6
    env.reset(seed=int(r.integers(1000)), options={"date_init": d0} if given else None)
    per = dt.timedelta(hours=env.delta_t)
    if isinstance(env, ANM6Easy):
        start = env.date
        if given:
            ok(start == d0 + int(env.state[-1]) * per, "date after the reset", got=start)
    else:
        start = d0 if given else env.date
    ok(env.date == start and start.hour * 60 + start.minute == (0 if not isinstance(env, ANM6Easy) else int(env.state[-1]) * 15), "date after the reset", got=env.date)
    skip = int(r.integers(0, 4))
    env.render(skip_frames=skip)
    sent = [json.loads(m) for _, m in rt.SENT]
    ok([m["messageLabel"] for m in sent] in (["init", "update"], ["init"]), "first messages", got=[m["messageLabel"] for m in sent])
    strict(rt.SENT)
    ref = R.Net(anm6_net())
    m = sent[0]
    B = ref.base
    big = lambda a: max(abs(a[0]), abs(a[1]))
    ok(m["deviceType"] == [d.type for d in ref.devs.values()], "deviceType", got=m["deviceType"])
    ok(vnear(m["pMax"], [big(bounds(ref, "dev_p", i, "MW")) for i in ref.devs]), "pMax", got=m["pMax"])
    ok(vnear(m["qMax"], [big(bounds(ref, "dev_q", i, "MVAr")) for i in ref.devs]), "qMax", got=m["qMax"])
    ok(vnear(m["sRate"], [l.rate * B for l in ref.lines.values()]), "sRate", got=m["sRate"])
    ok(vnear(m["vMagnMin"], [b.vmin for b in ref.buses.values()]) and vnear(m["vMagnMax"], [b.vmax for b in ref.buses.values()]), "voltage limits")
    ok(vnear(m["socMax"], [ref.devs[i].socmax * B for i in ref.des]), "socMax")
    ok(m["title"] == type(env).__name__, "title", got=m["title"])
    # with k skipped frames the picture is updated once every k+1 calls
    drawn = [0] if any(x["messageLabel"] == "update" for x in sent) else []
    again, k0 = int(r.integers(0, 18)), 0    # a reset in the middle (sometimes)
    for k in range(9):
        if hasattr(env, "heavy") and k == 3 and r.random() < 0.5:
            env.heavy = again < k or again > 8
        if k == again:
            opts = {"date_init": d0} if given else None
            env.reset(seed=int(r.integers(1000)), options=opts)
            k0, start = k, env.date
            want = int(env.state[-1]) * per if isinstance(env, ANM6Easy) else 0 * per
            ok(start == d0 + want if given else start.hour * 3600 + start.minute * 60 == want.total_seconds(), "date after a later reset", got=start)
        env.step(np.zeros(6))
        ok(env.date == start + (k + 1 - k0) * per, "date does not advance by one time step", got=env.date, want=start + (k + 1 - k0) * per)
        before = len(rt.SENT)
        env.render(skip_frames=skip)
        new = rt.SENT[before:]
        ok(len(new) <= 1, "several updates for one frame")
        drawn += [k + 1] * len(new)
        strict(new)
        for _, msg in new:
            chk_update(env, json.loads(msg), start + (k + 1 - k0) * per, start)
    ok(drawn and drawn[0] <= skip and all(y - x == skip + 1 for x, y in zip(drawn, drawn[1:])) and 9 - drawn[-1] <= skip,
       "one update every skip_frames + 1 calls", skip=skip, updates_at_calls=drawn)
    env.close()
    return type(env).__name__, skip, given


def anm6_net():
    return json.loads(open(__file__.replace("props.py", "anm6_network.json")).read())


def strict(msgs):
    def bad(x):
        raise Violation("a message is not well-formed JSON: " + x)
    for _, m in msgs:
        try:
            json.loads(m, parse_constant=bad)
        except ValueError as e:
            ok(False, "a message is not well-formed JSON", message=m)


def chk_update(env, m, date, start):
    ok(m["messageLabel"] == "update", "label", got=m["messageLabel"])
    st = env.simulator.state
    fin = lambda xs: [float(x) if math.isfinite(x) else None for x in xs]
    ok(m["time"] == [date.month, date.day, date.hour, date.minute], "date of the update", got=m["time"], want=date)
    ok(m["yearCount"] == (date - start).days // 365, "year count", got=m["yearCount"])
    for name, key, unit, ids in (("pInjections", "dev_p", "MW", range(7)), ("qInjections", "dev_q", "MVAr", range(7)),
                                 ("sFlows", "branch_s", "MVA", [(0, 1), (1, 2), (1, 3), (2, 4), (2, 5)]),
                                 ("socStorage", "des_soc", "MWh", [6]), ("pPotential", "gen_p_max", "MW", [2, 4]),
                                 ("vMagn", "bus_v_magn", "pu", range(6))):
        want = fin([st[key][unit][i] for i in ids])
        ok(m[name] == want or (None not in want and None not in m[name] and vnear(m[name], want)), name + " of the update", got=m[name], want=want)
    ok(m["networkCollapsed"] == (not env.simulator.pfe_converged), "networkCollapsed")
    want = fin([env.e_loss, env.penalty])
    ok(m["reward"] == want or (None not in want and vnear(m["reward"], want)), "costs of the update", got=m["reward"], want=want)
