"""Seeded generators of network descriptions and inputs (never imports gym_anm)."""
import numpy as np


def rng_of(*key):
    return np.random.default_rng([int(k) & 0xFFFFFFFF for k in key])


def pick(r, *xs):
    return xs[int(r.integers(len(xs)))]


def dev_row(r, did, bus, typ, base, scale, absent=0.2):
    """A consistent device row; `scale` is the power scale in p.u."""
    row = [did, bus, typ] + [None] * 12
    s = scale * base
    some = lambda: r.random() > absent
    rnd = lambda a, b: float(np.round(r.uniform(a, b), 4))
    if typ == -1:
        row[3] = pick(r, 0.2, -0.15, 0.0, rnd(-1, 1))
        if some():
            row[4] = pick(r, 0.0, -rnd(0, 0.3) * s)
        if some():
            row[5] = (row[4] or 0.0) - rnd(0.1, 1) * s
        return row
    if typ == 0:
        if some():
            row[4] = rnd(1, 20) * s
        if some():
            row[5] = -rnd(1, 20) * s
        if some():
            row[6] = rnd(1, 20) * s
        if some():
            row[7] = -rnd(1, 20) * s
        return row
    pmin = 0.0
    if typ in (1, 2):
        if some():
            row[5] = pmin = pick(r, 0.0, 0.0, rnd(0, 0.3) * s)
        if some():
            row[4] = pmin + pick(r, 0.0, rnd(0.2, 1.5) * s, rnd(0.2, 1.5) * s, rnd(0.2, 1.5) * s)
    else:
        pmin = -np.inf
        if some():
            row[4] = pick(r, 0.0, rnd(0.1, 1) * s, rnd(0.1, 1) * s, rnd(0.1, 1) * s)
        if some():
            row[5] = pmin = pick(r, 0.0, -rnd(0.1, 1) * s, -rnd(0.1, 1) * s, -rnd(0.1, 1) * s)
    pmax = row[4]
    if some():
        row[6] = rnd(0.05, 1.0) * s
    if some():
        row[7] = (row[6] if row[6] is not None else 0.0) - rnd(0.1, 1.5) * s
    shrink = r.random() < 0.7
    lo = max(pmin, -2 * s)
    hi = pmax if pmax is not None else 2 * s
    if shrink:
        # nearly vertical lines (P+ within a hair of PMAX) are beyond the accuracy of the QP solver
        a = min(lo + (hi - lo) * rnd(0.4, 1.0), hi)
        if hi - a < 0.05 * (hi - lo):
            a = hi
        if some():
            row[8] = pick(r, a, a, hi) if pmax is not None else a
        if typ == 3 and some():
            b = max(lo + (hi - lo) * rnd(0, 0.35), lo)
            if b - lo < 0.05 * (hi - lo):
                b = lo
            row[9] = b
        elif typ != 3 and r.random() < 0.2:
            row[9] = rnd(0, 1) * s  # P- is ignored for generators
        # Q+/Q-: only when the full range is given (a line from an infinite limit is not defined)
        if row[6] is not None and row[7] is not None and some():
            mid = row[7] + (row[6] - row[7]) * rnd(0.3, 0.7)
            if some():
                row[10] = min(mid + (row[6] - mid) * rnd(0, 1), row[6])
            if some():
                row[11] = max(mid - (mid - row[7]) * rnd(0, 1), row[7])
    if typ == 3:
        row[12] = rnd(0.2, 2) * s
        if some():
            row[13] = pick(r, 0.0, row[12] * rnd(0, 0.5), row[12])
        if some():
            row[14] = pick(r, 1.0, rnd(0.5, 1.0), 1)
    return row


def network(r, n_bus=None, absent=0.2, heavy=1.0, radial=False, types=None, n_dev=None, mixed_ids=True,
            nice_lines=False):
    base = pick(r, 1, 10, 100, 100.0, 50.0)
    n = n_bus or int(r.integers(2, 6))
    ids = [int(i) for i in (r.permutation(12)[:n] if mixed_ids and r.random() < 0.8 else np.arange(n))]
    slack = pick(r, *ids)
    buses = []
    for i in ids:
        vmax = float(pick(r, 1.0, 1.05, 1.02, 1.1, np.round(r.uniform(0.97, 1.1), 3)))
        if i == slack:
            buses.append([i, 0, pick(r, 132, 33.0), vmax, pick(r, None, vmax, vmax)])
        else:
            buses.append([i, 1, pick(r, 33, 11.0, 132), vmax, pick(r, 0.9, 0.95, 0.0, vmax)])
    edges, done = [], [ids[0]]
    for i in ids[1:]:
        j = pick(r, *done)
        edges.append((i, j) if r.random() < 0.5 else (j, i))
        done.append(i)
    if not radial:
        for _ in range(int(r.integers(0, 3))):
            i, j = (int(x) for x in r.permutation(ids)[:2])
            if (i, j) not in edges and (j, i) not in edges:
                edges.append((i, j))
    edges = [edges[k] for k in r.permutation(len(edges))]
    lines = []
    tree = len(edges) == n - 1
    for f, t in edges:
        x = float(np.round(r.uniform(0.01, 0.3), 4))
        rr = pick(r, None, 0.0, float(np.round(r.uniform(0.001, 0.1), 4)), float(np.round(r.uniform(0.001, 0.1), 4)))
        if rr and r.random() < 0.1:
            x = pick(r, None, 0.0)
        b = pick(r, None, 0.0, float(np.round(r.uniform(0, 0.05), 4)))
        rate = pick(r, None, 0.0, float(np.round(r.uniform(0.01, 0.6) * heavy * base, 3)),
                    float(np.round(r.uniform(0.01, 0.6) * heavy * base, 3)))
        tap = pick(r, None, 1.0, float(np.round(r.uniform(0.9, 1.1), 3)))
        if tree:
            shift = pick(r, None, 0.0, 30.0, float(np.round(r.uniform(0, 360), 2)))
        else:
            shift = pick(r, None, 0.0, 1.5, 358.0)
        if nice_lines:
            tap, shift = pick(r, None, 1.0), pick(r, None, 0.0)
        lines.append([f, t, rr, x, b, rate, tap, shift])
    nd = n_dev if n_dev is not None else int(r.integers(1, 7))
    typs = [pick(r, *(types or (-1, 1, 2, 3, -1, 2, 3))) for _ in range(nd)]
    dids = [int(i) for i in (r.permutation(25)[: nd + 1] if mixed_ids and r.random() < 0.8 else np.arange(nd + 1))]
    devs = [dev_row(r, dids[0], slack, 0, base, 1.0, absent)]
    for d, t in zip(dids[1:], typs):
        devs.append(dev_row(r, d, pick(r, *ids), t, base, 0.15 * heavy, absent))
    order = r.permutation(len(devs))
    net = {"baseMVA": base, "bus": _arr(buses), "device": _arr([devs[k] for k in order]), "branch": _arr(lines)}
    return net


def _arr(rows):
    # object dtype whenever a value is absent, as in the documented examples
    if any(x is None for row in rows for x in row):
        return np.array(rows, dtype=object)
    return np.array(rows, dtype=float)


def around(r, lo, hi, scale=1.0):
    """A value inside, on or outside [lo, hi] (possibly infinite)."""
    a = lo if np.isfinite(lo) else (hi if np.isfinite(hi) else 0.0) - 2 * scale
    b = hi if np.isfinite(hi) else (lo if np.isfinite(lo) else 0.0) + 2 * scale
    k = int(r.integers(6))
    if k == 0:
        return float(a)
    if k == 1:
        return float(b)
    if k == 2:
        return float(a - abs(r.normal()) * scale)
    if k == 3:
        return float(b + abs(r.normal()) * scale)
    return float(r.uniform(min(a, b), max(a, b)))


def setpoints(r, ref):
    """Random transition inputs (dicts in MW / MVAr) for the reference network `ref`."""
    B = ref.base
    pl = {i: around(r, ref.devs[i].pmin * B, ref.devs[i].pmax * B, 0.05 * B) for i in ref.loads}
    pp = {i: around(r, ref.devs[i].pmin * B, ref.devs[i].pmax * B, 0.1 * B) for i in ref.nsg}
    ps, qs = {}, {}
    for i in ref.nsg + ref.des:
        d = ref.devs[i]
        ps[i] = around(r, d.pmin * B, d.pmax * B, 0.1 * B)
        qs[i] = around(r, d.qmin * B, d.qmax * B, 0.1 * B)
    return pl, pp, ps, qs


def init_state(r, ref, K=0, aux=None):
    B = ref.base
    pl, pp, ps, qs = setpoints(r, ref)
    p, q, soc, pot = [], [], [], []
    for i, d in ref.devs.items():
        if d.load:
            p.append(pl[i]); q.append(pl[i] * d.qp)
        elif d.slack:
            p.append(0.0); q.append(0.0)
        else:
            p.append(ps[i]); q.append(qs[i])
    soc = [around(r, ref.devs[i].socmin * B, ref.devs[i].socmax * B, 0.1 * B) for i in ref.des]
    pot = [pp[i] for i in ref.nsg]
    aux = list(aux) if aux is not None else [float(x) for x in r.normal(size=K)]
    return np.array(p + q + soc + pot + aux, dtype=float)


def next_vars(r, ref, K=0, aux=None):
    pl, pp, _, _ = setpoints(r, ref)
    aux = list(aux) if aux is not None else [float(x) for x in r.normal(size=K)]
    return np.array([pl[i] for i in ref.loads] + [pp[i] for i in ref.nsg] + aux, dtype=float)
