"""Independent reference semantics of the documented gym-anm model (never imports gym_anm).

Everything is computed from the rows of a network description, with the documented
defaults for absent (None) values.  Used by the run-time contracts to decide whether an
observed behaviour of the real code satisfies a property.
"""
import cmath
import math

import numpy as np

INF = math.inf


def num(x, default=None):
    return default if x is None else float(x)


class Line:
    def __init__(self, row, base):
        self.f, self.t = int(row[0]), int(row[1])
        r, x = num(row[2], 0.0), num(row[3], 0.0)
        b = num(row[4], 0.0)
        self.rate = INF if row[5] is None else float(row[5]) / base
        a = num(row[6], 1.0)
        shift = num(row[7], 0.0) * math.pi / 180
        self.y = 1 / complex(r, x)
        self.ysh = complex(0, b / 2)
        self.tap = cmath.rect(a, shift)

    def currents(self, vf, vt):
        i_f = (self.y + self.ysh) * vf / abs(self.tap) ** 2 - self.y * vt / self.tap.conjugate()
        i_t = (self.y + self.ysh) * vt - self.y * vf / self.tap
        return i_f, i_t

    def flows(self, vf, vt):
        i_f, i_t = self.currents(vf, vt)
        return vf * i_f.conjugate(), vt * i_t.conjugate()


class Bus:
    def __init__(self, row):
        self.id, self.type = int(row[0]), int(row[1])
        self.slack = self.type == 0
        self.kv, self.vmax = float(row[2]), float(row[3])
        self.vmin = self.vmax if (row[4] is None and self.slack) else float(row[4])


class Dev:
    def __init__(self, row, base):
        self.id, self.bus, self.type = int(row[0]), int(row[1]), int(row[2])
        t = self.type
        self.load, self.gen, self.des = t == -1, t in (0, 1, 2), t == 3
        self.slack, self.rer = t == 0, t == 2
        self.nsg = t in (1, 2)
        s = lambda x, d: d if x is None else float(x) / base
        if self.load:
            self.qp = float(row[3])
            self.pmax, self.pmin = s(row[4], 0.0), s(row[5], -INF)
            if self.qp == 0:
                self.qmin = self.qmax = 0.0
            else:
                a, b = self.pmin * self.qp, self.pmax * self.qp
                self.qmin, self.qmax = min(a, b), max(a, b)
            return
        self.pmax = s(row[4], INF)
        self.pmin = s(row[5], 0.0 if self.nsg else -INF)
        self.qmax, self.qmin = s(row[6], INF), s(row[7], -INF)
        self.pp = s(row[8], self.pmax)
        self.pm = s(row[9], self.pmin)
        self.qp_, self.qm_ = s(row[10], self.qmax), s(row[11], self.qmin)
        if self.des:
            self.socmax, self.socmin = s(row[12], None), s(row[13], 0.0)
            self.eff = num(row[14], 1.0)

    def halfplanes(self, pot=None, soc=None, dt=None):
        """List of (a, b, c) meaning a*P + b*Q <= c."""
        H = [(-1, 0, -self.pmin), (1, 0, self.pmax), (0, -1, -self.qmin), (0, 1, self.qmax)]

        def narrow(p0, p1, full, part, sign):
            # the straight line from (p0, full) to (p1, part) limits sign*Q from above
            if p0 == p1 or full == part or math.isinf(p1):
                return
            m = (part - full) / (p1 - p0)
            H.append((-sign * m, sign, sign * (full - m * p0)))

        narrow(self.pp, self.pmax, self.qmax, self.qp_, 1)
        narrow(self.pp, self.pmax, self.qmin, self.qm_, -1)
        if self.des:
            narrow(self.pm, self.pmin, self.qmax, self.qp_, 1)
            narrow(self.pm, self.pmin, self.qmin, self.qm_, -1)
            H.append((-1, 0, (self.socmax - soc) / (dt * self.eff)))
            H.append((1, 0, (soc - self.socmin) * self.eff / dt))
        elif pot is not None:
            H.append((1, 0, min(max(pot, self.pmin), self.pmax)))
        return [(float(a), float(b), float(c)) for a, b, c in H if not math.isinf(c)]


def violation(H, p, q):
    return max([0.0] + [(a * p + b * q - c) / math.hypot(a, b) for a, b, c in H])


def closest(H, p, q, tol=1e-9):
    """Closest point of the polygon H to (p, q) (None if empty): exhaustive over faces."""
    cands = [(p, q)]
    for a, b, c in H:
        n = a * a + b * b
        k = (a * p + b * q - c) / n
        cands.append((p - a * k, q - b * k))
    for i in range(len(H)):
        for j in range(i):
            a, b, c = H[i]
            d, e, f = H[j]
            det = a * e - b * d
            if abs(det) > 1e-12:
                cands.append(((c * e - b * f) / det, (a * f - c * d) / det))
    best = None
    for x, y in cands:
        if violation(H, x, y) <= tol * (1 + abs(x) + abs(y)):
            d = math.hypot(x - p, y - q)
            if best is None or d < best[0]:
                best = (d, x, y)
    return best and best[1:]


class Net:
    def __init__(self, network):
        self.base = float(network["baseMVA"])
        self.buses = {b.id: b for b in sorted((Bus(r) for r in network["bus"]), key=lambda b: b.id)}
        self.lines = {(l.f, l.t): l for l in (Line(r, self.base) for r in network["branch"])}
        self.devs = {d.id: d for d in sorted((Dev(r, self.base) for r in network["device"]), key=lambda d: d.id)}
        self.slack_bus = [b.id for b in self.buses.values() if b.slack][0]
        self.slack_dev = [d.id for d in self.devs.values() if d.slack][0]
        self.loads = [d.id for d in self.devs.values() if d.load]
        self.nsg = [d.id for d in self.devs.values() if d.nsg]
        self.des = [d.id for d in self.devs.values() if d.des]
        self.rer = [d.id for d in self.devs.values() if d.rer]

    def bus_currents(self, v):
        i = {b: 0j for b in self.buses}
        for l in self.lines.values():
            a, b = l.currents(v[l.f], v[l.t])
            i[l.f] += a
            i[l.t] += b
        return i

    def ybus(self):
        ids = list(self.buses)
        Y = np.zeros((len(ids), len(ids)), complex)
        for k, b in enumerate(ids):
            i = self.bus_currents({x: 1.0 + 0j if x == b else 0j for x in ids})
            Y[:, k] = [i[x] for x in ids]
        return Y


def clip(x, lo, hi):
    return min(max(x, lo), hi)
