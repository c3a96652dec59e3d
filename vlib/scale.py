"""Recordings of one history in several units (C23), judged by spec/SymTrace.tla."""
from copy import copy
from .hist import *
from .macro import lin_tangent


def in_units(cell, sL, sE, se):
    """The same cell with lengths times sL, moduli times sE, strains times se."""
    c = copy(cell)
    c.len = [x * sL for x in cell.len]
    c.width = cell.width * sL
    c.tol = cell.tol * sE * se
    c.m1, c.m2 = (Mat(m.E * sE, m.nu, m.Sy * sE * se, m.Ka * sE, m.typ) for m in (cell.m1, cell.m2))
    return c


def pick_units(rnd, cell, n):
    """Factors of length, stress and strain: one at a time, all together, and far
    out.  Iterated cells stop at an absolute residual force: where lengths go far
    out, moduli compensate, so that the forces stay what they were."""
    out = []
    for i in range(n):
        far = i % 5 == 4
        if cell.exact:
            s = [10 ** rnd.uniform(-7, 4), 10 ** rnd.uniform(-18, 14), 10 ** (rnd.uniform(-3.5, 3) if far else rnd.uniform(-0.7, 1.5))]
        elif far:
            L = 10 ** (rnd.uniform(-6, -3) if rnd.random() < 0.6 else rnd.uniform(2, 4))
            s = [L, rnd.choice([1.0, 2.0, 3.0]) * L ** (1 - cell.dim), 1.0]
        else:
            s = [rnd.choice([0.5, 2.0, 3.0, 8.0, 1.7]), rnd.choice([0.5, 2.0, 3.0, 10.0, 20.0]), rnd.choice([0.5, 2.0, 3.0, 1.3])]
        if i % 5 < 3:
            s = [x if j == i % 5 else 1.0 for j, x in enumerate(s)]
        out.append(s)
    return out


def with_threshold(c, exe, cell, S, rnd):
    """A threshold above the first strain's invariant and below those of all
    others that could yield (0 if there is none)."""
    v, _ = lin_tangent(c, exe, cell)
    n = cell.nvoi
    if len(v) != n * n:
        return 0.0
    inv = [abs(sum(v[i * n + j] * s[j] for i in range(cell.dim) for j in range(n))) for s in S]
    lo = inv[0]
    others = [x for x, s in zip(inv[1:], S[1:]) if any(s)]
    return lo * 1.1 if lo > 0 and all(x > lo * 1.2 for x in others) else 0.0


def scale_job(c, exe, cell, S, behs, units, obs="dense", sharp=False):
    """One trace: the behaviours on the cell, then on the same cell in other units
    (sharp: none of strain)."""
    u = sym_units(cell, S)
    if sharp:
        units = [s for s in units if s[2] == 1.0]
    # tangents are quotients over a fixed strain of 1e-8: their truncation and
    # rounding errors depend on the size of the strain
    if not sharp:
        u["ttan"] = 60000 if cell.exact else 6000
    var = cell.dim == 3

    def rec():
        T = []
        dropped = 0
        for s in [[1.0, 1.0, 1.0]] + units:
            cl = in_units(cell, *s)
            St = [[x * s[2] for x in e] for e in S]
            us = dict(u)
            us["usig"] *= s[1] * s[2]
            us["utan"] *= s[1]
            us["uvar"] *= s[2]
            us["ushot"] *= s[1] * s[2]
            R = SymRun(cl, St, **us)
            # (not compared at all where the perturbation is no small one)
            L, plan = R.script(behs, obs, tan=0.1 < s[2] < 40, var=var, shots=False, conv=not cell.exact)
            t = R.record(exe, c.scratch(), L, plan)
            T += t if not T else [dict(ev="units", f=["%.6g" % x for x in s])] + t[1:]
            dropped += R.dropped
        return T, dropped, L
    T, dropped, L = rec()
    return ("SymTrace", None, T, dict(traces=len(behs) * (1 + len(units)), again=lambda: rec()[0], script=L[:4000],
                                      note=json.dumps(dict(cell=cell.describe(), strains=S, units=units)))), dropped
