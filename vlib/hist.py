"""Replay of uninterpreted histories (C01, C02, C03): shared pieces."""
from .micro import *


def gen_sym(c, ids, nstr, depth, observers=False, unknown=(), num=None, seed=1):
    cfg = cfgtext("GSpec", dict(Ids="{%s}" % ",".join(map(str, ids)), NStrains=nstr, Depth=depth,
                                Observers="TRUE" if observers else "FALSE",
                                Unknown="{%s}" % ",".join(map(str, unknown))), ["Emit"])
    if num:
        b, r = behaviours("GenSym", c.work, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth + 2),
                                                       "-seed", str(seed)])
    else:
        b, r = behaviours("GenSym", c.work, cfg, workers=4)
        b.sort(key=lambda x: json.dumps(x))
    return b, r


def detoured(b, ns):
    """The same history, with another strain tried before every homogenize."""
    out, cur = [], {}
    for k, a in enumerate(b):
        if a["op"] == "Set":
            cur[a["g"]] = a["e"]
        if a["op"] == "Hom":
            for g, e in cur.items():
                out.append(dict(op="Set", g=g, e=1 + (e + k) % ns if ns > 1 else e))
            out.append(dict(op="Hom"))
            for g, e in cur.items():
                out.append(dict(op="Set", g=g, e=e))
        out.append(a)
    return out


def mat_pair(rnd):
    """A plastic material and a companion, moduli 1e6..1e7, yielding around 1e-3."""
    E = 10 ** rnd.uniform(6, 7)
    nu = rnd.choice([0.2, 0.25, 0.3])
    m1 = Mat(E, nu, E * rnd.uniform(0.7e-3, 1.0e-3), E * rnd.choice([0.3, 0.5]), 1)
    return m1


def strains(rnd, n, dim=3):
    """n strains: elastic, yielding, one that shares the normal components of the
    second, a single component, the second reversed, none at all, then levels of
    the second direction (ramps)."""
    k = 6 if dim == 3 else 3

    def direction():
        while True:
            v = [rnd.uniform(-1, 1) for _ in range(k)]
            m = max(abs(x) for x in v)
            if m > 0.3:
                return [x / m for x in v]

    def amp():
        return rnd.uniform(1.6e-3, 2.4e-3)
    nn = k // 2 if dim == 3 else 2
    a, b = direction(), direction()
    A = amp()
    out = [[2e-4 * x for x in direction()], [A * x for x in a]]
    out.append([A * x for x in a[:nn]] + [A * (0.5 if abs(x) < 0.1 else 0.9) * (-1 if y > 0 else 1)
                                           for x, y in zip(b[nn:], a[nn:])])
    j = rnd.randrange(k)
    s = amp() * rnd.choice([-1, 1])
    out.append([s if i == j else 0.0 for i in range(k)])
    out.append([-x for x in out[1]])
    out.append([0.0] * k)
    for i in range(6, n):
        f = [0.25, 0.5, 0.75, 1.25, 0.9, 1.1, 1.5, 0.6, 0.35, 0.42, 0.55, 0.68, 0.82, 1.0001][(i - 6) % 14]
        out.append([f * x for x in out[1]])
    return out[:n]


def exact_cell(rnd, size, m1, linear2=None):
    """No interior nodes; layered, so that elements differ."""
    m2 = Mat(m1.E * 2, 0.3, m1.Sy * 1.6, m1.Ka, rnd.choice([0, 1]) if linear2 is None else (0 if linear2 else 1))
    L = [rnd.choice([0.5, 1.0, 2.0]), rnd.choice([1.0, 1.5]), rnd.choice([1.0, 3.0])]
    return Cell(3, size, 1, L, 0.45 * L[1], m1, m2)


def iter_cell(rnd, size, m1, micro=1):
    """With interior nodes: solved by iteration."""
    m2 = Mat(m1.E * 2, 0.3, 0.0, 0.0, 0)
    L = [rnd.choice([1.0, 1.25]), rnd.choice([1.0, 1.5]), 1.0]
    return Cell(3, size, micro, L, 0.45 * L[1] if micro == 1 else 0.4, m1, m2)


def hard_cell(rnd, size, m1, micro=1):
    """To be used with strains far apart (far): the iteration may cycle and fail
    then.  The answers are not those of the law but still functions of the same."""
    cell = iter_cell(rnd, size, m1, micro)
    cell.hard = True
    return cell


def far(rnd, k):
    """k strains: small ones and a very large one."""
    out = []
    for i in range(k):
        s = strains(rnd, 5)[rnd.choice([0, 1, 1, 2, 3])]
        f = rnd.choice([10, 50]) if i == 1 else rnd.choice([0.1, 0.2, 0.3, 0.5])
        out.append([x * f for x in s])
    return out


def sym_units(cell, strains):
    """Integer units so that values stay below 1e9 and tolerances are meaningful:
    exact cells 2e-8 of the stress scale, iterative ones the solver's own."""
    smax = 6 * cell.m2.E * max(abs(x) for s in strains for x in s)
    cmax = 6 * max(cell.m1.E, cell.m2.E)
    if getattr(cell, "hard", False):
        return dict(usig=smax / 5e8, tsig=20, tback=2 * 10**9, utan=cmax * 1e4 / 5e8, ttan=5000, uvar=1e-8, tvar=5,
                    ushot=smax / 1e6, tshot=20)
    if cell.exact:
        return dict(usig=smax / 5e8, tsig=20, tback=20, utan=cmax / 5e8, ttan=5000, uvar=1e-8, tvar=5,
                    ushot=smax / 1e6, tshot=20)
    # residuals up to 1e-5 per solve; tangents divide by 1e-8
    return dict(usig=1e-4, tsig=100, tback=100, utan=cmax / 1e6, ttan=4000, uvar=1e-8, tvar=20,
                ushot=smax / 1e6, tshot=60)


def jobs_for(c, exe, cell, S, behs, obs="dense", chunk=900, tan=True, var=True, env=None, shots=True, parts=None, exactly=False):
    """Split behaviours into traces and record them (in parallel)."""
    n = parts or max(1, min(7, (len(behs) + chunk - 1) // chunk))
    # neighbours belong together: they are to be compared
    k = -(-len(behs) // n)
    groups = [behs[i * k:i * k + k] for i in range(n)]
    u = sym_units(cell, S)

    def one(gr):
        R = SymRun(cell, S, exactly=exactly, **u)
        L, plan = R.script(gr, obs, tan=tan, var=var, shots=shots)

        def rec():
            return R.record(exe, c.scratch(), L, plan, env=env)
        T = rec()
        return ("SymTrace", None, T, dict(traces=len(gr), again=rec, script=L[:4000],
                                          note=json.dumps(dict(cell=cell.describe(), strains=S)))), R.maxsolves
    with ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(one, [g for g in groups if g]))
    c.notes["max_linear_solves_per_homogenize"] = max(
        [c.notes.get("max_linear_solves_per_homogenize", 0)] + [m for _, m in rs])
    return [j for j, _ in rs]
