"""Configurations and recordings for the checks built on spec/J2Trace.tla."""
from .j2 import *


def soft_configs(rnd, n):
    """Materials without any initial strength."""
    out = []
    for i in range(n):
        mats = [dict(mu=1, k=1, R0=0, H=0 if i % 3 else 2, plastic=True)]
        n2 = 0
        if i % 2:
            mats.append(dict(mu=rnd.choice([1, 2]), k=2, R0=5, H=0, plastic=False))
            n2 = 1
        jc = J2Cell(rnd, rnd.choice([(2, 3, 2), (3, 3, 2)]), mats, n2=n2)
        out.append((jc, directions(rnd, 4), "no_strength", False))
    return out


def close_configs(rnd, n):
    """Loads within 1e-4 (relative) of the yield surface; along single axes, for
    which everything stays exact."""
    out = []
    for i in range(n):
        mats = [dict(mu=1, k=1, R0=rnd.choice([39999, 39998, 39997, 39993]), H=rnd.choice([0, 0, 1]), plastic=True)]
        n2 = 0
        if i % 2:
            mats.append(dict(mu=rnd.choice([1, 2]), k=1, R0=5, H=0, plastic=False))
            n2 = 1
        jc = J2Cell(rnd, rnd.choice([(2, 3, 2), (3, 3, 2)]), mats, u0=10 ** rnd.uniform(-8.5, -7), n2=n2)
        dirs = []
        for d in rnd.sample(range(5), 3):
            dirs.append([10 * rnd.choice([1, -1]) if k == d else 0 for k in range(5)])
        out.append((jc, dirs, "close_by", False))
    return out


CLOSE = dict(ks=(0, 2000, 3998, 3999, 4000, 4001, -3999, -4000, -4001), mx=41000, depth=14)


def softening_configs(rnd, n):
    """The yield radius shrinks; it never gets used up (Representable)."""
    out = []
    for i in range(n):
        mats = [dict(mu=1, k=1, R0=rnd.choice([95, 85, 65]), H=-1, plastic=True)]
        n2 = 0
        if i % 2:
            mats.append(dict(mu=rnd.choice([1, 2]), k=2, R0=5, H=0, plastic=False))
            n2 = 1
        jc = J2Cell(rnd, rnd.choice([(2, 3, 2), (3, 3, 2), (2, 2, 2) if not n2 else (2, 4, 2)]), mats, n2=n2)
        out.append((jc, directions(rnd, 4), "softening", False))
    return out


SOFTEN = dict(ks=(0, 5, 6, 7, 8, 9, 10, 11, -7, -10), mx=2000)


def configs(rnd, n, p2=(0,), iterative=0, tiny=False):
    """n cells: homogeneous, layered with an elastic companion, layered plastic."""
    out = []
    # some strains are large
    large = rnd.randrange(min(n, 4)) if n else 0
    for i in range(n):
        kind = i % 3
        p = rnd.choice(p2) if not callable(p2) else p2(i)
        R0, H = rnd.choice([5, 15, 25]), rnd.choice([0, 2])
        mats = [dict(mu=1, k=1, R0=R0, H=H, plastic=True)]
        size, n2 = rnd.choice([(2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 4), (3, 2, 3)]), 0
        if kind == 1:
            mats.append(dict(mu=rnd.choice([1, 2, 3]), k=rnd.choice([2, 3]), R0=5, H=0, plastic=False))
        elif kind == 2:
            mats.append(dict(mu=rnd.choice([1, 2]), k=rnd.choice([1, 2]), R0=R0 + 10, H=2 - H, plastic=True))
        if kind:
            size = rnd.choice([(2, 3, 2), (2, 4, 2), (3, 3, 2), (2, 3, 3)])
            n2 = rnd.choice(range(1, size[1] - 1)) if size[1] > 2 else 1
        jc = J2Cell(rnd, size, mats, p2=p, n2=n2, 
                    u0=10 ** rnd.uniform(-9, -6) if tiny else 10 ** rnd.uniform(-2.5, -0.5) if i % 4 == large else None)
        # two plastic materials: one direction, so that both stay representable
        dirs = directions(rnd, 1 if kind == 2 else 5)
        out.append((jc, dirs, "layers" if kind else "homogeneous", False))
    for i in range(iterative):
        mats = [dict(mu=1, k=1, R0=15, H=2, plastic=True)]
        jc = J2Cell(rnd, rnd.choice([(3, 3, 3), (3, 4, 3), (3, 3, 4)]), mats, u0=1e-4, nu=rnd.choice([0.0, 0.1, 0.25, 0.3, 0.45]))
        out.append((jc, directions(rnd, 4), "iterated", True))
    return out


def j2_jobs(c, exe, confs, what, ids=(1, 2), ks=(0, 1, 2, 3, -2, 5), ps=(0, 3, -4), depth=14, num=150, mx=400, obs=False):
    jobs = []

    def one(k):
        jc, dirs, kind, conv = confs[k]
        kk = [x for x in ks if abs(x) <= 2] if conv else list(ks)
        b, r = gen_j2(c, jc, [1] if conv else list(ids), dirs, kk, list(ps), depth, num // 5 if conv else num, c.seed * 1000 + k, mx, obs)

        def rec():
            return record_j2(jc, exe, c.scratch(), b, what, conv=conv, tsig=2000 if conv else 30)
        T, L, dropped = rec()
        note = json.dumps(dict(cell=jc.cell.describe(), u0=jc.u0))
        return ("J2Trace", J2TRACE, T, dict(traces=len(b), again=lambda: rec()[0], script=L[:4000], note=note)), dropped, b, r
    with ThreadPoolExecutor(4) as ex:
        for k, (j, dropped, b, r) in enumerate(ex.map(one, range(len(confs)))):
            jobs.append(j)
            c.count("behaviours_" + confs[k][2], len(b))
            c.count("episodes_cut_unconverged", dropped)
            c.states += r.distinct
            c.transitions += r.generated
            if k < 2 and b:
                c.sample(dict(cell=confs[k][0].cell.describe(), calls=b[0]))
    return jobs
