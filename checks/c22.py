"""C22: energies of cells: bounds, order, stability, work."""
from vlib.energy import *
from vlib.j2jobs import *


def near_trials(rnd, e, k, emax=9):
    """Trials around e: neighbours in single components, opposites, anywhere."""
    out = []
    for i in range(k):
        r = rnd.random()
        if r < 0.5:
            j = rnd.randrange(6)
            out.append([max(-emax, min(emax, x + (rnd.choice([-3, -2, -1, 1, 2, 3]) if i == j else 0))) for i, x in enumerate(e)])
        elif r < 0.7:
            out.append([-x for x in e])
        elif r < 0.8:
            out.append([0] * 6)
        else:
            out.append(rnd_strain(rnd, 3, emax))
    return out


def far_trials(rnd):
    """Far beyond yield along one deviatoric direction."""
    a, b = rnd.randint(-4, 4), rnd.randint(-4, 4)
    r = [a, b, -a - b] + [rnd.randint(-4, 4) for _ in range(3)]
    return [[m * x for x in r] for m in (1, 2, 3, -3)]


def run(c):
    energy_model(c)
    exe = c.exe()
    items = []
    for i in range(42 if c.quick else 420):
        dim = 2 if i % 2 else 3
        fcs = lin_chain(c.rnd, dim, i)
        es = strain_family(c.rnd, dim, emax=2 if stark(fcs) else 6)
        items.append((lambda fcs=fcs, es=es: linear_energy(c, exe, fcs, es), [f.cell.describe() for _, f, _ in fcs]))
    for i in range(28 if c.quick else 300):
        u0 = 1e-4 if i % 3 else 10 ** c.rnd.uniform(-3.5, -1.5)     # (small strains are not assumed)
        fc = mixed_cell(c.rnd, 0.7, minn=2, R0=(1, 1) if i % 4 == 1 else None)
        fc = FemCell(c.rnd, 3, fc.n, fc.h, fc.micro, fc.w, fc.wden, fc.mats, u0=u0, Mu=10 ** c.rnd.uniform(2.8, 3.8) / u0,
                     lu=c.rnd.choice([0.5, 1.0, 0.7]))
        path = rnd_path(c.rnd, 4)
        if i % 3 == 0:      # closed cycles
            path = path[:3] + [[0] * 6] + path[:2] + [[0] * 6]
        trials = [near_trials(c.rnd, e, c.rnd.choice([0, 2, 3])) for e in path]
        if i % 2:
            trials[c.rnd.randrange(len(path))] += far_trials(c.rnd)
        items.append((lambda fc=fc, path=path, trials=trials, i=i: plastic_energy(c, exe, fc, path, trials, "%d-%d" % (c.seed, i)),
                      fc.cell.describe()))
        if i < 3:
            c.sample(dict(cell=fc.cell.describe(), path=path, trials=trials))
    c.judge(energy_jobs(c, items))
