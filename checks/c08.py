"""C08: linear cells -- affine boundary, discrete equilibrium, exact stress."""
from vlib.fem import *
from vlib.fieldjobs import *


def run(c):
    fem_model(c)
    exe = c.exe()
    cells = []
    # every small shape, then random larger ones
    todo = [(a, b) for a in range(2, 7) for b in range(2, 7)]
    todo += [(a, b, d) for a in range(2, 6) for b in range(2, 6) for d in range(2, 6) if a * b * d <= 36]
    todo += [(2, 3, 7), (3, 7, 3), (7, 3, 3), (3, 3, 7), (2, 9), (9, 3), (3, 9)]
    # many nodes
    todo += [(23, 21), (18, 30), (8, 8, 7), (2, 40), (40, 3), (3, 3, 20)]
    if not c.quick:
        todo = todo * 3 + [rnd_grid(c.rnd, d, 5, minn=3)[0] for d in (2, 3) for _ in range(60)]
    for i, nn in enumerate(todo):
        dim = len(nn)
        h = rnd_grid(c.rnd, dim)[1]
        micro = i // 2 % 2
        w, wd = rnd_width(c.rnd, dim, nn, h, micro)
        fc = FemCell(c.rnd, dim, nn, h, micro, w, wd, rnd_mats(c.rnd))
        cells.append((fc, [rnd_strain(c.rnd, dim) for _ in range(2)]))
    # soft materials and small strains: forces just above what the solver accepts
    for i in range(14 if c.quick else 100):
        dim = 2 + i % 2
        n, h = rnd_grid(c.rnd, dim, 5, 3, 3, 0)
        w, wd = rnd_width(c.rnd, dim, n, h, i // 2 % 2)
        u0 = 10 ** c.rnd.uniform(-5, -2)
        fc = FemCell(c.rnd, dim, n, h, i // 2 % 2, w, wd, rnd_mats(c.rnd), u0=u0, Mu=10 ** c.rnd.uniform(-3.8, -2.5) / u0, lu=1.0)
        cells.append((fc, [rnd_strain(c.rnd, dim) for _ in range(2)]))
    c.judge(field_jobs(c, exe, cells, linear_cell))
