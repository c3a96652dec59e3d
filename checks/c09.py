"""C09: the cell carries the imposed strain and reports the mean stress."""
from vlib.fieldjobs import *


def linear(c, exe, fc, path):
    return plastic_path(c, exe, fc, path, {"mean", "ave"})


def run(c):
    fem_model(c)
    exe = c.exe()
    cells = []
    for i in range(14 if c.quick else 200):
        dim = 3 if i % 3 else 2
        nn, h = rnd_grid(c.rnd, dim, 4, minn=2)
        micro = i // 2 % 2
        w, wd = rnd_width(c.rnd, dim, nn, h, micro)
        # with a threshold above every invariant the answer comes from the shortcut
        tol = 1e30 if i % 4 == 3 else 0.0
        fc = FemCell(c.rnd, dim, nn, h, micro, w, wd, rnd_mats(c.rnd), tol=tol)
        cells.append((fc, [rnd_strain(c.rnd, dim) for _ in range(2)]))
    for nn in ((22, 19), (8, 7, 8), (3, 30), (3, 20, 3)):
        h, micro = rnd_grid(c.rnd, len(nn))[1], c.rnd.randrange(2)
        w, wd = rnd_width(c.rnd, len(nn), nn, h, micro)
        cells.append((FemCell(c.rnd, len(nn), nn, h, micro, w, wd, rnd_mats(c.rnd)), [rnd_strain(c.rnd, len(nn))]))
    for i in range(14 if c.quick else 200):
        fc = mixed_cell(c.rnd, 0.6, minn=2)
        cells.append((fc, rnd_path(c.rnd, 3)))
    c.judge(field_jobs(c, exe, cells, linear))
