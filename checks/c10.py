"""C10: every element gets the material its position calls for."""
from vlib.fieldjobs import *
from vlib.j2jobs import *


def any_cell(c, exe, fc, arg, kind):
    if kind == "geo":
        return geo_cell(c, exe, fc, arg)
    if kind == "lin":
        return linear_cell(c, exe, fc, arg)
    return plastic_path(c, exe, fc, arg, {"geo", "stressp"})


def run(c):
    fem_model(c)
    exe = c.exe()
    cells = []
    for i in range(150 if c.quick else 1500):
        dim = 3 if i % 3 else 2
        big = i % 10 == 0
        nn = [c.rnd.randint(2, (12 if dim == 2 else 8) if big else 5) for _ in range(dim)]
        h = [c.rnd.randint(1, 3) for _ in range(3)]
        micro = c.rnd.randrange(2)
        lu = None
        r = c.rnd.random()
        if r < 0.15:                                   # nothing is inclusion
            w, wd = 0, 1
        elif r < 0.25:                                 # everything
            w, wd = 4 * sum(((nn[d] - 1) * h[d]) ** 2 for d in range(dim)) + 1, 1
        elif r < 0.6:                                  # ties, exact in binary
            lu = c.rnd.choice([0.25, 0.5, 1.0, 2.0, 0.125])
            if micro == 1:
                w, wd = c.rnd.choice([(2 * e + 1) * h[1] for e in range(nn[1] - 1)]), 1
            else:
                # centre distances that are whole numbers
                ds = set()
                for _ in range(60):
                    o = [(2 * c.rnd.randrange(nn[d] - 1) + 1 - (nn[d] - 1)) * h[d] for d in range(dim)]
                    s = sum(x * x for x in o)
                    if math.isqrt(s) ** 2 == s:
                        ds.add(s)
                if ds:
                    w, wd = c.rnd.choice(sorted(ds)), 1
                    c.count("ties")
                else:
                    w, wd = rnd_width(c.rnd, dim, nn, h, micro)
        else:
            w, wd = rnd_width(c.rnd, dim, nn, h, micro)
        fc = FemCell(c.rnd, dim, nn, h, micro, w, wd, rnd_mats(c.rnd), lu=lu)
        cells.append((fc, [], "geo"))
    for nn in ((11, 9, 8), (8, 10, 9), (40, 27), (17, 33), (3, 60), (2, 2, 70), (50, 3, 3), (3, 40, 3)):
        for micro in (0, 0, 1):
            h = [c.rnd.randint(1, 2) for _ in range(3)]
            w, wd = rnd_width(c.rnd, len(nn), nn, h, micro)
            cells.append((FemCell(c.rnd, len(nn), nn, h, micro, w, wd, rnd_mats(c.rnd)), [], "geo"))
    for i in range(14 if c.quick else 150):
        dim = 3 if i % 3 else 2
        nn, h = rnd_grid(c.rnd, dim, 4, minn=2)
        w, wd = rnd_width(c.rnd, dim, nn, h, i % 2)
        fc = FemCell(c.rnd, dim, nn, h, i % 2, w, wd, rnd_mats(c.rnd))
        cells.append((fc, [rnd_strain(c.rnd, dim)], "lin"))
    for i in range(14 if c.quick else 150):
        fc = pla_cell(c.rnd, 4, 2, minn=2)
        cells.append((fc, rnd_path(c.rnd, 2), "pla"))
    c.rnd.shuffle(cells)
    for a in cells[:3]:
        c.sample(a[0].cell.describe())
    jobs = field_jobs(c, exe, cells, any_cell)
    # parameters at the ends of their ranges
    jobs += j2_jobs(c, exe, soft_configs(c.rnd, 3 if c.quick else 12) + configs(c.rnd, 3 if c.quick else 12), {"sig", "var"},
                    ids=(1,), num=30 if c.quick else 300)
    c.judge(jobs)
