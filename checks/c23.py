"""C23: results do not depend on the units of length, stress and strain."""
from vlib.scale import *


def run(c):
    r = model_check("ScaleMC", c.work, cfgtext(
        "SSpec", dict(Fl="SFl", Fe="SFe", Fs="SFs", Depth=4 if c.quick else 7),
        ["SameState", "SameFlag", "SameAnswer", "SameGeometry"]))
    c.add_model(r, "ScaleMC")
    exe = c.exe()
    work = []
    for i in range(14 if c.quick else 100):
        m1 = mat_pair(c.rnd)
        kind = i % 7
        if kind in (0, 2, 4):
            cell = exact_cell(c.rnd, c.rnd.choice([(2, 3, 2), (3, 3, 2), (2, 4, 3), (4, 2, 2)]), m1)
            depth, num, ns = 12, 40, 6
        elif kind in (1, 3, 5):
            cell = iter_cell(c.rnd, c.rnd.choice([(3, 3, 3), (4, 3, 3), (3, 4, 3), (3, 3, 4), (4, 4, 4)]), m1, micro=c.rnd.randrange(2))
            depth, num, ns = 8, 8, 5
        else:
            dim2 = c.rnd.choice([(4, 4), (6, 5), (3, 7)])
            cell = Cell(2, list(dim2) + [1], c.rnd.randrange(2), [c.rnd.choice([1.0, 2.0]), c.rnd.choice([1.0, 1.5]), 0.0], 0.4,
                        Mat(m1.E, m1.nu), Mat(m1.E * 3, 0.2))
            depth, num, ns = 8, 12, 5
        S = strains(c.rnd, ns, cell.dim)
        b, r = gen_sym(c, [1, 2], ns, depth, num=num if c.quick else num * 4, seed=c.seed * 100 + i)
        c.states += r.distinct
        if i % 2 or kind == 2:
            for _ in range(4):
                cell.tol = with_threshold(c, exe, cell, S, c.rnd)
                if cell.tol:
                    break
                S = strains(c.rnd, ns, cell.dim)
            c.count("cells_with_threshold", 1 if cell.tol else 0)
        units = pick_units(c.rnd, cell, 5)
        work.append((cell, S, b, units))
        if i < 3:
            c.sample(dict(cell=cell.describe(), units=units, calls=b[0] if b else []))
    with ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(lambda a: scale_job(c, exe, *a), work))
        # much smaller and much larger, one unit at a time, strains the same
        wide = [[10 ** c.rnd.uniform(-6, -2), 1.0, 1.0], [10 ** c.rnd.uniform(1.5, 4), 1.0, 1.0],
                [1.0, 10 ** c.rnd.uniform(-12, -3), 1.0], [1.0, 10 ** c.rnd.uniform(3, 12), 1.0]]
        sh = list(ex.map(lambda a: scale_job(c, exe, *a, sharp=True), [w[:3] + (wide,) for w in work if w[0].exact]))
    for (j, d), w in zip(rs, work):
        c.count("episodes_cut_unconverged", d)
        c.count("unit_changes_" + ("exact" if w[0].exact else "iterated"), len(w[3]))
    c.judge([j for j, _ in rs + sh])
