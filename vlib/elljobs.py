"""Jobs for the checks of the structured matrices."""
from .ell import *


def ell_model(c):
    r = model_check("EllMC", c.work, cfgtext(
        "MSpec", dict(Grids="GridsQ" if c.quick else "GridsT", Shapes="{1, 2}", MaxCalls=3 if c.quick else 4),
        ["Sum", "Isolated", "Interior", "Symmetric", "Products", "Stencil"]))
    c.add_model(r, "EllMC")


def ell_jobs(c, exe, bc):
    """bc: sequences ending in boundary conditions, else plain assembly."""
    small, large = [], []
    # every small grid once, then sampled larger ones
    for dim in (2, 3):
        top = 5 if dim == 2 else 4
        def rec(pre):
            if len(pre) == dim:
                small.append((dim, pre))
                return
            for v in range(2, top + 1):
                rec(pre + [v])
        rec([])
    out = []
    for dim, n in small:
        F = c.rnd.choice([1, 2, 3] if dim == 2 else [1, 1, 2, 3])
        g = Grid(dim, n, F)
        if g.N > 100:
            g = Grid(dim, n, 1)
        out.append((g, g.N <= (64 if c.quick else 200)))
    for i in range(8 if c.quick else 60):
        dim = 2 + i % 2
        F = c.rnd.choice([1, 2, 3, 4] if dim == 2 else [1, 2, 3])
        g = Grid(dim, [c.rnd.randint(2, 9 if dim == 2 else 5) for _ in range(dim)], F)
        if g.N < 320:
            out.append((g, g.N <= 60))
    # bars, plates and many unknowns per node
    for n in ([6, 2, 2], [2, 7, 2], [2, 2, 6], [6, 3, 2], [2, 3, 6], [2, 12], [12, 2], [3, 10], [9, 2, 2], [2, 2, 9]):
        g = Grid(len(n), n, c.rnd.choice([1, 2]))
        out.append((g, g.N <= 60))
    # long, with nodes inside
    for n in ([20, 3], [3, 20], [16, 4], [3, 3, 8], [3, 8, 3], [8, 3, 3], [10, 9], [c.rnd.randint(24, 40), 3], [3, 4, 10]):
        out.append((Grid(len(n), n, 1), False))
    for dim, F in ((2, 4), (2, 5), (2, 6), (3, 4), (3, 5)):
        g = Grid(dim, [c.rnd.randint(2, 3) if dim == 2 else 2 for _ in range(dim)], F)
        out.append((g, True))
        if dim == 3 and not c.quick:
            out.append((Grid(3, [3, 3, 3], F), False))
    parts = 7

    def one(k):
        mine = [x for i, x in enumerate(out) if i % parts == k]
        behs = []
        for i, (g, dense) in enumerate(mine):
            shapes = 2 if bc and i % 2 == 0 else 3
            h = []
            if bc:
                # assemble, constrain, look; reassemble with the storage used before
                h.append([dict(op="Fill", p=1, s=1 + i % 2), dict(op="Bc"), dict(op="Dense"), dict(op="Mvp", v=1),
                          dict(op="Bc"), dict(op="Dense"), dict(op="Zero"), dict(op="Fill", p=2, s=2),
                          dict(op="Mvp", v=1), dict(op="Bc"), dict(op="Mvp", v=3), dict(op="Bc"), dict(op="Mvp", v=1)])
            else:
                h.append([dict(op="Fill", p=1, s=2), dict(op="Dense"), dict(op="Mvp", v=1), dict(op="Zero"),
                          dict(op="Mvp", v=1), dict(op="Fill", p=2, s=1), dict(op="Mvp", v=2), dict(op="Mvp", v=1)])
            behs.append(h)
        # generated sequences on one grid of this part
        g0 = min(mine, key=lambda x: abs(x[0].N - 30))[0]
        b, r = gen_ell(c, g0, 9, 20 if c.quick else 150, 3, c.seed * 100 + k)

        def rec():
            T = []
            for i, (g, dense) in enumerate(mine):
                T += ell_history(c, exe, g, behs[i], "%d-%d-%d" % (c.seed, k, i), dense)[0]
            T += ell_history(c, exe, g0, b, "%d-%d-g" % (c.seed, k))[0]
            return T
        T = rec()
        return ("EllTrace", ELLTRACE, T, dict(traces=len(mine) + len(b), again=rec,
                                              note=json.dumps([g.tla() for g, _ in mine]))), r, b
    with ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(one, range(parts)))
    c.count("grids", len(out))
    for j, r, b in rs:
        c.states += r.distinct
        c.transitions += r.generated
        c.sample(b[0])
    return [j for j, _, _ in rs]
