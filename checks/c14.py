"""C14: Newton iterations are bounded and reported truthfully."""
from vlib.newton import *
from vlib.macro import lin_tangent


def run(c):
    r = model_check("NewtonMC", c.work, cfgtext("NSpec", dict(Res="ResC"), ["Truthful", "Bounded"], ["Ends"]))
    c.add_model(r, "NewtonMC")
    exe = c.exe()
    behs, r = gen_sym(c, [1, 2, 3], 4, 24, observers=True, num=40 if c.quick else 400, seed=c.seed)
    b2, r2 = gen_sym(c, [1, 2, 3], 4, 18, num=40 if c.quick else 400, seed=c.seed + 1)
    behs += b2
    c.states += r.distinct + r2.distinct
    c.rnd.shuffle(behs)
    c.sample(behs[0])
    items = []
    for i in range(84 if c.quick else 840):
        rnd = random.Random("c14-%d-%d" % (c.seed, i))
        kind = ["linear", "plastic", "plastic", "rigid", "short", "hard", "stiff"][i % 7] if i % 28 != 27 else "wild"
        dim = 3 if kind in ("plastic", "hard", "stiff", "wild") else rnd.choice([2, 3])
        m = mat_pair(rnd)
        E = m.E
        S = strains(rnd, 4, dim)
        if kind in ("linear", "short"):
            size = [rnd.randint(3, 5 if dim == 2 else 4) for _ in range(dim)]
            cell = Cell(dim, size, 1, [1.0, 1.25, 1.5][:dim] if dim == 3 else [1.0, 1.5], 0.45, Mat(E, 0.3), Mat(3 * E, 0.2))
        elif kind == "rigid":
            size = [rnd.randint(2, 4) for _ in range(dim)]
            size[rnd.randrange(dim)] = 2
            cell = Cell(dim, size, rnd.choice([0, 1]), [1.0, 1.5, 0.75][:dim], 0.4, m, Mat(2 * E, 0.3))
        else:
            size = [rnd.randint(3, 4) for _ in range(3)]
            cell = iter_cell(rnd, size, m, rnd.choice([0, 1]))
            if kind == "stiff":     # residuals that rounding keeps above the tolerance
                z = 10.0 ** rnd.randint(10, 13)
                cell = Cell(3, [3, rnd.randint(3, 4), 3], 1, [1.0, 1.5, 1.0], 0.6, Mat(E * z, 0.3, m.Sy * z, m.Ka * z, 1),
                            Mat(2 * E * z, 0.3))
            if kind == "wild":      # loads that overflow
                cell.size = [3, 3, 3]
                z = rnd.choice([1e80, 1e160, 1e300, 1e308])
                S = [[x * z * 400 for x in s] for s in S[:2]] + S[2:]
            if kind == "hard":      # loads for which the iteration may not converge
                cell.m1 = Mat(E, 0.3, E * 1e-5, 0.0, 1)
                cell.m2 = Mat(E * 50, 0.3, E * 5e-4, 0.0, rnd.choice([0, 1]))
                S = [[x * rnd.choice([1, 5, 20]) for x in s] for s in S]
        C = None
        k2 = {"short": "linear", "hard": "plastic", "stiff": "plastic"}.get(kind, kind)
        if kind == "short":
            v, _ = lin_tangent(c, exe, cell)
            if len(v) == cell.nvoi ** 2:
                C = v
                n = cell.nvoi
                inv = sorted(abs(sum(C[a * n + b] * s[b] for a in range(dim) for b in range(n))) for s in S)
                cell.tol = (inv[1] + inv[2]) / 2
        if kind == "linear" and i % 3 == 0:       # many unknowns, distant materials
            size = [rnd.randint(10, 18) for _ in range(2)] if dim == 2 else [rnd.randint(5, 6) for _ in range(3)]
            cell = Cell(dim, size, rnd.choice([0, 1]), [1.0, 1.5, 1.25][:dim], 0.45, Mat(E, 0.3), Mat(100 * E, 0.2))
        hetero = kind in ("linear",)
        b = behs[i % len(behs)]
        items.append(lambda cell=cell, S=S, b=b, k2=k2, h=hetero, C=C: newton_run(c, exe, cell, S, b, k2, h, C))
    # loads that do not converge: what is reported is the residual that is left
    for i in range(42 if c.quick else 400):
        rnd = random.Random("c14t-%d-%d" % (c.seed, i))
        cell = hard_cell(rnd, [rnd.randint(3, 4) for _ in range(3)], mat_pair(rnd), i % 2)
        z = 10.0 ** rnd.choice([0, 6, 10, 14, 18])
        for m in (cell.m1, cell.m2):
            m.E, m.Sy, m.Ka = m.E * z, m.Sy * z, m.Ka * z
        items.append(lambda cell=cell, S=far(rnd, 2 + i % 3): truth_run(c, exe, cell, S))
    groups = [items[i::7] for i in range(7)]

    def one(gr):
        def rec():
            T = []
            for f in gr:
                T += f()
            return T
        return ("NewtonTrace", None, rec(), dict(traces=len(gr), again=rec))
    with ThreadPoolExecutor(7) as ex:
        jobs = list(ex.map(one, groups))
    c.judge(jobs)
