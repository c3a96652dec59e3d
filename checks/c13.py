"""C13: the linear solvers solve, stop and report truthfully."""
from vlib.elljobs import *


def run(c):
    r = model_check("SolverMC", c.work, cfgtext("SSpec", dict(Limits="LimitsC", Res="ResC"), ["Truthful"], ["Ends"]))
    c.add_model(r, "SolverMC")
    exe = c.exe(driver="ell")
    jobs = []
    n = 40 if c.quick else 600
    grids = []
    for i in range(n):
        dim = 2 if i % 2 else 3
        F = c.rnd.choice([1, 2, 3]) if dim == 2 else c.rnd.choice([1, 1, 3])
        m = 6 if dim == 2 else 4
        while True:
            g = Grid(dim, [c.rnd.randint(2, m) for _ in range(dim)], F)
            if g.N <= 110:
                break
        grids.append(g)

    # many iterations
    lgrids = [(Grid(2, [c.rnd.randint(60, 110), 3], 1), 0), (Grid(2, [3, c.rnd.randint(60, 110)], 1), 1),
              (Grid(2, [4, c.rnd.randint(40, 70)], 1), 1), (Grid(3, [3, 3, c.rnd.randint(20, 30)], 1), 2),
              (Grid(2, [c.rnd.randint(30, 50), 3], 2), 0), (Grid(3, [c.rnd.randint(20, 30), 3, 3], 1), 0),
              (Grid(2, [14, 14], 1), 1)] * (1 if c.quick else 6)

    def one(k):
        def rec():
            T = []
            for i in range(k, n, 7):
                g = grids[i]
                T += solve_runs(c, exe, g, "%d-%d" % (c.seed, i), 12, ["cgs"] if g.dim == 3 else ["cg2", "cgs", "jac"])[0]
            for i in range(k, len(lgrids), 7):
                g, ax = lgrids[i]
                T += solve_runs(c, exe, g, "%d-l%d" % (c.seed, i), 6, ["cgs"] if g.dim == 3 else ["cg2", "cgs", "cgs", "jac"],
                                long=(1000, ax))[0]
            return T
        T = rec()
        return ("EllTrace", ELLTRACE, T, dict(traces=sum(1 for t in T if t["ev"] == "solve"), again=rec))
    with ThreadPoolExecutor(7) as ex:
        jobs = list(ex.map(one, range(7)))
    c.sample({k: v for k, v in [t for t in jobs[0][2] if t["ev"] == "solve"][0].items() if k not in ("b", "xq")})
    c.judge(jobs)
