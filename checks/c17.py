"""C17: the C/Fortran interface behaves exactly like the class."""
from vlib.memo import *


def run(c):
    exe = c.exe()
    cells, S = memo_cells(c.rnd)
    n = 28 if c.quick else 300
    behs, r = gen_memo(c, 1, len(cells), NSTRAINS, 45, n, c.seed)
    c.add_model(r, "GenMemo one object (simulation)")
    c.sample(behs[0][:20])
    behs += [pair_cover(c.rnd, 6, 1, i + 1, ids) for i, ids in enumerate([(1,), (4,), (1,), (1,), (1, 2)])]
    # identifiers of all kinds
    for i, b in enumerate(behs):
        ids = {1: [1, -5, 0, 2147483647, -1][i % 5], 2: [2, 7, -2147483648, 3, 1000000][i % 5]}
        behs[i] = [dict(a, g=ids.get(a["g"], a["g"])) if "g" in a else a for a in b]
    k = 7 if c.quick else 28
    groups = [behs[i::k] for i in range(k)]

    def one(g):
        def rec():
            T = []
            for b in g:                     # the class: one fresh process per lifetime
                for life in lifetimes(b):
                    p = Prog(cells, S, True, "")
                    p.add(life)
                    T += p.run(c, exe)
            p = Prog(cells, S, True, "")    # the interface: one process, constructed again and again
            for b in g:
                p.add(b, lambda o: -1)
            T += p.run(c, exe)
            p = Prog(cells, S, True, "")    # both in one process, one after the other
            p.add(g[0])
            p.add(g[0], lambda o: -1)
            p.add(g[-1])
            return T + p.run(c, exe)
        return ("MemoTrace", None, rec(), dict(traces=2 * len(g) + 3, again=rec))
    def sweep(dim):
        rnd = random.Random(10 * c.seed + dim)
        vs, S = variants(rnd, dim), {dim: strains(rnd, NSTRAINS, dim)}
        seq, _ = sweeps(rnd, len(vs))

        def rec():
            T, done = [], set()
            for life in lifetimes(seq):
                if json.dumps(life) not in done:
                    done.add(json.dumps(life))
                    p = Prog(vs, S, True, "")
                    p.add(life)
                    T += p.run(c, exe)
            p = Prog(vs, S, True, "")
            p.add(seq, lambda o: -1)
            return T + p.run(c, exe)
        return ("MemoTrace", None, rec(), dict(traces=3 * len(vs), again=rec))
    with ThreadPoolExecutor(7) as ex:
        jobs = list(ex.map(sweep, [3, 2])) + list(ex.map(one, groups))
    for j in jobs:
        c.count("observations", sum(1 for e in j[2] if e["ev"] == "call"))
        c.count("constructions", sum(1 for e in j[2] if e["ev"] == "new"))
    c.judge(jobs)
