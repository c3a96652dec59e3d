"""C18: results are a function of the calls, not of memory or other objects."""
from vlib.impl import impl_model
from vlib.memo import *

# what fresh memory holds: zeros, plausible doubles, huge values, NaNs
JUNK = [0, 0x3f, 0xbf, 0x7f, 0xff, 0x01, 0x40]


def run(c):
    impl_model(c, ["ctor-junk", "alloc-junk"])
    plain, pat, zero = c.exe(), c.exe("pattern"), c.exe("zero")
    cells, S = memo_cells(c.rnd)
    n = 21 if c.quick else 210
    behs, r = gen_memo(c, 3, len(cells), NSTRAINS, 45, n, c.seed)
    c.add_model(r, "GenMemo three objects (simulation)")
    c.sample(behs[0][:20])
    k = 7 if c.quick else 21
    groups = list(enumerate([behs[i::k] for i in range(k)]))

    def glibc(x):
        return {"MALLOC_PERTURB_": str(x ^ 0xff), "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"} if x else {}

    def one(ig):
        i, g = ig
        j = [JUNK[(i + d) % len(JUNK)] for d in range(5)]

        def prog(bs, tag):
            p = Prog(cells, S, False, tag)
            for b in bs:
                p.add(b)
            return p

        def rec():
            T = []
            for b in g:
                for x in lifetimes(b):                          # alone, on zeros
                    T += prog([x], "O1").run(c, plain, {"JUNK": "0"})
            T += prog(g, "O1").run(c, plain, {"JUNK": str(j[0] or 0x3f)})   # interleaved
            T += prog([x for b in g for x in lifetimes(b)], "O1").run(c, plain, {"JUNK": str(j[1] or 0xbf)})
            T += prog(g[:1], "O1").run(c, plain)                # whatever the allocator has
            T += prog(g, "O0").run(c, zero)
            T += prog(g, "O0").run(c, pat, glibc(j[2]))
            T += prog([x for b in g for x in lifetimes(b)], "O0").run(c, pat, glibc(j[3] or 0x3f))
            return T
        return ("MemoTrace", None, rec(), dict(traces=6 * len(g), again=rec))
    def sweep(dim):
        rnd = random.Random(10 * c.seed + dim)
        vs, S = variants(rnd, dim), {dim: strains(rnd, NSTRAINS, dim)}
        seq, turns = sweeps(rnd, len(vs))

        def rec():
            T, done = [], set()
            for life in lifetimes(seq):
                if json.dumps(life) not in done:
                    done.add(json.dumps(life))
                    p = Prog(vs, S, False, "")
                    p.add(life)
                    T += p.run(c, plain, {"JUNK": "0"})
            for b, j in ((seq, JUNK[1]), (turns, JUNK[2]), (turns, JUNK[3])):
                p = Prog(vs, S, False, "")
                p.add(b)
                T += p.run(c, plain, {"JUNK": str(j)})
            return T
        return ("MemoTrace", None, rec(), dict(traces=4 * len(vs), again=rec))
    with ThreadPoolExecutor(7) as ex:
        jobs = list(ex.map(sweep, [3, 2])) + list(ex.map(one, groups))
    for j in jobs:
        c.count("observations", sum(1 for e in j[2] if e["ev"] == "call"))
        c.count("processes", sum(1 for e in j[2] if e["ev"] == "process"))
    c.judge(jobs)
