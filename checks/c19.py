"""C19: memory is released and never used out of bounds."""
from vlib.heap import *


def run(c):
    r = model_check("HeapMC", c.work, cfgtext(
        "MSpec", dict(Objs="{1, 2}", Ids="{1, 2}", Fixed=3, MaxCalls=5 if c.quick else 7), ["Agree", "Empty", "Offered"]))
    c.add_model(r, "HeapMC")
    exe, asan = c.exe(), c.exe("asan")
    eexe, easan = c.exe(driver="ell"), c.exe("asan", "ell")
    rnd = c.rnd
    m = mat_pair(rnd)
    # every small shape of grid
    sizes = [(a, b, d) for a in (2, 3, 4) for b in (2, 3, 4) for d in (2, 3, 4) if a * b * d <= 36]
    cells = [iter_cell(rnd, s, m, rnd.choice([0, 1])) for s in rnd.sample(sizes, 9 if c.quick else len(sizes))]
    cells.append(exact_cell(rnd, (2, 2, 2), m))
    for s in [(2, 2), (2, 5), (5, 2), (3, 4)]:
        cells.append(Cell(2, s, rnd.choice([0, 1]), (1.0, 1.5), 0.6, Mat(m.E, 0.3), Mat(m.E * 2, 0.25, 1.0, 1.0, 1),
                          rnd.choice([0.0, m.E * 1e-3])))
    # weak and far from the inclusion: many iterations, some that fail
    for _ in range(2 if c.quick else 6):
        h = iter_cell(rnd, (3, rnd.choice([3, 4]), rnd.choice([3, 4])), m, 1)
        h.m1, h.m2 = Mat(m.E, 0.3, m.E * 1e-5, 0.0, 1), Mat(m.E * 50, 0.3, m.E * 5e-4, 0.0, 1)
        cells.append(h)
    NS = 20
    S = {3: strains(rnd, NS), 2: strains(rnd, NS, 2)}
    # far away: many iterations
    S[3][NS - 2] = [20 * x for x in S[3][1]]
    S[3][NS - 1] = [-50 * x for x in S[3][2]]
    behs, r = gen_memo(c, 2, len(cells), NS, 50, 28 if c.quick else 280, c.seed)
    c.add_model(r, "GenMemo (simulation)")
    c.sample(behs[0][:20])
    # ramps: one direction in many small steps, up, down and with jumps
    size = lambda e: sum(x * x for x in S[3][e - 1])
    up = sorted([e for e in range(1, NS + 1) if e not in (1, 3, 4, 5)], key=size)
    for ci in range(len(cells)):
        if cells[ci].dim == 2:
            continue
        mixed = list(up)
        rnd.shuffle(mixed)
        b = [dict(op="New", o=2, k=ci + 1)]
        for n, e in enumerate(up + [5] + up[::-1][::2] + mixed):
            b += [dict(op="Set", o=2, g=1, e=e), dict(op="Hom", o=2)]
            if rnd.random() < (0.9 if n < len(up) else 0.5):
                b.append(dict(op="Upd", o=2))
            if rnd.random() < 0.1:
                b.append(dict(op="Set", o=2, g=2, e=rnd.choice(up)))
            if rnd.random() < 0.2:
                b.append(dict(op="Out", o=2, g=1, ts=n))
        behs.append(b)
    k = 7
    cap = [2, 2, 3, 4, 5, 6, 7, 9]
    grids = [Grid(2, (rnd.choice(cap), rnd.choice(cap)), rnd.choice([1, 2, 3])) for _ in range(8)]
    grids += [Grid(2, s, 2) for s in ((2, 2), (2, 3), (3, 2))]
    cap = [2, 2, 3, 4]
    grids += [Grid(3, [rnd.choice(cap) for _ in range(3)], rnd.choice([1, 2, 3])) for _ in range(8)]
    grids += [Grid(3, s, 3) for s in ((2, 2, 2), (2, 3, 2), (3, 3, 3))]
    ebehs, r = gen_ellheap(c, len(grids), 60, 28 if c.quick else 280, c.seed)
    c.add_model(r, "GenEllHeap (simulation)")

    def one(i):
        g, eg = behs[i::k], ebehs[i::k]

        def rec():
            T = []
            for who, ctd in ((exe, True), (asan, False)):
                for inst in (None, lambda o: -1 if o == 1 else o):
                    p = HeapProg(cells, S, False, "")
                    for b in g[:len(g) if ctd else max(2, len(g) // 2)]:
                        p.add(b, inst)
                    T += p.run(c, who, ctd)
            for who, ctd in ((eexe, True), (easan, False)):
                T += ell_heap(c, who, grids, eg, ctd, random.Random(i))
            return T
        # traces with and without counts must not share what construction acquires
        def parts():
            T, out = rec(), [[], []]
            cur = None
            n = 0
            for e in T:
                if e["ev"] == "process":
                    cur = out[[0, 0, 1, 1, 0, 1][n]]
                    n += 1
                if "k" in e:
                    e["k"] = str(e["k"]) + (" ell" if n > 4 else "")
                cur.append(e)
            return out
        a, b = parts()
        return [("HeapTrace", None, a, dict(traces=3 * len(g), again=lambda: parts()[0])),
                ("HeapTrace", None, b, dict(traces=2 * len(g), again=lambda: parts()[1]))]
    with ThreadPoolExecutor(7) as ex:
        jobs = [j for js in ex.map(one, range(k)) for j in js]
    for a in jobs:
        c.count("events_" + ("counted" if any(e.get("d", [0])[0] for e in a[2]) else "sanitized"), len(a[2]))
        c.count("first_yields", sum(1 for e in a[2] if e["ev"] == "hom" and e["d"][0] > 0))
    c.judge(jobs)
