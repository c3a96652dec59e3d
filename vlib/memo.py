"""Recordings for spec/MemoTrace.tla: the same calls under different circumstances."""
from .hist import *

INFO = ["micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat", "micropp_materials.dat"]


def gen_memo(c, nobj, ncells, nstr, depth, num, seed):
    cfg = cfgtext("GSpec", dict(Objs="{%s}" % ",".join(str(i + 1) for i in range(nobj)), NCells=ncells,
                                Ids="{1, 2}", NStrains=nstr, Depth=depth, Unknown="{9}"), ["Emit"])
    b, r = behaviours("GenMemo", c.work, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth + 2),
                                                    "-seed", str(seed)])
    return b, r


def lifetimes(b):
    """The programs of each object, one per construction."""
    out, cur = [], {}
    for a in b:
        if a["op"] == "New":
            if a["o"] in cur:
                out.append(cur[a["o"]])
            cur[a["o"]] = [a]
        elif a["op"] == "Del":
            out.append(cur.pop(a["o"]) + [a])
        else:
            cur[a["o"]].append(a)
    return out + list(cur.values())


class Prog:
    """One process: a list of calls with the object and token of each."""

    def __init__(self, cells, strains, files, tag):
        self.cells, self.S, self.files, self.tag = cells, strains, files, tag
        self.L, self.plan = [], []

    def put(self, line, w):
        self.L.append(line)
        self.plan.append(w)

    def add(self, b, inst=None):
        """inst: object -> driver instance number (-1: the C interface)."""
        inst = inst or (lambda o: o)
        cell, known = {}, {}
        for a in b:
            o, op = a["o"], a["op"]
            i = inst(o)
            if op == "New":
                if o in cell and i >= 0:
                    self.put("DEL %d" % i, ("del", o))
                cell[o], known[o] = self.cells[a["k"] - 1], []
                self.put(cell[o].new(i), ("new", o, "%s cell %d" % (self.tag, a["k"])))
                if self.files:
                    self.put("READ " + INFO[3], ("call", o, "materials"))
                continue
            n = cell[o].nvoi
            if op == "Del":
                if i >= 0:
                    self.put("DEL %d" % i, ("del", o))
                    del cell[o]
            elif op == "Set":
                if a["g"] not in known[o]:
                    known[o].append(a["g"])
                self.put(setline(i, a["g"], self.S[cell[o].dim][a["e"] - 1]), ("call", o, "set %d %d" % (a["g"], a["e"])))
            elif op in ("Hom", "Upd"):
                self.put("%s %d" % (op.upper(), i), ("call", o, op))
                if op == "Hom":
                    for g in known[o]:
                        self.look(i, o, g, n)
            elif op == "Qry":
                self.look(i, o, a["g"], n)
            elif op == "Wri":
                self.put("WRI %d" % i, ("call", o, "wri"))
                if self.files:
                    for f in INFO[:3]:
                        self.put("READ " + f, ("call", o, f))
            elif op == "Out":
                ts = step_number(a["ts"])
                self.put("OUT %d %d %d" % (i, ts, a["g"]), ("call", o, "out %d %d" % (a["g"], ts)))
                if a["g"] in known[o]:
                    self.put("READ micropp_%d_%d.vtu" % (a["g"], ts), ("call", o, "vtu"))
        for o in cell:
            if inst(o) >= 0:
                self.put("DEL %d" % inst(o), ("del", o))

    def look(self, i, o, g, n):
        self.put("SIG %d %d %d" % (i, g, n), ("call", o, "sig %d" % g))
        self.put("TAN %d %d %d" % (i, g, n), ("call", o, "tan %d" % g))
        self.put("NLF %d %d" % (i, g), ("call", o, "nlf %d" % g))

    def run(self, c, exe, env=None):
        ev, end = run_driver(exe, "\n".join(self.L) + "\n", c.scratch(), 600, env)
        T = [dict(ev="process")]
        for x, w in zip(ev, self.plan):
            if w[0] == "del":
                T.append(dict(ev="del", o=w[1]))
            else:
                s = {k: v for k, v in x.items() if k not in ("i", "alloc", "bytes", "solves", "op")}
                T.append(dict(ev=w[0], o=w[1], t=w[2],
                              s=hashlib.sha1(json.dumps(s, sort_keys=True).encode()).hexdigest()[:16]))
        if end:
            T.append(dict(ev="crash", how=end))
        return T


NSTRAINS = 10


def memo_cells(rnd):
    m = mat_pair(rnd)
    m2 = Mat(m.E * 2, 0.3, 0.0, 0.0, 0)
    cells = [iter_cell(rnd, (3, 3, 3), m, 0),
             exact_cell(rnd, (2, 3, 2), m),
             iter_cell(rnd, (3, 4, 3), m, 1),
             Cell(2, (4, 3), 1, (1.0, 1.5), 0.7, Mat(m.E, 0.3), m2),
             Cell(2, (3, 4), 0, (1.0, 1.25), 0.4, Mat(m.E, 0.25, 1.0, 1.0, 1), m2, m.E * 1e-3)]
    cells[1].tol = m.E * 1e-3
    S = {3: strains(rnd, NSTRAINS), 2: strains(rnd, NSTRAINS, 2)}
    return cells, S


def variants(rnd, dim=3):
    """A cell and others that differ from it in one argument of the constructor."""
    E, f = 10 ** rnd.uniform(6, 7), rnd.choice([0.5, 0.8, 1.25])
    b = dict(n=(3, 4, 3) if dim == 3 else (4, 3), micro=1, L=(1.0, 1.5, 1.25), w=0.7,
             m1=(E, 0.3, E * 1e-3, E * 0.3, 1), m2=(2 * E, 0.25, E * 3e-3, E * 0.4, 1), tol=E * 1e-3)

    def cell(**kw):
        d = dict(b, **kw)
        return Cell(dim, d["n"], d["micro"], d["L"], d["w"], Mat(*d["m1"]), Mat(*d["m2"]), d["tol"])

    def at(t, i, v):
        return t[:i] + (v,) + t[i + 1:]
    out = [cell()]
    for k in ("m1", "m2"):
        for i in range(4):
            out.append(cell(**{k: at(b[k], i, b[k][i] * f)}))
        out.append(cell(**{k: at(b[k], 4, 0)}))
    for i in range(dim):
        out.append(cell(L=at(b["L"], i, b["L"][i] * 1.25)))
    out += [cell(w=0.3), cell(micro=0), cell(tol=0.0), cell(tol=E * 3e-3)]
    out.append(cell(n=tuple(reversed(b["n"]))) if dim == 2 else cell(n=(4, 3, 3)))
    out.append(cell(m1=b["m2"], m2=b["m1"]))
    return out


def sweeps(rnd, n):
    """Programs over cells 1..n: one lifetime after the other, the first between
    any two, and all alive at the same time taking turns."""
    def life(o, k, seed):
        r = random.Random(seed)
        return ([dict(op="New", o=o, k=k), dict(op="Set", o=o, g=1, e=2), dict(op="Set", o=o, g=2, e=1),
                 dict(op="Hom", o=o), dict(op="Upd", o=o), dict(op="Set", o=o, g=1, e=r.choice([3, 5])),
                 dict(op="Set", o=o, g=2, e=4), dict(op="Hom", o=o), dict(op="Wri", o=o),
                 dict(op="Out", o=o, g=1, ts=1), dict(op="Upd", o=o), dict(op="Set", o=o, g=2, e=5),
                 dict(op="Hom", o=o), dict(op="Qry", o=o, g=1)])
    sd = rnd.randrange(10 ** 6)
    order = list(range(2, n + 1))
    rnd.shuffle(order)
    seq = []
    for k in order:
        seq += life(1, k, sd) + life(1, 1, sd)
    lives = [life(k, k, sd) for k in range(1, n + 1)]
    rnd.shuffle(lives)
    turns = [a for step in zip(*lives) for a in step]
    return seq, turns


def pair_cover(rnd, ns, o, k, ids=(1,)):
    """One lifetime in which every strain follows every strain (itself included)
    directly, each homogenized, some committed."""
    left = {a: list(range(1, ns + 1)) for a in range(1, ns + 1)}
    for v in left.values():
        rnd.shuffle(v)
    stack, walk = [1], []
    while stack:                       # Euler circuit of the complete digraph
        a = stack[-1]
        if left[a]:
            stack.append(left[a].pop())
        else:
            walk.append(stack.pop())
    b = [dict(op="New", o=o, k=k)]
    for e in walk:
        b += [dict(op="Set", o=o, g=rnd.choice(ids), e=e), dict(op="Hom", o=o)]
        if rnd.random() < 0.3:
            b.append(dict(op="Upd", o=o))
    return b
