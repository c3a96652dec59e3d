"""Cells, strains, scripts for the driver, and recordings of what it shows."""
import math
import struct
from .common import *


class Mat:
    def __init__(self, E, nu, Sy=0.0, Ka=0.0, typ=0):
        self.E, self.nu, self.Sy, self.Ka, self.typ = E, nu, Sy, Ka, typ
        self.mu = E / (2 * (1 + nu))
        self.k = E / (3 * (1 - 2 * nu))
        self.lam = nu * E / ((1 + nu) * (1 - 2 * nu))


class Cell:
    def __init__(self, dim, size, micro, lengths, width, m1, m2, tol=0.0):
        self.dim, self.size, self.micro, self.len = dim, list(size), micro, list(lengths)
        self.width, self.m1, self.m2, self.tol = width, m1, m2, tol
        if dim == 2:
            self.size = self.size[:2] + [1]
            self.len = self.len[:2] + [0.0]
        self.nvoi = 3 if dim == 2 else 6
        self.ne = [n - 1 for n in self.size[:dim]]
        self.nelem = 1
        for n in self.ne:
            self.nelem *= n
        self.nn = self.size[0] * self.size[1] * self.size[2]
        self.nvars = self.nelem * 56

    @property
    def exact(self):
        """No interior node: the displacement is affine and nothing is iterated."""
        return min(self.size[:self.dim]) <= 2

    def new(self, i=0):
        m = [self.m1, self.m2]
        # the third size and length mean nothing in 2D
        z = 1 + (self.size[0] * 7 + self.size[1] * 3 + self.micro) % 4
        lz = [0.0, 1.0, 0.37, 2.5][(self.size[0] + 2 * self.size[1]) % 4]
        return "NEW %d %d %d %d %d %d %s %r %r %d %d %s" % (
            i, self.dim, self.size[0], self.size[1], self.size[2] if self.dim == 3 else z, self.micro,
            fmt(self.len if self.dim == 3 else self.len[:2] + [lz]), float(self.width), float(self.tol), m[0].typ, m[1].typ,
            " ".join(fmt([x.E, x.nu, x.Sy, x.Ka]) for x in m))

    def describe(self):
        return dict(dim=self.dim, size=self.size[:self.dim], micro=self.micro, lengths=self.len[:self.dim],
                    width=self.width, tol=self.tol,
                    mats=[dict(E=m.E, nu=m.nu, Sy=m.Sy, Ka=m.Ka, type=m.typ) for m in (self.m1, self.m2)])


def step_number(k):
    """Step numbers of all kinds."""
    return [k, 0, -k, 100000 + k, k, 2147483647, -1, 1234567, k][k % 9]


def setline(i, g, e):
    return "SET %d %d %d %s" % (i, g, len(e), fmt(e))


def floats(text):
    out = []
    for w in text.split():
        try:
            out.append(float(w))
        except ValueError:
            out.append(float("nan"))
    return out


def parse_rows(text):
    """One record of an information file: list (per point) of numbers."""
    parts = text.split("|")
    return [floats(p) for p in parts if p.strip()]


def gave_up(row):
    """A line of the convergence file: some solve used up its iterations, or its
    numbers overflowed.  (One that stopped before of its own accord claims to have
    converged.)"""
    return any(its >= 40 or not abs(err) < 1e300 for its, err in zip(row[2::2], row[3::2]))


def unconverged(text):
    return any(gave_up(row) for row in parse_rows(text))


# fixed pseudo-random weights, to summarise long fields by a few functionals
def weights(n, k):
    out = []
    x = 12345
    for i in range(k):
        w = []
        for j in range(n):
            x = (x * 1103515245 + 12345) & 0x7fffffff
            w.append((x >> 8) % 2001 / 1000.0 - 1.0)
        out.append(w)
    return out


_W = {}


def digest(vals, k=12):
    n = len(vals)
    if n <= k:
        return list(vals)
    if (n, k) not in _W:
        _W[(n, k)] = weights(n, k)
    return [sum(w * v for w, v in zip(ws, vals)) for ws in _W[(n, k)]]


def parse_vtu(text):
    """DataArray name -> numbers (the file is not well-formed XML)."""
    out = {}
    for m in re.finditer(r'<DataArray[^>]*Name="([^"]+)"[^>]*>([^<]*)</DataArray>', text):
        # one array of each name: a second one means more than one snapshot
        out[m.group(1)] = floats(m.group(2)) if m.group(1) not in out else []
    m = re.search(r'NumberOfPoints="(\d+)"\s+NumberOfCells="(\d+)"', text)
    out["_counts"] = [int(m.group(1)), int(m.group(2))] if m and text.count("<VTKFile") == 1 else [-1, -1]
    return out


def bits(x):
    """A number, to the last bit, as small integers."""
    return list(struct.unpack("<4H", struct.pack("<d", x)))


class SymRun:
    """Replays abstract behaviours on the library and records a SymTrace trace."""

    def __init__(self, cell, strains, usig, utan, uvar, ushot=None, tsig=3, ttan=3, tback=3, tvar=3, tshot=3, exactly=False):
        self.exactly = exactly      # values to the last bit
        if exactly:
            tsig = ttan = tvar = tshot = 0
            tback = 2 * 10 ** 9
        self.cell, self.strains = cell, strains
        self.usig, self.utan, self.uvar, self.ushot = usig, utan, uvar, ushot or usig
        self.cfg = dict(ev="cfg", tsig=tsig, ttan=ttan, tback=tback, tvar=tvar, tshot=tshot)

    def nums(self, v, u):
        return [y for x in v for y in bits(x)] if self.exactly else [q(x, u) for x in v]

    def script(self, behs, obs, tan=True, var=True, inst=0, shots=True, conv=False):
        """obs: 'dense' (after every homogenize and update) or 'final'.  conv: the
        recording of an episode stops at the first answer that did not converge."""
        c, n = self.cell, self.cell.nvoi
        self.cfg["dense"] = obs == "dense"
        L, plan = [], []          # plan: how to read each output line

        def put(line, what):
            L.append(line)
            plan.append(what)

        def look(known, full=True):
            for g in known:
                put("SIG %d %d %d" % (inst, g, n), ("sig", g))
                if tan:
                    put("TAN %d %d %d" % (inst, g, n), ("tan", g))
                put("NLF %d %d" % (inst, g), ("nlf", g))

        def lookvar(known):
            if var and known:
                put("WRI %d" % inst, ("wri",))
                put("LAST micropp_int_vars_n.dat", ("var", len(known)))

        for b in behs:
            put(c.new(inst), ("new",))
            known = []
            for a in b:
                op = a["op"]
                if op == "Set":
                    new = a["g"] not in known
                    if new:
                        known.append(a["g"])
                    put(setline(inst, a["g"], self.strains[a["e"] - 1]), ("set", a["g"], a["e"]))
                    # answers are there, unchanged, between set and homogenize
                    if obs == "dense" and (new and len(known) > 1 or len(L) % 11 == 0):
                        look([a["g"]])
                elif op == "Hom":
                    put("HOM %d" % inst, ("hom",))
                    if conv:
                        put("WRI %d" % inst, ("wri",))
                        put("LAST micropp_convergence.dat", ("conv",))
                    if obs == "dense":
                        look(known)
                elif op == "Upd":
                    put("UPD %d" % inst, ("upd",))
                    if obs == "dense":
                        lookvar(known)
                elif op == "Wri":
                    put("WRI %d" % inst, ("wri",))
                elif op == "Out":
                    put("RM", ("skip",))
                    ts = step_number(a["ts"])
                    put("OUT %d %d %d" % (inst, ts, a["g"]), ("out", a["g"], ts))
                    put("LS", ("ls",))
                    if shots:
                        put("READ micropp_%d_%d.vtu" % (a["g"], ts), ("vtu",))
                elif op == "Qry":
                    look([a["g"]])
            if obs == "final":
                look(known)
                lookvar(known)
            if inst >= 0:
                put("DEL %d" % inst, ("skip",))
        return L, plan

    def record(self, exe, cwd, L, plan, timeout=600, env=None, prefix=()):
        ev, end = run_driver(exe, "\n".join(list(prefix) + L) + "\n", cwd, timeout, env)
        ev = ev[len(prefix):]
        T = [self.cfg]
        self.maxsolves = 0
        self.dropped = 0
        drop = False
        for o, w in zip(ev, plan):
            k = w[0]
            if k == "new":
                drop = False
            if k == "skip" or drop:
                continue
            elif k == "conv":
                drop = unconverged(o.get("text", ""))
                if drop:
                    self.dropped += 1
                    while T[-1]["ev"] in ("hom", "wri"):
                        T.pop()
            elif k in ("new", "upd", "wri"):
                T.append(dict(ev=k))
            elif k == "hom":
                self.maxsolves = max(self.maxsolves, o.get("solves", 0))
                T.append(dict(ev="hom"))
            elif k == "set":
                T.append(dict(ev="set", g=w[1], e=w[2]))
            elif k in ("sig", "tan"):
                none = bool(o.get("none"))
                u = self.usig if k == "sig" else self.utan
                T.append(dict(ev=k, g=w[1], none=none, v=[] if none else self.nums(o["v"], u)))
            elif k == "nlf":
                T.append(dict(ev="nlf", g=w[1], v=[o["nl"]]))
            elif k == "var":
                rows = parse_rows(o.get("text", ""))
                for i in range(max(w[1], len(rows))):
                    v = rows[i] if i < len(rows) else []
                    T.append(dict(ev="var", k=i + 1, n=len(rows), nz=any(x != 0 for x in v),
                                  v=[len(v)] + self.nums(digest(v), self.uvar)))
            elif k == "out":
                T.append(dict(ev="out", g=w[1], ts=w[2], file=False, v=[]))
            elif k == "ls":
                fs = [f for f in o["files"] if f.endswith(".vtu")]
                name = "micropp_%d_%d.vtu" % (T[-1]["g"], T[-1]["ts"])
                T[-1]["file"] = name in fs
                if fs and fs != [name]:
                    T[-1]["file"] = len(fs) == 0      # other files appeared
                    T[-1]["v"] = [-1]
            elif k == "vtu":
                if not o.get("absent"):
                    f = parse_vtu(o["text"])
                    v = []
                    for name in ("displ", "strain", "stress", "plasticity", "hardening"):
                        x = f.get(name, [])
                        s = {"displ": self.uvar, "strain": self.uvar, "stress": self.ushot,
                             "plasticity": self.uvar, "hardening": self.uvar}[name]
                        v += [len(x)] + self.nums(digest(x, 8), s)
                    T[-1]["v"] = v
        if end:
            T.append(dict(ev="crash", how=end))
        self.raw = ev
        return T
