"""Cells in the integer units of spec/Fem.tla and recordings of their fields."""
from .micro import *


def strain_unit(rnd):
    """Small strains are not assumed anywhere."""
    return 10 ** (rnd.uniform(-3.5, -1.2) if rnd.random() < 0.3 else rnd.uniform(-4.5, -3.5))


class FemCell:
    """h: integer element edges (times lu); mats: dict(lam, mu, linear, R0, H) in
    integers (times Mu; R0 in u0, H as in J2.tla); w/wden: see ElemMat."""

    def __init__(self, rnd, dim, n, h, micro, w, wden, mats, u0=None, Mu=None, lu=None, emax=10, tol=0.0):
        self.dim, self.n, self.h, self.micro, self.w, self.wden = dim, list(n), list(h), micro, w, wden
        if dim == 2:
            self.n = self.n[:2] + [1]
            self.h = self.h[:2] + [1]
        self.u0 = u0 or strain_unit(rnd)
        self.Mu = Mu or 10 ** rnd.uniform(5.5, 7)
        self.lu = lu or rnd.choice([0.25, 0.5, 1.0, 0.1, 0.3])
        self.mats = mats
        ms = []
        for m in mats:
            lam, mu = m["lam"] * self.Mu, m["mu"] * self.Mu
            E = mu * (3 * lam + 2 * mu) / (lam + mu)
            nu = lam / (2 * (lam + mu))
            Sy = m.get("R0", 0) * self.u0 * 2 * mu / math.sqrt(2.0 / 3)
            ms.append(Mat(E, nu, Sy, m.get("H", 0) * 3 * mu, 0 if m["linear"] else 1))
        L = [(self.n[d] - 1) * self.h[d] * self.lu for d in range(3)]
        if micro == 0:
            width = self.lu / 2 * math.sqrt(w / wden)
        else:
            width = self.lu * w / (2.0 * wden)
        self.cell = Cell(dim, self.n, micro, L, width, ms[0], ms[1], tol)
        aff = 0
        for i in range(dim):
            aff += 2 * emax * (self.n[i] - 1) * self.h[i]
        self.K = max(100, int(2.5e5 / aff) // 100 * 100)
        self.M, self.ms = 400, 1000
        self.mp = 1000

    def tla(self, tu=4, te=5, tv=2, ty=22):
        return dict(dim=self.dim, n=self.n, h=self.h, micro=self.micro, w=self.w, wden=self.wden,
                    mats=[dict(lam=m["lam"], mu=m["mu"], linear=bool(m["linear"] or self.dim == 2), R0=m.get("R0", 0), H=m.get("H", 0))
                          for m in self.mats],
                    K=self.K, M=self.M, ms=self.ms, mp=self.mp, tu=tu, te=te, tv=tv, ty=ty)

    def strain(self, e):
        return [x * self.u0 for x in e]

    # units
    @property
    def uu(self):
        return self.lu * self.u0 / (2 * self.K)

    def q_disp(self, flat):
        v = [q(x, self.uu) for x in flat]
        return [v[i:i + 3] for i in range(0, len(v), 3)]

    def rows(self, flat, k):
        return [flat[i:i + k] for i in range(0, len(flat), k)]

    def q_strain(self, flat):
        return self.rows([q(x, self.u0 / self.ms) for x in flat], self.cell.nvoi)

    def q_stress(self, flat, per=None):
        return self.rows([q(x, self.u0 * self.Mu / (per or self.ms)) for x in flat], self.cell.nvoi)

    def q_vars(self, row):
        u = self.u0 / self.M
        out = []
        for e in range(self.cell.nelem):
            g = []
            for k in range(8):
                t = row[e * 56 + k * 7:e * 56 + k * 7 + 7]
                if len(t) < 7:
                    t = [float("nan")] * 7
                g.append([q(x, u) for x in t[:6]] + [q(t[6] * math.sqrt(1.5), u)])
            out.append(g)
        return out

    # displacement -> deviatoric strain norms, to choose stimuli (not to judge)
    def gp_norms(self, flat):
        return [(math.sqrt(sum(x * x for x in v)), e, g) for v, e, g in self.gp_devs(flat)]

    def gp_devs(self, flat):
        """Deviators (shears times the square root of two) in u0, element, point."""
        n, h = self.n, self.h
        r = 1 / math.sqrt(3)
        out = []
        for e in range(self.cell.nelem):
            ne = self.cell.ne
            el = [e % ne[0], e // ne[0] % ne[1], e // (ne[0] * ne[1])]
            for g in range(8):
                a = g % 4
                s = [1 if a in (1, 2) else -1, 1 if a in (2, 3) else -1, 1 if g >= 4 else -1]
                G = [[0.0] * 3 for _ in range(3)]
                for b in range(8):
                    bb = [b & 1, b >> 1 & 1, b >> 2 & 1]
                    m = ((el[2] + bb[2]) * n[1] + el[1] + bb[1]) * n[0] + el[0] + bb[0]
                    for d in range(3):
                        w = 1.0 if bb[d] else -1.0
                        for o in range(3):
                            if o != d:
                                w *= 0.5 * (1 + r * s[o] * (1 if bb[o] else -1))
                        for i in range(3):
                            G[i][d] += w * flat[3 * m + i] / (h[d] * self.lu)
                t = [G[0][0], G[1][1], G[2][2], (G[0][1] + G[1][0]) / 2, (G[0][2] + G[2][0]) / 2, (G[1][2] + G[2][1]) / 2]
                tr = (t[0] + t[1] + t[2]) / 3
                v = [x - tr for x in t[:3]] + [math.sqrt(2.0) * x for x in t[3:]]
                out.append(([x / self.u0 for x in v], e, g))
        return out

    def elem_mat(self, e):
        ne = self.cell.ne
        el = [e % ne[0], e // ne[0] % ne[1], e // (ne[0] * ne[1]) if self.dim == 3 else 0]
        if self.micro == 0:
            r2 = sum(((2 * el[d] + 1 - (self.n[d] - 1)) * self.h[d]) ** 2 for d in range(self.dim))
            return 1 if r2 * self.wden < self.w else 0
        return 1 if (2 * el[1] + 1) * self.h[1] * self.wden < self.w else 0


LINMATS = [(1, 1), (0, 1), (2, 1), (1, 3), (4, 2), (0, 3), (3, 1), (1, 2), (-1, 2), (-1, 3), (9, 1)]


def rnd_mats(rnd, plastic=(False, False), R0=(0, 0), H=(0, 0)):
    a, b = rnd.sample(LINMATS, 2)
    return [dict(lam=x[0], mu=x[1], linear=not p, R0=r, H=k) for x, p, r, k in zip((a, b), plastic, R0, H)]


def rnd_grid(rnd, dim, maxn=4, maxh=3, minn=2, slender=0.3):
    n = [rnd.randint(minn, maxn) for _ in range(dim)]
    if rnd.random() < slender:
        # one long edge, the others short
        d = rnd.randrange(dim)
        n = [rnd.randint(5, 7 if dim == 2 else 6) if i == d else rnd.randint(2, 3) for i in range(dim)]
    hs = [[1, 1, 1], [1, 2, 3], [3, 1, 1], [2, 1, 1], [1, 1, 2], [1, 2, 1], [3, 2, 1], [2, 3, 1], [1, 3, 2]]
    return n, rnd.choice([x for x in hs if max(x) <= maxh])


def rnd_width(rnd, dim, n, h, micro):
    """(w, wden) with no ties."""
    if micro == 1:
        return 2 * rnd.randint(0, (n[1] - 1) * h[1] * 2) + 1, 2
    r2 = sum(((n[d] - 1) * h[d]) ** 2 for d in range(dim))
    return 2 * rnd.randint(0, max(1, int(r2 * 0.8))) + 1, 2


def rnd_strain(rnd, dim, emax=10):
    k = 6 if dim == 3 else 3
    while True:
        e = [rnd.randint(-emax, emax) for _ in range(k)]
        if rnd.random() < 0.25:
            j = rnd.randrange(k)
            e = [x if i == j else 0 for i, x in enumerate(e)]
        if max(map(abs, e)) >= emax // 3:
            return e
