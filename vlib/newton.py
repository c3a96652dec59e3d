"""Recordings for spec/NewtonTrace.tla."""
from copy import copy
from .hist import *
from .fieldjobs import *
from .macro import jumps


def ps_of(text, extra):
    out = []
    for i, r in enumerate(parse_rows(text)):
        s = []
        for its, err in zip(r[2::2], r[3::2]):
            s.append(dict(its=int(its) if its == its and abs(its) < 1e6 and its == int(its) else -1,
                          err=-1 if err != err or err < 0 else min(10**8, int(err * 1e8))))
        x = extra[i] if i < len(extra) else {}
        out.append(dict(s=s, short=x.get("short", False), never=x.get("never", False), work=x.get("work", False)))
    return out


def newton_run(c, exe, cell, strains, beh, kind, hetero, C=None):
    """Replay a behaviour; after every homogenize read the report of all points."""
    n = cell.nvoi
    S = Script()
    S.put(cell.new(0))
    known, cur, done = [], {}, {}
    plan = []
    lastu = None       # strain whose solution the work array holds

    def below(e):
        if not cell.tol or C is None:
            return False
        inv = sum(C[i * n + j] * e[j] for i in range(cell.dim) for j in range(n))
        return abs(inv) < cell.tol * 0.99
    for k, a in enumerate(beh):
        op = a["op"]
        if op == "Set":
            if a["g"] not in known:
                known.append(a["g"])
            cur[a["g"]] = strains[a["e"] - 1]
            S.put(setline(0, a["g"], cur[a["g"]]))
        elif op == "Hom":
            S.put("HOM 0", ("hom", k))
            S.put("WRI 0")
            S.put("LAST micropp_convergence.dat", ("conv", k))
            extra = []
            prev = lastu
            for g in known:
                e = cur[g]
                sh = kind != "plastic" and below(e)
                w = False
                if not sh and hetero and kind != "rigid" and not (C and cell.tol):
                    # the cell is not in equilibrium with what it held before
                    # nor with the affine field
                    w = (prev is None and max(map(abs, e)) > 1e-5 or
                         prev is not None and max(abs(x - y) for x, y in zip(e, prev)) > 1e-5) and jumps(cell, e)
                extra.append(dict(short=sh, work=bool(w)))
                if not sh:
                    prev = e
            lastu = prev
            plan.append(("hom", k, len(known), extra))
        elif op == "Upd":
            S.put("UPD 0")
        elif op == "Wri":
            S.put("WRI 0")
            S.put("LAST micropp_convergence.dat", ("conv", k))
            plan.append(("keep", k, None, None))
        elif op == "Out" and a["g"] in known:
            S.put("OUT 0 1 %d" % a["g"])
            lastu = cur[a["g"]]
    S.put("DEL 0")
    o = S.run(c, exe, timeout=120)
    T = [dict(ev="cell", c=dict(nvoi=n, kind=kind))]
    before = None
    fresh = True
    counted = any(x.get("solves") for k, x in o.items() if k[0] == "hom")
    for what, k, m, extra in plan:
        if ("conv", k) not in o:
            break
        text = o[("conv", k)].get("text", "")
        if what == "hom":
            ps = ps_of(text, extra)
            if any(s["its"] >= 40 for p in ps for s in p["s"]):
                c.count("reports_at_the_limit")
            c.count("reports", len(ps))
            T.append(dict(ev="hom", n=m, ps=ps, solves=o[("hom", k)]["solves"] if counted or not any(
                s["its"] for p in ps for s in p["s"]) else -1))
            before = text.split("|")
        elif before is not None:
            T.append(dict(ev="keep", before=[x.split() for x in before], after=[x.split() for x in text.split("|")][:len(before)]))
            # points introduced since add columns
            if len(text.split("|")) != len(before):
                T.pop()
    if S.end:
        T.append(dict(ev="crash", how=S.end))
    return T


def truth_run(c, exe, cell, path):
    """The residuals a point reports for loads that do not converge, next to the
    residual field that a snapshot of the same state shows.  Snapshots at the
    strain and at the strains of the tangent columns repeat what homogenize does
    (from the same start)."""
    n = cell.nvoi

    def script(shots):
        S = Script()
        S.put(cell.new(0))
        for k, e in enumerate(path):
            S.put(setline(0, 1, e))
            if shots and k == len(path) - 1:
                S.put("OUT 0 0 1")
                S.put("READ micropp_1_0.vtu", 0)
                for i in range(n):
                    S.put(setline(0, 1, [x + (1e-8 if i == j else 0.0) for j, x in enumerate(e)]))
                    S.put("OUT 0 %d 1" % (i + 1))
                    S.put("READ micropp_1_%d.vtu" % (i + 1), i + 1)
            else:
                S.put("HOM 0")
                S.put("UPD 0")
        S.put("WRI 0")
        S.put("LAST micropp_convergence.dat", "conv")
        S.put("DEL 0")
        o = S.run(c, exe, timeout=120)
        return o, S.end
    A, ea = script(False)
    B, eb = script(True)
    T = [dict(ev="cell", c=dict(nvoi=n, kind="truth"))]
    rows = parse_rows(A.get("conv", {}).get("text", ""))
    out = []
    for i in range(n + 1):
        err = rows[0][3 + 2 * i] if rows and len(rows[0]) == 2 + 2 * (n + 1) else float("nan")
        b = parse_vtu(B.get(i, {}).get("text", "")).get("b", [])
        r = math.sqrt(sum(x * x for x in b)) if b else float("nan")
        if not b or r != r or r > 1e150 or r < 2e-5:
            continue                # converged, or nothing to compare with
        s = 1e5 / r
        out.append(dict(err=-1 if err != err or err < 0 else min(10 ** 8, int(round(err * s))), b=int(round(r * s))))
        c.count("residuals_compared")
        if r > 1e3:
            c.count("residuals_compared_above_1000")
    T.append(dict(ev="truth", rs=out))
    if ea or eb:
        T.append(dict(ev="crash", how=ea or eb))
    return T
