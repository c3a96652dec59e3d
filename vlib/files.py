"""Recordings for spec/FilesTrace.tla."""
from .hist import *
from .macro import lin_tangent, sq

NAMES = ["micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat"]


def split_file(text):
    """(header lines, record lines); a header line starts with '#', a blank line
    directly after header lines belongs to the header of that file."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    return lines


def files_run(c, exe, cell, istr, behs, u, tan_ok=True):
    """istr: integer strains (times u)."""
    n = cell.nvoi
    v, uC = lin_tangent(c, exe, cell)
    C = sq(v, n, uC)
    if not C:
        C = [[CLAMP] * n for _ in range(n)]
    usig = max(abs(x) for e in istr for x in e) * u * uC * 1e5 * 6 / 1e6
    utan = uC * 1e5 * 6 / 1e6
    L, plan = [], []

    def put(line, w):
        L.append(line)
        plan.append(w)
    for b in behs:
        put(cell.new(0), ("new",))
        for f in NAMES:
            put("READ " + f, ("empty",))
        known = []
        for a in b:
            op = a["op"]
            if op == "Set":
                if a["g"] not in known:
                    known.append(a["g"])
                e = istr[a["e"] - 1]
                put(setline(0, a["g"], [x * u for x in e]), ("set", a["g"], e))
            elif op in ("Hom", "Upd"):
                put("%s 0" % op.upper(), (op.lower(),))
            elif op == "Out":
                put("OUT 0 %d %d" % (a["ts"], a["g"]), ("other",))
            elif op == "Qry":
                put("SIG 0 %d %d" % (a["g"], n), ("other",))
            elif op == "Wri":
                for g in known:
                    put("SIG 0 %d %d" % (g, n), ("q", "sig", g))
                    put("TAN 0 %d %d" % (g, n), ("q", "tan", g))
                    put("NLF 0 %d" % g, ("q", "nl", g))
                put("WRI 0", ("wri", list(known)))
                for i, f in enumerate(NAMES):
                    put("READ " + f, ("file", i))
        put("DEL 0", ("skip",))
    ev, end = run_driver(exe, "\n".join(L) + "\n", c.scratch(), 600)
    T = [dict(ev="cfg", c=dict(dim=cell.dim, nvoi=n, C=C, nvars=cell.nvars))]
    qs = {}
    for o, w in zip(ev, plan):
        k = w[0]
        if k == "new":
            T.append(dict(ev="new", sizes=[]))
        elif k == "empty":
            T[-1]["sizes"].append(-1 if o.get("absent") else len(o["text"]))
        elif k == "set":
            T.append(dict(ev="set", g=w[1], e=w[2]))
        elif k == "hom":
            T.append(dict(ev="hom", solves=o["solves"]))
        elif k in ("upd", "other"):
            T.append(dict(ev=k))
        elif k == "q":
            g = qs.setdefault(w[2], {})
            if w[1] == "nl":
                g["nl"] = o["nl"]
            else:
                m = n if w[1] == "sig" else n * n
                g[w[1]] = [q(x, usig if w[1] == "sig" else utan) for x in o.get("v", [float("nan")] * m)]
        elif k == "wri":
            T.append(dict(ev="wri", q=[qs[g] for g in w[1]], toks=[], heads=[], ids=[], conv=[], esc=[], var=[]))
            qs = {}
        elif k == "file":
            e = T[-1]
            lines = split_file(o.get("text", ""))
            i = w[1]
            hl = {0: 3, 1: 2, 2: 0}[i]
            head = lines[:hl]
            recs = lines[hl:]
            if i < 2:
                # headers only at the top
                good = len(head) == hl and all(x.startswith("#") or not x.strip() for x in head) \
                    and head[0].startswith("# gp_id") and not any("#" in x for x in recs)
                e["heads"].append(1 if good else 0)
                ids = []
                for t in (head[0].split(":", 1)[1].split() if good and ":" in head[0] else []):
                    if t.startswith("#"):
                        break
                    ids.append(int(t))
                e["ids"].append(ids)
            e["toks"].append([hashlib.sha1(x.encode()).hexdigest()[:12] for x in recs])
            rows = parse_rows(recs[-1]) if recs else []
            if i == 0:
                for r in rows:
                    its = r[2::2]
                    inv = r[1] if len(r) > 1 else float("nan")
                    e["conv"].append(dict(
                        nl=int(r[0]) if r and r[0] == r[0] else -1,
                        inv=-10**8 if inv == -1e10 else q(inv, 10 * uC * u),
                        its=int(sum(its)) if len(r) == 2 + 2 * (1 + n) and all(x == x and abs(x) < 1e6 for x in its) else -10**6))
            elif i == 1:
                for r in rows:
                    e["esc"].append([q(x, u / 1000) for x in r[:6]] + [q(x, usig) for x in r[6:12]] + [q(x, utan) for x in r[12:]])
            else:
                for r in rows:
                    e["var"].append([len(r)] + [q(x, 1e-3 * u) for x in digest(r, 6)])
    # without a count of linear systems nothing is said about them
    if not any(t.get("solves") for t in T):
        for t in T:
            if t["ev"] == "hom":
                t["solves"] = -1
    if end:
        T.append(dict(ev="crash", how=end))
    return T, L
