"""Scripts and recordings for spec/FieldTrace.tla."""
from .fem import *


def fem_model(c):
    r = model_check("FemMC", c.work, cfgtext("Spec", dict(Sizes2="FSizes2", Sizes3="FSizes3"),
                                             ["Patch", "Pulled", "Numbering"]))
    c.add_model(r, "FemMC")


def field_jobs(c, exe, cells, fn, parts=7):
    """fn(c, exe, fc, strains) -> events for one cell.  Cells are spread over traces."""
    groups = [cells[i::parts] for i in range(parts)]

    def one(gr):
        def rec():
            T = []
            for a in gr:
                T += fn(c, exe, *a)
            return T
        T = rec()
        return ("FieldTrace", None, T, dict(traces=len(gr), again=rec, script=None,
                                            note=json.dumps([a[0].cell.describe() for a in gr])))
    with ThreadPoolExecutor(7) as ex:
        return list(ex.map(one, [g for g in groups if g]))


class Script:
    def __init__(self):
        self.L, self.keys = [], []

    def put(self, line, key=None):
        self.L.append(line)
        self.keys.append(key)

    def run(self, c, exe, env=None, timeout=600):
        ev, end = run_driver(exe, "\n".join(self.L) + "\n", c.scratch(), timeout, env)
        out = {}
        for o, k in zip(ev, self.keys):
            if k is not None:
                out[k] = o
        self.end = end
        return out


def shot_events(fc, o, e, aff=True):
    """disp / strain events of a snapshot (o: a READ answer)."""
    f = parse_vtu(o.get("text", "")) if not o.get("absent") else {}
    T = [dict(ev="disp", u=fc.q_disp(f.get("displ", [])), e=e, chk=aff)]
    return f, T


def linear_cell(c, exe, fc, strains):
    S = Script()
    S.put(fc.cell.new(0))
    for k, e in enumerate(strains):
        S.put(setline(0, k, fc.strain(e)))
    S.put("HOM 0")
    n = fc.cell.nvoi
    for k, e in enumerate(strains):
        S.put("OUT 0 3 %d" % k)
        S.put("READ micropp_%d_3.vtu" % k, ("vtu", k))
        S.put("SIG 0 %d %d" % (k, n), ("sig", k))
    S.put("DEL 0")
    o = S.run(c, exe)
    T = [dict(ev="cell", c=fc.tla())]
    for k, e in enumerate(strains):
        if ("vtu", k) not in o:
            break
        f, t = shot_events(fc, o[("vtu", k)], e)
        T += t
        T.append(dict(ev="equil"))
        st = fc.q_stress(f.get("stress", []))
        T.append(dict(ev="stress", v=st))
        sg = [num(x) for x in o[("sig", k)].get("v", [float("nan")] * n)]
        T.append(dict(ev="mean", v=st, m=fc.q_stress(sg)[0], t=60))
    if S.end:
        T.append(dict(ev="crash", how=S.end))
    return T


def unbalanced(f):
    """The snapshot's own residual says that its iteration did not converge."""
    b = f.get("b", [])
    return bool(b) and not math.sqrt(sum(x * x for x in b)) < 1.0e-4


def aimed(c, exe, fc, rnd, targets, tries=250):
    """Integer strains under which the highest point of the elastic solution lies
    in the given elements (as far as any is found); chooses stimuli only."""
    from copy import copy
    big = copy(fc.cell)
    big.m1, big.m2 = copy(fc.cell.m1), copy(fc.cell.m2)
    big.m1.Sy = big.m2.Sy = 1e30
    S = Script()
    S.put(big.new(0))
    for k in range(6):
        S.put(setline(0, 1, [fc.u0 * 10 if i == k else 0.0 for i in range(6)]))
        S.put("OUT 0 1 1")
        S.put("READ micropp_1_1.vtu", k)
    S.put("DEL 0")
    o = S.run(c, exe)
    base = []
    for k in range(6):
        d = parse_vtu(o.get(k, {}).get("text", "")).get("displ", [])
        if len(d) != 3 * fc.cell.nn:
            return []
        base.append([x for x in fc.gp_devs(d) if not fc.mats[fc.elem_mat(x[1])]["linear"]])
    pts = [(p[0][1], p[0][2], [x[0] for x in p]) for p in zip(*base)]

    def norm2(e, D):
        return sum(sum(e[k] * D[k][i] for k in range(6)) ** 2 for i in range(6))
    out = []
    for t in targets:
        mine = [p for p in pts if p[0] == t]
        rest = [p for p in pts if p[0] != t]
        if not mine:
            continue
        for _ in range(tries):
            e = rnd_strain(rnd, 3)
            top = max(norm2(e, p[2]) for p in mine)
            for i, p in enumerate(rest):
                if norm2(e, p[2]) > 0.97 * top:
                    rest.insert(0, rest.pop(i))
                    break
            else:
                out.append((e, t))
                break
    return out


def flag_aimed(c, exe, fc, seed):
    rnd = random.Random(seed)
    pl = [e for e in range(fc.cell.nelem) if not fc.mats[fc.elem_mat(e)]["linear"]]
    if not pl:
        return []
    ne = fc.cell.ne
    corners = [x + ne[0] * (y + ne[1] * z) for x in {0, ne[0] - 1} for y in {0, ne[1] - 1} for z in {0, ne[2] - 1}]
    corners = [e for e in corners if e in pl]
    ts = rnd.sample(corners, min(len(corners), 3)) + rnd.sample(pl, min(len(pl), 2))
    if 0 in pl and 0 not in ts:
        ts.append(0)
    T = []
    for e, t in aimed(c, exe, fc, rnd, ts):
        c.count("loads_aimed_at_corner_elements" if t in corners else "loads_aimed_at_other_elements")
        T += flag_cell(c, exe, fc, [e], 2)
    return T


def flag_cell(c, exe, fc, strains, nlim=6):
    """Non-linear flag for yield limits placed between the values at the points of
    the elastic solution."""
    T = []
    from copy import copy
    for e in strains:
        big = copy(fc.cell)
        big.m1, big.m2 = copy(fc.cell.m1), copy(fc.cell.m2)
        big.m1.Sy = big.m2.Sy = 1e30
        S = Script()
        S.put(big.new(0))
        S.put(setline(0, 1, fc.strain(e)))
        S.put("HOM 0")
        S.put("NLF 0 1", "nl")
        S.put("OUT 0 1 1")
        S.put("READ micropp_1_1.vtu", "vtu")
        S.put("DEL 0")
        o = S.run(c, exe)
        T.append(dict(ev="cell", c=fc.tla()))
        f, t = shot_events(fc, o.get("vtu", {}), e)
        T += t
        runs = [dict(R=[10 ** 6, 10 ** 6], nl=o.get("nl", {}).get("nl", -1))]
        d = f.get("displ", [])
        S = Script()
        lims = []
        if fc.dim == 3 and len(d) == 3 * fc.cell.nn:
            nm = [x for x in fc.gp_norms(d) if not fc.mats[fc.elem_mat(x[1])]["linear"]]
            nm.sort(reverse=True)
            gap = 2 * 23.0 / fc.M
            cand = []
            # above everything, and between well separated values
            if nm:
                cand.append((nm[0][0] + gap, -1))
                for i in range(len(nm) - 1):
                    if nm[i][0] - nm[i + 1][0] > gap:
                        cand.append(((nm[i][0] + nm[i + 1][0]) / 2, i))
                        c.count("limits_isolating_%d_points" % (i + 1) if i < 3 else "limits_isolating_more")
                        if i == 0:
                            c.notes.setdefault("sole_yielding_point", {}).setdefault("gp%d" % nm[0][2], 0)
                            c.notes["sole_yielding_point"]["gp%d" % nm[0][2]] += 1
                if nm[-1][0] > gap:
                    cand.append((nm[-1][0] / 2, len(nm)))
            lims = cand[:nlim]
            # loads far beyond the limit
            if nm and nlim > 2:
                lims += [(x, -2) for x in (nm[len(nm) // 4][0], nm[len(nm) // 2][0], nm[-1][0], nm[0][0] / 6) if x < nm[0][0] - gap]
        else:
            lims = [(1e-3, 0), (5.0, 0)]
        for k, (R, _) in enumerate(lims):
            cl = copy(fc.cell)
            cl.m1, cl.m2 = copy(fc.cell.m1), copy(fc.cell.m2)
            for m in (cl.m1, cl.m2):
                m.Sy = R * fc.u0 * 2 * m.mu / math.sqrt(2.0 / 3)
            S.put(cl.new(0))
            S.put(setline(0, 1, [0.0] * fc.cell.nvoi))
            S.put("HOM 0")
            S.put("NLF 0 1", ("z", k))
            S.put(setline(0, 1, fc.strain(e)))
            S.put("HOM 0")
            S.put("WRI 0")
            S.put("LAST micropp_convergence.dat", ("c1", k))
            S.put("NLF 0 1", ("nl", k))
            S.put("NLF 0 2", ("un", k))
            # unloading: stays set
            S.put(setline(0, 1, [0.0] * fc.cell.nvoi))
            S.put("HOM 0")
            S.put("WRI 0")
            S.put("LAST micropp_convergence.dat", ("c2", k))
            S.put("NLF 0 1", ("back", k))
            S.put("DEL 0")
            if k < 2 or _ == -2:
                # after the solution of a point far away: more iterations
                S.put(cl.new(0))
                S.put(setline(0, 5, [x * fc.u0 * (-40 if i % 2 else 30) for i, x in enumerate(reversed(e))]))
                S.put(setline(0, 1, fc.strain(e)))
                S.put("HOM 0")
                S.put("WRI 0")
                S.put("LAST micropp_convergence.dat", ("c3", k))
                S.put("NLF 0 1", ("nl3", k))
                S.put("DEL 0")
        o = S.run(c, exe)
        for k, (R, _) in enumerate(lims):
            Ri = [int(round(R * fc.M))] * 2
            if unconverged(o.get(("c1", k), {}).get("text", "")):
                c.count("loads_not_converged")
            else:
                runs.append(dict(R=Ri, nl=o.get(("nl", k), {}).get("nl", -1)))
                if not unconverged(o.get(("c2", k), {}).get("text", "")):
                    runs.append(dict(R=Ri, nl=o.get(("back", k), {}).get("nl", -1)))
            if ("nl3", k) in o:
                row = parse_rows(o[("c3", k)].get("text", ""))[1:2]
                if row and row[0][2:4] and not gave_up(row[0][:4]):
                    runs.append(dict(R=Ri, nl=o[("nl3", k)].get("nl", -1)))
                    c.count("flags_after_%s_iterations" % ("0_to_3" if row[0][2] < 4 else "4_or_5" if row[0][2] < 6 else "6_or_more"))
            runs.append(dict(R=[10 ** 6] * 2, nl=o.get(("z", k), {}).get("nl", -1)))
            runs.append(dict(R=[10 ** 6] * 2, nl=o.get(("un", k), {}).get("nl", -1)))
        T.append(dict(ev="flag", runs=runs))
        if S.end:
            T.append(dict(ev="crash", how=S.end))
    return T


def vars_of(fc, o):
    rows = parse_rows(o.get("text", ""))
    return rows


def out_of_range(vs):
    """Flow in one place has left the range of the specification's numbers."""
    return 50000 < max((abs(x) for el in vs for p in el for x in p), default=0) < 400000


def plastic_path(c, exe, fc, path, what):
    """One point driven along a path, committing every step; what: subset of
    {'admiss','equilp','mean','ave','stressp','plast','strain','geo','grid'}."""
    n = fc.cell.nvoi
    S = Script()
    S.put(fc.cell.new(0))
    for k, e in enumerate(path):
        S.put(setline(0, 1, fc.strain(e)))
        S.put("HOM 0")
        S.put("WRI 0")
        S.put("LAST micropp_convergence.dat", ("conv", k))
        S.put("SIG 0 1 %d" % n, ("sig", k))
        S.put("OUT 0 %d 1" % (2 * k), None)
        S.put("AVS 0 %d" % n, ("ave", k))
        S.put("READ micropp_1_%d.vtu" % (2 * k), ("pre", k))
        S.put("UPD 0")
        S.put("WRI 0")
        S.put("LAST micropp_int_vars_n.dat", ("var", k))
        S.put("OUT 0 %d 1" % (2 * k + 1), None)
        S.put("READ micropp_1_%d.vtu" % (2 * k + 1), ("post", k))
    S.put("DEL 0")
    o = S.run(c, exe)
    T = [dict(ev="cell", c=fc.tla()), dict(ev="virgin")]
    for k, e in enumerate(path):
        if ("post", k) not in o:
            break
        if unconverged(o[("conv", k)].get("text", "")):
            c.count("paths_cut_unconverged")
            break
        f, t = shot_events(fc, o[("pre", k)], e)
        sg = [num(x) for x in o[("sig", k)].get("v", [float("nan")] * n)]
        if what & {"mean", "ave", "stressp", "plast", "strain", "geo", "grid"}:
            T += t
        if "geo" in what:
            T.append(dict(ev="geo", v=[q(x, 1) for x in f.get("elem_type", [])]))
        if "grid" in what:
            T.append(grid_event(fc, f))
        if "mean" in what:
            st = fc.q_stress(f.get("stress", []))
            T.append(dict(ev="mean", v=st, m=fc.q_stress(sg)[0], t=80))
            sn = fc.q_strain(f.get("strain", []))
            T.append(dict(ev="mean", v=sn, m=[x * fc.ms for x in e], t=3))
        if "ave" in what:
            a = o[("ave", k)]
            if "v" in a:
                T.append(dict(ev="ave", v=[q(x, fc.u0 / 1e6) for x in a["v"]], e=e))
        if "strain" in what:
            T.append(dict(ev="strain", v=fc.q_strain(f.get("strain", []))))
        if "stressp" in what:
            T.append(dict(ev="stressp", v=fc.q_stress(f.get("stress", []), fc.M)))
        if "plast" in what:
            T.append(plast_event(fc, f))
        vs = fc.q_vars((parse_rows(o[("var", k)].get("text", "")) or [[]])[0])
        if out_of_range(vs):
            c.count("paths_cut_out_of_range")
            break
        T.append(dict(ev="vars", v=vs))
        f, t = shot_events(fc, o[("post", k)], e)
        T += t
        if "admiss" in what:
            T.append(dict(ev="admiss"))
        if "equilp" in what:
            T.append(dict(ev="equilp"))
        if "stressp" in what:
            T.append(dict(ev="stressp", v=fc.q_stress(f.get("stress", []), fc.M)))
        if "plast" in what:
            T.append(plast_event(fc, f))
        if "mean" in what:
            st = fc.q_stress(f.get("stress", []))
            T.append(dict(ev="mean", v=st, m=fc.q_stress(sg)[0], t=80))
        c.count("plastic_steps")
    if S.end:
        T.append(dict(ev="crash", how=S.end))
    return T


def plast_event(fc, f):
    u = fc.u0 / fc.M
    return dict(ev="plast", n=[q(x, u) for x in f.get("plasticity", [])],
                a=[q(x * math.sqrt(1.5), u) for x in f.get("hardening", [])])


def grid_event(fc, f):
    npe = 8 if fc.dim == 3 else 4
    return dict(ev="grid", counts=f["_counts"] if "_counts" in f else [-1, -1],
                pts=fc.rows([q(x, fc.lu / fc.mp) for x in f.get("Position", [])], 3),
                con=fc.rows([q(x, 1) for x in f.get("connectivity", [])], npe),
                off=[q(x, 1) for x in f.get("offsets", [])], typ=[q(x, 1) for x in f.get("types", [])])


def pla_cell(rnd, maxn=4, maxh=2, kinds=((True, False), (False, True), (True, True)), minn=3, n=None, R0=None, micro=None, u0=None, Mu=None):
    n0, h = rnd_grid(rnd, 3, maxn, maxh, minn)
    n = n or n0
    micro = rnd.randrange(2) if micro is None else micro
    w, wd = rnd_width(rnd, 3, n, h, micro)
    k = rnd.choice(kinds)
    mats = rnd_mats(rnd, k, R0 or (rnd.choice([3, 6, 7, 8]), rnd.choice([3, 6, 8, 9])), (rnd.choice([0, 1]), 1))
    return FemCell(rnd, 3, n, h, micro, w, wd, mats, u0=u0 or strain_unit(rnd),
                   Mu=Mu or 10 ** rnd.uniform(5.5, 6.5))


def mixed_cell(rnd, share=1.0, **kw):
    """With interior nodes and both materials (a share of the time)."""
    want = rnd.random() < share
    while True:
        fc = pla_cell(rnd, **kw)
        if not want or min(fc.n[:3]) > 2 and len({fc.elem_mat(e) for e in range(fc.cell.nelem)}) == 2:
            return fc


def rnd_path(rnd, steps, emax=9):
    """Loading, turning, reversing, staying."""
    out = []
    e = rnd_strain(rnd, 3, emax)
    for k in range(steps):
        r = rnd.random()
        if k and r < 0.2:
            e = [-x for x in e]
        elif k and r < 0.35:
            e = [x // 2 for x in e]
        elif k and r < 0.5:
            e = [0] * 6
        elif k:
            f = rnd_strain(rnd, 3, emax)
            e = [max(-emax, min(emax, x + y // 2)) for x, y in zip(e, f)]
        out.append(e)
    return out


def geo_cell(c, exe, fc, strains):
    """Element types only (any grid)."""
    S = Script()
    S.put(fc.cell.new(0))
    S.put(setline(0, 1, [0.0] * fc.cell.nvoi))
    S.put("OUT 0 1 1")
    S.put("READ micropp_1_1.vtu", "vtu")
    S.put("DEL 0")
    o = S.run(c, exe)
    f = parse_vtu(o.get("vtu", {}).get("text", ""))
    T = [dict(ev="cell", c=fc.tla()), dict(ev="geo", v=[q(x, 1) for x in f.get("elem_type", [])])]
    if S.end:
        T.append(dict(ev="crash", how=S.end))
    return T


def shots_history(c, exe, fc, strains, beh, elastic):
    """A generated history with snapshots of several points; every snapshot is
    checked against the point's strain and committed variables at that moment."""
    S = Script()
    S.put(fc.cell.new(0))
    known, cur = [], {}
    plan = []
    for k, a in enumerate(beh):
        op = a["op"]
        if op == "Set":
            if a["g"] not in known:
                known.append(a["g"])
            cur[a["g"]] = strains[a["e"] - 1]
            S.put(setline(0, a["g"], fc.strain(cur[a["g"]])))
        elif op == "Hom":
            S.put("HOM 0")
            S.put("WRI 0")
            S.put("LAST micropp_convergence.dat", ("conv", k))
            plan.append(("conv", k, None, None))
        elif op == "Upd":
            S.put("UPD 0")
        elif op == "Wri":
            S.put("WRI 0")
        elif op == "Out" and a["g"] in known:
            S.put("WRI 0")
            S.put("LAST micropp_int_vars_n.dat", ("var", k))
            # steps may be asked for again
            ts = k % 3 if k % 5 else [k, -k, 0, 100000 + k, 2147483647, -1, 1234567][k // 5 % 7]
            S.put("OUT 0 %d %d" % (ts, a["g"]))
            S.put("READ micropp_%d_%d.vtu" % (a["g"], ts), ("vtu", k))
            plan.append(("out", k, known.index(a["g"]), cur[a["g"]]))
        elif op == "Out":
            S.put("OUT 0 %d %d" % (k, a["g"]))
    # earlier snapshots are still as they were
    outs = [p for p in plan if p[0] == "out"]
    S.put("DEL 0")
    o = S.run(c, exe)
    T = [dict(ev="cell", c=fc.tla()), dict(ev="virgin")]
    for kind, k, ix, e in plan:
        if kind == "conv":
            if unconverged(o.get(("conv", k), {}).get("text", "")):
                c.count("histories_cut_unconverged")
                break
            continue
        if ("vtu", k) not in o:
            break
        f, t = shot_events(fc, o[("vtu", k)], e)
        if unbalanced(f):
            c.count("snapshots_not_converged")
            continue
        rows = parse_rows(o[("var", k)].get("text", ""))
        vs = fc.q_vars(rows[ix] if ix < len(rows) else []) if fc.dim == 3 else []
        if out_of_range(vs):
            c.count("histories_cut_out_of_range")
            break
        T += t
        T.append(grid_event(fc, f))
        T.append(dict(ev="geo", v=[q(x, 1) for x in f.get("elem_type", [])]))
        T.append(dict(ev="strain", v=fc.q_strain(f.get("strain", []))))
        if fc.dim == 3:
            T.append(dict(ev="vars", v=vs))
            T.append(plast_event(fc, f))
            T.append(dict(ev="stressp", v=fc.q_stress(f.get("stress", []), fc.M)))
            if elastic:
                T.append(dict(ev="equil"))
        else:
            T.append(dict(ev="stress", v=fc.q_stress(f.get("stress", []))))
            T.append(dict(ev="equil"))
        c.count("snapshots_checked")
    if S.end:
        T.append(dict(ev="crash", how=S.end))
    return T
