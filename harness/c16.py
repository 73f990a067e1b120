"""C16: files and transforms lose nothing.  Sessions of writing and reading (TLC, FilesGen) are replayed
on the real readers and writers; every real object is turned into rows of electrode and value tokens,
and TLC follows objects and files (TraceFiles) and judges every row."""
import contextlib, copy, fnmatch, io, os, pickle, shutil, tempfile, time, warnings
import numpy as np
from vf.core import pair, exc_event
import zoo

warnings.filterwarnings("ignore")
LOST = 999


# ------------------------------------------------------------------ tokens
def electrodes(scale, dim, bore):
    """eight electrodes, told apart at seven digits; in a borehole two share their horizontal position"""
    i = np.arange(1, 9, dtype=float)
    x, y, z = 10.0 * i + 0.25 * (i % 3), 5.0 * (i % 3) + 3.0 * i, -0.5 * (i % 4)
    if scale == "utm":
        x, y, z = 432100 + 2.0 * i + 0.5 * (i % 3), 5567000 + 20 * i, 311.5 + z
    elif scale == "neg":
        x, y, z = -x - 33.3, -y - 12.5, z - 250.0
    elif scale == "small":
        x, y, z = x * 1e-3 + 0.5, y * 1e-3, z * 1e-2
    elif scale == "origin":
        x, y, z = x - x[3], y - y[3], z - z[3]
    if bore:
        x, y = x[[0, 0, 2, 2, 4, 4, 6, 6]], y[[0, 0, 2, 2, 4, 4, 6, 6]]
        z = z - (0.02 if scale == "small" else 5.0) * i
    return np.c_[x, z] if dim == 2 else np.c_[x, y, z]


VALUES = {"mixed": [0.0, 1.234567, -3.5e-3, 123.25, -7.75, 2.5e-6, 9.876543e3, -1.0, 0.333333],
          "zero": [0.0], "neg": [-0.1 * k - 0.0123 for k in range(9)],
          "tiny": [0.0] + [(-1) ** k * 1.5e-17 * (1 + k) for k in range(8)],
          "huge": [0.0] + [(-1) ** k * 2.5e12 * (1 + k) for k in range(8)]}
VALUES["unset"] = VALUES["mixed"]


def value(style, t):
    return VALUES[style][t - 1]


def unc(style, t):
    return abs(VALUES[style][t - 1]) * 0.05 if t > 1 else 0.0


def find(v, table, tol=1.5e-6):
    if np.isnan(v):
        return 0
    d = np.abs(np.asarray(table) - v)
    k = int(np.argmin(d - 1e-9 * np.arange(len(table)) * 0))
    return k + 1 if d[k] <= tol * max(abs(table[k]), 1e-300) or v == table[k] else LOST


def elec(p, E, surf_dim, slack=1e-12):
    """token of a location; surf_dim: number of horizontal coordinates when elevations are left out"""
    p = np.asarray(p, dtype=float).ravel()
    n = surf_dim or E.shape[1]
    if len(p) != E.shape[1]:
        return LOST
    tol = 6e-7 * np.abs(E[:, :n]) + slack
    hit = np.flatnonzero(np.all(np.abs(E[:, :n] - p[:n]) <= tol, axis=1))
    return int(hit[0]) + 1 if len(hit) == 1 else LOST


# ------------------------------------------------------------------ direct current
def dc_survey(st, E):
    from simpeg.electromagnetics.static import resistivity as dc
    srcs, rows = [], []
    for b in st["blocks"]:
        groups = []
        for r in b["rx"]:
            kind = r["e"][1] == 0
            if not groups or groups[-1][0] != kind or r["cut"]:
                groups.append((kind, []))
            groups[-1][1].append(r)
            rows.append([*b["e"], *r["e"], *((0, 0) if st["style"] == "unset" else (r["d"], r["u"] if st["unc"] else 1))])
        rl = []
        for kind, rs in groups:
            M = np.array([E[r["e"][0] - 1] for r in rs])
            rl.append(dc.receivers.Pole(M) if kind else dc.receivers.Dipole(M, np.array([E[r["e"][1] - 1] for r in rs])))
        a, bb = b["e"]
        srcs.append(dc.sources.Pole(rl, E[a - 1]) if bb == 0 else dc.sources.Dipole(rl, E[a - 1], E[bb - 1]))
    return dc.Survey(srcs), rows


def make_data(survey, rows, st, d0, u0):
    from simpeg.data import Data
    d = [value(st["style"], r[d0]) for r in rows]
    dat = Data(survey, dobs=None if st["style"] == "unset" else np.array(d))
    if st["unc"]:
        dat.standard_deviation = np.array([unc(st["style"], r[u0]) for r in rows])
    return dat


def dc_rows(survey, E, cols, slack=1e-12):
    """one row of tokens per datum, straight from the sources and receivers"""
    from simpeg.electromagnetics.static.resistivity import sources, receivers
    locs = [[], [], [], []]
    for s in survey.source_list:
        loc = s.location
        A = loc[0]
        B = None if isinstance(s, sources.Pole) else loc[1]
        for r in s.receiver_list:
            two = isinstance(r, receivers.Dipole)
            M = r.locations[0] if two else r.locations
            for i in range(len(M)):
                for k, p in enumerate((A, B, M[i], r.locations[1][i] if two else None)):
                    locs[k].append(p)
    z = [p[-1] for ps in locs for p in ps if p is not None]
    surf = bool(len(z)) and bool(np.all(np.asarray(z) == 9999))
    n = E.shape[1] - 1 if surf else 0
    rows = [[0 if p is None else elec(p, E, n, slack) for p in (locs[k][i] for k in range(4))] for i in range(len(locs[0]))]
    if len(rows) != survey.nD or any(len(c) != len(rows) for c in cols):
        return [[LOST]], surf
    return [r + [c[i] for c in cols] for i, r in enumerate(rows)], surf


def tokens(vals, style, kind):
    t = VALUES[style]
    t = t if kind == "d" else [unc(style, k + 1) for k in range(len(t))]
    return [find(v, t) for v in np.asarray(vals, dtype=float)]


def dc_observe(dat, E, style, extra=()):
    rows, surf = dc_rows(dat.survey, E, [tokens(dat.dobs, style, "d"), tokens(dat.standard_deviation, style, "u"), *[tokens(x, style, "d") for x in extra]])
    return dict(rows=rows, surf=surf)


COMMENT = {"none": None, "plain": "a comment", "bang": "! a comment\n", "two": "first line\nsecond line 12"}
UBC2 = {"2general": "general", "2surface": "surface", "2simple": "simple"}


def rho_app(dat):
    """apparent resistivities in a half space, from the distances between electrodes"""
    from simpeg.electromagnetics.static.resistivity import sources, receivers
    out, i = [], 0
    for s in dat.survey.source_list:
        ab = [(s.location[0], 1.0)] + ([] if isinstance(s, sources.Pole) else [(s.location[1], -1.0)])
        for r in s.receiver_list:
            mn = [(r.locations[0], 1.0), (r.locations[1], -1.0)] if isinstance(r, receivers.Dipole) else [(r.locations, 1.0)]
            parts = [f * g / np.linalg.norm(np.asarray(P) - A, axis=1) / (2 * np.pi) for A, f in ab for P, g in mn]
            G = sum(parts)
            G[np.abs(G) < 1e-5 * sum(map(np.abs, parts))] = np.nan         # cancelled: any answer will do
            out.append(np.abs(dat.dobs[i:i + r.nD] / (G + 1e-10)))
            i += r.nD
    return np.hstack(out)


def dc_session(case, hist, folder, out):
    from simpeg.utils import io_utils as iu
    st = hist[0]
    dim = 2 if st["fam"] == "dc2" else 3
    E = electrodes(st["scale"], dim, st["bore"])
    survey, rows = dc_survey(st, E)
    objs = [make_data(survey, rows, st, 4, 5)]
    style = st["style"]
    obs = lambda d: dc_observe(d, E, style)
    out.append(dict(op="make", case=case, want=rows, **obs(objs[0])))
    paths = {}
    for o in hist[1:]:
        if o["op"] == "write":
            i = o["obj"] % len(objs)
            dat, fmt = objs[i], o["fmt"]
            if st["bore"] and fmt in ("2surface", "2simple", "3surface"):
                fmt = {"2": "2general", "3": "3general"}[fmt[0]]
            if fmt[0] in "3o" and o["ft"] == "dpred" and o["dtype"] == "volt" and coincide(dat):
                o = dict(o, ft="dobs")                     # no apparent resistivity for a potential at a source
            path = os.path.join(folder, "f%d.txt" % o["path"])
            table, layout, wild = [], "blocks", False
            n = o["cols"]
            if fmt == "xyz":
                layout = "table"
                base = obs(dat)["rows"]
                ex = {"EX": [1 + (7 * k + 3) % len(VALUES[style]) for k in range(len(base))], "EY": [1 + (5 * k + 1) % len(VALUES[style]) for k in range(len(base))]}
                ex = {k: ex[k] for k in ("EX", "EY") if n & {"EX": 1, "EY": 2}[k]}
                with_d, with_u = o["ft"] != "survey", o["ft"] == "dobs"
                iu.write_dcip_xyz(path, dat, data_header="DATA" if with_d else None, uncertainties_header="STD" if with_u else None,
                                  out_dict={k: np.array([value(style, t) for t in v]) for k, v in ex.items()} or None)
                for k, r in enumerate(base):
                    c = {kk: v[k] for kk, v in ex.items()}
                    if with_d:
                        c["DATA"] = r[4]
                    if with_u:
                        c["STD"] = r[5]
                    table.append(dict(e=r[:4], c=c or {"-": 0}))
                paths[o["path"]] = dict(fmt=fmt, names=([*ex] + ["DATA"] * with_d + ["STD"] * with_u))
                if len(base) > 2 and n == 3:
                    shuffle_columns(path)                  # the same table with its columns in another order
            elif fmt in UBC2:
                layout = "table" if fmt == "2simple" else "blocks"
                iu.write_dcip2d_ubc(path, dat, o["dtype"], o["ft"], format_type=UBC2[fmt], comment_lines=COMMENT[o["comment"]])
                paths[o["path"]] = dict(fmt=fmt, dtype=o["dtype"])
            else:
                wild = o["ft"] == "dpred" and o["dtype"] == "volt"
                w = iu.write_dcipoctree_ubc if fmt == "oct" else iu.write_dcip3d_ubc
                kw = {} if fmt == "oct" and o["comment"] == "none" else dict(comment_lines=COMMENT[o["comment"]])
                w(path, dat, o["dtype"], o["ft"], format_type="surface" if fmt == "3surface" else "general", **kw)
                paths[o["path"]] = dict(fmt=fmt, dtype=o["dtype"], rho=rho_app(dat) if wild and style not in ("unset",) else None)
            out.append(dict(op="write", case=case, obj=i + 1, path=o["path"], fmt=fmt, ft=o["ft"], layout=layout, wild=wild, fsurf=fmt in ("2surface", "2simple", "3surface"), table=table, **obs(dat)))
        else:
            if o["path"] not in paths:
                continue
            p, path = paths[o["path"]], os.path.join(folder, "f%d.txt" % o["path"])
            fmt = p["fmt"]
            ev = dict(op="read", case=case, path=o["path"], fmt=fmt, dcol="", ucol="", dict=[], asksurf=False, nk=4, nkeep=6)
            extra = []
            if fmt == "xyz":
                surf = o["surf"] and not st["bore"]
                ax = "XZ" if dim == 2 else "XYZ"
                ax = ax[:-1] if surf else ax
                H = {"%s_headers" % e.lower(): [c + e for c in ax] for e in "ABMN"}
                have = p["names"]
                dcol, ucol = (c if c in have else "" for c in (o["dcol"], o["ucol"]))
                if ucol == "EX":
                    ucol = ""                              # uncertainties cannot be negative
                dcol = "" if dcol == ucol else dcol
                names = [c for c in o["dict"] if c in have and c != "STD"]
                res = iu.read_dcip_xyz(path, o["dtype"], data_header=dcol or None, uncertainties_header=ucol or None,
                                       dict_headers=names or None, is_surface_data=surf, **H)
                dat, dic = res if names else (res, {})
                out.append(dict(op="true", case=case, ok=bool(set(dic) == set(names)), what="extra-columns"))
                extra = [dic[c] for c in names]
                ev.update(dcol=dcol, ucol=ucol, dict=names, asksurf=surf)
                rtype = o["dtype"]
            elif fmt in UBC2:
                dat = iu.read_dcip2d_ubc(path, p["dtype"], UBC2[fmt])
                rtype = "volt" if p["dtype"] == "secondary_potential" else p["dtype"]
            else:
                dat = (iu.read_dcipoctree_ubc if fmt == "oct" else iu.read_dcip3d_ubc)(path, p["dtype"])
                rtype = "volt" if p["dtype"] == "secondary_potential" else p["dtype"]
                if p["rho"] is not None:
                    r = p["rho"]
                    out.append(dict(op="true", case=case, ok=bool(np.all(np.isnan(r) | (np.abs(dat.standard_deviation - r) <= 2e-6 * np.abs(r)))), what="apparent-resistivity-column"))
                    dat.standard_deviation = np.zeros(dat.nD)
            out.append(dict(op="true", case=case, ok=all(r.data_type == rtype for s in dat.survey.source_list for r in s.receiver_list), what="data-type"))
            out.append(dict(ev, **dc_observe(dat, E, style, extra)))
            objs.append(dat)
        for i, d in enumerate(objs):
            out.append(dict(op="obs", case=case, obj=i + 1, **obs(d)))


def coincide(dat):
    from simpeg.electromagnetics.static.resistivity import sources
    for s in dat.survey.source_list:
        for r in s.receiver_list:
            for P in (r.locations if isinstance(r.locations, (list, tuple)) else [r.locations]):
                for A in np.atleast_2d(s.location):
                    if np.any(np.linalg.norm(np.asarray(P) - A, axis=1) < 1e-9):
                        return True
    return False


def shuffle_columns(path):
    with open(path) as fh:
        rows = [ln.split() for ln in fh.read().splitlines() if ln.strip()]
    order = np.random.default_rng(len(rows)).permutation(len(rows[0]))
    with open(path, "w") as fh:
        for r in rows:
            fh.write("  ".join(r[k] for k in order) + "\n")


# ------------------------------------------------------------------ potential fields
def pf_session(case, hist, folder, out):
    from simpeg.data import Data
    from simpeg.potential_fields import gravity, magnetics
    from simpeg.utils import io_utils as iu
    st = hist[0]
    fam, style, comps = st["fam"], st["style"], st["comps"]
    E = electrodes(st["scale"], 3, False)
    nc = len(comps)
    locs = np.array([E[r["e"] - 1] for r in st["rows"]])
    field = [(50000.25, 90.0, 0.0), (0.5, -89.99, 359.99), (1.0, 0.0, 0.0), (61234.56, -12.25, -179.5), (55000.0, 45.55, 17.01), (123456.78, 60.0, 45.0)][st["field"] - 1]
    if fam == "mag":
        rx = magnetics.receivers.Point(locs, components="tmi")
        sv = magnetics.Survey(magnetics.UniformBackgroundField([rx], amplitude=field[0], inclination=field[1], declination=field[2]))
    else:
        rx = gravity.receivers.Point(locs, components=list(comps))
        sv = gravity.Survey(gravity.SourceField([rx]))
    rows = [[r["e"], *([0] * 2 * nc if style == "unset" else [*r["d"], *(r["u"] if st["unc"] else [1] * nc)])] for r in st["rows"]]
    d = None if style == "unset" else np.array([value(style, t) for r in st["rows"] for t in r["d"]])
    dat = Data(sv, dobs=d)
    if st["unc"]:
        dat.standard_deviation = np.array([unc(style, t) for r in st["rows"] for t in r["u"]])

    def obs(dd):
        rx = dd.survey.source_field.receiver_list
        L = np.vstack([r.locations for r in rx])
        cs = [list(r.components) for r in rx]
        dv, uv = (np.asarray(tokens(v, style, k)) for v, k in ((dd.dobs, "d"), (dd.standard_deviation, "u")))
        if cs != [list(comps)] or dv.size != nc * len(L) or uv.size != nc * len(L) or dd.survey.nD != nc * len(L):
            return dict(rows=[[LOST]], surf=False)
        dv, uv = dv.reshape(-1, nc), uv.reshape(-1, nc)
        return dict(rows=[[elec(L[i], E, 0), *map(int, dv[i]), *map(int, uv[i])] for i in range(len(L))], surf=False)

    objs = [dat]
    out.append(dict(op="make", case=case, want=rows, **obs(dat)))
    W = {"grav": iu.write_grav3d_ubc, "mag": iu.write_mag3d_ubc, "gg": iu.write_gg3d_ubc}[fam]
    Rd = {"grav": iu.read_grav3d_ubc, "mag": iu.read_mag3d_ubc, "gg": iu.read_gg3d_ubc}[fam]
    paths = set()
    for o in hist[1:]:
        path = os.path.join(folder, "f%d.obs" % o["path"])
        if o["op"] == "write":
            i = o["obj"] % len(objs)
            W(path, objs[i])
            paths.add(o["path"])
            out.append(dict(op="write", case=case, obj=i + 1, path=o["path"], fmt=fam, ft="dobs", layout="blocks", wild=False, fsurf=False, table=[], **obs(objs[i])))
        elif o["path"] in paths:
            dd = Rd(path)
            out.append(dict(op="read", case=case, path=o["path"], fmt=fam, dcol="", ucol="", dict=[], asksurf=False, nk=1, nkeep=1 + 2 * nc, **obs(dd)))
            if fam == "mag":
                s = dd.survey.source_field
                got = np.r_[s.amplitude, s.inclination, s.declination]
                out.append(dict(op="true", case=case, ok=bool(np.all(np.abs(got - field) <= 0.00501)), what="background-field"))
            objs.append(dd)
        for i, x in enumerate(objs):
            out.append(dict(op="obs", case=case, obj=i + 1, **obs(x)))


# ------------------------------------------------------------------ magnetotellurics
def nsem_session(case, hist, folder, out):
    from simpeg.electromagnetics import natural_source as ns
    from simpeg.electromagnetics.natural_source.utils import data_utils as du
    st = hist[0]
    rng = np.random.default_rng(st["seed"])
    freqs = np.array([0.1, 3.0, 1234.5])[:st["nf"]]
    L = electrodes("utm", 3, False)[:st["nl"]]
    full = set(st["elems"]) >= {"xx", "xy", "yx", "yy"}
    turnable = full and not {"zx", "zy"} & set(st["elems"])
    T = {(f, k): {e: complex(*rng.normal(size=2)) * 10.0 ** rng.integers(-6, 3) for e in st["elems"]} for f in range(len(freqs)) for k in range(len(L))}
    want, srcs, d = [], [], []
    for f, fr in enumerate(freqs):
        rl = []
        for e in st["elems"]:
            for c in ("real", "imag"):
                R = ns.receivers.Tipper if "z" in e else ns.receivers.Impedance
                rl.append(R(L, orientation=e, component=c))
                d += [getattr(T[f, k][e], c) for k in range(len(L))]
                want += [[f + 1, k + 1, COMP.index(e + c[0])] for k in range(len(L))]
        srcs.append(ns.sources.PlanewaveXYPrimary(rl, fr))
    dat = ns.Data(ns.Survey(srcs), dobs=np.array(d))

    def turned(z, k):
        t = np.deg2rad(10.0 * k)
        R = np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])        # clockwise axes
        Z = R @ np.array([[z["xx"], z["xy"]], [z["yx"], z["yy"]]]) @ R.T
        return dict(xx=Z[0, 0], xy=Z[0, 1], yx=Z[1, 0], yy=Z[1, 1])

    def obs(dd, angle):
        rows, i, ok = [], 0, True
        for s in dd.survey.source_list:
            f = int(np.argmin(abs(freqs - s.frequency)))
            ok &= bool(freqs[f] == s.frequency)
            for r in s.receiver_list:
                e = r.orientation
                ok &= isinstance(r, ns.receivers.Tipper) == ("z" in e)
                P = np.asarray(r.locations[0])
                for j in range(r.nD):
                    k = elec(P[j], L, 0)
                    rows.append([f + 1, k, COMP.index(e + r.component[0])])
                    if k != LOST:
                        z = T[f, k - 1]
                        zz = turned(z, angle) if turnable else z
                        ok &= bool(abs(dd.dobs[i] - getattr(complex(zz[e]), r.component)) <= 1e-9 * max(abs(v) for v in z.values()))
                    i += 1
        ok &= i == len(dd.dobs)
        return dict(rows=rows, angle=angle if ok else LOST)

    angle = 0
    out.append(dict(op="nsem", case=case, want=want, **obs(dat, 0)))
    for o in hist[1:]:
        if o["op"] == "rec":
            dat = ns.Data.fromRecArray(dat.toRecArray(o["how"]))
        elif turnable:
            dat = du.rotate_data(dat, 10.0 * o["k"] if o["k"] <= 18 else 10.0 * (o["k"] - 36))
            angle = (angle + o["k"]) % 36
            out.append(dict(op="turn", case=case, k=o["k"]))
        else:
            continue
        out.append(dict(op="nsem", case=case, want=want, **obs(dat, angle)))


COMP = [a + b for a in ("xx", "xy", "yx", "yy", "zx", "zy") for b in "ri"]


# ------------------------------------------------------------------ electrode tables and lines
def abmn_case(case, hist, folder, out):
    from simpeg.electromagnetics.static.utils import generate_survey_from_abmn_locations as gen
    st = hist[0]
    dim = 2 if len(st["blocks"]) % 2 else 3
    E = electrodes(st["scale"], dim, st["bore"])
    _, rows = dc_survey(st, E)
    rng = np.random.default_rng(st["shuffle"])
    rows = [rows[k] for k in rng.permutation(len(rows))]
    if st["omit"] == "b":
        rows = [[r[0], 0, *r[2:]] for r in rows]
    if st["omit"] == "n":
        rows = [[*r[:3], 0, *r[4:]] for r in rows]
    P = [np.array([E[(r[c] or r[c - 1]) - 1] for r in rows]) for c in range(4)]
    if st["noise"] and st["scale"] in ("local", "neg", "origin"):
        noise = np.array([rng.normal(size=E.shape[1]) * 1e-10 for _ in rows])  # rounding of a previous computation
        for c, Q in enumerate(P):
            P[c] = Q + noise
    kw = dict(locations_a=P[0], locations_b=None if st["omit"] == "b" else P[1], locations_m=P[2], locations_n=None if st["omit"] == "n" else P[3])
    survey, idx = gen(data_type="volt", output_sorting=True, **kw)
    if survey.nD != len(idx):
        out.append(dict(op="true", case=case, ok=False, what="number-of-data"))
        return
    got, _ = dc_rows(survey, E, [], 1e-6)
    out.append(dict(op="sorted", case=case, rows=got, want=[r[:4] for r in rows], index=[int(k) + 1 for k in idx]))
    one = gen(data_type="volt", **kw)
    out.append(dict(op="true", case=case, ok=dc_rows(one, E, [], 1e-6)[0] == got, what="sorting-argument"))
    # and back: the electrode tables of the survey are the rows in survey order
    for c, name in enumerate("abmn"):
        L = getattr(survey, "locations_" + name)
        out.append(dict(op="true", case=case, ok=bool(np.all(np.abs(L - P[c][idx]) <= 1e-3 + 1e-9 * np.abs(L))), what="electrode-table-" + name))


def lines_case(case, hist, folder, out):
    from simpeg.electromagnetics.static.utils import convert_survey_3d_to_2d_lines as conv
    st = hist[0]
    t = np.deg2rad(30.0 * st["azimuth"])
    u = np.array([np.cos(t), np.sin(t)])
    i = np.arange(8.0)
    s = 10.0 * i + 1.5 * (i % 3)
    if st["bore"]:
        s = s[[0, 0, 2, 2, 4, 4, 6, 6]]
    z = -0.5 * (i % 4) - (5.0 * i if st["bore"] else 0)
    off = {"utm": np.array([432100.0, 5567000.0]), "neg": np.array([-333.0, -25.0])}.get(st["scale"], np.zeros(2))
    from simpeg.electromagnetics.static import resistivity as dc
    nrm = np.array([-u[1], u[0]])
    # every source lies on one line; the survey holds them all
    ids, srcs, tab = [], [], []
    for k, b in enumerate(st["blocks"]):
        ln = st["lines"][k]
        pos = lambda e: np.r_[off + u * s[e - 1] + nrm * 40.0 * ln, z[e - 1]]
        a, bb = b["e"]
        rl = []
        for r in b["rx"]:
            m, n = r["e"]
            rl.append(dc.receivers.Pole(pos(m)[None]) if n == 0 else dc.receivers.Dipole(pos(m)[None], pos(n)[None]))
            ids.append(ln)
            tab.append([a, bb, m, n])
        srcs.append(dc.sources.Pole(rl, pos(a)) if bb == 0 else dc.sources.Dipole(rl, pos(a), pos(bb)))
    names = sorted(set(ids))
    for ln in names:                                       # a direction needs two positions of A on the line
        if len({s[tb[0] - 1] for tb, k in zip(tab, ids) if k == ln}) < 2:
            return
        # r0 to rN: from the first to the last source of the line
    survey = dc.Survey(srcs)
    svs, idx = conv(survey, np.array(ids), output_indexing=True)
    bad = [sv.nD != len(ix) for sv, ix in zip(svs, idx)]
    out.append(dict(op="lines", case=case, ids=ids, names=names, lines=[[int(k) + 1 for k in ix] for ix in idx]))
    out.append(dict(op="true", case=case, ok=len(svs) == len(names) and not any(bad), what="number-of-data"))
    if any(bad):
        return
    ok = True
    for sv, ix in zip(svs, idx):
        S2 = np.vstack([getattr(sv, "locations_" + c) for c in "abmn"])
        Z = np.hstack([z[np.array([(tab[k][c] or tab[k][c - 1]) for k in ix]) - 1] for c in range(4)])
        X = np.hstack([s[np.array([(tab[k][c] or tab[k][c - 1]) for k in ix]) - 1] for c in range(4)])
        # along the line: the same positions up to direction and origin
        if len(S2) != len(X):
            ok = False
            break
        a = S2[:, 0] - S2[0, 0]
        x = X - X[0]
        tol = 1e-6
        ok &= bool(np.max(np.abs(S2[:, 1] - Z)) < tol) and (bool(np.max(np.abs(a - x)) < tol) or bool(np.max(np.abs(a + x)) < tol))
        kinds = [(k[1] == 0, k[3] == 0) for k in (tab[j] for j in ix)]
        got = [(isinstance(q_, dc.sources.Pole), isinstance(r, dc.receivers.Pole)) for q_ in sv.source_list for r in q_.receiver_list for _ in range(r.nD)]
        ok &= kinds == got
    out.append(dict(op="true", case=case, ok=ok, what="positions-along-the-line"))
    svs2 = conv(survey, np.array(ids))
    out.append(dict(op="true", case=case, ok=all(np.array_equal(a.locations_m, b.locations_m) for a, b in zip(svs, svs2)), what="indexing-argument"))


# ------------------------------------------------------------------ vectors
def vec_case(case, hist, folder, out):
    from simpeg import utils
    from simpeg.utils import mat_utils as mu
    st = hist[0]
    rng = np.random.default_rng(st["seed"])
    n = st["n"]
    v = rng.normal(size=(n, 3))
    amp = dict(unit=1.0, tiny=1e-3, huge=1e7).get(st["mag"], 1.0)
    v *= amp
    if st["mag"] == "axis":
        v = np.vstack([np.eye(3), -np.eye(3)])[rng.integers(0, 6, n)] * 2.0
    if st["mag"] == "zero":
        v[0] = 0.0
    tol = 2.0e-8 + 1e-12 * np.abs(v).max()
    ok = lambda c, what: out.append(dict(op="true", case=case, ok=bool(c), what=what))
    keep = v.copy()
    sph = utils.mat_utils.cartesian2spherical(v)
    ok(np.array_equal(v, keep) and sph.shape == (3 * n,), "spherical-shape")
    S = sph.reshape(n, 3, order="F")
    ok(np.allclose(S[:, 0], np.linalg.norm(v, axis=1), rtol=1e-12) and np.all(np.abs(S[:, 1]) <= np.pi / 2 + 1e-12), "amplitude")
    back = mu.spherical2cartesian(S).reshape(n, 3, order="F")
    ok(np.max(np.abs(back - v)) <= tol, "cartesian-spherical-cartesian")
    again = mu.cartesian2spherical(back).reshape(n, 3, order="F")
    far = S[:, 0] > 1e-6
    ok(np.allclose(again[far][:, 1:], S[far][:, 1:], atol=1e-7), "spherical-cartesian-spherical")
    dip, azm = rng.uniform(-90, 90, n), rng.uniform(-360, 360, n)
    c = mu.dip_azimuth2cartesian(dip, azm)
    ok(np.allclose(np.linalg.norm(c, axis=1), 1.0), "dip-azimuth-unit")
    ok(np.allclose(-np.rad2deg(np.arcsin(c[:, 2])), dip, atol=1e-5), "dip")
    d2 = np.rad2deg(np.arctan2(c[:, 0], c[:, 1])) - azm
    ok(np.all((np.abs((d2 + 180) % 360 - 180) < 1e-6) | (np.abs(dip) > 89.9)), "azimuth")
    one = mu.dip_azimuth2cartesian(float(dip[0]), float(azm[0]))
    ok(np.allclose(one, c[:1]), "dip-azimuth-scalar")
    th = rng.uniform(-30, 30, n)
    co = mu.coterminal(th)
    ok(np.all((co >= -np.pi) & (co < np.pi)) and np.allclose(np.cos(co - th), 1.0) and np.allclose(mu.coterminal(co), co), "coterminal")
    pts = rng.normal(size=(3, 3)) * amp
    a, b, cc, d = mu.define_plane_from_points(*pts)
    ok(np.allclose(pts @ np.r_[a, b, cc] + d, 0, atol=1e-9 * amp) and np.linalg.norm([a, b, cc]) > 1e-6, "plane")
    M = rng.integers(0, 3, (n + 3, 2)).astype(float)
    u, i1, i2 = mu.unique_rows(M)
    ok(np.array_equal(M[i1], u) and np.array_equal(u[np.ravel(i2)], M) and len({tuple(r) for r in u}) == len(u), "unique-rows")
    G = rng.normal(size=(n + 2, n + 2))
    G = G @ G.T
    ok(np.allclose(mu.estimate_diagonal(G, n + 2, k=n + 2), np.diag(G)), "diagonal-by-probing")


# ------------------------------------------------------------------ clones
CLONES = ["dc/3d-cc", "dc/2d-n"]


def clone_case(case, hist, folder, out):
    import numpy.random  # noqa: F401
    st = hist[0]
    if not zoo.ZOO:
        zoo.load()
    names = sorted(zoo.ZOO)
    e = zoo.ZOO[names[(st["which"] - 1) % len(names)]]
    sims = [e.sim()]
    used = [False]
    ref = {}

    def want(what, k, v):
        key = (what, k)
        if key not in ref:
            s = e.sim()
            ref[key] = ask(s, what, e.model(k), v)
        return ref[key]

    def ask(s, what, m, v):
        if what == "dpred":
            return np.asarray(s.dpred(m))
        return np.asarray(s.Jvec(m, v(m.size)) if what == "jvec" else s.Jtvec(m, v(len(s.dpred(m)))))

    vec = lambda n: np.random.default_rng(7).normal(size=n)
    for o in hist[1:]:
        i = o["of"] % len(sims)
        if o["op"] == "clone":
            if len(sims) > 3:
                continue
            try:
                c = pickle.loads(pickle.dumps(sims[i])) if o["how"] == "pickle" else copy.deepcopy(sims[i])
            except Exception:
                if used[i]:
                    continue                               # factorisations cannot be sent; that is said, not hidden
                raise
            sims.append(c)
            used.append(used[i])
        else:
            if o["what"] != "dpred" and "J" not in e.caps:
                continue
            k = o["model"]
            got = ask(sims[i], o["what"], e.model(k), vec)
            used[i] = True
            g, w = pair(got, want(o["what"], k, vec), bits=24)
            out.append(dict(op="same", case=case, got=g, want=w, tol=200, what="clone-%s-%s" % (o["what"], e.name)))


def clone_static(case):
    """maps, surveys, data, regularizations and misfits: a copy answers like the original"""
    import discretize
    from simpeg import maps, data, data_misfit, regularization as rg, objective_function
    out = [dict(op="new", case=case)]
    mesh = discretize.TensorMesh([3, 2, 4])
    act = np.arange(mesh.nC) % 5 != 0
    na = int(act.sum())
    n = mesh.nC
    w = maps.Wires(("a", n), ("b", n))
    M = {"exp": maps.ExpMap(mesh), "log": maps.LogMap(mesh), "id": maps.IdentityMap(nP=n), "recip": maps.ReciprocalMap(mesh), "inject": maps.InjectActiveCells(mesh, act, 2.0),
         "combo": maps.InjectActiveCells(mesh, act, -3.0) * maps.ExpMap(nP=na), "sum": maps.ExpMap(mesh) + maps.IdentityMap(mesh), "wire": maps.ExpMap(nP=n) * w.a, "wireb": w.b,
         "vert": maps.SurjectVertical1D(mesh), "full": maps.SurjectFull(mesh), "surj2": maps.Surject2Dto3D(mesh, normal="Y"), "linear": maps.LinearMap(np.arange(12.0).reshape(3, 4)),
         "weight": maps.Weighting(weights=np.arange(1.0, n + 1)), "complex": maps.ComplexMap(nP=2 * n), "chi": maps.ChiMap(nP=n), "mu": maps.MuRelative(nP=n), "logit": maps.LogisticSigmoidMap(nP=n),
         "sphere": maps.SphericalSystem(nP=3 * n), "proj": maps.Projection(n, np.arange(0, n, 2)), "tile": maps.IdentityMap(nP=n)}
    rng = np.random.default_rng(3)

    def both(x):
        return [("pickle", pickle.loads(pickle.dumps(x))), ("deepcopy", copy.deepcopy(x))]

    for name, mp in M.items():
        nP = mp.nP if isinstance(mp.nP, (int, np.integer)) else n
        m = rng.uniform(0.2, 1.0, int(nP))
        y, D = mp * m, mp.deriv(m)
        for how, c in both(mp):
            g, q_ = pair(c * m, y)
            out.append(dict(op="same", case=case, got=g, want=q_, tol=2, what="map-%s-%s" % (name, how)))
            g, q_ = pair(np.asarray(abs(c.deriv(m) - D).sum()), np.zeros(()), floor=1.0)
            out.append(dict(op="same", case=case, got=g, want=q_, tol=2, what="map-deriv-%s-%s" % (name, how)))
            out.append(dict(op="true", case=case, ok=c.shape == mp.shape, what="map-shape-%s" % name))
    R = {"wls": rg.WeightedLeastSquares(mesh, active_cells=act, alpha_x=0.5, weights={"w": np.arange(1.0, na + 1)}), "sparse": rg.Sparse(mesh, norms=[0, 1, 1, 2]), "small": rg.Smallness(mesh, reference_model=np.ones(n)),
         "sm2": rg.SmoothnessSecondOrder(mesh, orientation="z"), "cross": rg.CrossGradient(mesh, w), "joint": rg.JointTotalVariation(mesh, w), "corr": rg.LinearCorrespondence(mesh, w, coefficients=np.r_[1.0, 2.0, 3.0]),
         "amp": rg.VectorAmplitude(mesh, maps.IdentityMap(nP=3 * n)), "sum": 2.0 * rg.Smallness(mesh) + 0.5 * rg.SmoothnessFirstOrder(mesh, orientation="x"), "l2": objective_function.L2ObjectiveFunction(nP=n)}
    for name, r in R.items():
        nP = {"cross": 2 * n, "joint": 2 * n, "corr": 2 * n, "amp": 3 * n, "wls": na}.get(name, n)
        m, v = rng.uniform(0.2, 1.0, nP), rng.normal(size=nP)
        want = np.r_[r(m), r.deriv(m), r.deriv2(m, v)]
        for how, c in both(r):
            g, q_ = pair(np.r_[c(m), c.deriv(m), c.deriv2(m, v)], want)
            out.append(dict(op="same", case=case, got=g, want=q_, tol=2, what="regularization-%s-%s" % (name, how)))
            # the copy is on its own
            if hasattr(c, "set_weights") and name in ("wls", "small", "sparse"):
                c.set_weights(extra=np.full(nP, 7.0))
                g, q_ = pair(np.r_[r(m)], want[:1])
                out.append(dict(op="same", case=case, got=g, want=q_, tol=2, what="regularization-apart-%s-%s" % (name, how)))
    zoo.ZOO or zoo.load()
    for name, e in sorted(zoo.ZOO.items()):
        if "J" not in e.caps and not name.startswith("dc"):
            continue
        sv = e.survey()
        dat = data.Data(sv, dobs=np.arange(1.0, sv.nD + 1), relative_error=0.1, noise_floor=0.01)
        for how, c in both(dat):
            out.append(dict(op="true", case=case, what="data-%s-%s" % (name, how), ok=bool(np.array_equal(c.dobs, dat.dobs) and np.array_equal(c.standard_deviation, dat.standard_deviation) and list(c.survey.vnD) == list(sv.vnD))))
            c.dobs[0] = -99.0
            out.append(dict(op="true", case=case, what="data-apart-%s-%s" % (name, how), ok=bool(dat.dobs[0] == 1.0)))
    return out


SESSIONS = {"dc2": dc_session, "dc3": dc_session, "grav": pf_session, "mag": pf_session, "gg": pf_session, "nsem": nsem_session, "abmn": abmn_case, "lines": lines_case, "vecs": vec_case, "clone": clone_case}


def run_case(item):
    if item.get("static"):
        return clone_static(item["case"])
    case, hist = item["case"], item["hist"]
    out = [dict(op="new", case=case)]
    folder = tempfile.mkdtemp(prefix="vfio")
    t0 = time.time()
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            SESSIONS[hist[0]["fam"]](case, hist, folder, out)
    except Exception as exc:
        out.append(exc_event(case, exc))
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    if os.environ.get("VF_TIME") and time.time() - t0 > 3:
        print(case, round(time.time() - t0, 1), flush=True)
    return out


def run(ctx):
    B = "SPECIFICATION Spec\nCONSTANTS Elecs = %s\n Paths = %s\n MaxRows = %d\n MaxObjs = %d\nINVARIANTS RoundTrip Chained\nCHECK_DEADLOCK FALSE\n"
    for i, c in enumerate([("{1, 2}", "{1}", 2, 2), ("{1, 2}", "{1}", 1, 3)] if ctx.quick else [("{1, 2}", "{1}", 3, 2), ("{1, 2, 3}", "{1}", 2, 2), ("{1, 2}", "{1, 2}", 1, 3)]):
        ctx.model("Files", B % c, name="Files_%d" % i, need_actions=("Write", "Read"), timeout=3000)
    zoo.load()
    beh = ctx.behaviours("FilesGen", "SPECIFICATION GSpec\nCONSTANTS MaxOps = %d\n Rich = %s\n NZoo = %d\nCHECK_DEADLOCK FALSE\n" % ((8, "FALSE", len(zoo.ZOO)) if ctx.quick else (12, "TRUE", len(zoo.ZOO))),
                         simulate=1200 if ctx.quick else 12000, depth=30)
    items = [dict(case="static", static=True)]
    seen = set()
    for i, h in enumerate(beh):
        fam = h[0]["fam"]
        if fam == "clone":                                 # at most a few histories of every simulation
            k = (h[0]["which"], sum(1 for s in seen if s[0] == h[0]["which"]))
            if k[1] >= (1 if ctx.quick else 6):
                continue
            seen.add(k)
        items.append(dict(case="%s/%d" % (fam, i), hist=h))
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    out = ctx.pmap(run_case, items, timeout=700)
    ctx.validate("TraceFiles", out, chunk=1500)
