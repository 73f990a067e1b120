"""C04: field containers."""
import numpy as np
from vf.core import q, exc_event

NT = 4


def stub(widths, timed, seed):
    import discretize
    from simpeg import survey as sv, simulation, fields
    mesh = discretize.TensorMesh([2, 2] if seed % 2 else [3])
    srcs = []
    for w in widths:
        s = sv.BaseSrc([sv.BaseRx(np.zeros((1, mesh.dim)))])
        s._fields_per_source = w
        srcs.append(s)
    survey = sv.BaseSurvey(srcs)
    if timed:
        class S(simulation.BaseTimeSimulation):
            pass
        sim = S(survey=survey, time_steps=[(1.0, NT - 1)])
    else:
        class S(simulation.BaseSimulation):
            pass
        sim = S(survey=survey)
    sim.mesh = mesh
    order = {id(s): i + 1 for i, s in enumerate(srcs)}

    def dfun(f, src_list, *t):
        out = np.array(f, dtype=float)
        i = 0
        tt = (int(np.asarray(t[0]).ravel()[0]) + 1) if t else 1
        for s in src_list:
            for _ in range(s._fields_per_source):
                out[:, i] = order[id(s)] * out[:, i] + tt
                i += 1
        return out
    loc = {"a": "CC", "b": "N" if seed % 3 else "F"}
    alias = {"d": ["a", "CC", (lambda f, s, t: dfun(f, s, t)) if timed else (lambda f, s: dfun(f, s))]}
    cls = fields.TimeFields if timed else fields.Fields
    nP = {"a": mesh.nC, "b": mesh.nN if seed % 3 else mesh.nF}
    return cls(sim, knownFields=loc, aliasFields=alias, dtype=float), srcs, nP


def skey(ss, srcs):
    s = [i - 1 for i in ss["s"]]
    if ss["k"] == "one":
        return srcs[s[0]]
    if ss["k"] == "list":
        return [srcs[i] for i in s]
    if ss["k"] == "all":
        return slice(None)
    return {(0, 1): slice(0, 2), (1, 2): slice(1, None), (1,): slice(1, 2), (2, 1, 0): slice(None, None, -1), (0, 2): slice(0, None, 2)}[tuple(s)]


def tkey(ts):
    t = [i - 1 for i in ts["s"]]
    if ts["k"] == "int":
        return t[0]
    if ts["k"] == "neg":
        return t[0] - NT
    if ts["k"] == "all":
        return slice(None)
    if len(t) == 1:
        return slice(t[0], t[0] + 1)
    return {(0, 1): slice(0, 2), (1, 2, 3): slice(1, None), (0, 2): slice(0, 3, 2), (3, 2, 1, 0): slice(None, None, -1)}[tuple(t)]


def ints(a):
    a = np.asarray(a)
    if a.size and (not np.all(np.isfinite(a)) or np.any(a != np.round(a))):
        return ["noninteger"]
    return [int(x) for x in a.ravel(order="F")]


def run_hist(it):
    case, timed = it["case"], it["timed"]
    rs = np.random.RandomState(it["seed"])
    ev = []
    try:
        widths = [1, 1, 1] if timed else [[1, 1, 1], [2, 1, 2], [1, 2, 1], [2, 2, 2]][it["seed"] % 4]
        f, srcs, nP = stub(widths, timed, it["seed"])
        ev.append(dict(op="new", case=case, widths=widths, nt=NT if timed else 1, timed=timed))

        def idx(ss, ts, *name):
            k = (skey(ss, srcs),) + name
            if timed and ts["k"] != "none":
                if ts["k"] == "all" and rs.randint(2):
                    return k
                if not name:
                    k += (slice(None),)
                k += (tkey(ts),)
            return k if len(k) > 1 else k[0]
        stored = set()
        for h in it["hist"]:
            if h["op"] == "set":
                nm, ss, ts = h["name"], h["ss"], h["ts"]
                nc = sum(widths[s - 1] for s in ss["s"])
                nt = len(ts["s"])
                n = nP[nm]
                if len(set(ss["s"])) < len(ss["s"]):
                    continue                              # repeated sources: reading only
                vals = rs.randint(-50, 50, (n, nc, nt)).astype(float)
                arr = vals.copy() if timed else vals[:, :, 0].copy()
                kind = h["how"]
                if kind == 1:
                    vals[:] = 7.0
                    arr = 7.0 if rs.randint(2) else np.r_[7.0]
                elif kind == 2 and not timed:             # one vector for every column
                    arr = vals[:, :1, 0].ravel().copy()
                    vals = np.repeat(vals[:, :1, :], nc, axis=1)
                elif kind == 3 and timed:                 # flat, Fortran order
                    arr = vals.ravel(order="F").copy()
                elif kind == 4 and timed and (nc == 1 or nt == 1):
                    arr = vals.reshape((n, -1), order="F").copy()
                keep = np.array(arr, copy=True)
                if kind == 5:
                    f[idx(ss, ts)] = {nm: arr}
                else:
                    f[idx(ss, ts, nm)] = arr
                ok = np.array_equal(keep, arr)
                if isinstance(arr, np.ndarray) and arr.ndim:
                    arr += 1                              # the container keeps its own copy
                stored.add(nm)
                ev.append(dict(op="set", case=case, name=nm, srcs=ss["s"], times=ts["s"], n=n,
                               vals=[[int(x) for x in vals[:, c, t]] for t in range(nt) for c in range(nc)]))
                ev.append(dict(op="true", case=case, what="value-untouched", ok=bool(ok)))
            elif h["op"] == "get":
                nm, ss, ts = h["name"], h["ss"], h["ts"]
                e = dict(op="get", case=case, name=nm, srcs=ss["s"], times=ts["s"], raised=False, got=[], shape=[])
                try:
                    g = f[idx(ss, ts, nm)]
                    e.update(got=ints(g), shape=list(g.shape))
                except KeyError:
                    e["raised"] = True
                ev.append(e)
            elif h["op"] == "getall":
                ss, ts = h["ss"], h["ts"]
                g = f[idx(ss, ts)]
                ev.append(dict(op="names", case=case, names=sorted(g), has=["a" in f, "b" in f, "d" in f]))
                for nm in g:
                    ev.append(dict(op="get", case=case, name=nm, srcs=ss["s"], times=ts["s"], raised=False, got=ints(g[nm]), shape=list(g[nm].shape)))
            else:
                from simpeg import survey as sv
                other = sv.BaseSrc([sv.BaseRx(np.zeros((1, 1)))])
                w = h["how"]
                what, fn = [("set-alias", lambda: f.__setitem__((srcs[0], "d"), 1.0)), ("set-unknown-name", lambda: f.__setitem__((srcs[0], "zz"), 1.0)),
                            ("get-unknown-name", lambda: f[srcs[0], "zz"]), ("foreign-source", lambda: f[other, "a"]),
                            ("wrong-size", lambda: f.__setitem__((srcs[0], "a"), np.ones(nP["a"] + 1)))][w - 1]
                if w == 5 and "a" not in stored:          # the refused write may set up zeros
                    continue
                try:
                    fn()
                    r = False
                except (KeyError, ValueError, AssertionError):
                    r = True
                ev.append(dict(op="bad", case=case, what=what, refused=r))
        for nm in sorted(stored):
            for ts in ([dict(k="int", s=[t]) for t in range(1, NT + 1)] if timed else [dict(k="none", s=[1])]):
                ss = dict(k="all", s=[1, 2, 3])
                g = f[idx(ss, ts, nm)]
                ev.append(dict(op="get", case=case, name=nm, srcs=ss["s"], times=ts["s"], raised=False, got=ints(g), shape=list(g.shape)))
    except Exception as exc:
        ev.append(exc_event(case, exc))
    return ev


# ------------------------------------------------------------------ physics
def vecs(x):
    x = np.asarray(x)
    return x if x.ndim > 1 else x[:, None]


def zero(x, n):
    from simpeg.utils import Zero
    return np.zeros(n) if isinstance(x, Zero) or x is None else np.asarray(x).ravel() if np.asarray(x).ndim < 2 or np.asarray(x).shape[1] == 1 else np.asarray(x)


def formulas(name, sim, src, sol, t=None):
    """documented functions of the stored solution (one column), from the mesh operators alone"""
    from scipy.constants import epsilon_0, mu_0
    from scipy.sparse.linalg import spsolve
    import scipy.sparse as sp
    m = sim.mesh
    fam, ft = name.split("/")[:2]
    out = {}
    if fam in ("fdem", "tdem"):
        C, G, D = m.edge_curl, m.nodal_gradient, m.face_divergence
        sig, mu = np.broadcast_to(sim.sigma, m.nC).astype(float), np.broadcast_to(sim.mu, m.nC).astype(float)
        MeS, MfR = m.get_edge_inner_product(sig), m.get_face_inner_product(1 / sig)
        MeM, MfMi = m.get_edge_inner_product(mu), m.get_face_inner_product(1 / mu)
        Me, Mf = m.get_edge_inner_product(), m.get_face_inner_product()
        inv = lambda A, x: spsolve(A.tocsc(), x)
        nE, nF = m.nE, m.nF
        if fam == "fdem":
            om = 2 * np.pi * src.frequency
            s_m = zero(src.s_m(sim), nF if ft in "eb" else nE)
            s_e = zero(src.s_e(sim), nE if ft in "eb" else nF)
            P = lambda k, n: zero(getattr(src, k + "Primary")(sim), n)
            if ft == "e":
                out["ePrimary"], out["eSecondary"] = P("e", nE), sol
                out["e"] = sol + P("e", nE)
                out["bPrimary"], out["bSecondary"] = P("b", nF), (s_m - C @ sol) / (1j * om)
                out["b"] = out["bPrimary"] + out["bSecondary"]
            elif ft == "b":
                out["bPrimary"], out["bSecondary"] = P("b", nF), sol
                out["b"] = sol + P("b", nF)
                out["ePrimary"], out["eSecondary"] = P("e", nE), inv(MeS, C.T @ (MfMi @ sol) - s_e)
                out["e"] = out["ePrimary"] + out["eSecondary"]
            elif ft == "h":
                out["hPrimary"], out["hSecondary"] = P("h", nE), sol
                out["h"] = sol + P("h", nE)
                out["jPrimary"], out["jSecondary"] = P("j", nF), C @ sol - s_e
                out["j"] = out["jPrimary"] + out["jSecondary"]
            else:
                out["jPrimary"], out["jSecondary"] = P("j", nF), sol
                out["j"] = sol + P("j", nF)
                out["hPrimary"], out["hSecondary"] = P("h", nE), inv(MeM, (s_m - C.T @ (MfR @ sol)) / (1j * om))
                out["h"] = out["hPrimary"] + out["hSecondary"]
            if ft in "eb":
                out["j"] = inv(Me, MeS @ out["e"])
                out["h"] = inv(Mf, MfMi @ out["b"])
                out["charge"] = -epsilon_0 * (G.T @ (Me @ out["e"]))
                out["charge_density"] = (m.aveN2CC @ out["charge"]) / m.cell_volumes
            else:
                out["e"] = inv(Mf, MfR @ out["j"])
                out["b"] = inv(Me, MeM @ out["h"])
                out["charge_density"] = epsilon_0 * (D @ out["e"])
                out["charge"] = m.cell_volumes * out["charge_density"]
        else:
            tm = sim.times[t]
            s_m = zero(src.s_m(sim, tm), nF if ft in "eb" else nE)
            s_e = zero(src.s_e(sim, tm), nE if ft in "eb" else nF)
            if ft == "e":
                out["e"], out["dbdt"] = sol, s_m - C @ sol
            elif ft == "b":
                out["b"], out["h"], out["e"] = sol, inv(Mf, MfMi @ sol), inv(MeS, C.T @ (MfMi @ sol) - s_e)
                out["dbdt"] = s_m - C @ out["e"]
            elif ft == "h":
                out["h"], out["b"], out["j"] = sol, inv(Me, MeM @ sol), C @ sol - s_e
            else:
                out["j"] = sol
            if ft in "eb":
                out["j"] = inv(Me, MeS @ out["e"])
                out["dhdt"] = inv(Mf, MfMi @ out["dbdt"])
            else:
                out["e"] = inv(Mf, MfR @ out["j"])
                out["dhdt"] = inv(MeM, s_m - C.T @ (MfR @ out["j"]))
                out["dbdt"] = inv(Me, MeM @ out["dhdt"])
                out["charge"] = epsilon_0 * m.cell_volumes * (D @ out["e"])
                if ft == "j":
                    out["charge_density"] = epsilon_0 * (D @ out["e"])
    elif fam in ("dc3d", "dc2d"):
        sig = np.broadcast_to(sim.sigma, m.nC).astype(float)
        if "phi2" in name:
            pass
        from scipy.constants import epsilon_0
        phi = sol if fam == "dc3d" else None
        if fam == "dc2d":
            phi = sol @ sim._quad_weights
        out["phi"] = phi
        if type(sim).__name__.endswith("Nodal"):
            Me = m.get_edge_inner_product()
            out["e"] = -(m.nodal_gradient @ phi)
            from scipy.sparse.linalg import spsolve
            out["j"] = spsolve(Me.tocsc(), m.get_edge_inner_product(sig) @ out["e"])
            out["charge"] = -epsilon_0 * (m.nodal_gradient.T @ (Me @ out["e"]))
            out["charge_density"] = (m.aveN2CC @ out["charge"]) / m.cell_volumes
        elif sim.bc_type == "Dirichlet" or fam == "dc3d":
            from scipy.sparse.linalg import spsolve
            Mf = m.get_face_inner_product()
            gp = sim.Grad @ phi
            out["e"] = spsolve(Mf.tocsc(), gp)
            out["j"] = spsolve(m.get_face_inner_product(1 / sig).tocsc(), gp)
            out["charge_density"] = epsilon_0 * (m.face_divergence @ out["e"])
            out["charge"] = m.cell_volumes * out["charge_density"]
    elif fam == "nsem1d":
        om = 2 * np.pi * src.frequency
        out["e"], out["h"] = (sol, (m.nodal_gradient @ sol) * sim.mui / (1j * om)) if "eSolution" in sim.fieldsPair(sim).knownFields else (
            -(m.nodal_gradient @ sol) * sim.rho, sol)
    return out


def proj(x, k=4):
    """compress a column into k numbers (fixed random weights)"""
    x = np.asarray(x).ravel()
    W = np.random.RandomState(x.size).choice([-1.0, 1.0, 2.0, -3.0], (k, x.size))
    return W @ x


def run_phys(it):
    import zoo
    case, name = it["case"], it["entry"]
    rs = np.random.RandomState(it["seed"])
    ev = [dict(op="new", case=case, widths=[1], nt=1, timed=False)]
    try:
        e = zoo.load()[name]
        sim = e.sim()
        sim.model = e.model(0)
        srcs = list(sim.survey.source_list)
        if name.startswith("dc2d"):
            sim.fields(sim.model)                          # sets up the wavenumbers
        cls = sim.fieldsPair
        f = cls(sim)
        widths = [s._fields_per_source for s in srcs]
        from simpeg.fields import TimeFields
        timed = isinstance(f, TimeFields)
        nt = f._storageShape("CC")[2] if timed else 1
        nc = sum(widths) if not timed else len(srcs)
        cplx = f.dtype is complex
        off = np.r_[0, np.cumsum(widths)]
        sols = {}
        for nm, loc in f.knownFields.items():
            n = f._storageShape(loc)[0]
            v = rs.randint(-9, 10, (n, nc, nt)).astype(float)
            if cplx:
                v = v + 1j * rs.randint(-9, 10, v.shape)
            sols[nm] = v
            f[:, nm] = v if timed else v[:, :, 0]
        ts_all = sorted(rs.choice(nt, min(nt, 3), replace=False)) if timed and not name.startswith("dc2d") else [0]
        for nm in f.aliasFields:
            base = f.aliasFields[nm][0]
            try:
                one = f[srcs[0], nm, 0] if timed and not name.startswith("dc2d") else f[srcs[0], nm]
            except NotImplementedError:
                continue
            whole2d = name.startswith("dc2d")

            def ask(s, ts):
                if timed and not whole2d:
                    return f[s, nm, ts]
                return f[s, nm]
            single, scale = [], 0.0
            raw = {}
            for t in ts_all:
                row = []
                for i, s in enumerate(srcs):
                    a = np.asarray(ask([s] if rs.randint(2) else s, int(t)))
                    w = 1 if timed else widths[i]
                    a = a.reshape(-1, w, order="F")
                    raw[t, i] = a
                    p = [proj(a[:, k]) for k in range(w)]
                    scale = max(scale, max(np.abs(x).max() for x in p))
                    row.append(p)
                single.append(row)
            sc = 2.0 ** 24 / (scale or 1.0)
            sq = [[[q(x, sc) for x in p] for p in row] for row in single]
            for rep in range(it["reps"]):
                kk = rs.randint(1, len(srcs) + 1)
                ss = list(rs.permutation(len(srcs))[:kk]) if rep % 3 else list(range(len(srcs)))
                if rep % 3 == 0:
                    key = slice(None)
                else:
                    key = [srcs[i] for i in ss]
                if not timed or whole2d:
                    ti = [0]
                    g = ask(key, None)
                elif rep % 2:
                    j = rs.randint(len(ts_all))
                    ti = [j]
                    g = ask(key, int(ts_all[j]))
                else:
                    a = int(ts_all[0])
                    st = int(ts_all[-1] - ts_all[0]) or 1
                    ti = [0, len(ts_all) - 1] if len(ts_all) > 1 else [0]
                    g = ask(key, slice(a, int(ts_all[-1]) + 1, st))
                ncol = len(ss) if timed else sum(widths[i] for i in ss)
                g = np.asarray(g).reshape(-1, ncol, len(ti), order="F")
                got = []
                for t in range(len(ti)):
                    for c in range(ncol):
                        got += q(proj(g[:, c, t]), sc)
                ev.append(dict(op="derived", case=case, name=nm, widths=widths if not timed else [1] * len(srcs), srcs=[int(i) + 1 for i in ss], times=[int(t) + 1 for t in ti],
                               single=sq, got=got, tol=4))
            # documented function of the stored solution
            for t in ts_all:
                for i, s in enumerate(srcs):
                    if not timed and widths[i] > 1:
                        continue
                    sol = sols[base][:, i, :] if whole2d else sols[base][:, off[i] if not timed else i, t]
                    want = formulas(name, sim, s, sol, t).get(nm)
                    if want is None:
                        continue
                    got = raw[t, i].ravel()
                    z = 2.0 ** 22 / max(np.abs(want).max(), 1e-300)
                    d = proj(got - want) if got.size == np.size(want) else np.r_[1e300]
                    ev.append(dict(op="same", case=case, what="documented-function:" + nm, got=q(d, z), want=[0] * len(q(d, z)), tol=40))
        for nm in sols:                                    # reading never changes what is stored
            g = np.asarray(f[:, nm]).reshape(sols[nm].shape, order="F")
            ev.append(dict(op="true", case=case, what="stored-solution-unchanged", ok=bool(np.array_equal(g, sols[nm]))))
    except Exception as exc:
        ev.append(exc_event(case, exc))
    return ev


def one(it):
    return run_phys(it) if "entry" in it else run_hist(it)


def run(ctx):
    import os, fnmatch, zoo
    ctx.model("Fields", "SPECIFICATION FSpec\nCONSTANTS Widths <- DWidths\n NT = 2\n Vals = {1, 5}\n MaxOps = %d\nINVARIANTS LoadsAgree NoCrossTalk\nCHECK_DEADLOCK FALSE\n" % (2 if ctx.quick else 3),
              need_actions=("Store", "Load"))
    items = []
    for timed in (False, True):
        beh = ctx.behaviours("FieldsGen", "SPECIFICATION GSpec\nCONSTANTS Depth = 14\n Timed = %s\nCHECK_DEADLOCK FALSE\n" % str(timed).upper(), name="FieldsGen%d" % timed,
                             simulate=120 if ctx.quick else 1500, depth=18)
        items += [dict(case="%s%d" % ("time" if timed else "plain", i), hist=h, timed=timed, seed=ctx.seed * 77 + i) for i, h in enumerate(beh)]
    for n in zoo.load():
        fam = n.split("/")[0]
        if fam in ("fdem", "tdem", "dc3d", "dc2d", "nsem1d", "nsem2d", "nsem3d") and "fast" not in n and "mini" not in n and "/rec" not in n:
            items.append(dict(case=n, entry=n, seed=ctx.seed * 3 + 1, reps=4 if ctx.quick else 30))
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    ctx.validate("TraceFields", ctx.pmap(one, items), chunk=500)
