"""C06: maps - composition, sums, shapes, derivatives, inverses and placement."""
import numpy as np
import scipy.sparse as sps
import json, os, fnmatch
from vf.core import q, exc_event

BITS = 22


def dense(J, n, p):
    if sps.issparse(J):
        return J.toarray()
    if J.__class__.__name__ == "Identity":
        return np.eye(n, p)
    if J.__class__.__name__ == "Zero":
        return np.zeros((n, p))
    return np.asarray(J)


def dim(x):
    return -1 if isinstance(x, str) else int(x)


# ------------------------------------------------------------------ integer expressions
def build(t, rs):
    """the real map for a specification tree"""
    import discretize
    from simpeg import maps
    k = t["k"]
    line = lambda n: discretize.TensorMesh([n])

    class SquareMap(maps.IdentityMap):
        def _transform(self, m):
            return m ** 2

        def deriv(self, m, v=None):
            J = sps.diags(2 * m)
            return J if v is None else J * v

        @property
        def is_linear(self):
            return False
    if k == "mul":
        a, b = build(t["a"], rs), build(t["b"], rs)
        w = rs.randint(4)
        if w == 0:
            return a @ b
        if w == 1:
            return maps.ComboMap([a, b])
        if w == 2:
            return a.dot(b)
        return a * b
    if k == "sum":
        a, b = build(t["a"], rs), build(t["b"], rs)
        return maps.SumMap([a, b]) if rs.randint(2) else a + b
    if k == "id":
        return maps.IdentityMap(nP=t["n"]) if rs.randint(2) else maps.IdentityMap(line(t["n"]))
    if k == "wild":
        return maps.IdentityMap()
    if k == "sq":
        return SquareMap(nP=t["n"])
    if k == "proj":
        return maps.Projection(t["n"], np.array(t["idx"]) if rs.randint(2) else list(t["idx"]))
    if k == "bproj":
        return maps.Projection(t["n"], np.array(t["act"]))
    if k == "slice":
        return maps.Projection(t["n"], slice(t["st"], None if t["sp"] < 0 else t["sp"], t["step"]))
    if k == "full":
        return maps.SurjectFull(line(t["n"]))
    if k == "vert":
        r, nz = t["rep"], t["nz"]
        ms = [[r, nz], [r, 1, nz], [1, r, nz]] + ([[nz]] if r == 1 else [])
        return maps.SurjectVertical1D(discretize.TensorMesh(ms[rs.randint(len(ms))]))
    if k == "ext":
        return maps.Surject2Dto3D(discretize.TensorMesh([t["nx"], t["ny"], t["nz"]]), normal=t["normal"])
    if k == "inj":
        act = np.array(t["act"])
        val = np.array(t["val"], dtype=float)
        w = rs.randint(3)
        if w == 0:
            return maps.InjectActiveCells(line(act.size), np.where(act)[0], val)
        if w == 1 and np.all(val == val[0]):
            return maps.InjectActiveCells(line(act.size), act, val[0])
        if w == 2:
            M = maps.InjectActiveCells(line(act.size), act, 7.0)
            M.value_inactive = val
            return M
        return maps.InjectActiveCells(line(act.size), act, val)
    if k == "units":
        ind = [np.array(u) for u in t["ind"]]
        if rs.randint(2):
            return maps.SurjectUnits(ind)
        return maps.SurjectUnits(ind, mesh=line(ind[0].size))
    if k == "lin":
        A, b = np.array(t["A"], dtype=float), np.array(t["b"], dtype=float)
        A = A if rs.randint(2) else sps.csr_matrix(A)
        return maps.LinearMap(A, b) if np.any(b) or rs.randint(2) else maps.LinearMap(A)
    if k == "wt":
        return maps.Weighting(nP=len(t["w"]), weights=np.array(t["w"]))
    raise ValueError(k)


def exact(x):
    a = np.asarray(x, dtype=float)
    return q(a) if np.all(a == np.round(a)) else [None if v != round(v) else int(v) for v in a.ravel()]


def ncols(t):
    while t["k"] in ("mul", "sum"):
        t = t["b"] if t["k"] == "mul" else t["a"]
    k = t["k"]
    if k in ("id", "sq", "wild", "proj", "bproj", "slice"):
        return t["n"]
    if k == "full":
        return 1
    if k == "vert":
        return t["nz"]
    if k == "ext":
        return {"x": t["ny"] * t["nz"], "y": t["nx"] * t["nz"], "z": t["nx"] * t["ny"]}[t["normal"]]
    if k == "inj":
        return int(sum(t["act"]))
    if k == "units":
        return len(t["ind"])
    if k == "lin":
        return len(t["A"][0])
    return len(t["w"])


def expr_case(item):
    t, rs = item["t"], np.random.RandomState(item["seed"])
    case = item["case"]
    e = dict(op="expr", case=case, t=t, refused=False, shape=[0, 0], nP=0, linear=False, at=[])
    try:
        M = build(t, rs)
    except (ValueError, TypeError):
        e["refused"] = True
        return [e]
    n = ncols(t)
    e.update(shape=[dim(s) for s in M.shape], nP=dim(M.nP), linear=bool(M.is_linear))
    prev = None
    for rep in range(3):
        m = rs.randint(-2, 3, n).astype(float) if rep < 2 or prev is None else prev
        v = rs.randint(-2, 3, n).astype(float)
        prev = m if prev is None else prev
        m0, v0 = m.copy(), v.copy()
        try:
            y = np.asarray(M * m)
            y_ = y.copy()
            J = dense(M.deriv(m), y.size, n)
            Jv = np.asarray(M.deriv(m, v))
            Jv_ = Jv.copy()
        except ValueError as exc:
            if str(exc).startswith("Dimension mismatch in "):       # wildcards postpone the refusal to the evaluation
                e["refused"] = True
                return [e]
            raise
        clean = bool(np.array_equal(m, m0) and np.array_equal(v, v0) and np.array_equal(y, y_))
        e["at"].append(dict(m=exact(m0), v=exact(v0), y=exact(y_), J=[exact(r) for r in J] if J.ndim == 2 else [], Jv=exact(Jv_), clean=clean))
    return [e]


# ------------------------------------------------------------------ the maps of the package
def zoo():
    import discretize
    from simpeg import maps
    T = discretize.TensorMesh
    m1, m2, m3 = T([[1., 2, 1, 3]]), T([[1., 2, 1], [1., 1.5, 2, 1]], "CC"), T([[1., 2], [1., 1, 2], [2., 1]], "CCC")
    cyl = discretize.CylindricalMesh([[1., 1, 2, 2], [2 * np.pi], [1., 1, 1, 2, 1]], x0="00C")
    Z = {}
    n = 5
    act2 = np.array([1, 0, 1, 1, 1, 0, 1, 1, 1, 1, 0, 1], dtype=bool)
    act3 = np.array([1, 1, 0, 1, 1, 0, 1, 1, 1, 1, 0, 1], dtype=bool)
    pos = lambda rs, k=n: rs.uniform(0.5, 3, k)
    any_ = lambda rs, k=n: rs.uniform(-2, 2, k)
    Z["identity"] = (lambda: maps.IdentityMap(nP=n), any_, False)
    Z["exp"] = (lambda: maps.ExpMap(nP=n), any_, True)
    Z["exp-wild"] = (lambda: maps.ExpMap(), any_, True)
    Z["exp-mesh"] = (lambda: maps.ExpMap(m1), lambda rs: any_(rs, 4), True)
    Z["log"] = (lambda: maps.LogMap(nP=n), pos, True)
    Z["recip"] = (lambda: maps.ReciprocalMap(nP=n), lambda rs: pos(rs) * rs.choice([-1, 1], n), True)
    Z["logistic"] = (lambda: maps.LogisticSigmoidMap(nP=n, lower_bound=-1.5, upper_bound=np.array([1, 2, 3, 4, 5.])), any_, True)
    Z["logistic-wild"] = (lambda: maps.LogisticSigmoidMap(lower_bound=np.arange(5.), upper_bound=10), any_, True)
    Z["chi"] = (lambda: maps.ChiMap(nP=n), any_, True)
    Z["chi-wild"] = (lambda: maps.ChiMap(), any_, True)
    Z["effsus"] = (lambda: maps.EffectiveSusceptibilityMap(50000.0, nP=n), any_, True)
    Z["effsus-wild"] = (lambda: maps.EffectiveSusceptibilityMap(50000.0), any_, True)
    Z["murel"] = (lambda: maps.MuRelative(nP=n), pos, True)
    Z["murel-wild"] = (lambda: maps.MuRelative(), pos, True)
    Z["weighting"] = (lambda: maps.Weighting(nP=n, weights=np.array([1, 2, .5, 3, .25])), any_, True)
    Z["weighting-mesh"] = (lambda: maps.Weighting(m1), lambda rs: any_(rs, 4), True)
    Z["complex"] = (lambda: maps.ComplexMap(nP=6), lambda rs: any_(rs, 6), False)
    Z["complex-mesh"] = (lambda: maps.ComplexMap(m1), lambda rs: any_(rs, 8), False)
    Z["spherical"] = (lambda: maps.SphericalSystem(nP=9), lambda rs: np.r_[rs.uniform(.5, 2, 3), rs.uniform(-1.4, 1.4, 3), rs.uniform(-3, 3, 3)], True)
    Z["spherical-1"] = (lambda: maps.SphericalSystem(nP=3), lambda rs: np.r_[rs.uniform(.5, 2), rs.uniform(-1.4, 1.4), rs.uniform(-3, 3)], True)
    Z["inject"] = (lambda: maps.InjectActiveCells(m2, act2, -3.0), lambda rs: any_(rs, 9), False)
    for a0, a1 in ((1., 1.), (.3, 1.), (1., 4.), (5., .2), (3., .5)):
        Z["scem-%g-%g" % (a0, a1)] = (lambda a0=a0, a1=a1: maps.SelfConsistentEffectiveMedium(nP=4, sigma0=1e-1, sigma1=2.0, alpha0=a0, alpha1=a1, rel_tol=1e-11, maxIter=2000),
                                      lambda rs: rs.uniform(.1, .9, 4), True)
    Z["scem-inv"] = (lambda: maps.SelfConsistentEffectiveMedium(nP=4, sigma0=3.0, sigma1=0.2, alpha0=1, alpha1=2., rel_tol=1e-11, maxIter=2000), lambda rs: rs.uniform(.1, .9, 4), True)
    for lg in (True, False):
        Z["circle-%d" % lg] = (lambda lg=lg: maps.ParametricCircleMap(m2, logSigma=lg, slope=1.3), lambda rs: np.r_[any_(rs, 2), rs.uniform(-1, 1, 2), rs.uniform(.5, 2)], False)
        for nm in "xy":
            Z["poly2-%s-%d" % (nm, lg)] = (lambda nm=nm, lg=lg: maps.ParametricPolyMap(m2, 2, logSigma=lg, normal=nm, slope=2.), lambda rs: any_(rs, 5), False)
            Z["spline2-%s-%d" % (nm, lg)] = (lambda nm=nm, lg=lg: maps.ParametricSplineMap(m2, np.linspace(-3, 3, 5), logSigma=lg, normal=nm, slope=2.), lambda rs: any_(rs, 7), False)
        for nm in "xyz":
            for o in ((1, 1), (2, 1), (1, 2)):
                Z["poly3-%s-%d-%d%d" % ((nm, lg) + o)] = (lambda nm=nm, lg=lg, o=o: maps.ParametricPolyMap(m3, list(o), logSigma=lg, normal=nm, slope=2.),
                                                          lambda rs, o=o: any_(rs, (o[0] + 1) * (o[1] + 1) + 2), False)
        Z["spline3-%d" % lg] = (lambda lg=lg: maps.ParametricSplineMap(m3, np.linspace(-2.5, 2.5, 5), ptsv=[-1.5, 1.4], logSigma=lg, normal="x", slope=2.), lambda rs: any_(rs, 12), False)
    Z["poly2-act"] = (lambda: maps.ParametricPolyMap(m2, 1, normal="y", slope=2., active_cells=act2), lambda rs: any_(rs, 4), False)
    Z["poly3-act"] = (lambda: maps.ParametricPolyMap(m3, [1, 2], normal="z", slope=2., active_cells=act3), lambda rs: any_(rs, 8), False)
    for nm, mesh, act in (("2", m2, None), ("3", m3, None), ("2a", m2, act2), ("3a", m3, act3), ("1", m1, None)):
        d = mesh.dim
        kw = dict(slope=1.2) if nm != "2" else dict(slopeFact=1.5)
        lay = lambda rs: np.r_[any_(rs, 2), rs.uniform(-.5, .5), rs.uniform(.5, 2)]
        if d > 1:
            Z["layer-" + nm] = (lambda mesh=mesh, act=act, kw=kw: maps.ParametricLayer(mesh, active_cells=act, **kw), lay, False)
            Z["blockinlayer-" + nm] = (lambda mesh=mesh, act=act, kw=kw: maps.ParametricBlockInLayer(mesh, active_cells=act, **kw),
                                       lambda rs, d=d: np.r_[any_(rs, 3), rs.uniform(-.5, .5), rs.uniform(.5, 2), rs.uniform(-.5, .5, d - 1), rs.uniform(1, 3, d - 1)], False)
        Z["block-" + nm] = (lambda mesh=mesh, act=act, kw=kw: maps.ParametricBlock(mesh, active_cells=act, p=4, epsilon=1e-2, **kw),
                            lambda rs, d=d: np.r_[any_(rs, 2), np.c_[rs.uniform(-.5, .5, d) + (3 if d == 1 else 0), rs.uniform(3, 6, d)].ravel()], False)
        Z["ellipsoid-" + nm] = (lambda mesh=mesh, act=act, kw=kw: maps.ParametricEllipsoid(mesh, active_cells=act, **kw),
                                lambda rs, d=d: np.r_[any_(rs, 2), np.c_[rs.uniform(-.5, .5, d) + (3 if d == 1 else 0), rs.uniform(3, 6, d)].ravel()], False)
    Z["casing"] = (lambda: maps.ParametricCasingAndLayer(cyl, slope=1.5),
                   lambda rs: np.r_[any_(rs, 4), rs.uniform(-1, 1), rs.uniform(.5, 2), rs.uniform(1, 3), rs.uniform(.5, 1), rs.uniform(-2, -1), rs.uniform(1, 2)], False)
    Z["casing-act"] = (lambda: maps.ParametricCasingAndLayer(cyl, slope=1.5, active_cells=np.arange(20) % 4 != 2),
                       lambda rs: np.r_[any_(rs, 4), rs.uniform(-1, 1), rs.uniform(.5, 2), rs.uniform(1, 3), rs.uniform(.5, 1), rs.uniform(-2, -1), rs.uniform(1, 2)], False)
    mf = T([[1.] * 6, [1., 2, 1]], "CC")
    Z["mesh2mesh"] = (lambda: maps.Mesh2Mesh([m2, mf]), lambda rs: any_(rs, 18), False)
    Z["mesh2mesh-act"] = (lambda: maps.Mesh2Mesh([m2, mf], active_cells=act2), lambda rs: any_(rs, 18), False)
    # compositions and sums of nonlinear maps
    E, S = maps.ExpMap, maps.SurjectVertical1D
    Z["c-exp-vert"] = (lambda: E(m2) * S(m2), lambda rs: any_(rs, 4), False)
    Z["c-act-exp"] = (lambda: maps.InjectActiveCells(m2, act2, 1e-3) * E(nP=9), lambda rs: any_(rs, 9), False)
    Z["c-exp-block"] = (lambda: E(m2) * maps.ParametricBlock(m2, p=4, epsilon=1e-2, slope=1.), lambda rs: np.r_[any_(rs, 2), 0, 4, .3, 5], False)
    Z["c-wild"] = (lambda: maps.ExpMap() * maps.ReciprocalMap() * maps.Projection(7, [1, 3, 3, 0]), lambda rs: pos(rs, 7), False)
    Z["c-logi-lin"] = (lambda: maps.LogisticSigmoidMap(nP=3, lower_bound=1, upper_bound=4) * maps.LinearMap(np.array([[1, 2.], [0, -1], [3, 1]]), np.r_[1, 0, -1.]), lambda rs: any_(rs, 2), False)
    Z["c-chi-wild"] = (lambda: maps.ChiMap() * maps.ExpMap(nP=n), any_, False)
    Z["s-exp-id"] = (lambda: E(nP=n) + maps.IdentityMap(nP=n), any_, False)
    Z["s-id-exp"] = (lambda: maps.IdentityMap(nP=n) + E(nP=n), any_, False)
    Z["s-logi-exp"] = (lambda: maps.LogisticSigmoidMap(nP=n, lower_bound=-2, upper_bound=3) + E(nP=n), any_, False)
    Z["s-exp-logi"] = (lambda: E(nP=n) + maps.LogisticSigmoidMap(nP=n, lower_bound=-2, upper_bound=3), any_, False)
    Z["s-wt-exp"] = (lambda: maps.Weighting(nP=n, weights=np.arange(1., 6)) + E(nP=n), any_, False)
    Z["s-3"] = (lambda: E(nP=n) + maps.IdentityMap(nP=n) + maps.Weighting(nP=n, weights=np.arange(1., 6)), any_, False)
    Z["s-proj"] = (lambda: maps.SumMap([maps.Projection(6, [0, 1, 2]), maps.ExpMap(nP=3) * maps.Projection(6, [5, 4, 3])]), lambda rs: any_(rs, 6), False)
    Z["s-surj"] = (lambda: maps.SumMap([S(m2) * maps.Projection(6, slice(0, 4)), maps.SurjectUnits([np.arange(12) < 5, np.arange(12) >= 5]) * maps.Projection(6, slice(4, 6))]), lambda rs: any_(rs, 6), False)
    Z["cs-exp"] = (lambda: E(nP=n) * (maps.IdentityMap(nP=n) + maps.LogisticSigmoidMap(nP=n)), any_, False)
    Z["cs-right"] = (lambda: (maps.IdentityMap(nP=n) + E(nP=n)) * maps.LinearMap(np.array(sps.diags([1., .5], [0, 1], shape=(n, n)).todense())), any_, False)
    Z["sc-complex"] = (lambda: maps.ComplexMap(nP=4) * E(nP=4), lambda rs: any_(rs, 4), False)
    return Z


def parts(y):
    y = np.asarray(y)
    return np.r_[y.real, y.imag] if np.iscomplexobj(y) else y.astype(float)


def jparts(J, cplx):
    return np.vstack([J.real, J.imag]) if cplx else np.asarray(J, dtype=float)


def map_case(item):
    name, case = item["name"], item["case"]
    rs = np.random.RandomState(item["seed"])
    fac, model, inv = zoo()[name]
    ev = [dict(op="case", case=case)]
    try:
        M = fac()
        if item["warm"]:            # an earlier evaluation somewhere else must not matter
            mw = model(rs)
            M * mw
            M.deriv(mw)
        for rep in range(item["reps"]):
            m = model(rs)
            mc = m.copy()
            np_ = m.size
            v = rs.randint(-2, 3, np_).astype(float)
            vc = v.copy()
            if rep % 2:              # derivative asked before the value
                J = M.deriv(m)
                y = M * m
            else:
                y = M * m
                J = M.deriv(m)
            cplx = np.iscomplexobj(y)
            y0 = parts(y).copy()
            n = len(np.asarray(y))
            Jd = dense(J, n, np_)
            Jv = np.asarray(M.deriv(m, v))
            clean = bool(np.array_equal(m, mc) and np.array_equal(v, vc) and np.array_equal(parts(y), y0))
            if Jd.ndim != 2:
                ev.append(dict(op="map", case=case, shape=[dim(s) for s in M.shape], nP=dim(M.nP), n=n, np=np_, J=[], v=q(v), Jv=[], F=[], tv=0, tf=0, linear=False, curv=0, clean=clean))
                continue
            h = 1e-3
            F = np.zeros((y0.size, np_))
            curv = 0.0
            for j in range(np_):
                d = np.zeros(np_)
                s = h * max(1.0, abs(m[j]))
                d[j] = s
                yp, ym, yp2, ym2 = (parts(fac() * (m + c * d)) for c in (1, -1, 2, -2))
                F[:, j] = (8 * (yp - ym) - (yp2 - ym2)) / (12 * s)
                sc = max(np.abs(F[:, j]).max() * s, 1e-300)
                curv = max(curv, np.abs(yp + ym - 2 * y0).max() / sc)
            Jp, Jvp = jparts(Jd, cplx), parts(Jv)
            if Jp.shape[0] == y0.size and Jp.shape[1] == np_:
                scale = 2.0 ** BITS / max(np.abs(Jp).max(), 1e-300)
                rel = np.abs(y0).max() * 2.2e-16 / (h * max(np.abs(Jp).max(), 1e-300))
                tf = int(2 ** BITS * (2e-6 + 10 * rel)) + 2
            else:
                scale, tf = 1.0, 0
            ev.append(dict(op="map", case=case, shape=[dim(s) * (2 if cplx and i == 0 else 1) for i, s in enumerate(M.shape)], nP=dim(M.nP), n=y0.size, np=np_,
                           J=[q(r, scale) for r in Jp], v=q(v), Jv=q(Jvp, scale), F=[q(r, scale) for r in F], tv=2 * np_ + 2, tf=tf,
                           linear=bool(M.is_linear), curv=int(curv > 1e-6), clean=clean))
            fresh = parts(fac() * m)
            sc = 2.0 ** 24 / max(np.abs(fresh).max(), 1e-300)
            ev.append(dict(op="same", case=case, what="value-depends-on-model-only", got=q(y0, sc), want=q(fresh, sc), tol=4 if not name.startswith("scem") else 64))
            Jf = jparts(dense(fac_deriv(fac, m), n, np_), cplx)
            if Jf.shape == Jp.shape:
                sc = 2.0 ** 24 / max(np.abs(Jf).max(), 1e-300)
                ev.append(dict(op="same", case=case, what="derivative-depends-on-model-only", got=q(Jp, sc), want=q(Jf, sc), tol=4 if not name.startswith("scem") else 64))
            # the same array with new content is a new model
            m2 = model(rs)
            keep = m.copy()
            m[:] = m2
            J2 = jparts(dense(M.deriv(m), n, np_), cplx)
            Jf = jparts(dense(fac_deriv(fac, m2), n, np_), cplx)
            sc = 2.0 ** 24 / max(np.abs(Jf).max(), 1e-300)
            ev.append(dict(op="same", case=case, what="derivative-at-the-array-content", got=q(J2, sc), want=q(Jf, sc), tol=4 if not name.startswith("scem") else 64))
            m[:] = keep
            if inv:
                b = np.asarray(M.inverse(M * m))
                sc = 2.0 ** 24 / np.abs(m).max()
                ev.append(dict(op="same", case=case, what="inverse-undoes-map", got=q(b.ravel(order="F"), sc), want=q(m, sc), tol=64))
                u = M * m
                u0 = np.array(u, copy=True)
                f = np.asarray(M * np.asarray(M.inverse(u)).ravel(order="F"))
                sc = 2.0 ** 24 / np.abs(u0).max()
                ev.append(dict(op="same", case=case, what="map-undoes-inverse", got=q(f.ravel(order="F"), sc), want=q(np.asarray(u0).ravel(order="F"), sc), tol=64))
            for bad in (np.zeros(np_ + 1), np.zeros(np_ - 1)) if dim(M.nP) > 0 and np_ > 1 else ():
                try:
                    M * bad
                    ok = False
                except Exception:
                    ok = True
                ev.append(dict(op="true", case=case, what="wrong-model-length-refused", ok=ok))
    except Exception as exc:
        ev.append(exc_event(case, exc))
    return ev


def fac_deriv(fac, m):
    M = fac()
    M * m
    return M.deriv(m)


# ------------------------------------------------------------------ places, settings, averages
def misc_case(item):
    import discretize
    from simpeg import maps
    rs = np.random.RandomState(item["seed"])
    case = item["case"]
    ev = [dict(op="case", case=case)]
    T = discretize.TensorMesh
    try:
        k = item["k"]
        if k == "wires":
            for rep in range(4):
                ln = rs.randint(1, 4, rs.randint(1, 5))
                W = maps.Wires(*[("w%d" % i, int(x)) for i, x in enumerate(ln)])
                m = np.arange(1.0, ln.sum() + 1)
                out = W * m
                ev.append(dict(op="wires", case=case, len=q(ln), m=q(m), out=[q(o) for o in out]))
                ev.append(dict(op="wires", case=case, len=q(ln), m=q(m), out=[q(getattr(W, "w%d" % i) * m) for i in range(len(ln))]))
                ev.append(dict(op="true", case=case, what="wires-names-and-size", ok=bool(W.nP == ln.sum() and out._fields == tuple("w%d" % i for i in range(len(ln)))
                                                                                          and all([nm == "w%d" % i for i, (nm, _) in enumerate(W.maps)]))))
        elif k == "tile":
            for rep in range(item["reps"]):
                g = discretize.TreeMesh([8, 8, 8] if rep % 2 else [16, 16])
                l_ = discretize.TreeMesh([8, 8, 8] if rep % 2 else [16, 16])
                g.h, l_.h
                d = g.dim
                top = g.max_level
                pts = rs.uniform(0, 1, (3, d))
                g.insert_cells(pts, np.full(3, top), finalize=False)
                g.insert_cells(rs.uniform(0, 1, (2, d)), np.full(2, top - 1))
                l_.insert_cells(pts[:1] if rep != 2 else pts, np.full(1 if rep != 2 else 3, top - 1 if rep != 3 else 1))
                # every local cell must be a union of global cells: coarsen the global side where needed
                inl = containing(l_, g.cell_centers)
                if np.any(g.cell_volumes > l_.cell_volumes[inl] * 1.0001):
                    continue
                act = rs.uniform(size=g.nC) > .3
                act[rs.randint(g.nC)] = True
                comp = 1 + rep % 3
                M = maps.TileMap(g, act, l_, components=comp)
                na = act.sum()
                m = rs.randint(-3, 4, na * comp).astype(float)
                unit = 1.0 / g.cell_volumes.min()
                out = np.asarray(M * m)
                la = np.asarray(M.local_active).ravel()
                vl = np.tile(l_.cell_volumes[la], comp)
                J = dense(M.deriv(m), out.size, m.size)
                for what, val in (("value", out), ("deriv", J @ m), ("derivv", M.deriv(m, m))):
                    ev.append(dict(op="tile", case=case, what=what, nl=l_.nC, inl=q(inl), act=[bool(a) for a in act], vg=q(g.cell_volumes * unit), comp=comp, m=q(m), lact=[bool(a) for a in la],
                                   out=exact(np.round(np.asarray(val) * vl * unit, 6))))
                ev.append(dict(op="true", case=case, what="declared-shape", ok=bool(tuple(M.shape) == (out.size, m.size))))
        elif k == "mesh2mesh":
            a = T([[1.] * 4, [1., 2, 1]], "CC")
            for rep in range(4):
                b = T([[1.] * (8 + rep), [1., 1, 1, 2, 1, 1]], "CC")
                act = rs.uniform(size=a.nC) > .4
                act[0] = True
                for use in (None, act):
                    M = maps.Mesh2Mesh([a, b], active_cells=use)
                    c = rs.randint(-3, 4, 3)
                    lin = lambda X: c[0] + c[1] * X[:, 0] + c[2] * X[:, 1]
                    X = a.cell_centers if use is None else a.cell_centers[use]
                    ev.append(dict(op="same", case=case, what="interpolation-exact-for-linear-models", got=q(M * lin(b.cell_centers), 2.0 ** 16), want=q(lin(X), 2.0 ** 16), tol=2))
                    # restated on a new selection: settings take effect
                    act2 = rs.uniform(size=a.nC) > .4
                    act2[1] = True
                    M.active_cells = act2
                    X = a.cell_centers[act2]
                    ev.append(dict(op="same", case=case, what="changed-active-cells-take-effect", got=q(M * lin(b.cell_centers), 2.0 ** 16), want=q(lin(X), 2.0 ** 16), tol=2))
                far = T([[1.] * 2, [1.] * 2], [100., 100.])
                M = maps.Mesh2Mesh([far, b])
                ev.append(dict(op="same", case=case, what="zero-outside", got=q(M * rs.uniform(1, 2, b.nC), 2.0 ** 16), want=[0] * far.nC, tol=0))
        elif k == "settings":
            # maps whose settings are replaced behave like maps built with the new settings
            def cmp(what, A, B, m):
                ya, yb = np.asarray(A * m), np.asarray(B * m)
                ev.append(dict(op="same", case=case, what=what, got=q(ya, 2.0 ** 16), want=q(yb, 2.0 ** 16), tol=0))
                ja, jb = dense(A.deriv(m), ya.size, m.size), dense(B.deriv(m), yb.size, m.size)
                ev.append(dict(op="same", case=case, what=what + "-derivative", got=q(ja, 2.0 ** 16), want=q(jb, 2.0 ** 16), tol=0))
                ev.append(dict(op="true", case=case, what=what + "-shape", ok=bool(tuple(A.shape) == tuple(B.shape) and A.nP == B.nP)))
            for rep in range(3):
                u1 = [rs.uniform(size=6) > .5 for _ in range(2)]
                u2 = [rs.uniform(size=6) > .5 for _ in range(3)]
                M = maps.SurjectUnits([u.copy() for u in u1])
                M * np.ones(2)
                M.indices = [u.copy() for u in u2]
                cmp("changed-units-take-effect", M, maps.SurjectUnits([u.copy() for u in u2]), rs.randint(-3, 4, 3).astype(float))
                mesh = T([3, 4])
                a1, a2 = rs.uniform(size=12) > .5, rs.uniform(size=12) > .4
                M = maps.InjectActiveCells(mesh, a1, 2.0)
                na = (~a1).sum()
                v = rs.randint(1, 9, na).astype(float)
                M.value_inactive = v
                cmp("changed-inactive-values-take-effect", M, maps.InjectActiveCells(mesh, a1, v), rs.randint(-3, 4, a1.sum()).astype(float))
                W = maps.Weighting(nP=4, weights=np.arange(4.))
                W.weights = np.arange(4.) + 2
                cmp("changed-weights-take-effect", W, maps.Weighting(nP=4, weights=np.arange(4.) + 2), rs.randint(-3, 4, 4).astype(float))
                L = maps.LinearMap(np.eye(3), np.ones(3))
                A2 = rs.randint(-3, 4, (3, 2)).astype(float)
                L.A = A2
                L.b = np.arange(3.)
                cmp("changed-matrix-takes-effect", L, maps.LinearMap(A2, np.arange(3.)), rs.randint(-3, 4, 2).astype(float))
                S = maps.Surject2Dto3D(T([2, 3, 4]), normal="x")
                S * np.ones(12)
                nm = "yz"[rep % 2]
                S.normal = nm
                cmp("changed-normal-takes-effect", S, maps.Surject2Dto3D(T([2, 3, 4]), normal=nm), rs.randint(-3, 4, S.nP).astype(float))
                B = maps.ParametricLayer(mesh, slope=2.0, active_cells=a1)
                m = np.r_[1., 2, 1.5, 1]
                B * m
                B.active_cells = a2
                B.slope = 1.0
                cmp("changed-active-cells-take-effect", B, maps.ParametricLayer(mesh, slope=1.0, active_cells=a2), m)
        elif k == "scem":
            # one inclusion fraction at a time, within and beyond 0..1
            import warnings
            warnings.simplefilter("ignore")
            for rep in range(4):
                mk = lambda: maps.SelfConsistentEffectiveMedium(sigma0=.1, sigma1=2., alpha0=(1., .5)[rep % 2], alpha1=(1., 3.)[rep // 2], rel_tol=1e-11, maxIter=2000)
                phi = rs.uniform(.05, .95, 6)
                one = np.array([float(np.asarray(mk() * np.r_[p]).ravel()[0]) for p in phi])
                M = mk()
                ev.append(dict(op="same", case=case, what="each-entry-on-its-own", got=q(M * phi, 2.0 ** 20), want=q(one, 2.0 ** 20), tol=4))
                ev.append(dict(op="same", case=case, what="model-size-free", got=q(M * phi[:3], 2.0 ** 20), want=q(one[:3], 2.0 ** 20), tol=4))
                out = phi.copy()
                out[1], out[4] = -.2, 1.3
                ref = phi.copy()
                ref[1], ref[4] = 0., 1.
                ev.append(dict(op="same", case=case, what="out-of-range-fractions-are-limits", got=q(mk() * out, 2.0 ** 20), want=q(mk() * ref, 2.0 ** 20), tol=4))
                ev.append(dict(op="same", case=case, what="pure-phases", got=q(mk() * np.r_[0., 1.], 2.0 ** 20), want=q([.1, 2.], 2.0 ** 20), tol=16))
        elif k == "cluster":
            for rep in range(4):
                cf = [rs.randint(-2, 3, rs.randint(1, 4)).astype(float) for _ in range(4)]
                M = maps.PolynomialPetroClusterMap(*cf)
                X = rs.randint(-2, 3, (4, 2)).astype(float)
                X0 = X.copy()
                P = lambda c, x: sum(ck * x ** i for i, ck in enumerate(c))
                want = np.c_[P(cf[0], X[:, 0]) + P(cf[1], X[:, 1]), P(cf[2], X[:, 0]) + P(cf[3], X[:, 1])]
                got = M * X
                ev.append(dict(op="same", case=case, what="polynomial-relations", got=q(got), want=q(want), tol=0))
                ev.append(dict(op="true", case=case, what="inputs-untouched", ok=bool(np.array_equal(X, X0))))
        elif k == "refuse":
            mesh = T([3, 4])
            tries = {
                "projection-beyond": lambda: maps.Projection(3, [0, 3]),
                "projection-type": lambda: maps.Projection(3, 2),
                "linear-offset": lambda: maps.LinearMap(np.eye(3), np.ones(2)),
                "inactive-values": lambda: maps.InjectActiveCells(mesh, np.arange(12) < 4, np.ones(5)),
                "active-cells": lambda: maps.InjectActiveCells(mesh, np.ones(5, dtype=bool)),
                "spherical-size": lambda: maps.SphericalSystem(nP=4),
                "complex-size": lambda: maps.ComplexMap(nP=5),
                "units-shape": lambda: maps.SurjectUnits([np.ones(3, dtype=bool), np.ones(4, dtype=bool)]),
                "2dto3d-mesh": lambda: maps.Surject2Dto3D(mesh),
                "normal": lambda: maps.Surject2Dto3D(T([2, 2, 2]), normal="q"),
                "bounds-equal": lambda: maps.LogisticSigmoidMap(nP=3, lower_bound=1, upper_bound=[2, 1, 3]),
                "bounds-shape": lambda: maps.LogisticSigmoidMap(nP=3, lower_bound=[1, 1], upper_bound=4),
                "meshes-dim": lambda: maps.Mesh2Mesh([T([2]), mesh]),
                "combo-list": lambda: maps.ComboMap([maps.IdentityMap(nP=3), maps.ExpMap(nP=3), maps.IdentityMap(nP=2)]),
                "combo-inside": lambda: (maps.IdentityMap(nP=3) * maps.ExpMap(nP=3)) * (maps.IdentityMap(nP=2) * maps.ExpMap(nP=2)),
                "sum-list": lambda: maps.SumMap([maps.IdentityMap(nP=3), maps.ExpMap(nP=3), maps.IdentityMap(nP=2)]),
                "sum-of-other": lambda: maps.IdentityMap(nP=3) + np.ones(3),
                "times-other": lambda: maps.IdentityMap(nP=3) * 3.0,
                "wires": lambda: maps.Wires(("a", 2), ("b", 2.5)),
                "vector-length": lambda: maps.ExpMap(nP=3) * np.ones(4),
            }
            for nm, f in tries.items():
                try:
                    f()
                    ok = False
                except Exception:
                    ok = True
                ev.append(dict(op="true", case=case, what="refused-" + nm, ok=ok))
    except Exception as exc:
        ev.append(exc_event(case, exc))
    return ev


def containing(mesh, pts):
    """brute force: the cell of a tree mesh around each point"""
    cc, h = mesh.cell_centers, mesh.h_gridded
    out = []
    for p in pts:
        w = np.where(np.all(np.abs(cc - p) <= h / 2 + 1e-9, axis=1))[0]
        out.append(w[0] if len(w) == 1 else -1)
    return np.array(out)


def one(item):
    try:
        return dict(expr=expr_case, map=map_case, misc=misc_case)[item["kind"]](item)
    except Exception as exc:
        return [exc_event(item["case"], exc)]


def run(ctx):
    ctx.model("Maps", "SPECIFICATION MSpec\nCONSTANTS Leaves <- DLeaves\n MaxLen = %d\n Ms <- DMs\nINVARIANTS AllBracketingsAgree SumRule\nCHECK_DEADLOCK FALSE\n" % (3 if ctx.quick else 4),
              need_actions=("Factor",))
    beh = ctx.behaviours("MapsGen", "SPECIFICATION GSpec\nCONSTANTS Depth = 4\nCHECK_DEADLOCK FALSE\n", simulate=500 if ctx.quick else 4000, depth=8)
    items = []
    pat = os.environ.get("VF_ONLY", "*")
    for i, t in enumerate(beh):
        items.append(dict(kind="expr", case="expr%d" % i, t=t, seed=ctx.seed * 1000 + i))
    for nm in zoo():
        for k in range(2 if ctx.quick else 12):
            items.append(dict(kind="map", name=nm, case="map/%s#%d" % (nm, k), seed=ctx.seed * 77 + k, warm=bool(k % 2), reps=2))
    for k in ("wires", "tile", "mesh2mesh", "settings", "scem", "cluster", "refuse"):
        for j in range(1 if ctx.quick else 5):
            items.append(dict(kind="misc", k=k, case="misc/%s#%d" % (k, j), seed=ctx.seed * 13 + j, reps=6))
    items = [it for it in items if fnmatch.fnmatch(it["case"], pat)]
    ev = ctx.pmap(one, items)
    for e in ev:
        if e["op"] == "expr":
            e["case"] = e["case"]
    ctx.extra["maps"] = sorted(zoo())
    # expressions are cases of their own; let the chunker cut anywhere
    out = []
    for e in ev:
        if e["op"] == "expr":
            out.append(dict(op="case", case=e["case"]))
        out.append(e)
    ctx.validate("TraceMaps", out, chunk=250)
