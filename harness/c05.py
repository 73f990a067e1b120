"""C05: every invertible property has one source of truth - value, map or partner."""
import numpy as np
import scipy.sparse as sps
from vf.core import q, exc_event, BIG

# name -> (factory(n), pairs [(first, second or None)], number of cells, has mass matrices, initial values)


def families():
    import discretize
    from simpeg import maps, props
    from simpeg.electromagnetics import frequency_domain as fdem, time_domain as tdem, natural_source as ns
    from simpeg.electromagnetics.static import resistivity as dc, self_potential as sp, spectral_induced_polarization as sip
    from simpeg.potential_fields import magnetics, gravity
    from simpeg.flow import richards
    mesh = discretize.TensorMesh([2, 2, 2])
    m2 = discretize.TensorMesh([2, 2])
    mt = discretize.TreeMesh([4, 4, 4])
    mt.refine(1)
    nC = mesh.nC
    F = {}
    for ft, cls in (("e", fdem.Simulation3DElectricField), ("b", fdem.Simulation3DMagneticFluxDensity), ("h", fdem.Simulation3DMagneticField), ("j", fdem.Simulation3DCurrentDensity)):
        F["fdem-" + ft] = (lambda cls=cls: cls(mesh), [("sigma", "rho"), ("mu", "mui")], nC, mesh)
    F["fdem-tree"] = (lambda: fdem.Simulation3DElectricField(mt), [("sigma", "rho"), ("mu", "mui")], mt.nC, mt)
    for ft, cls in (("e", tdem.Simulation3DElectricField), ("b", tdem.Simulation3DMagneticFluxDensity), ("j", tdem.Simulation3DCurrentDensity)):
        F["tdem-" + ft] = (lambda cls=cls: cls(mesh, time_steps=[1e-5]), [("sigma", "rho"), ("mu", "mui")], nC, mesh)
    F["dc-cc"] = (lambda: dc.Simulation3DCellCentered(mesh), [("sigma", "rho")], nC, mesh)
    F["dc-n"] = (lambda: dc.Simulation3DNodal(mesh), [("sigma", "rho")], nC, mesh)
    F["dc-2d"] = (lambda: dc.Simulation2DNodal(m2), [("sigma", "rho")], m2.nC, m2)
    F["dc-2dcc"] = (lambda: dc.Simulation2DCellCentered(m2), [("sigma", "rho")], m2.nC, m2)
    F["dc-1d"] = (lambda: dc.Simulation1DLayers(), [("sigma", "rho"), ("thicknesses", None)], 2, None)
    F["sp"] = (lambda: sp.Simulation3DCellCentered(mesh, sigma=1.0), [("q", None)], nC, None)
    F["sip"] = (lambda: sip.Simulation3DCellCentered(mesh, sigma=1.0), [("tau", "taui"), ("eta", None), ("c", None)], nC, None)
    F["magpde"] = (lambda: magnetics.Simulation3DDifferential(mesh), [("mu", "mui"), ("rem", None)], nC, mesh)
    F["grav"] = (lambda: gravity.Simulation3DIntegral(mesh), [("rho", None)], nC, None)
    F["mag"] = (lambda: magnetics.Simulation3DIntegral(mesh), [("chi", None)], nC, None)
    F["nsem1d"] = (lambda: ns.Simulation1DRecursive(), [("sigma", "rho"), ("thicknesses", None)], 2, None)
    F["nsem3d"] = (lambda: ns.Simulation3DPrimarySecondary(mesh), [("sigma", "rho"), ("mu", "mui")], nC, mesh)
    F["richards-k"] = (lambda: richards.empirical.Haverkamp_k(mesh), [("Ks", None), ("A", None), ("gamma", None)], nC, None)
    F["richards-t"] = (lambda: richards.empirical.Vangenuchten_theta(mesh), [("theta_s", None), ("alpha", None), ("n", None)], nC, None)

    class Own(props.HasModel):
        a, aMap, aDeriv = props.Invertible("a")
        b, bMap, bDeriv = props.Invertible("b")
        c, cMap, cDeriv = props.Invertible("c")
        props.Reciprocal(a, b)

        def __init__(self, **kw):
            super().__init__(**kw)
            self.a = self.b = self.c = None
            self.aMap = self.bMap = self.cMap = None

    class Sub(Own):
        d, dMap, dDeriv = props.Invertible("d")
        i, iMap, iDeriv = props.Invertible("i")
        props.Reciprocal(d, i)

        def __init__(self, **kw):
            super().__init__(**kw)
            self.d = self.i = None
            self.dMap = self.iMap = None
    F["hasmodel"] = (lambda: Own(), [("a", "b"), ("c", None)], 4, None)
    F["hasmodel-sub"] = (lambda: Sub(), [("a", "b"), ("d", "i"), ("c", None)], 4, None)
    return F


def exps(v, n):
    """exponents of a property that repeats a pattern of two; scalars give one"""
    a = np.asarray(v, dtype=float)
    if a.ndim == 0:
        return [lg(float(a))]
    a = a.ravel()
    if a.size != n:
        return [BIG, a.size]
    e = [lg(x) for x in a]
    pat = e[:2]
    if any(e[i] != pat[i % 2] for i in range(n)):
        return [BIG]
    return pat


def lg(x):
    if not np.isfinite(x) or x <= 0:
        return BIG
    l = np.log2(x)
    r = int(round(l))
    return r if abs(l - r) < 1e-9 else BIG


def arr(e, n):
    if len(e) == 1:
        return 2.0 ** e[0]
    return np.array([2.0 ** e[i % 2] for i in range(n)])


def marr(e, n):
    return np.array([2.0 ** e[i % 2] for i in range(n)])


MASS = ["Mcc", "Mn", "Mf", "Me"]


def run_case(item):
    from simpeg import maps
    name, hist = item["fam"], item["hist"]
    case = item["case"]
    fac, pairs, n, mesh = families()[name]
    ev = []
    rs = np.random.RandomState(item["seed"])
    try:
        sim = fac()
        init = []
        for a, b in pairs:
            v = getattr(sim, "_" + a, None)
            if v is not None:      # e.g. mu = mu_0: start from a clean state through the public interface
                setattr(sim, a, None)
            if b is not None and getattr(sim, "_" + b, None) is not None:
                setattr(sim, b, None)
            init.append([])
        ev.append(dict(op="new", case=case, np=len(pairs), n=n, init=init))

        def nm(p, side):
            a, b = pairs[p - 1]
            return a if side == 1 or b is None else b

        def mk(a, inv):
            L = maps.LinearMap(sps.eye(n, format="csr") * 2.0 ** a)
            return L * maps.ReciprocalMap(nP=n) if inv else L

        def tryset(attr, val):
            try:
                setattr(sim, attr, val)
                return True
            except (TypeError, ValueError, AttributeError):
                return False

        def observe():
            for p in range(1, len(pairs) + 1):
                sides = (1, 2) if pairs[p - 1][1] else (1,)
                for side in sides:
                    a = nm(p, side)
                    try:
                        v = getattr(sim, a)
                        ok = v is not None
                    except AttributeError:
                        ok, v = False, None
                    ev.append(dict(op="read", case=case, p=p, side=side, ok=ok, e=exps(v, n) if ok else [], needs=bool(sim.needs_model),
                                   hasmap=getattr(sim, a + "Map") is not None))
                    d = getattr(sim, a + "Deriv")
                    if sps.issparse(d) or isinstance(d, np.ndarray):
                        D = d.toarray() if sps.issparse(d) else np.asarray(d)
                        diag = np.diag(D) if D.shape == (n, n) else np.full(n, np.nan)
                        off = D.shape == (n, n) and not np.any(D - np.diag(diag))
                        sg = int(np.sign(diag[0])) if np.isfinite(diag[0]) else 0
                        ev.append(dict(op="deriv", case=case, p=p, side=side, zero=False, diag=bool(off and np.all(np.sign(diag) == sg)), sign=sg, e=exps(np.abs(diag), n)))
                    elif d.__class__.__name__ == "Identity":
                        ev.append(dict(op="deriv", case=case, p=p, side=side, zero=False, diag=True, sign=1, e=[0, 0]))
                    else:
                        ev.append(dict(op="deriv", case=case, p=p, side=side, zero=d.__class__.__name__ == "Zero", diag=False, sign=0, e=[]))
                    if mesh is not None and a in ("sigma", "rho", "mu", "mui"):
                        cap = a[0].upper() + a[1:]
                        for M in rs.permutation(MASS)[:2]:
                            unit = {"Mcc": lambda: sps.diags(mesh.cell_volumes), "Mn": lambda: sps.diags(mesh.aveN2CC.T * mesh.cell_volumes),
                                    "Mf": lambda: mesh.get_face_inner_product(), "Me": lambda: mesh.get_edge_inner_product()}[M]().diagonal()
                            for inverse in (False, True):
                                try:
                                    val = getattr(sim, M + cap + ("I" if inverse else ""))
                                    g = val.diagonal() * (unit if inverse else 1 / unit)
                                    ee = [lg(x) for x in g]
                                    ev.append(dict(op="mass", case=case, p=p, side=side, name=M + ("I" if inverse else ""), inverse=inverse, ok=True, e=ee[0] if len(set(ee)) == 1 else BIG))
                                except (AttributeError, TypeError, ValueError):
                                    ev.append(dict(op="mass", case=case, p=p, side=side, name=M + ("I" if inverse else ""), inverse=inverse, ok=False, e=0))
                                if M == "Mn" and not hasattr(sim, "Mn%sDeriv" % cap):
                                    continue
                                try:
                                    val = getattr(sim, M + cap + ("I" if inverse else "") + "Deriv")(np.ones(unit.size), np.ones(n))
                                    if not isinstance(val, np.ndarray):
                                        ev.append(dict(op="massderiv", case=case, p=p, side=side, name=M, inverse=inverse, ok=True, zero=True, sign=0, e=0))
                                    else:
                                        g = val * (unit if inverse else 1 / unit)
                                        ee = [lg(x) for x in np.abs(g)]
                                        ev.append(dict(op="massderiv", case=case, p=p, side=side, name=M, inverse=inverse, ok=True, zero=False, sign=int(np.sign(g[0])), e=ee[0] if len(set(ee)) == 1 else BIG))
                                except (AttributeError, TypeError, ValueError):
                                    ev.append(dict(op="massderiv", case=case, p=p, side=side, name=M, inverse=inverse, ok=False, zero=False, sign=0, e=0))
        observe()
        for st in hist:
            o = st["op"]
            if "p" in st:
                p = (st["p"] - 1) % len(pairs) + 1
                side = st["side"] if pairs[p - 1][1] else 1
                a = nm(p, side)
            if o == "setv":
                ok = tryset(a, arr(st["e"], n))
                ev.append(dict(op="setv", case=case, p=p, side=side, e=st["e"], accepted=ok))
            elif o == "setm":
                ok = tryset(a + "Map", mk(st["a"], st["inv"]))
                ev.append(dict(op="setm", case=case, p=p, side=side, a=st["a"], inv=st["inv"], accepted=ok))
            elif o == "nonev":
                setattr(sim, a, None)
                ev.append(dict(op="nonev", case=case, p=p, side=side))
            elif o == "nonem":
                setattr(sim, a + "Map", None)
                ev.append(dict(op="nonem", case=case, p=p, side=side))
            elif o == "badv":
                ev.append(dict(op="badv", case=case, accepted=tryset(a, [[1.0, 2.0], [3.0]])))
            elif o == "badm":
                ev.append(dict(op="badm", case=case, accepted=tryset(a + "Map", np.ones(n))))
            elif o == "model":
                ev.append(dict(op="model", case=case, m=st["m"], len=n, accepted=tryset("model", marr(st["m"], n))))
            elif o == "badmodel":
                ev.append(dict(op="model", case=case, m=[0, 0], len=n + 1, accepted=tryset("model", np.ones(n + 1))))
            elif o == "modelnone":
                sim.model = None
                ev.append(dict(op="modelnone", case=case))
            observe()
    except Exception as exc:
        ev.append(exc_event(case, exc))
    return ev


def run(ctx):
    ctx.model("Props", "SPECIFICATION PSpec\nCONSTANTS Exps = {0, 1, 3}\n Bound = %d\nINVARIANTS OneSource ReadsFollowSource\nCHECK_DEADLOCK FALSE\n" % (4 if ctx.quick else 6),
              need_actions=("SetV", "SetM", "NoneV", "NoneM", "SetMod"))
    depth = 14 if ctx.quick else 30
    beh = ctx.behaviours("PropsGen", "SPECIFICATION GSpec\nCONSTANT Depth = %d\nCHECK_DEADLOCK FALSE\n" % depth, simulate=60 if ctx.quick else 200, depth=depth + 2)
    fams = sorted(families())
    per = 4 if ctx.quick else 16
    items = []
    for i, f in enumerate(fams):
        for j in range(per):
            k = (i * 5 + j * 17 + ctx.seed) % len(beh)
            items.append(dict(fam=f, hist=beh[k], case="%s#%d" % (f, k), seed=k + ctx.seed))
    ev = ctx.pmap(run_case, items)
    ctx.validate("TraceProps", ev, chunk=1500)
