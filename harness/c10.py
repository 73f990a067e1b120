"""C10: the life of an inversion.  Lists of directives with their settings are generated by TLC
(InvGen), run in real inversions with a probe around every hook, and the recorded hooks are
judged by TLC against Inv."""
import contextlib, hashlib, io, os, shutil, tempfile, warnings
import numpy as np
import scipy.sparse as sp
from vf.core import pair, q1, q, exc_event

EPS = 1e-9


def digest(x):
    if x is None:
        return 0
    if sp.issparse(x):
        x = x.toarray()
    a = np.ascontiguousarray(np.asarray(x, dtype=float))
    return int(hashlib.md5(a.tobytes() + str(a.shape).encode()).hexdigest()[:7], 16)


def leaves(f):
    out = []
    for g in getattr(f, "objfcts", None) or [f]:
        out += leaves(g) if g is not f and getattr(g, "objfcts", None) else [g]
    return out


class Problem:
    """simulations, misfits and regularization of one case"""

    def __init__(self, s):
        from simpeg import maps, data, data_misfit, regularization, simulation, optimization, inverse_problem
        import discretize
        rs = np.random.RandomState(s["seed"])
        self.s, self.rs = s, rs
        shape = {1: [[9], [12]], 2: [[4, 3], [3, 5]], 3: [[3, 2, 2], [2, 3, 2]]}[s["dim"]][rs.randint(2)]
        self.mesh = mesh = discretize.TensorMesh([rs.uniform(0.5, 2.0, n) for n in shape])
        two = s["reg"] == "two"
        nc = mesh.nC
        n = 2 * nc if two else nc
        self.n = n
        wires = maps.Wires(("a", nc), ("b", nc)) if two else None

        class Sim(simulation.LinearSimulation):
            pass

        class SimD(simulation.LinearSimulation):
            def getJtJdiag(self, m, W=None, f=None):
                J = self.getJ(m)
                J = J.toarray() if sp.issparse(J) else np.asarray(J)
                return ((W @ J if W is not None else J) ** 2).sum(axis=0)
        self.misfits, self.Gs, self.maps = [], [], []
        mtrue = rs.randn(n) * 0.6
        for k in range(s["sims"]):
            nd = int(rs.randint(4, 8))
            G = rs.randn(nd, n) * np.exp(-0.15 * np.arange(n))[None, :] * [1.0, 0.3][k % 2] + 0.05
            mp = maps.IdentityMap(nP=n) if s["map"] == "id" else maps.ExpMap(nP=n)
            sim = (SimD if rs.randint(2) else Sim)(model_map=mp, G=G)
            clean = G @ (mtrue if s["map"] == "id" else np.exp(mtrue))
            std = (0.02 + 0.1 * rs.rand(nd)) * s["noise"]
            d = data.Data(sim.survey, dobs=clean + std * rs.randn(nd), standard_deviation=std)
            self.misfits.append(data_misfit.L2DataMisfit(data=d, simulation=sim))
            self.Gs.append((G, d.dobs.copy(), 1 / std, s["map"]))
        dm = self.misfits[0]
        for g in self.misfits[1:]:
            dm = dm + g
        kw = dict(reference_model=rs.randn(nc) * 0.2, alpha_s=rs.uniform(0.1, 2))
        norms = [[0.0, 1.0, 1.5][rs.randint(3)]] + [[0.0, 1.0, 2.0][rs.randint(3)] for _ in range(s["dim"])]
        R = regularization
        if s["reg"] == "wls":
            reg = R.WeightedLeastSquares(mesh, **kw)
        elif s["reg"] == "sparse":
            reg = R.Sparse(mesh, norms=norms, **kw)
        elif s["reg"] == "small":
            reg = R.Smallness(mesh, reference_model=kw["reference_model"])
        else:
            reg = R.WeightedLeastSquares(mesh, mapping=wires.a, reference_model=rs.randn(n) * 0.2) + R.Sparse(mesh, mapping=wires.b, norms=norms, reference_model=rs.randn(n) * 0.2)
        self.norms = norms
        opt = getattr(optimization, s["opt"])(maxIter=s["maxIter"], maxIterLS=s["ls"], tolF=1e-12, tolX=1e-12, tolG=1e-12)
        opt.cg_maxiter = 60
        if s["opt"] == "ProjectedGNCG":
            opt.cg_rtol, opt.cg_atol = 1e-6, 0.0
            if s["tight"]:
                opt.lower, opt.upper = -0.8, 0.9
        self.opt = opt
        self.ip = inverse_problem.BaseInvProblem(dm, reg, opt, beta=[1e-3, 0.1, 1.0, 30.0, 1e3][s["beta"]])
        self.reg, self.dm = (1 * self.ip.reg if isinstance(self.ip.reg, R.WeightedLeastSquares) else self.ip.reg), self.ip.dmisfit
        self.m0 = np.clip(rs.randn(n) * 0.1 + 0.05, -0.7, 0.8)

    def dpred(self, k, m):
        G, dobs, w, mp = self.Gs[k]
        return G @ (m if mp == "id" else np.exp(m))

    def phi(self, k, m):
        G, dobs, w, mp = self.Gs[k]
        return float(np.sum((w * (self.dpred(k, m) - dobs)) ** 2))

    def J(self, k, m):
        G, dobs, w, mp = self.Gs[k]
        return w[:, None] * (G if mp == "id" else G * np.exp(m)[None, :])

    def sparse(self):
        from simpeg.regularization import Sparse
        return [r for r in self.reg.objfcts if isinstance(r, Sparse)]

    def snapshot(self):
        sn = self.sparse()
        al, w = [], []
        for r in self.reg.objfcts:
            al += [float(getattr(r, a)) for a in ("alpha_s", "alpha_x", "alpha_y", "alpha_z", "alpha_xx", "alpha_yy", "alpha_zz") if getattr(r, a, None) is not None]
        for lf in leaves(self.reg):
            try:
                w.append(lf.W.diagonal())
            except Exception:
                pass
        return dict(beta=digest(self.ip.beta), stop=bool(getattr(self.opt, "stopNextIteration", False)),
                    norms=digest(np.concatenate([np.ravel(np.array(x, dtype=float)) for r in sn for x in r.norms]) if sn else None),
                    thr=digest([float(o.irls_threshold) for r in sn for o in r.objfcts]), weights=digest(np.concatenate(w) if w else None),
                    mults=digest(np.array(self.dm.multipliers, dtype=float)), alphas=digest(al),
                    prec=digest(getattr(self.opt, "_approxHinv", None)) if not callable(getattr(self.opt, "_approxHinv", None)) else 1,
                    model=digest(self.ip.model))


def make(kind, o, P, tmp, name):
    from simpeg import directives as D
    import warnings
    if kind == "schedule":
        return D.BetaSchedule(coolingFactor=o["fact"], coolingRate=o["rate"])
    if kind == "target":
        return D.TargetMisfit(chifact=0.5 * o["chi"])
    if kind == "multi":
        return D.MultiTargetMisfits(chifact=0.5 * o["chi"], TriggerSmall=o["every"])
    if kind == "byeig":
        return D.BetaEstimate_ByEig(beta0_ratio=o["ratio"], n_pw_iter=o["npw"], random_seed=o["seed"])
    if kind == "maxderiv":
        return D.BetaEstimateMaxDerivative(beta0_ratio=o["ratio"], random_seed=o["seed"])
    if kind == "alphas":
        return D.AlphasSmoothEstimate_ByEig(alpha0_ratio=o["ratio"], n_pw_iter=o["npw"], random_seed=o["seed"])
    if kind == "scaling":
        return D.ScalingMultipleDataMisfits_ByEig(n_pw_iter=o["npw"], random_seed=o["seed"], chi0_ratio=np.r_[1.0, 2.0] if o["every"] else None)
    if kind == "joint":
        return D.JointScalingSchedule(warmingFactor=o["ratio"], update_rate=o["rate"])
    if kind == "precond":
        return D.UpdatePreconditioner(update_every_iteration=o["every"])
    if kind == "sens":
        return D.UpdateSensitivityWeights(every_iteration=o["every"], threshold_value=[1e-6, 0.1, 20.0][o["thr"] - 1], threshold_method=["global", "amplitude", "percentile"][o["thr"] - 1],
                                          normalization_method=["maximum", "minimum", None][o["norm"] - 1])
    if kind == "irls":
        return D.UpdateIRLS(cooling_factor=o["fact"], cooling_rate=o["rate"], chifact_start=0.5 * o["chi"] + 1, chifact_target=0.5 * o["chi"], irls_cooling_factor=[1.2, 1.5, 2.0][o["thr"] - 1],
                            max_irls_iterations=o["maxirls"], f_min_change=[1e-4, 0.3, 10.0][o["norm"] - 1], misfit_tolerance=[0.1, 0.5, 2.0][o["thr"] - 1], percentile=o["pct"], verbose=False)
    if kind == "savemodel":
        return D.SaveModelEveryIteration(directory=tmp, name=name)
    if kind == "saveout":
        return D.SaveOutputEveryIteration(on_disk=o["disk"], directory=tmp, name=name)
    if kind == "savedict":
        return D.SaveOutputDictEveryIteration(on_disk=o["disk"], directory=tmp, name=name)
    if kind == "similar":
        return D.SimilarityMeasureInversionDirective()
    if kind == "spherical":
        from simpeg import maps, regularization
        w = maps.Wires(("a", P.mesh.nC), ("b", P.mesh.nC))
        return D.SphericalUnitsWeights(w.a, [regularization.WeightedLeastSquares(P.mesh, mapping=w.b)])
    return D.InversionDirective()


def need(kind, s):
    """does the directive apply to this setup"""
    if kind in ("scaling", "joint"):
        return s["sims"] == 2
    if kind == "alphas":
        return s["reg"] != "small"
    if kind == "irls":
        return s["reg"] in ("sparse", "two")
    return True


def effect(P, kind, d, o, hook, m, b, prev, tmp, name):
    """(got, want, tol bits, ok): what the directive left behind against what it documents.
    b: quantities read before the hook"""
    from simpeg.utils import eigenvalue_by_power_iteration as eig
    ip, it = P.ip, getattr(P.opt, "iter", 0)
    if kind in ("byeig", "maxderiv") and hook == "initialize":
        rng = np.random.default_rng(o["seed"])
        if kind == "byeig":
            want = o["ratio"] * eig(P.dm, m, n_pw_iter=o["npw"], random_seed=rng) / eig(P.reg, m, n_pw_iter=o["npw"], random_seed=rng)
        else:
            x0 = rng.random(size=m.shape)
            want = o["ratio"] * np.abs(P.dm.deriv(m)).max() / np.abs(P.reg.deriv(m + x0 / x0.max() * m.max())).max()
        return [ip.beta], [want], True
    if kind == "alphas" and hook == "initialize":
        from simpeg import regularization as R
        rng = np.random.default_rng(o["seed"])
        subs = [(r, f) for r in P.reg.objfcts for f in r.objfcts]
        small = [f for r, f in subs if isinstance(f, R.Smallness)][0]
        l0 = eig(small, m, n_pw_iter=o["npw"], random_seed=rng)
        got, want = [], []
        for r, f in subs:
            if isinstance(f, R.SmoothnessFirstOrder) and not isinstance(f, R.SmoothnessSecondOrder):
                a = {"x": "alpha_x", "y": "alpha_y", "z": "alpha_z"}[f.orientation]
                got.append(getattr(r, a))
                want.append(b["alpha"][(id(r), a)] * o["ratio"] * l0 / eig(f, m, n_pw_iter=o["npw"], random_seed=rng))
            elif isinstance(f, R.SmoothnessSecondOrder):
                a = {"x": "alpha_xx", "y": "alpha_yy", "z": "alpha_zz"}[f.orientation]
                got.append(getattr(r, a))
                want.append(b["alpha"][(id(r), a)] * (o["ratio"] * l0 / eig(f, m, n_pw_iter=o["npw"], random_seed=rng) if isinstance(f, R.SmoothnessFirstOrder) else 1.0))
        return got, want, True
    if kind == "scaling" and hook == "initialize":
        if b["rep"] and not o["every"]:
            return [], [], True
        rng = np.random.default_rng(o["seed"])
        lam = np.array([eig(f, m, n_pw_iter=o["npw"], random_seed=rng) for f in P.misfits])
        w = (np.r_[1.0, 2.0] if o["every"] else np.array(b["mults"])) / lam
        return P.dm.multipliers, w / w.sum(), True
    if kind == "joint" and hook == "endIter" and b["multi"] is not None:
        c = np.array(b["mults"], dtype=float)
        dmv, tg = np.array([P.phi(k, m) for k in range(len(P.misfits))]), np.array([0.5 * b["multi"]["chi"] * len(G[1]) for G in P.Gs])
        if np.any(np.abs(dmv - tg) < EPS * tg):
            return [], [], True
        fit = dmv < tg
        if it % o["rate"] == 0 and fit.any() and not fit.all() and np.all(c > 1e-10) and np.all(c < 1e10):
            c[~fit] *= o["ratio"] * np.median(tg[fit] / dmv[fit])
            c /= c.sum()
        return P.dm.multipliers, c, True
    if kind == "precond" and (hook == "initialize" or (hook == "endIter" and o["every"])):
        if not np.allclose(np.array(P.dm.multipliers, dtype=float), 1.0):
            return [], [], True
        A = ip.beta * np.sum([np.asarray(r.deriv2(m).diagonal()) for r in P.reg.objfcts], axis=0) + np.sum([(P.J(k, m) ** 2).sum(axis=0) for k in range(len(P.misfits))], axis=0)
        return P.opt.approxHinv.diagonal() * A, np.where(A != 0, 1.0, 0.0), True
    if kind == "sens" and (hook == "initialize" or (hook == "endIter" and o["every"])):
        jtj = np.sum([(P.J(k, m) ** 2).sum(axis=0) for k in range(len(P.misfits))], axis=0)
        vol = np.tile(P.mesh.cell_volumes, P.n // P.mesh.nC)
        w = np.sqrt(jtj) / vol
        t = [1e-6, 0.1, 20.0][o["thr"] - 1]
        w = w + t if o["thr"] == 1 else np.maximum(w, t * w.max()) if o["thr"] == 2 else np.maximum(w, np.percentile(w, t))
        w = w / w.max() if o["norm"] == 1 else w / w.min() if o["norm"] == 2 else w
        got, want = [], []
        for r in P.reg.objfcts:
            for f in getattr(r, "objfcts", [r]):
                got.append(f.get_weights("sensitivity"))
                want.append(r.mapping * w)
        return np.concatenate(got), np.concatenate(want), True
    if kind == "savemodel":
        files = sorted(f for f in os.listdir(tmp) if f.startswith(name + "_") and f.endswith(".npy"))
        if hook != "endIter":
            return [], [], len(files) == len(prev["files"])
        new = [f for f in files if f not in prev["files"]]
        prev["files"] = files
        ok = len(new) == 1 and int(new[0][:-4].split("_")[-1]) == it
        return (np.load(os.path.join(tmp, new[0])) if ok else []), (P.opt.xc if ok else []), ok
    if kind == "saveout":
        if hook == "initialize":
            prev["rows"] = []
            return [], [], len(d.beta) == 0
        if hook == "endIter":
            parts = {}
            for r in P.reg.objfcts:
                for f in getattr(r, "objfcts", []):
                    c = {"Smallness": "s", "SparseSmallness": "s", "SmoothnessFirstOrder": "x", "SparseSmoothness": "x"}.get(type(f).__name__)
                    c = f.orientation if c == "x" else c
                    if c:
                        parts[c] = parts.get(c, 0.0) + float(f(m)) * getattr(r, "alpha_" + c)
            prev["rows"].append([ip.beta, np.sum(np.array(P.dm.multipliers, dtype=float) * [P.phi(k, m) for k in range(len(P.misfits))]) if not b["dirty"] else ip.phi_d,
                                 ip.phi_m] + [parts.get(c, 0.0) for c in "sxyz"] + [P.opt.f])
        got = np.array([d.beta, d.phi_d, d.phi_m, d.phi_m_small, d.phi_m_smooth_x, d.phi_m_smooth_y, d.phi_m_smooth_z, d.phi], dtype=float).T
        want = np.array(prev["rows"], dtype=float).reshape(-1, 8)
        ok = got.shape == want.shape
        if ok and o["disk"]:
            rows = np.loadtxt(d.file_abs_path, comments="#", ndmin=2) if len(want) else np.zeros((0, 9))
            ok = os.path.dirname(str(d.file_abs_path)) == os.path.realpath(tmp) and rows.shape == (len(want), 9) and np.allclose(rows[:, 1:], want, rtol=1e-4, atol=0) and (len(want) == 0 or np.array_equal(rows[:, 0], np.arange(1, len(want) + 1)))
        if not ok or not len(want):
            return [], [], ok
        s = np.maximum(np.abs(want), 1e-30)
        return (got / s).ravel(), (want / s).ravel(), True
    if kind == "savedict":
        if hook == "initialize":
            prev["keys"], prev["old"] = [], {}
            return [], [], d.outDict == {}
        if hook == "endIter":
            prev["keys"].append(it)
            prev["old"][it] = P.opt.xc.copy()
        ok = sorted(d.outDict) == sorted(prev["keys"])
        got, want = [], []
        for k in d.outDict:
            r = d.outDict[k]
            ok = ok and r["iter"] == k
            got.append(r["m"]), want.append(prev["old"][k])
            got.append(np.concatenate([np.ravel(x) for x in r["dpred"]])), want.append(np.concatenate([P.dpred(j, prev["old"][k]) for j in range(len(P.misfits))]))
            if k == it and hook == "endIter":
                got.append([r["beta"], r["phi_d"], r["phi_m"], r["f"]]), want.append([ip.beta, ip.phi_d, ip.phi_m, P.opt.f])
                if o["disk"]:
                    with np.load(d.file_abs_path, allow_pickle=True) as z:
                        ok = ok and np.array_equal(z["arr_0"].item()["m"], P.opt.xc)
                for sr in P.sparse()[:1]:
                    for f, nm in zip(sr.objfcts, sr.norms):
                        lab = (f.orientation + " " if hasattr(f, "orientation") else "") + type(f).__name__
                        ok = ok and np.all(np.asarray(r[lab + ".norm"]) == np.asarray(nm)) and r[lab + ".irls_threshold"] == f.irls_threshold
        return (np.concatenate(got) if got else []), (np.concatenate(want) if want else []), bool(ok)
    return [], [], True


def run_case(item):
    from simpeg import inversion
    case, hist = item["case"], item["hist"]
    s = hist[0]
    out = [dict(op="new", case=case)]
    todo = [h for h in hist[1:] if item.get("list") or need(h["kind"], s)]
    if not item.get("list"):
        todo = [h for i, h in enumerate(todo) if h["kind"] not in ("irls", "multi") or all(g["kind"] != h["kind"] for g in todo[:i])]
    sink = io.StringIO()
    tmp = tempfile.mkdtemp(prefix="vf10_")
    try:
        with contextlib.redirect_stdout(sink), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            if item.get("list"):
                P = Problem(dict(s, reg="sparse" if s["reg"] == "small" else s["reg"]))
                ds = [make(h["kind"], h["o"], P, tmp, "d%d" % i) for i, h in enumerate(todo)]
                try:
                    inversion.BaseInversion(P.ip, ds)
                    acc = True
                except (AssertionError, IndexError, ValueError, TypeError):
                    acc = False
                out.append(dict(op="list", case=case, kinds=[h["kind"] for h in todo], accepted=acc))
                return out
            drive(s, todo, tmp, case, out)
    except Exception as exc:
        out.append(exc_event(case, exc))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def drive(s, todo, tmp, case, out):
    from simpeg import inversion
    P = Problem(s)
    if any(h["kind"] == "joint" for h in todo) and not any(h["kind"] == "multi" for h in todo[:[h["kind"] for h in todo].index("joint")]):
        todo = [h for h in todo if h["kind"] != "joint"]
    todo = todo or [dict(kind="probe", o=dict(every=False, rate=1, fact=2))]
    multi = next((h["o"] for h in todo if h["kind"] == "multi"), None)
    lastmulti = [h["o"] for h in todo if h["kind"] == "multi"]
    multi = lastmulti[-1] if lastmulti else None
    ds = [make(h["kind"], h["o"], P, tmp, "d%d" % i) for i, h in enumerate(todo)]
    inv = inversion.BaseInversion(P.ip, ds)
    keep0 = P.m0.copy()
    irls = any(h["kind"] == "irls" for h in todo)
    nrep = 1 if irls or any(h["kind"] in ("savemodel", "saveout", "savedict") for h in todo) else 1 + s["again"]
    state = {}
    prevs = [dict(files=[], rows=[], keys=[], old={}) for _ in ds]
    expect = {}

    def probe(i, hook, real):
        def call():
            kind, o, d = todo[i]["kind"], todo[i]["o"], ds[i]
            it = getattr(P.opt, "iter", 0) if hook != "initialize" else 0
            m = P.ip.model.copy()
            if hook == "endIter" and i == 0:
                mu = np.array(P.dm.multipliers, dtype=float)
                expect.update(pd=float(np.sum(mu * [P.phi(k, m) for k in range(len(P.misfits))])), pm=float(P.reg(m)), xc=P.opt.xc.copy(), dirty=False, beta=P.ip.beta)
            fresh = True
            if hook == "endIter":
                xc = expect["xc"]
                dp = np.concatenate([np.ravel(x) for x in P.ip.dpred])
                wd = np.concatenate([P.dpred(k, xc) for k in range(len(P.misfits))])
                fresh = bool(np.array_equal(m, xc) and np.array_equal(P.opt.xc, xc) and np.isclose(P.ip.phi_d, expect["pd"], rtol=EPS) and np.isclose(P.ip.phi_m, expect["pm"], rtol=EPS, atol=1e-300)
                             and np.allclose(dp, wd, rtol=EPS, atol=EPS) and np.isclose(P.opt.f, expect["pd"] + expect["beta"] * expect["pm"], rtol=EPS))
            b = dict(rep=len([e for e in out if e["op"] == "run"]) > 1, mults=list(P.dm.multipliers), multi=multi, dirty=expect.get("dirty", False),
                     alpha={(id(r), a): float(getattr(r, a)) for r in P.reg.objfcts for a in ("alpha_x", "alpha_y", "alpha_z", "alpha_xx", "alpha_yy", "alpha_zz") if getattr(r, a, None) is not None})
            bb, before = float(P.ip.beta), P.snapshot()
            ex = {}
            if kind == "irls":
                sn = P.sparse()
                thr0 = [float(f.irls_threshold) for r in sn for f in r.objfcts]
                fnow = float(np.sum([r(m) for r in sn]))
                state.setdefault("fold", None)
                nd = sum(len(G[1]) for G in P.Gs)
                pd = float(P.ip.phi_d)
            real()
            after = P.snapshot()
            if hook == "endIter" and (before["mults"] != after["mults"]):
                expect["dirty"] = True
            got, want, ok = effect(P, kind, d, o, hook, m, b, prevs[i], tmp, "d%d" % i)
            g, w = pair(np.asarray(got, dtype=float), np.asarray(want, dtype=float), bits=20)
            below = 0
            if kind in ("target", "multi") and hook == "endIter":
                t = 0.5 * o["chi"]
                if kind == "target":
                    a, c = [float(P.ip.phi_d)], [t * sum(len(G[1]) for G in P.Gs)]
                else:
                    a, c = [P.phi(k, m) for k in range(len(P.misfits))], [t * len(G[1]) for G in P.Gs]
                near = any(abs(x - y) <= EPS * y for x, y in zip(a, c))
                below = 0 if near else -1 if all(x < y for x, y in zip(a, c)) else 1
            ev = dict(op="hook", case=case, hook=hook, pos=i + 1, it=it, kind=kind, every=bool(o["every"]), o=dict(rate=o["rate"], fact=o["fact"]), before=before, after=after, fresh=fresh,
                      got=g, want=w, tol=8, ok=bool(ok), ratio=q1(bb / float(P.ip.beta), 65536) if P.ip.beta else 0, below=below)
            if kind == "irls":
                sn = P.sparse()
                flat = lambda r: [np.asarray(x, dtype=float) + np.zeros(P.mesh.nC) if np.ndim(x) == 0 else np.asarray(x, dtype=float) for x in r.norms]
                l2 = all(np.all(np.asarray(x) == 2.0) for r in sn for x in r.norms)
                isn = all(np.all(np.asarray(x) == y) for r in sn for x, y in zip(r.norms, P.norms))
                thr1 = [float(f.irls_threshold) for r in sn for f in r.objfcts]
                ev.update(l2=bool(l2), isnorm=bool(isn), cool=q1(o["fact"], 65536))
                if hook == "endIter":
                    tgt, start = 0.5 * o["chi"] * nd, (0.5 * o["chi"] + 1) * nd
                    tol = [0.1, 0.5, 2.0][o["thr"] - 1]
                    fmin = [1e-4, 0.3, 10.0][o["norm"] - 1]
                    fac = [1.2, 1.5, 2.0][o["thr"] - 1]
                    ratio = pd / tgt
                    adj = (1.0 if abs(1 - ratio) <= tol else 1 / np.mean([0.75, 1 / ratio]) if ratio > 1 else 1 / np.mean([2.0, 1 / ratio]))
                    fold = state["fold"]
                    ch = abs(fold - fnow) / (fold + 1e-12) if fold is not None else np.inf
                    near = abs(pd - start) < EPS * start or abs(abs(1 - ratio) - tol) < EPS or (np.isfinite(ch) and abs(ch - fmin) < 1e-7)
                    settled = ch < fmin and abs(1 - ratio) < tol
                    started = state.get("start")
                    begins = started is None and pd < start
                    if begins:
                        state["start"] = started = it
                    due = started is not None and (it - started) % o["rate"] == 0
                    wantthr, gotw, wantw = [], [], []
                    if begins:
                        for r in sn:
                            for f in r.objfcts:
                                dmv = np.asarray(r.mapping * (m - f.reference_model)) if f.reference_model is not None and (type(f).__name__ == "SparseSmallness" or getattr(f, "reference_model_in_smooth", False)) else np.asarray(r.mapping * m)
                                v = np.percentile(np.abs(dmv), o["pct"])
                                wantthr.append(v / (1.0 if type(f).__name__ == "SparseSmallness" else r.regularization_mesh.base_length))
                        stopnow = due and (o["maxirls"] == 0)
                        sth = [t * (1.0 if stopnow else fac) for t in thr1]
                        ga, wa = pair(sth, wantthr, bits=20)
                        ev.update(startthr=ga, wantthr=wa)
                    else:
                        ev.update(startthr=[], wantthr=[])
                    if due:
                        for r in sn:
                            for f in r.objfcts:
                                p = np.asarray(f.norm, dtype=float) + 0 * np.asarray(f.f_m(m))
                                fm, th = np.asarray(f.f_m(m)), f.irls_threshold
                                if getattr(f, "gradient_type", "components") == "total" and f is not r.objfcts[0]:
                                    continue
                                ww = (fm ** 2 + th ** 2) ** (p / 2 - 1)
                                if f.irls_scaled and np.any(p != 2) :
                                    mx = np.ones_like(fm) * np.abs(fm).max()
                                    mx[p < 1] = th / np.sqrt(1 - p[p < 1])
                                    full = mx / (mx ** 2 + th ** 2) ** (1 - p / 2)
                                    sc = np.ones_like(fm)
                                    sc[full != 0] = np.abs(fm).max() / full[full != 0]
                                    ww = ww * sc
                                gw = f.get_weights("irls") if "irls" in f.weights_keys else np.ones_like(ww)
                                if gw.shape == ww.shape and np.all(np.isfinite(ww)) and np.abs(ww).max() > 0:
                                    gotw.append(gw / np.abs(ww).max())
                                    wantw.append(ww / np.abs(ww).max())
                    ga, wa = pair(np.concatenate(gotw) if gotw else [], np.concatenate(wantw) if wantw else [], bits=20)
                    ev.update(facts=dict(it=it, rate=o["rate"], below=bool(pd < start), adj=q1(adj, 65536), settled=bool(settled), max=o["maxirls"], sure=not near and not state.get("unsure"), thrfact=q1(fac, 65536)),
                              thrratio=[q1(a / c if c else 1.0, 65536) for a, c in zip(thr0, thr1)], gotw=ga, wantw=wa)
                    if near:
                        state["unsure"] = True
                    if due and not (state.get("n", 0) == o["maxirls"]):
                        state["fold"] = fnow
                    if due and not after["stop"]:
                        state["n"] = state.get("n", 0) + 1
            out.append(ev)
        return call

    for i, d in enumerate(ds):
        for hook in ("initialize", "endIter", "finish"):
            setattr(d, hook, probe(i, hook, getattr(d, hook)))
    for rep in range(nrep):
        state.clear()
        out.append(dict(op="run", case=case, n=len(ds), lim=s["maxIter"]))
        m = inv.run(P.m0)
        why = "other"
        if P.opt.stopNextIteration:
            why = "stop"
        elif P.opt.iter >= s["maxIter"]:
            why = "other"
        out.append(dict(op="end", case=case, it=P.opt.iter, last=bool(np.array_equal(m, P.opt.xc) and np.array_equal(inv.m, m) and np.array_equal(P.m0, keep0)), why=why))
    for i, d in enumerate(ds):
        if todo[i]["kind"] == "saveout" and todo[i]["o"]["disk"] and P.opt.iter > 0:
            want = np.array(prevs[i]["rows"])
            d.load_results()
            got = np.array([d.beta, d.phi_d, d.phi_m, d.phi_m_small, d.phi_m_smooth_x, d.phi_m_smooth_y, d.phi_m_smooth_z]).T
            out.append(dict(op="true", case=case, what="saved-output-loads", ok=bool(got.shape == want[:, :7].shape and np.allclose(got, want[:, :7], rtol=1e-4, atol=0)
                            and (d.i_target is None or d.phi_d[d.i_target] <= d.target_misfit) and d.target_misfit == sum(len(G[1]) for G in P.Gs))))


def one(it):
    return run_case(it)


def run(ctx):
    import fnmatch
    ctx.model("Inv", "SPECIFICATION Spec\nCONSTANTS Lists <- DLists\n MaxIters = %s\n Phis = {1, 2, 3, 9}\nINVARIANTS InOrder OncePerIteration EveryIterationSeen BetaSchedule TargetStops IrlsBounded\nCHECK_DEADLOCK FALSE\n"
              % ("{0, 1, 3}" if ctx.quick else "{0, 1, 3, 5}"), need_actions=("Hook", "Initialised", "Step", "Ended", "Give", "Close"))
    items = []
    for arrange, n, tag in (("TRUE", 400 if ctx.quick else 5000, "run"), ("FALSE", 240 if ctx.quick else 3000, "list")):
        beh = ctx.behaviours("InvGen", "SPECIFICATION GSpec\nCONSTANTS MaxLen = 6\n Arrange = %s\nCHECK_DEADLOCK FALSE\n" % arrange, simulate=n, depth=40)
        items += [dict(case="%s/%s-%s-%s/%d" % (tag, h[0]["reg"], h[0]["opt"], h[0]["map"], i), hist=h, list=tag == "list") for i, h in enumerate(beh)]
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    ctx.validate("TraceInv", ctx.pmap(one, items), chunk=600)
