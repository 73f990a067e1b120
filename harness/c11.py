"""C11: the inverse problem.  Histories of evaluations, line-search evaluations and changes of the
trade-off, data and weights are generated by TLC (InvProbGen) and replayed on a real BaseInvProblem
over integer-valued simulations whose answers depend on the fields they are handed; TLC judges every
returned number exactly.  Real simulations and whole minimisations are judged against fresh ones."""
import contextlib, io, os, warnings
import numpy as np
import scipy.sparse as sp
from vf.core import pair, q, exc_event


def make_sim(G, sq):
    from simpeg import simulation, survey

    class F:
        """fields that remember the model they belong to"""

        def __init__(self, m):
            self.m = np.array(m, dtype=float)
            self.u = self.m ** 2 if sq else self.m.copy()

    class PolySim(simulation.BaseSimulation):
        def __init__(self):
            super().__init__(survey=survey.BaseSurvey([]))
            self.survey._vnD = np.r_[G.shape[0]]
            self.calls = 0

        def fields(self, m):
            self.calls += 1
            return F(m)

        def dpred(self, m=None, f=None):
            f = self.fields(m) if f is None else f
            return G @ f.u

        def J(self, f):
            return G * (2 * f.m if sq else np.ones(G.shape[1]))

        def Jvec(self, m, v, f=None):
            return self.J(self.fields(m) if f is None else f) @ v

        def Jtvec(self, m, v, f=None):
            return self.J(self.fields(m) if f is None else f).T @ v
    return PolySim()


def term(t):
    from simpeg import objective_function as of, data, data_misfit
    if t["kind"] == "sim":
        G = np.array(t["G"], dtype=float)
        s = make_sim(G, t["map"] == "sq")
        w = np.array(t["w"], dtype=float)
        d = data.Data(s.survey, dobs=np.array(t["dobs"], dtype=float), standard_deviation=np.ones(len(w)) if t["direct"] else 1 / w)
        f = data_misfit.L2DataMisfit(data=d, simulation=s)
        if t["direct"]:
            f.W = w
        return f
    if t["kind"] == "l2":
        return of.L2ObjectiveFunction(W=sp.csr_matrix(np.array(t["G"], dtype=float)))
    return of.ComboObjectiveFunction([term(x) for x in t["sub"]], [x["mult"] for x in t["sub"]])


def vec(x, n):
    return np.zeros(n) if type(x).__name__ == "Zero" else np.asarray(x, dtype=float) + np.zeros(n)


def base_models(f):
    """models of a nested list of fields"""
    if f is None:
        return []
    if isinstance(f, list):
        return [x for g in f for x in base_models(g)]
    return [f.m]


def run_case(item):
    from simpeg import inverse_problem, optimization
    case, hist = item["case"], item["hist"]
    out = [dict(op="new", case=case)]
    st = hist[0]
    n = st["n"]
    d, r = term(st["d"]), term(st["r"])
    top = st["d"]["sub"]
    out.append(dict(st, case=case))
    if st["single"] and len(top) == 1 and top[0]["mult"] == 1 and top[0]["kind"] == "sim":
        d = d.objfcts[0]                                    # a bare misfit, to be wrapped by the inverse problem
    ip = inverse_problem.BaseInvProblem(d, r, optimization.ProjectedGNCG(cg_rtol=1e-3, cg_atol=0.0), beta=st["beta"])
    ip.phi_d = ip.phi_m = np.nan
    objs, held = {}, []
    d = ip.dmisfit

    def model(o):
        k = o["obj"]
        if k and k in objs:
            return objs[k]
        m = np.array(o["m"], dtype=float)
        if k:
            objs[k] = m                                     # others are dropped, their memory may be used again
        return m
    for o in hist[1:]:
        try:
            if o["op"] == "eval":
                m = model(o)
                keep = m.copy()
                v = np.array(o["v"], dtype=float)
                res = ip.evalFunction(m, return_g=o["g"], return_H=o["h"])
                res = res if isinstance(res, tuple) else (res,)
                ev = dict(op="eval", case=case, m=q(m), g=o["g"], h=o["h"], v=o["v"], phi=q([res[0]]), phid=q([ip.phi_d]), phim=q([ip.phi_m]),
                          grad=q(np.zeros(n) + 0 if not o["g"] else vec(res[1], n)), hess=[], dpred=q(ip.dpred), model=q(ip.model),
                          last=[-1 if np.isnan(x) else q([x])[0] for x in d._last_obj_vals], lastm=[-1 if np.isnan(x) else q([x])[0] for x in ip.reg._last_obj_vals], untouched=bool(np.array_equal(m, keep)))
                nil = [type(f.deriv2(m, v)).__name__ == "Zero" for f in (ip.dmisfit, ip.reg)]
                if all(nil):                                # nothing left to differentiate
                    ev["h"] = False
                elif o["h"]:
                    held.append(res[-1])
                    ev["hess"] = q(vec(res[-1] * v, n))
                out.append(ev)
            elif o["op"] == "beta":
                ip.beta = o["beta"]
                held = []
                out.append(dict(o, case=case))
            elif o["op"] == "mult":
                i = (o["i"] - 1) % len(top)
                mu = list(d.multipliers)
                mu[i] = o["c"]
                d.multipliers = mu
                held = []
                out.append(dict(op="mult", case=case, i=i + 1, c=o["c"]))
            elif o["op"] in ("dobs", "unc"):
                i = (o["i"] - 1) % len(top)
                if top[i]["kind"] != "sim":
                    continue
                f = d.objfcts[i]
                v = o["v"][:len(top[i]["dobs"])]
                if o["op"] == "dobs":
                    f.data.dobs = np.array(v, dtype=float)
                elif top[i]["direct"]:
                    f.W = np.array(v, dtype=float)
                else:
                    f.data.standard_deviation = 1 / np.array(v, dtype=float)
                held = []
                out.append(dict(op=o["op"], case=case, i=i + 1, v=v))
            elif o["op"] == "hess":
                if held:
                    k = (o["k"] - 1) % len(held)
                    out.append(dict(op="hess", case=case, k=k + 1, v=o["v"], hess=q(vec(held[k] * np.array(o["v"], dtype=float), n))))
            elif o["op"] == "fields":
                m = model(o)
                f = ip.getFields(m, store=o["store"], deleteWarmstart=o["del"])
                ms = base_models(f)
                bad = [x for x in ms if not np.array_equal(x, m)]
                out.append(dict(op="fields", case=case, m=q(m), of=q(bad[0]) if bad else q(m)))
        except Exception as exc:
            out.append(exc_event(case, exc))
            break
    return out


REAL = ["dc2d/n/noJ", "dc2d/cc/rho", "dc3d/n/Robin/noJ", "dc3d/cc/Robin/J", "ip3d/cc/sigma/noJ", "fdem/e/sigma", "fdem/h/rho", "fdem1d/sigma", "tdem/b/sigma", "tdem/j/rho", "tdem1d/sigma", "nsem1d/rec", "nsem2d/e",
        "grav/expmap", "mag/choclo/ram", "linear/G-exp", "tomo/exp", "sp/cc", "sip2d/n", "magpde/J", "vrm/lin"]


def run_real(item):
    import zoo
    from simpeg import inverse_problem, optimization, data, data_misfit, regularization, objective_function as of
    e = zoo.ZOO[item["entry"]]
    case = item["case"]
    out = [dict(op="new", case=case)]
    rs = np.random.RandomState(item["seed"])

    def same(what, a, b, bits=24, tol=40):
        x, y = pair(np.asarray(a), np.asarray(b), bits=bits)
        out.append(dict(op="same", case=case, what=what, got=x, want=y, tol=tol))
    sims, fresh = [e.sim() for _ in range(2)], e.sim()
    n = e.model(0).size
    dms, raw = [], []
    for k, s in enumerate(sims):
        dobs = s.dpred(e.model(30 + k)).copy()
        std = np.abs(dobs) * 0.1 + 1e-3 * np.abs(dobs).max()
        dms.append(data_misfit.L2DataMisfit(data=data.Data(s.survey, dobs=dobs, standard_deviation=std), simulation=s))
        raw.append((dobs, 1 / std))
    W = sp.csr_matrix(rs.randn(n, n) * (rs.rand(n, n) < 0.2))
    mu = [1.0, float(rs.randint(0, 3))]
    extra = bool(rs.randint(2))
    L = of.L2ObjectiveFunction(W=W)
    terms, mult = [dms[0], dms[1]], list(mu)
    if extra:
        pos = rs.randint(3)
        terms.insert(pos, L), mult.insert(pos, 0.5)
    d = of.ComboObjectiveFunction(terms, mult)
    scale = float(np.sum((raw[0][1] * raw[0][0]) ** 2)) / max(float(np.sum(e.model(0) ** 2)), 1e-30)
    reg = of.L2ObjectiveFunction(W=sp.eye(n).tocsr() * np.sqrt(scale))
    if extra:
        L._W = W * np.sqrt(scale)
    ip = inverse_problem.BaseInvProblem(d, reg, optimization.ProjectedGNCG(cg_rtol=1e-3, cg_atol=0.0), beta=0.5)
    ip.phi_d = ip.phi_m = np.nan
    models = [e.model(k) for k in range(3)]
    keep = [m.copy() for m in models]
    cache = {}

    def ref(k):
        if k not in cache:
            m = keep[k].copy()
            dp = fresh.dpred(m)
            phis = [float(np.sum((w * (dp - o)) ** 2)) for o, w in raw]
            g = sum(c * 2 * fresh.Jtvec(m, w ** 2 * (dp - o)) for c, (o, w) in zip(mu, raw)) + 2 * ip_reg(m)
            cache[k] = (dp, phis, g, float(m @ m) * scale)
        return cache[k]

    def ip_reg(m):
        return 0.5 * scale * m + (0.5 * (L._W.T @ (L._W @ m)) if extra else 0)
    H = None
    for step in range(item["n"]):
        k, g, h = rs.randint(3), bool(rs.randint(2)), bool(rs.randint(2))
        dp, phis, gr, pm = ref(k)
        res = ip.evalFunction(models[k], return_g=g, return_H=h)
        res = res if isinstance(res, tuple) else (res,)
        lx = 0.5 * float(np.sum((L._W @ keep[k]) ** 2)) if extra else 0.0
        same("value-of-the-objective", [res[0]], [sum(c * p for c, p in zip(mu, phis)) + lx + 0.5 * pm])
        wd = [dp, dp]
        same("predicted-data-of-each-term", ip.dpred, np.concatenate(wd))
        same("value-of-each-term", [x for t, x in zip(terms, d._last_obj_vals) if t is not L and not np.isnan(x)], [p for c, p in zip(mu, phis) if c])
        if g:
            same("gradient-at-the-model", res[1], gr)
        if h:
            H = (k, res[-1])
        if H is not None and rs.randint(2):
            m = keep[H[0]]
            v = rs.randn(n) * np.abs(m).max()
            jv = fresh.Jvec(m, v)
            hv = sum(c * 2 * fresh.Jtvec(m, w ** 2 * jv) for c, (o, w) in zip(mu, raw)) + 2 * ip_reg(v)
            same("hessian-kept-for-its-own-model", H[1] * v, hv)
    out.append(dict(op="true", case=case, what="arguments-untouched", ok=all(np.array_equal(a, b) for a, b in zip(models, keep))))
    return out


def run_misc(item):
    """whole minimisations, start-up and the reported parts of the regularization"""
    from simpeg import inverse_problem, optimization, data, data_misfit, regularization, simulation, maps
    import discretize
    case, rs = item["case"], np.random.RandomState(item["seed"])
    out = [dict(op="new", case=case)]

    def same(what, a, b, bits=24, tol=40):
        x, y = pair(np.asarray(a, dtype=float), np.asarray(b, dtype=float), bits=bits)
        out.append(dict(op="same", case=case, what=what, got=x, want=y, tol=tol))

    def true(what, ok):
        out.append(dict(op="true", case=case, what=what, ok=bool(ok)))
    dim = rs.randint(1, 4)
    mesh = discretize.TensorMesh([rs.uniform(0.5, 2, k) for k in ([7], [3, 3], [3, 2, 2])[dim - 1]])
    n = mesh.nC
    R = regularization
    mk = [lambda **k: R.WeightedLeastSquares(mesh, alpha_s=rs.uniform(0.5, 2), alpha_x=rs.uniform(0.5, 2), alpha_y=rs.uniform(0.5, 2), alpha_z=rs.uniform(0.5, 2), **k),
          lambda **k: R.Sparse(mesh, alpha_s=rs.uniform(0.5, 2), alpha_x=rs.uniform(0.5, 2), norms=[1.0] * (dim + 1), **k)]
    given = bool(rs.randint(2))
    mref = rs.randn(n)
    regs = [mk[rs.randint(2)](**(dict(reference_model=mref) if given else {})) for _ in range(rs.randint(1, 4))]
    mults = [1.0] * len(regs)
    if len(regs) == 1 and rs.randint(2):
        reg = regs[0]
    else:
        mults = [float(rs.randint(1, 4)) for _ in regs]
        reg = mults[0] * regs[0]
        for c, g in zip(mults[1:], regs[1:]):
            reg = reg + c * g
    dms, Gs = [], []
    for _ in range(rs.randint(1, 3)):
        G = rs.randn(4, n)
        sim = simulation.LinearSimulation(G=G, model_map=maps.ExpMap(nP=n))
        d = data.Data(sim.survey, dobs=rs.randn(4) * 3, standard_deviation=rs.uniform(0.5, 2, 4))
        dms.append(data_misfit.L2DataMisfit(data=d, simulation=sim))
        Gs.append((G, d.dobs.copy(), 1 / d.standard_deviation))
    dm = dms[0] if len(dms) == 1 else dms[0] + 2.0 * dms[1]
    cs = [1.0, 2.0][:len(dms)]
    opt = [optimization.ProjectedGNCG, optimization.InexactGaussNewton, optimization.BFGS][rs.randint(3)](maxIter=4)
    ip = inverse_problem.BaseInvProblem(dm, reg, opt, beta=rs.uniform(0.1, 3))
    m0 = rs.randn(n) * 0.3
    keep = m0.copy()
    ubc = bool(rs.randint(2))
    opt.print_type = "ubc" if ubc else opt.print_type
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ip.startup(m0)
        want = mref if given else m0
        for g in regs:
            for f in g.objfcts:
                true("reference-model-at-start", f.reference_model is not None and np.array_equal(f.reference_model, want))
        if isinstance(opt, optimization.BFGS):
            v = rs.randn(n)
            A = sp.csr_matrix(ip.reg.deriv2(m0)).toarray()
            same("bfgs-start-is-the-inverse-hessian", A @ (opt.bfgsH0 * v), v, tol=400)
        Wm = [sp.vstack([np.sqrt(m_) * f.W @ f.f_m_deriv(m0) for m_, f in zip(g.multipliers, g.objfcts)]).toarray() for g in regs]
        seen = []

        def val(m):
            phis = [float(np.sum((w * (G @ np.exp(m) - o)) ** 2)) for G, o, w in Gs]
            return phis, sum(c * p for c, p in zip(cs, phis))

        def regval(m):
            return float(sum(c * m_ * np.sum((f.W @ f.f_m(m)) ** 2) for c, g in zip(mults, regs) for m_, f in zip(g.multipliers, g.objfcts)))

        def fun(m, return_g=True, return_H=True):
            res = ip.evalFunction(m, return_g=return_g, return_H=return_H)
            phis, pd = val(m)
            pm = regval(m)
            r0 = res[0] if isinstance(res, tuple) else res
            same("value-of-the-objective", [r0, ip.phi_d, ip.phi_m], [pd + ip.beta * pm, pd, pm])
            same("predicted-data-of-each-term", ip.dpred, np.concatenate([G @ np.exp(m) for G, o, w in Gs]))
            if return_g:
                gd = sum(c * 2 * (G * np.exp(m)[None, :]).T @ (w ** 2 * (G @ np.exp(m) - o)) for c, (G, o, w) in zip(cs, Gs))
                gm = sum(c * m_ * 2 * (f.W @ f.f_m_deriv(m)).T @ (f.W @ f.f_m(m)) for c, g in zip(mults, regs) for m_, f in zip(g.multipliers, g.objfcts))
                same("gradient-at-the-model", res[1], gd + ip.beta * gm)
            if return_H:
                v = rs.randn(n)
                hd = sum(c * 2 * (G * np.exp(m)[None, :]).T @ (w ** 2 * ((G * np.exp(m)[None, :]) @ v)) for c, (G, o, w) in zip(cs, Gs))
                hm = sum(c * m_ * 2 * (f.W @ f.f_m_deriv(m)).T @ (f.W @ (f.f_m_deriv(m) @ v)) for c, g in zip(mults, regs) for m_, f in zip(g.multipliers, g.objfcts))
                same("hessian-action-at-the-model", res[-1] * v, hd + ip.beta * hm)
            if ubc:
                p = dict(s=0.0, x=0.0, y=0.0, z=0.0)
                for c, g in zip(mults, regs):
                    for f in g.objfcts:
                        nm = type(f).__name__
                        key = "s" if "Smallness" in nm else None if "Second" in nm else f.orientation
                        if key:
                            p[key] += c * getattr(g, "alpha_" + key) * float(np.sum((f.W @ f.f_m(m)) ** 2))
                if dim == 2:
                    p["z"], p["y"] = p["y"], 0.0
                same("parts-of-the-regularization", [ip.phi_s, ip.phi_x, ip.phi_y, ip.phi_z], [p[k] for k in "sxyz"])
            ip.beta = ip.beta * (0.5 if rs.randint(4) == 0 else 1.0) if return_g else ip.beta
            return res
        try:
            ip.opt.printers = ip.opt.printers[:2]
            opt.minimize(fun, m0)
        except Exception as exc:
            if type(exc).__name__ != "LinAlgError":
                raise
    true("arguments-untouched", np.array_equal(m0, keep))
    return out


def one(it):
    return run_real(it) if "entry" in it else run_misc(it) if "misc" in it else run_case(it)


def run(ctx):
    import fnmatch, zoo
    ctx.model("InvProb", "SPECIFICATION Spec\nCONSTANTS Objects = {1, 2, 3}\n Values = {0, 1%s}\n MaxVisits = %d\nINVARIANTS ReuseSound KeptSound\nCHECK_DEADLOCK FALSE\n" % (("", 4) if ctx.quick else (", 2", 7)),
              need_actions=("Eval", "Replace", "SetBeta"))
    beh = ctx.behaviours("InvProbGen", "SPECIFICATION GSpec\nCONSTANTS MaxOps = 14\nCHECK_DEADLOCK FALSE\n", simulate=300 if ctx.quick else 6000, depth=40)
    items = [dict(case="exact/%d" % i, hist=h) for i, h in enumerate(beh)]
    zoo.load()
    for e in REAL if ctx.quick else sorted(zoo.ZOO):
        items += [dict(case="real/%s/%d" % (e, i), entry=e, seed=ctx.seed * 71 + i, n=6 if ctx.quick else 12) for i in range(1 if ctx.quick else 3)]
    items += [dict(case="run/%d" % i, misc=1, seed=ctx.seed * 131 + i) for i in range(60 if ctx.quick else 1500)]
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    import gc
    import simpeg.inverse_problem, simpeg.data_misfit, simpeg.regularization, simpeg.optimization  # noqa: F401
    gc.freeze()                                             # evalFunction collects garbage at every call
    ctx.validate("TraceInvProb", ctx.pmap(one, items), chunk=600)
