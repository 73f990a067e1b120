"""C07: objective function algebra."""
import numpy as np
import scipy.sparse as sps
from vf.core import q, exc_event
from c06 import build, exact

N = 3
UNIT = 1024


def mult(c):
    return c[0] / 2.0 ** c[1]


def ints(x, s):
    return exact(np.asarray(x, dtype=float) * s)


def rows(t):
    k = t["k"]
    if k in ("mul", "sum"):
        return rows(t["a"])
    if k == "proj":
        return len(t["idx"])
    if k == "lin":
        return len(t["A"])
    return t["n"]


def classes():
    from simpeg.objective_function import BaseObjectiveFunction

    class Quart(BaseObjectiveFunction):
        def __call__(self, m, f=None):
            return float(np.sum(m ** 4))

        def deriv(self, m, **kw):
            return 4 * m ** 3

        def deriv2(self, m, v=None, **kw):
            return sps.diags(12 * m ** 2) if v is None else 12 * m ** 2 * v
    return Quart


def run_hist(item):
    from simpeg import maps, objective_function as of, data_misfit, data, simulation, survey
    from discretize.utils import Zero
    case, hist = item["case"], item["hist"]
    rs = np.random.RandomState(item["seed"])
    Quart = classes()
    ev = [dict(op="new", case=case)]
    objs, info = [], []          # real objects; python-side facts needed to drive them

    def log(op, **kw):
        ev.append(dict(op=op, case=case, **kw))

    def pick(i, kind):
        ix = [k for k, f in enumerate(info) if f["k"] == kind]
        return ix[(i - 1) % len(ix)] if ix else None

    def ref(i):
        return (i - 1) % len(objs)

    def has_dm(i):
        return info[i]["k"] == "dm" or (info[i]["k"] == "combo" and any(has_dm(j) for j in info[i]["refs"]))

    def depth(i):
        return 1 + max(depth(j) for j in info[i]["refs"]) if info[i]["k"] == "combo" else 0

    def zeros(x):
        return np.zeros(N) if isinstance(x, Zero) else x

    def evaluate(i, m, v):
        m, v = np.array(m, dtype=float), np.array(v, dtype=float)
        m0, v0 = m.copy(), v.copy()
        phi = objs[i]
        kw = {}
        if info[i]["k"] == "combo" and rs.randint(3) == 0:       # fields handed over, one entry per term
            f = []
            for j in info[i]["refs"]:
                f.append(objs[j].simulation.fields(m) if info[j]["k"] == "dm" else None)
            kw["f"] = f
        val = phi(m, **kw)
        g = zeros(phi.deriv(m, **kw))
        hv = zeros(phi.deriv2(m, v, **kw))
        H = []
        if not has_dm(i):
            Hm = phi.deriv2(m)
            Hm = np.zeros((N, N)) if isinstance(Hm, Zero) else Hm.toarray() if sps.issparse(Hm) else np.asarray(Hm)
            H = [ints(Hm[:, j], UNIT) for j in range(N)]
        log("eval", i=i + 1, m=exact(m0), v=exact(v0), val=ints(val, UNIT)[0], grad=ints(g, UNIT), hv=ints(hv, UNIT), H=H,
            clean=bool(np.array_equal(m, m0) and np.array_equal(v, v0)))

    def report(i):
        if info[i]["k"] == "combo":
            phi = objs[i]
            refs = [next((k + 1 for k, o in enumerate(objs) if o is f), 0) for f in phi.objfcts]
            got = [phi[j] for j in range(len(phi))]
            ok = all(got[j][1] is phi.objfcts[j] for j in range(len(got)))
            log("terms", i=i + 1, len=len(phi), refs=refs if ok else [], mults=[ints(float(g[0]) if not isinstance(g[0], Zero) else 0.0, 64)[0] for g in got])

    try:
        for h in hist:
            op = h["op"]
            if op == "l2":
                t, W = h["t"], np.array(h["W"], dtype=float)
                kw = {} if h["def"] else dict(W=sps.csc_matrix(W) if rs.randint(2) else sps.csr_matrix(W))
                o = of.L2ObjectiveFunction(mapping=build(t, rs), **kw)
                objs.append(o)
                info.append(dict(k="l2", deflt=h["def"], W=W))
                log("leaf", o=dict(k="l2", t=t, W=h["W"]))
            elif op == "quart":
                objs.append(Quart(nP=N) if rs.randint(2) else Quart())
                info.append(dict(k="quart"))
                log("leaf", o=dict(k="quart", n=N))
            elif op == "dm":
                G, d, W = (np.array(h[k], dtype=float) for k in ("G", "d", "W"))
                sim = simulation.LinearSimulation(G=G, model_map=maps.IdentityMap(nP=N))
                sv = survey.BaseSurvey([])
                sv._vnD = np.r_[len(d)]
                sim.survey = sv
                dat = data.Data(sv, dobs=d, standard_deviation=1 / np.diag(W))
                o = data_misfit.L2DataMisfit(dat, sim)
                objs.append(o)
                info.append(dict(k="dm", n=len(d), W=W, d=d, own=False))
                log("leaf", o=dict(k="dm", G=h["G"], d=h["d"], W=h["W"]))
            elif op == "add":
                i, j = ref(h["i"]), ref(h["j"])
                before = [list(objs[x].multipliers) if info[x]["k"] == "combo" else None for x in (i, j)]
                objs.append(objs[i] + objs[j])
                after = [list(objs[x].multipliers) if info[x]["k"] == "combo" else None for x in (i, j)]
                rr = []
                for x in (i, j):
                    rr += info[x]["refs"] if info[x]["k"] == "combo" and info[x]["unpack"] else [x]
                info.append(dict(k="combo", refs=rr, unpack=True))
                log("add", i=i + 1, j=j + 1)
                log("true", what="operands-unchanged", ok=before == after)
                report(len(objs) - 1)
                report(i)
            elif op == "scale":
                i, c = ref(h["i"]), mult(h["c"])
                if depth(i) > 3:
                    continue
                if h["how"] == 1 or c == 0:
                    o = (c if c != 0 else [0, 0.0][rs.randint(2)]) * objs[i]
                elif h["how"] == 2:
                    o = objs[i] * c
                else:
                    o = objs[i] / (1 / c) if h["c"][0] in (1, -1, 2) else objs[i] * np.float64(c)
                objs.append(o)
                info.append(dict(k="combo", refs=[i], unpack=True))
                log("scale", i=i + 1, c=h["c"])
                report(len(objs) - 1)
            elif op == "combo":
                rr = [ref(x) for x in h["refs"]]
                rr = rr[: 1 + rs.randint(3)]
                if max(depth(x) for x in rr) > 3:
                    continue
                mu = [mult(c) for c in h["mults"][: len(rr)]]
                objs.append(of.ComboObjectiveFunction([objs[x] for x in rr], mu, unpack_on_add=h["unpack"]))
                info.append(dict(k="combo", refs=rr, unpack=h["unpack"]))
                log("combo", refs=[x + 1 for x in rr], mults=h["mults"][: len(rr)], unpack=h["unpack"])
                report(len(objs) - 1)
            elif op == "setmult":
                i = pick(h["i"], "combo")
                if i is None:
                    continue
                j = (h["j"] - 1) % len(info[i]["refs"])
                c = mult(h["c"])
                if h["how"] == 1:
                    mu = list(objs[i].multipliers)
                    mu[j] = c
                    objs[i].multipliers = mu
                else:
                    objs[i].multipliers[j] = c
                log("setmult", i=i + 1, j=j + 1, c=h["c"])
                for k in range(len(objs)):
                    report(k)
            elif op == "setmap":
                i = pick(h["i"], "l2")
                if i is None:
                    continue
                nr = 1 + rs.randint(3) if info[i]["deflt"] else info[i]["W"].shape[1]
                t = h["ts"][nr - 1]
                objs[i].mapping = build(t, rs)
                W = np.eye(nr) if info[i]["deflt"] else info[i]["W"]
                log("setmap", i=i + 1, t=t, W=[exact(r) for r in W])
            elif op == "setw":
                i = pick(h["i"], "dm")
                if i is None:
                    continue
                n = info[i]["n"]
                W = np.array(h["ws"][n - 1], dtype=float).reshape(n, n)
                w = rs.randint(3)
                if w == 0:
                    W = np.diag(np.diag(W))
                    objs[i].W = np.diag(W).copy()
                else:
                    objs[i].W = sps.csr_matrix(W) if w == 1 else sps.csc_matrix(W)
                info[i].update(W=W, own=True)
                log("setw", i=i + 1, W=[exact(r) for r in W])
            elif op == "setdata":
                i = pick(h["i"], "dm")
                if i is None:
                    continue
                n, f = info[i]["n"], info[i]
                d, W = np.array(h["ds"][n - 1], dtype=float), np.array(h["ws"][n - 1], dtype=float).reshape(n, n)
                std = 1 / np.diag(W)
                o = objs[i]
                if h["how"] == 1:
                    o.data = data.Data(o.simulation.survey, dobs=d, standard_deviation=std)
                elif h["how"] == 2:
                    o.data.dobs = d
                    W = f["W"]
                elif h["how"] == 3:
                    o.data.standard_deviation = std
                    d = f["d"]
                else:
                    o.data.relative_error = 0.0
                    o.data.noise_floor = std
                    d = f["d"]
                if f["own"]:
                    W = f["W"]
                f.update(d=d, W=W)
                log("setdata", i=i + 1, d=exact(d), W=[exact(r) for r in W])
            elif op == "bad":
                i = ref(h["i"])
                o = objs[i]
                ci = pick(h["i"], "combo")
                nm, f = [("add-number", lambda: o + 3.0), ("multiply-by-objective", lambda: o * objs[0]), ("multiply-by-text", lambda: o * "2"),
                         ("multipliers-length", lambda: setattr(objs[ci], "multipliers", [1.0] * (len(objs[ci].objfcts) + 1)) if ci is not None else o + None),
                         ("multipliers-type", lambda: setattr(objs[ci], "multipliers", ["a"] * len(objs[ci].objfcts)) if ci is not None else o + None),
                         ("parameters-differ", lambda: o + of.L2ObjectiveFunction(nP=N + 1) if o.nP != "*" else o + None)][h["how"] - 1]
                try:
                    f()
                    refused = False
                except (TypeError, ValueError):
                    refused = True
                log("bad", what=nm, refused=refused)
                report(i)
            elif op == "eval":
                evaluate(ref(h["i"]), h["m"], h["v"])
        m, v = rs.randint(-2, 3, N), rs.randint(-2, 3, N)
        for i in range(len(objs)):
            evaluate(i, m, v)
    except Exception as exc:
        ev.append(exc_event(case, exc))
    return ev


def run_real(item):
    """combinations of real misfits and regularizations: sums of what the terms say alone"""
    import discretize
    from simpeg import maps, objective_function as of, data_misfit, data, simulation, regularization as rg
    case = item["case"]
    rs = np.random.RandomState(item["seed"])
    ev = [dict(op="new", case=case)]
    try:
        mesh = discretize.TensorMesh([[1., 2, 1], [1., 1, 2]])
        n = mesh.nC
        act = np.arange(n) != 4
        parts = []
        for k in range(2):
            G = rs.randn(5, n)
            sim = simulation.LinearSimulation(G=G, model_map=maps.ExpMap(nP=n) if k else maps.IdentityMap(nP=n))
            d = data.Data(sim.survey, dobs=rs.randn(5), relative_error=.05, noise_floor=.1)
            parts.append(data_misfit.L2DataMisfit(d, sim))
        parts += [rg.Smallness(mesh, reference_model=rs.randn(n)), rg.SmoothnessFirstOrder(mesh, orientation="y"), rg.WeightedLeastSquares(mesh, alpha_s=.3, alpha_x=2., alpha_y=.5),
                  rg.Sparse(mesh, norms=[1., 2., 0.]), rg.SmoothnessSecondOrder(mesh, orientation="x"),
                  rg.Smallness(mesh, active_cells=act, mapping=maps.Projection(n, np.where(act)[0]))]
        for rep in range(item["reps"]):
            ix = rs.choice(len(parts), rs.randint(2, 6), replace=False)
            mu = rs.choice([0., .5, 1., 3., 1e-3], len(ix))
            how = rep % 3
            if how == 0:
                phi = parts[ix[0]] * mu[0]
                for i, c in zip(ix[1:], mu[1:]):
                    phi = phi + c * parts[i]
            elif how == 1:
                phi = of.ComboObjectiveFunction([parts[i] for i in ix], list(mu))
            else:
                phi = of.ComboObjectiveFunction([parts[i] for i in ix], [1.0] * len(ix))
                phi.multipliers = list(mu)
            m, v = rs.randn(n), rs.randn(n)
            m0, v0 = m.copy(), v.copy()
            val, g, hv = phi(m), phi.deriv(m), phi.deriv2(m, v)
            if not np.any(mu):
                continue
            w = sum(c * parts[i](m) for i, c in zip(ix, mu) if c)
            wg = sum(c * parts[i].deriv(m) for i, c in zip(ix, mu) if c)
            wh = sum(c * parts[i].deriv2(m, v) for i, c in zip(ix, mu) if c)

            def same(what, a, b, tol=8):
                a, b = np.atleast_1d(np.asarray(a, dtype=float)).ravel(), np.atleast_1d(np.asarray(b, dtype=float)).ravel()
                sc = 2.0 ** 24 / max(np.abs(b).max(), 1e-300)
                ev.append(dict(op="same", case=case, what=what, got=q(a, sc), want=q(b, sc), tol=tol))
            same("value-is-weighted-sum", val, w)
            same("gradient-is-weighted-sum", g, wg)
            same("hessian-product-is-weighted-sum", hv, wh)
            fd = []
            for j in range(n):
                e = np.zeros(n)
                e[j] = 1e-4
                fd.append((phi(m + e) - phi(m - e)) / 2e-4)
            if not any(isinstance(parts[i], rg.Sparse) for i in ix):
                same("gradient-is-derivative-of-value", g, fd, tol=200)
            ev.append(dict(op="true", case=case, what="inputs-untouched", ok=bool(np.array_equal(m, m0) and np.array_equal(v, v0))))
    except Exception as exc:
        ev.append(exc_event(case, exc))
    return ev


def one(it):
    return run_hist(it) if "hist" in it else run_real(it)


def run(ctx):
    ctx.model("ObjFun", "SPECIFICATION OSpec\nCONSTANTS Leafs <- DLeafs\n Mults <- DMults\n MaxObj = %d\n Ms <- DMs\nINVARIANTS RunIsValue GradIsDerivative\nCHECK_DEADLOCK FALSE\n" % (4 if ctx.quick else 5),
              need_actions=("Build", "Change", "Start", "Term"))
    beh = ctx.behaviours("ObjFunGen", "SPECIFICATION GSpec\nCONSTANTS Depth = 16\nCHECK_DEADLOCK FALSE\n", simulate=150 if ctx.quick else 1500, depth=20)
    items = [dict(case="hist%d" % i, hist=h, seed=ctx.seed * 999 + i) for i, h in enumerate(beh)]
    items += [dict(case="real%d" % i, seed=ctx.seed * 5 + i, reps=6) for i in range(8 if ctx.quick else 60)]
    ctx.validate("TraceObjFun", ctx.pmap(one, items), chunk=400)
