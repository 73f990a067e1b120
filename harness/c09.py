"""C09: optimizers.  Runs of real optimizer objects, generated by TLC (OptGen), are recorded
iteration by iteration through the public callback and judged by TLC against Opt."""
import contextlib, io, os, warnings
import numpy as np
import scipy.sparse as sp
from vf.core import pair, exc_event


def function(kind, n, seed):
    """value, gradient, positive definite Hessian (approximation)"""
    rs = np.random.RandomState(seed)
    A = rs.randint(-2, 3, (n, n)).astype(float)
    A = A.T @ A + np.diag(rs.randint(1, 4, n).astype(float))
    b = rs.randint(-6, 7, n).astype(float)
    w = rs.uniform(0.3, 2.5, n)
    c = rs.uniform(-2, 2, n)
    if kind == "quad":
        return lambda x: 0.5 * x @ A @ x - b @ x, lambda x: A @ x - b, lambda x: A
    if kind == "deep":                                    # badly scaled
        s = 10.0 ** rs.randint(-2, 3, n)
        B = A * np.outer(s, s)
        return lambda x: 0.5 * x @ B @ x - (s * b) @ x + 7.0, lambda x: B @ x - s * b, lambda x: B
    if kind == "rosen":
        def r(x):
            y = x - c
            return np.r_[y[0] - 1, 3 * (y[1:] - y[:-1] ** 2)]

        def J(x):
            y = x - c
            M = np.zeros((n, n))
            M[0, 0] = 1
            for i in range(1, n):
                M[i, i] = 3
                M[i, i - 1] = -6 * y[i - 1]
            return M
        return lambda x: 0.5 * r(x) @ r(x), lambda x: J(x).T @ r(x), lambda x: J(x).T @ J(x) + 1e-3 * np.eye(n)
    if kind == "cos":
        return (lambda x: np.sum(w * (1 - np.cos(3 * (x - c)))) + 0.05 * x @ x, lambda x: 3 * w * np.sin(3 * (x - c)) + 0.1 * x,
                lambda x: np.diag(0.2 + w * (1 + np.cos(x) ** 2)))
    if kind == "exp":
        return (lambda x: np.sum(np.exp(np.clip(w * x, -30, 30)) - c * x + 0.01 * x ** 2), lambda x: w * np.exp(np.clip(w * x, -30, 30)) - c + 0.02 * x,
                lambda x: np.diag(w ** 2 * np.exp(np.clip(w * x, -30, 30)) + 0.02))
    if kind == "wrong":                                   # a gradient that points uphill: every trial step fails
        return lambda x: 0.5 * x @ A @ x + 3 * np.abs(b) @ x ** 2, lambda x: -(A @ x + 6 * np.abs(b) * x) - 0.5, lambda x: A
    if kind == "flat":
        return lambda x: 4.0, lambda x: np.zeros(n), lambda x: np.eye(n)
    if kind == "abs":
        return lambda x: np.sum(w * np.abs(x - c)) + 1.0, lambda x: w * np.sign(x - c), lambda x: np.diag(w / 3)
    raise ValueError(kind)


def cmp(left, right, tol):
    if not (np.isfinite(left) and np.isfinite(right)):
        return 0
    return 0 if abs(left - right) <= tol else (-1 if left < right else 1)


def bounds(c, rs, n):
    out = []
    for side, s in (("lower", -1), ("upper", 1)):
        k = c[side]
        out.append(None if k == "none" else s * np.inf if k == "inf" else s * 0.75 if k == "scalar" else
                   s * rs.uniform(0.2, 3, n) if k == "vector" else s * np.where(rs.rand(n) < 0.5, 0.01, 5.0))
    return out


def run_case(item):
    from simpeg import optimization
    case, hist = item["case"], item["hist"]
    head = hist[0]
    kind = head["kind"]
    base = getattr(optimization, kind)
    out = [dict(op="new", case=case)]
    sink = io.StringIO()

    class K(base):
        def _startupProbe(self, x0):
            self.cstart = getattr(self, "cstart", 0) + 1

        def _finishProbe(self):
            self.cfin = getattr(self, "cfin", 0) + 1

    def make():
        kw = dict(use_WolfeCurvature=head["wolfe"])
        if kind == "ProjectedGNCG":
            kw.update(cg_rtol=1e-3, cg_atol=0.0)
        return K(**kw)

    def configure(opt, c, lo, up):
        n = c["n"]
        opt.maxIter, opt.maxIterLS = c["maxIter"], c["maxIterLS"]
        opt.tolF, opt.tolX, opt.tolG = 10.0 ** -c["tolF"], 10.0 ** -c["tolX"], 10.0 ** -c["tolG"]
        opt.maxStep = 0.4 * (c["maxStep"] or 1) if c["maxStep"] or (c["fun"] in ("rosen", "deep") and not c["decrease"]) else np.inf
        opt.LSshorten = {1: 0.5, 2: 0.25, 3: 0.8}[c["shorten"]]
        opt.LSreduction = 10.0 ** -c["reduction"]
        opt.require_decrease = c["decrease"]
        if kind in ("InexactGaussNewton", "ProjectedGradient", "ProjectedGNCG"):
            opt.cg_maxiter = c["cg"]
            opt.cg_rtol = 10.0 ** -c["rtol"]
        if kind in ("InexactGaussNewton", "ProjectedGNCG"):
            opt.approxHinv = sp.diags(1.0 / np.arange(1.0, n + 1)).tocsr() if c["prec"] else None
        if kind == "ProjectedGNCG":
            opt.step_active_set = c["stepAct"]
            opt.active_set_grad_scale = [0.01, 0.1, 1.0][c["scale"]]
        if kind in ("ProjectedGradient", "ProjectedGNCG"):
            opt.lower, opt.upper = lo, up
        opt.remember(*[[], ["xc"], ["f", ("twice", lambda M: 2 * M.xc)]][c["remember"]])

    shared = make()
    for ri, c in enumerate(hist[1:]):
        n = c["n"]
        rs = np.random.RandomState(c["fseed"] + 1)
        f, g, H = function(c["fun"], n, c["fseed"])
        lo, up = bounds(c, rs, n)
        bounded = kind in ("ProjectedGradient", "ProjectedGNCG")
        L = np.full(n, -np.inf) if lo is None or not bounded else lo + np.zeros(n)
        U = np.full(n, np.inf) if up is None or not bounded else up + np.zeros(n)

        def proj(z):
            return np.minimum(np.maximum(z, L), U)
        x0 = rs.randn(n) * [0.0, 0.5, 2.0, 6.0][c["x0"]]
        keep = x0.copy()

        def fun(x, return_g=False, return_H=False):
            r = [f(x)]
            if return_g:
                r.append(g(x))
            if return_H:
                r.append(sp.csr_matrix(H(x)))
            return tuple(r) if len(r) > 1 else r[0]

        def go(opt, record):
            configure(opt, c, lo, up)
            opt.cstart = opt.cfin = 0
            its = []

            def cb(xt):
                its.append(dict(x=np.array(xt, dtype=float), xc=np.array(opt.xc, dtype=float), k=opt.iter, ls=opt.iterLS, f=float(opt.f),
                                p=np.array(opt.searchDirection, dtype=float)))
                if c["stopAt"] and opt.iter == c["stopAt"]:
                    opt.stopNextIteration = True
            with contextlib.redirect_stdout(sink), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                opt.callback = cb
                xf = opt.minimize(fun, x0)
            return its, np.array(xf, dtype=float)
        its, xf = go(shared, True)
        opt = shared
        xs = [proj(x0)] + [i["x"] for i in its]
        inb = lambda z: bool(np.all(z >= L) and np.all(z <= U) and np.all(np.isfinite(z)))
        out.append(dict(op="run", case=case, lim=c["maxIter"], lsl=c["maxIterLS"], dec=c["decrease"], feasible=inb(xs[0])))

        def facts(k):
            x, gx = xs[k], g(xs[k])
            sc = 1e-11 * (1 + np.abs(f(x)) + np.abs(f(xs[max(k - 1, 0)])))
            o = [1, 1] if k == 0 else [cmp(abs(f(x) - f(xs[k - 1])), opt.tolF * (1 + abs(f(xs[0]))), sc),
                                       cmp(np.linalg.norm(x - xs[k - 1]), opt.tolX * (1 + np.linalg.norm(xs[0])), 1e-11 * (1 + np.linalg.norm(x)))]
            pg = np.linalg.norm(proj(x - gx) - x)
            tg = 1e-11 * (1 + np.linalg.norm(x) + np.linalg.norm(gx))
            crit = [cmp(pg, 1e3 * opt.eps, tg), -1 if c["maxIter"] <= k else 1]
            if kind == "ProjectedGradient":
                crit.append(-1 if np.all(((x <= L) & (gx >= 0)) | ((x >= U) & (gx <= 0))) else 1)
            return dict(opt=o + [cmp(pg, opt.tolG, tg)], crit=crit)

        def scaled(p):
            mx = np.abs(p).max() if p.size else 0
            return p * opt.maxStep / mx if mx > opt.maxStep else p

        def trial(x, p, j):
            xt = proj(x + opt.LSshorten ** j * p)
            gx, d = g(x), None
            d = gx @ (xt - x)
            tol = 1e-11 * (1 + abs(f(x)) + abs(f(xt)) + np.abs(gx) @ np.abs(xt - x))
            o = [cmp(f(xt), f(x) + opt.LSreduction * d, tol)]
            if head["wolfe"]:
                o.append(cmp(-(g(xt) @ (xt - x)), -opt.LScurvature * d, 1e-11 * (1 + abs(d) + np.abs(g(xt)) @ np.abs(xt - x))))
            crit = [-1 if np.all(((xt <= L) & (gx >= 0)) | ((xt >= U) & (gx <= 0))) else 1] if kind == "ProjectedGradient" else []
            return dict(opt=o, crit=crit)

        def direction(x, p):
            """(got, want) of the documented search direction and whether it descends"""
            gx, Hx = g(x), H(x)
            desc = bool(gx @ p <= 1e-10 * np.linalg.norm(gx) * np.linalg.norm(p) and np.all(np.isfinite(p)))
            act = (x <= L) | (x >= U)
            bnd = ((x <= L) & (gx >= 0)) | ((x >= U) & (gx <= 0))
            sc = max(np.abs(gx).max(), 1e-30)
            if kind == "SteepestDescent":
                return (p, -gx), desc
            if kind == "GaussNewton":
                return (Hx @ p, -gx), desc
            if kind in ("BFGS",):
                return ([], []), desc and (np.linalg.norm(gx) == 0 or gx @ p < 0)
            if kind == "InexactGaussNewton":
                desc = desc and (np.linalg.norm(gx) == 0 or gx @ p < 0)
                if c["cg"] >= 50 and c["rtol"] == 3:
                    return ([max(0, np.linalg.norm(Hx @ p + gx) / (np.linalg.norm(gx) + 1e-30) - 1.01e-3)], [0.0]), desc
                return ([], []), desc
            if kind == "ProjectedGradient":
                if np.allclose(p, -gx):
                    return (p, -gx), desc
                fre = ~act
                w = np.where(act, p, 0)
                if c["cg"] >= 50 and c["rtol"] == 3:
                    w = np.r_[w / sc, max(0, np.linalg.norm((Hx @ p + gx)[fre]) / (np.linalg.norm(gx[fre]) + 1e-30) - 1.01e-3)]
                return (w, np.zeros(len(w))), desc
            # ProjectedGNCG: nothing on the binding set, CG on the free set, a scaled gradient on active cells that may move off
            fre = ~act
            off = act & ~bnd
            pi = np.where(fre, p, 0)
            w = [p[bnd] / sc]
            if off.any():
                want = np.zeros(n)
                if c["stepAct"]:
                    want[off] = opt.active_set_grad_scale * -gx[off] * np.abs(pi).max() / np.abs(gx[off]).max()
                w.append((p - want)[off] / max(np.abs(p).max(), 1e-30))
            if c["cg"] >= 50 and c["rtol"] == 3 and fre.any():
                w.append([max(0, np.linalg.norm((Hx @ pi + gx)[fre]) / (np.linalg.norm(gx[fre]) + 1e-30) - 1.01e-3)])
            w = np.concatenate(w) if w else np.zeros(0)
            return (w, np.zeros(len(w))), desc

        for k, it in enumerate(its):
            x = xs[k]
            p = scaled(it["p"])
            step = pair(it["x"] - x, proj(x + opt.LSshorten ** (it["ls"] if it["ls"] < c["maxIterLS"] else it["ls"] - 1) * p) - x, floor=1e-9 * (1 + np.abs(x).max()))
            (got, want), desc = direction(x, it["p"])
            dr = pair(got, want, floor=1e-9 if len(want) and np.abs(want).max() > 0 else 1.0) if len(got) else ([], [])
            nt = min(it["ls"] + 1, c["maxIterLS"])
            out.append(dict(op="iter", case=case, kind=kind, fun=c["fun"], run=ri, k=it["k"], ls=it["ls"], feasible=inb(it["x"]) and inb(it["xc"]),
                            fok=bool(abs(it["f"] - f(it["x"])) <= 1e-11 * (1 + abs(it["f"])) and np.array_equal(it["x"], it["xc"])),
                            descent=bool(desc), dir=[dr[0], dr[1]], dirtol=4096, step=[step[0], step[1]], stop=facts(k),
                            trials=[trial(x, p, j) for j in range(nt)], asked=bool(c["stopAt"] and it["k"] == c["stopAt"])))
        fk = facts(len(its))
        asked = bool(its and c["stopAt"] and its[-1]["k"] == c["stopAt"])
        rule = all(o <= 0 for o in fk["opt"]) or any(o <= 0 for o in fk["crit"])
        why = "asked" if asked else "rule" if rule else "linesearch"
        p = scaled(np.array(getattr(opt, "searchDirection", np.zeros(n)), dtype=float)) if why == "linesearch" else np.zeros(n)
        if p.shape != xs[-1].shape:
            p = np.zeros(n)
        rem = True
        if c["remember"] == 1:
            r = opt.recall("xc")
            rem = len(r) == len(its) and all(np.array_equal(a, b) for a, b in zip(r, xs))
        elif c["remember"] == 2:
            r, t = opt.recall("f"), opt.recall("twice")
            rem = len(r) == len(t) == len(its) and all(np.isclose(a, f(b), rtol=1e-10) for a, b in zip(r, xs)) and all(np.allclose(a, 2 * b) for a, b in zip(t, xs))
        try:
            opt.recall("never")
            rem = False
        except (AssertionError, KeyError):
            pass
        its2, xf2 = go(make(), False)
        fresh = len(its2) == len(its) and all(np.array_equal(a["x"], b["x"]) and a["ls"] == b["ls"] for a, b in zip(its, its2)) and np.array_equal(xf, xf2)
        out.append(dict(op="end", case=case, kind=kind, fun=c["fun"], run=ri, k=int(opt.iter), why=why, feasible=inb(xf), last=bool(np.array_equal(xf, xs[-1])),
                        started=opt.cstart, finished=opt.cfin, fresh=bool(fresh), remembered=bool(rem), clean=bool(np.array_equal(x0, keep)),
                        stop=fk, trials=[trial(xs[-1], p, j) for j in range(c["maxIterLS"])] if why == "linesearch" else []))
    return out


def run_misc(item):
    """active and binding sets, refused starts, root finding"""
    from simpeg import optimization
    case, rs = item["case"], np.random.RandomState(item["seed"])
    out = [dict(op="new", case=case)]
    true = lambda what, ok: out.append(dict(op="true", case=case, what=what, ok=bool(ok)))
    sink = io.StringIO()
    n = rs.randint(1, 7)
    if item["what"] == "sets":
        for k in ("ProjectedGradient", "ProjectedGNCG"):
            lo, up = [None, -1.0, -np.abs(rs.randint(0, 3, n)).astype(float)][rs.randint(3)], [None, 1.0, np.abs(rs.randint(0, 3, n)).astype(float)][rs.randint(3)]
            o = getattr(optimization, k)(lower=lo, upper=up, cg_rtol=1e-2, **({"cg_atol": 0.0} if k[-1] == "G" else {}))
            x = rs.randint(-3, 4, n).astype(float)
            o.g = rs.randint(-1, 2, n).astype(float)
            L = -np.inf if lo is None else lo
            U = np.inf if up is None else up
            keep = x.copy()
            true("projection-is-the-nearest-feasible-point", np.array_equal(o.projection(x), np.minimum(np.maximum(x, L), U)))
            true("active-set-is-the-bounds-reached", np.array_equal(o.activeSet(x), (x <= L) | (x >= U)))
            true("inactive-set-is-the-complement", np.array_equal(o.inactiveSet(x), ~((x <= L) | (x >= U))))
            true("binding-set-is-pressed-against-the-bounds", np.array_equal(o.bindingSet(x), ((x <= L) & (o.g >= 0)) | ((x >= U) & (o.g <= 0))))
            true("projection-leaves-its-argument", np.array_equal(x, keep))
            bad = x.copy()
            bad[rs.randint(n)] = np.nan
            try:
                with contextlib.redirect_stdout(sink):
                    o.minimize(lambda x, return_g=False, return_H=False: 0.0, bad)
                true("nan-start-refused", False)
            except ValueError:
                true("nan-start-refused", True)
        return out
    # Newton's method: every step within the limits, residuals never grow, answers are roots
    A = rs.randint(-2, 3, (n, n)) + 4.0 * n * np.eye(n)
    b = rs.randn(n) * 3
    c3 = [0.0, 0.3, 2.0][rs.randint(3)]
    hard = rs.randint(4) == 0
    calls = []

    def fun(x, return_g=False):
        r = A @ x + c3 * x ** 3 - b
        D = A + np.diag(3 * c3 * x ** 2)
        if hard:
            r = np.arctan(4 * r)
            D = sp.diags(4 / (1 + (4 * (A @ x + c3 * x ** 3 - b)) ** 2)) @ D
        if return_g:
            calls.append((x.copy(), np.linalg.norm(r)))
            return r, sp.csr_matrix(D)
        return r
    o = optimization.NewtonRoot(tol=10.0 ** -rs.randint(2, 9), maxIter=int(rs.randint(1, 9)), doLS=bool(rs.randint(3)), stepDcr=[0.5, 0.3][rs.randint(2)], maxLS=int(rs.randint(1, 12)))
    x0 = rs.randn(n) * [0.1, 1, 4][rs.randint(3)]
    keep = x0.copy()
    for rep in range(2):
        del calls[:]
        with contextlib.redirect_stdout(sink), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x = o.root(fun, x0)
        true("root:start-untouched", np.array_equal(x0, keep))
        true("root:step-limit", len(calls) <= o.maxIter and (x is None or o.iter == len(calls)))
        if o.doLS:
            true("root:residual-never-grows", all(b[1] <= a[1] * (1 + 1e-9) or b[1] < o.tol for a, b in zip(calls, calls[1:])))
        if x is not None:
            r = np.linalg.norm(fun(x))
            true("root:stops-at-a-root-or-the-limit", r <= o.tol * (1 + 1e-9) or len(calls) >= o.maxIter)
            if o.doLS:
                true("root:answer-improves", r <= calls[-1][1] * (1 + 1e-9) or r < o.tol)
            true("root:no-step-after-success", all(not a[1] < o.tol * (1 - 1e-9) for a in calls[1:]))
        else:
            J = fun(calls[-1][0], return_g=True)
            if not np.isfinite(J[1].toarray()).all() or np.linalg.cond(J[1].toarray()) > 1e6:
                continue
            d = -np.linalg.solve(J[1].toarray(), J[0])
            true("root:gives-up-only-when-no-step-helps", o.doLS and all(np.linalg.norm(fun(calls[-2][0] + o.stepDcr ** j * d)) > np.linalg.norm(J[0]) * (1 - 1e-9) for j in range(o.maxLS)))
    return out


def one(it):
    return run_misc(it) if "what" in it else run_case(it)


def run(ctx):
    import fnmatch
    ctx.model("Opt", "SPECIFICATION Spec\nCONSTANTS Lo = 0\n Hi = 2\n FVals = {0, 1, 3}\n GVals <- DG\n Steps = %s\n Limits = %s\n LSLimits = {1, 2}\nINVARIANTS Feasible Descends Counts StatedReason\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n" % (("{1, 2}", "{0, 1, 2}") if ctx.quick else ("{1, 2, 4}", "{0, 1, 3}")),
              need_actions=("Stop", "Search", "Accept", "Shorten", "Anyway", "Break"))
    beh = ctx.behaviours("OptGen", "SPECIFICATION GSpec\nCONSTANTS Runs = 4\nCHECK_DEADLOCK FALSE\n", simulate=360 if ctx.quick else 8000, depth=8)
    items = [dict(case="%s/%d" % (h[0]["kind"], i), hist=h) for i, h in enumerate(beh)]
    for w in ("sets", "root"):
        items += [dict(case="%s/%d" % (w, i), what=w, seed=ctx.seed * 911 + i) for i in range(60 if ctx.quick else 1500)]
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    ctx.validate("TraceOpt", ctx.pmap(one, items), chunk=600)
