"""C12: composite simulations.  Histories of questions, model, map and member changes are generated by
TLC (MetaGen) and replayed on real MetaSimulation / SumMetaSimulation / RepeatedSimulation objects (also
nested) over integer-valued members whose answers depend both on the model they hold and on the fields
they are handed; TLC judges every number exactly.  Members of every physics are judged against the same
members asked one by one."""
import copy, fnmatch, os, warnings
import numpy as np
import scipy.sparse as sp
from vf.core import pair, q, exc_event


def poly(t):
    from simpeg import simulation, survey, maps, props
    G, H, sq = np.array(t["G"], dtype=float).reshape(len(t["G"]), -1), np.array(t["H"], dtype=float).reshape(len(t["H"]), -1), t["sq"]

    class F:
        def __init__(self, m):
            self.u = m ** 2 if sq else m.copy()

    class PolySim(simulation.BaseSimulation):
        x, xMap, xDeriv = props.Invertible("a model")

        def __init__(self):
            super().__init__(survey=survey.BaseSurvey([]))
            self.xMap = maps.IdentityMap(nP=G.shape[1])
            self.survey._vnD = np.r_[G.shape[0]]

        def fields(self, m=None):
            if m is not None:
                self.model = m
            return F(self.model)

        def dpred(self, m=None, f=None):
            if m is not None:
                self.model = m
            f = self.fields(m) if f is None else f
            return G @ f.u + H @ self.model

        def J(self, m, f):
            self.model = m
            if f is not None and not np.array_equal(f.u, F(m).u):
                return np.full(G.shape, np.nan)
            return G * (2 * self.model if sq else np.ones(G.shape[1])) + H

        def Jvec(self, m, v, f=None):
            return self.J(m, f) @ v

        def Jtvec(self, m, v, f=None):
            return self.J(m, f).T @ v

        def getJtJdiag(self, m, W=None, f=None):
            w = np.ones(G.shape[0]) if W is None else W.diagonal()
            return np.einsum("i,ij->j", w ** 2, self.J(m, f) ** 2)
    return PolySim()


def mapping(p):
    from simpeg import maps
    A, b = np.array(p["M"], dtype=float), np.array(p["b"], dtype=float)
    A = A if p.get("how") == "dense" else sp.csr_matrix(A)
    if not p["sq"]:
        return maps.LinearMap(A, b if np.any(b) else None)

    class SqMap(maps.IdentityMap):
        shape = A.shape

        def _transform(self, m):
            return A @ (m * m) + b

        def deriv(self, m, v=None):
            D = A @ sp.diags(2.0 * m) if sp.issparse(A) else A * (2.0 * m)[None, :]
            return D if v is None else D @ v
    return SqMap(nP=A.shape[1])


def build(t):
    from simpeg import meta
    if t["kind"] == "poly":
        return poly(t)
    maps_ = [mapping(p) for p in t["maps"]]
    if t["kind"] == "repeat":
        return meta.RepeatedSimulation(build(t["sub"][0]), maps_)
    return {"stitch": meta.MetaSimulation, "sum": meta.SumMetaSimulation}[t["kind"]]([build(x) for x in t["sub"]], maps_)


def nd(t):
    return len(t["G"]) if t["kind"] == "poly" else nd(t["sub"][0]) if t["kind"] == "sum" else sum(nd(t["sub"][0 if t["kind"] == "repeat" else i]) for i in range(len(t["maps"])))


def strip(t):
    return dict(kind=t["kind"], G=t["G"], H=t["H"], sq=t["sq"], sub=[strip(x) for x in t["sub"]], maps=[dict(M=p["M"], sq=p["sq"], b=p["b"]) for p in t["maps"]])


def run_case(item):
    case, hist = item["case"], item["hist"]
    out = [dict(op="new", case=case)]
    n, s = hist[0]["n"], copy.deepcopy(hist[0]["s"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = build(s)
    out.append(dict(op="setup", case=case, s=strip(s)))
    kept, last = {}, None

    def changed():
        kept.clear()
        out.append(dict(op="setup", case=case, s=strip(s)))
        out.append(dict(op="nd", case=case, got=int(sim.survey.nD)))
    out.append(dict(op="nd", case=case, got=int(sim.survey.nD)))
    for o in hist[1:]:
        try:
            k = o["op"]
            if k in ("dpred", "jvec", "jtvec", "diag"):
                m = last if o["again"] and last is not None else o["m"]
                if o["f"] == "kept" and kept:       # fields kept from before other models were used
                    m = list(sorted(kept)[len(out) % len(kept)])
                last = m
                x = np.array(m, dtype=float)
                f = None
                if o["f"] == "fresh":
                    f = sim.fields(x.copy())
                elif o["f"] == "kept":
                    f = kept.get(tuple(m))
                if o["keep"] and f is not None:
                    kept[tuple(m)] = f
                w = np.array(o["w"][:nd(s)], dtype=float)
                v = np.array(o["v"][:n], dtype=float)
                b = [x.copy(), v.copy(), w.copy()]
                W = None if o["wkind"] == "none" else sp.diags(w)
                if k == "dpred":
                    r = sim.dpred(x, f=f)
                elif k == "jvec":
                    r = sim.Jvec(x, v, f=f)
                elif k == "jtvec":
                    r = sim.Jtvec(x, w, f=f)
                else:
                    r = sim.getJtJdiag(x, W=W, f=f)
                same = all(np.array_equal(p, q_) for p, q_ in zip(b, (x, v, w)))
                out.append(dict(op=k, case=case, m=m, v=o["v"], w=o["w"], wkind=o["wkind"], got=q(r), untouched=same))
            elif k == "setmodel":
                sim.model = np.array(o["m"], dtype=float)
                last = o["m"]
            elif k == "dpred0":
                if sim.model is not None:
                    out.append(dict(op="dpred", case=case, m=last, got=q(sim.dpred()), untouched=True))
            elif k == "maps":
                i = (o["i"] - 1) % len(s["maps"])
                no = len(s["maps"][i]["M"])
                new = dict(M=[r[:n] for r in o["M"][:no]], sq=o["sq"], b=[0] * no)
                if s["kind"] == "repeat" and o["grow"] and len(s["maps"]) < 5:
                    s["maps"].append(new)
                else:
                    s["maps"][i] = new
                sim.mappings = [mapping(p) for p in s["maps"]]
                changed()
            elif k == "member":
                i = (o["i"] - 1) % len(s["sub"])
                ni = len(s["maps"][i]["M"])
                d = nd(s["sub"][i]) if s["kind"] == "sum" else o["nd"]
                if d > 3:
                    continue
                new = dict(kind="poly", G=[r[:ni] for r in o["G"][:d]], H=[r[:ni] for r in o["H"][:d]], sq=o["sq"], sub=[], maps=[])
                s["sub"][i] = new
                if s["kind"] == "repeat":
                    sim.simulation = build(new)
                else:
                    ms = list(sim.simulations)
                    ms[i] = build(new)
                    sim.simulations = ms
                changed()
            elif k == "swap":                               # members and mappings in another order
                if s["kind"] == "repeat" or len(s["sub"]) < 2:
                    continue
                i, j = (o["i"] - 1) % len(s["sub"]), (o["j"] - 1) % len(s["sub"])
                ms, mp = list(sim.simulations), list(sim.mappings)
                for a in (ms, mp, s["sub"], s["maps"]):
                    a[i], a[j] = a[j], a[i]
                sim.simulations = ms
                sim.mappings = mp
                changed()
            elif k == "poke":                               # a member used on its own, at another model
                i = (o["i"] - 1) % len(s["sub"])
                c = sim.simulation if s["kind"] == "repeat" else sim.simulations[i]
                x = np.array(o["m"][:len(s["maps"][i]["M"])], dtype=float)
                if o["use"]:
                    c.dpred(x)
                else:
                    c.model = x
        except Exception as exc:
            out.append(exc_event(case, exc))
            break
    return out


REAL = ["dc2d/n/noJ", "dc2d/cc/rho", "dc3d/n/Robin/noJ", "dc3d/cc/Robin/J", "ip3d/cc/sigma/noJ", "fdem/e/sigma", "fdem/h/rho", "fdem1d/sigma", "tdem/b/sigma", "tdem/j/rho", "tdem1d/sigma", "nsem1d/rec", "nsem2d/e",
        "grav/expmap", "mag/choclo/ram", "linear/G-exp", "tomo/exp", "sp/cc", "sip2d/n", "magpde/J", "vrm/lin"]


def run_real(item):
    """members of every physics behind linear and non-linear mappings, against the same members asked one by one"""
    import zoo
    from simpeg import maps, meta
    e, case = zoo.ZOO[item["entry"]], item["case"]
    rs = np.random.RandomState(item["seed"])
    out = [dict(op="new", case=case)]

    def same(what, a, b, bits=24, tol=40):
        x, y = pair(np.asarray(a), np.asarray(b), bits=bits)
        out.append(dict(op="same", case=case, what=what, got=x, want=y, tol=tol))
    n = e.model(0).size
    k = rs.randint(1, 4)
    kind = ["stitch", "sum", "repeat"][rs.randint(3)]
    lo = min(float(np.min(e.model(i))) for i in range(4))
    hi = max(float(np.max(e.model(i))) for i in range(4))
    N = n + rs.randint(0, 4)

    def mk():
        t = rs.randint(4)
        if t == 0:
            return maps.Projection(N, rs.permutation(N)[:n])
        if t == 1:                                          # averages stay in the range of the models
            A = sp.random(n, N, density=min(1.0, 3.0 / N), random_state=rs, format="lil")
            for i in range(n):
                A[i, rs.randint(N)] = 1.0
            A = sp.csr_matrix(A)
            A = sp.diags(1 / np.asarray(A.sum(axis=1)).ravel()) @ A
            return maps.LinearMap(A if rs.randint(2) else A.toarray())
        if t == 2:                                          # nonlinear, range preserving
            mid, half = (lo + hi) / 2, max((hi - lo) / 2, 1e-12)

            class Bend(maps.IdentityMap):
                shape = (n, N)
                P = maps.Projection(N, rs.permutation(N)[:n]).P

                def _transform(self, m):
                    return mid + half * np.sin((self.P @ m - mid) / half)

                def deriv(self, m, v=None):
                    D = sp.diags(np.cos((self.P @ m - mid) / half)) @ self.P
                    return D if v is None else D @ v
            return Bend(nP=N)
        return maps.LinearMap(sp.eye(n, N).tocsr(), b=(hi - lo) * 0.01 * np.ones(n))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        members = [e.sim() for _ in range(1 if kind == "repeat" else k)]
        fresh = e.sim()
        mps = [mk() for _ in range(k)]
        ms = meta.RepeatedSimulation(members[0], mps) if kind == "repeat" else (meta.MetaSimulation if kind == "stitch" else meta.SumMetaSimulation)(members, mps)
    nd1 = fresh.survey.nD
    models = []
    for i in range(2):
        m = np.r_[e.model(i), e.model(i + 1)][rs.permutation(2 * n)[:N]] if 2 * n >= N else np.resize(e.model(i), N)
        models.append(m)
    join = (lambda p: sum(p)) if kind == "sum" else np.concatenate
    diag_ok = hasattr(fresh, "getJtJdiag")
    for step in range(item["n"]):
        m = models[rs.randint(2)]
        c = rs.randint(7)
        if c == 5:
            members[rs.randint(len(members))].model = e.model(3)
            continue
        if c == 6:
            i = rs.randint(k)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mps = list(mps)
                mps[i] = mk()
                ms.mappings = mps
            continue
        f = ms.fields(m) if rs.randint(2) else None
        if c <= 1:
            same("data-of-the-members-at-their-models", ms.dpred(m, f=f), join([np.array(fresh.dpred(p * m)) for p in mps]))
        elif c == 2:
            v = rs.randn(N) * (hi - lo + 1e-6)
            same("sensitivity-times-vector", ms.Jvec(m, v, f=f), join([np.array(fresh.Jvec(p * m, p.deriv(m) @ v)) for p in mps]))
        elif c == 3:
            sl = lambda w, i: w if kind == "sum" else w[i * nd1:(i + 1) * nd1]
            w = rs.randn(ms.survey.nD)
            same("adjoint-of-each-slice", ms.Jtvec(m, w, f=f), sum(p.deriv(m).T @ np.array(fresh.Jtvec(p * m, sl(w, i))) for i, p in enumerate(mps)))
        elif diag_ok:
            sl = lambda w, i: w if kind == "sum" else w[i * nd1:(i + 1) * nd1]
            w = rs.uniform(0.5, 2, ms.survey.nD)
            try:
                want = sum(np.asarray(np.asarray(sp.csr_matrix(p.deriv(m)).power(2).T @ np.array(fresh.getJtJdiag(p * m, sp.diags(sl(w, i)))))).ravel() for i, p in enumerate(mps))
            except NotImplementedError:
                continue
            same("weighted-diagonal-of-each-slice", ms.getJtJdiag(m, W=sp.diags(w), f=f), want)
    return out


def one(it):
    return run_real(it) if "entry" in it else run_case(it)


def run(ctx):
    import zoo
    for shared in ("FALSE", "TRUE"):
        ctx.model("Meta", "SPECIFICATION Spec\nCONSTANTS NMember = %d\n Models = {1, 2}\n MapVers = {1, 2}\n Shared = %s\n MaxOps = %d\n SliceMax = %d\nINVARIANTS Prescribed SlicesPartition SliceSizes\nCHECK_DEADLOCK FALSE\n"
                  % ((2, shared, 4, 2) if ctx.quick else (3, shared, 5, 2)), name="Meta_" + shared, need_actions=("Ask", "Answer", "SetMap", "Poke"))
    beh = ctx.behaviours("MetaGen", "SPECIFICATION GSpec\nCONSTANTS MaxOps = 14\nCHECK_DEADLOCK FALSE\n", simulate=400 if ctx.quick else 8000, depth=40)
    items = [dict(case="exact/%d" % i, hist=h) for i, h in enumerate(beh)]
    zoo.load()
    for e in REAL if ctx.quick else sorted(zoo.ZOO):
        items += [dict(case="real/%s/%d" % (e, i), entry=e, seed=ctx.seed * 173 + i * 7 + sum(map(ord, e)), n=7 if ctx.quick else 14) for i in range(2 if ctx.quick else 6)]
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    ctx.validate("TraceMeta", ctx.pmap(one, items), chunk=600)
