"""C08: regularization functions."""
import numpy as np
import scipy.sparse as sps
from vf.core import q, exc_event
from c06 import build, exact

AX = "xyz"


def ints(x, s):
    """integers that floating point results stand for (quotients by 3 and square roots round)"""
    a = np.asarray(x, dtype=float).ravel() * s
    r = np.round(a)
    return q(np.where(np.abs(a - r) <= 1e-6 + 1e-12 * np.abs(a), r, 1e300))


class Geo:
    """cells, pairs and faces of a tensor mesh, enumerated"""
    def __init__(self, mesh, act):
        self.n, self.h, self.dim = mesh["n"], mesh["h"], mesh["dim"]
        self.nc = int(np.prod(self.n))
        self.act = list(range(1, self.nc + 1)) if act is None else [i + 1 for i in range(self.nc) if act[i]]
        self.none = act is None

    def ix(self, c, a):
        return ((c - 1) // int(np.prod(self.n[:a]))) % self.n[a]

    def lows(self, a):
        st = int(np.prod(self.n[:a]))
        s = set(self.act)
        return [c for c in self.act if self.ix(c, a) < self.n[a] - 1 and c + st in s]

    def nface(self, a):
        return self.nc // self.n[a] * (self.n[a] + 1)

    def face(self, c, a):
        """index of the face between cell c and its upper neighbour among the faces along a"""
        dims = list(self.n)
        dims[a] += 1
        idx = [self.ix(c, b) for b in range(self.dim)]
        idx[a] += 1
        return int(np.ravel_multi_index(idx, dims, order="F"))

    def facevec(self, a, vals, rs):
        """values on pairs along a -> the array the code wants (boundary faces get anything)"""
        lo = self.lows(a)
        if not self.none:
            return np.array(vals[:len(lo)], dtype=float)
        w = rs.randint(1, 9, self.nface(a)).astype(float)
        for c, x in zip(lo, vals):
            w[self.face(c, a)] = x
        return w


def run_hist(item):
    import discretize
    from simpeg import regularization as R, maps
    case, hist = item["case"], item["hist"]
    rs = np.random.RandomState(item["seed"])
    h0 = hist[0]
    mesh, cls = h0["mesh"], h0["cls"]
    D = 6 if item["rough"] else 2
    ev = []

    def log(op, **kw):
        ev.append(dict(op=op, case=case, **kw))

    nc = int(np.prod(mesh["n"]))
    dim = mesh["dim"]
    on = [bool(x) for x in (h0["on"] * 2)[:nc]]
    if sum(on) < 2:
        on[0] = on[-1] = True
    if cls == "full" and dim == 1:
        cls = "first"
    axis = h0["axis"] % dim
    mode = h0["act"]
    geo = Geo(mesh, on if mode == "ctor" else None)
    tmesh = discretize.TensorMesh([np.array(x, dtype=float) for x in mesh["h"]])
    rmesh = R.RegularizationMesh(tmesh) if h0["opts"][0] > 2 else tmesh
    kw = {}
    if mode == "ctor":
        kw["active_cells"] = np.array(on) if h0["opts"][1] > 2 else np.where(on)[0]
    alphas = []
    try:
        if cls == "wls":
            terms = [("small", 0)] + [(k, a) for a in range(dim) for k in ("first", "second")]
            al = [1] + [x for a in range(dim) for x in (None, 0)]
            if h0["opts"][2] == 1:
                kw["alpha_s"], kw["alpha_x"], kw["alpha_xx"] = 2, 3, 1
                al[0], al[1], al[2] = 2, 3, 1
            if h0["opts"][3] == 1 and dim > 1:
                kw["length_scale_y"] = 2
                al[3] = 4 * min(min(h) for h in mesh["h"]) ** 2
            reg = R.WeightedLeastSquares(rmesh, **kw)
        elif cls == "sparse":
            terms = [("small", 0)] + [("first", a) for a in range(dim)]
            al = [1] + [None] * dim
            reg = R.Sparse(rmesh, norms=[2] * (dim + 1), **kw)
        else:
            terms = [(cls, axis if cls != "full" else 0)]
            al = [1]
            if cls == "small":
                reg = R.Smallness(rmesh, **kw)
            elif cls == "full":
                vals = np.array(h0["al"], dtype=float)
                if h0["opts"][4] > 2:
                    A = np.tile(vals[:dim], (nc, 1))
                    kw["alphas"] = vals[:dim]
                else:
                    A = vals[:dim * nc].reshape(nc, dim)
                    kw["alphas"] = A if not (mode == "ctor" and h0["opts"][5] > 2) else A[np.array(on)]
                if h0["opts"][6] > 2:                           # axes permuted: direction k of the weights is axis perm[k]
                    perm = rs.permutation(dim)
                    Q = np.zeros((dim, dim))
                    Q[perm, np.arange(dim)] = rs.choice([-1, 1], dim)
                    kw["reg_dirs"] = Q if h0["opts"][7] > 2 else np.tile(Q, (nc, 1, 1))
                    B = np.zeros_like(A)
                    B[:, perm] = A
                    A = B
                reg = R.SmoothnessFullGradient(tmesh, **kw)
                alphas = A
            else:
                reg = (R.SmoothnessFirstOrder if cls == "first" else R.SmoothnessSecondOrder)(rmesh, orientation=AX[axis], **kw)
        base = min(min(h) for h in mesh["h"])
        al = [base ** 2 if x is None else x for x in al]
        combo = cls in ("wls", "sparse")
        kids = list(reg.objfcts) if combo else [reg]
        al_of = lambda A: [[int(A[c - 1, a]) for c in geo.act] for a in range(dim)] if len(A) else []
        log("new", mesh=mesh, ac=geo.act, D=D, al=al, alphas=al_of(alphas), terms=[dict(kind=k, axis=a + 1) for k, a in terms])
        unit = 8 * D ** 4
        st = dict(t=dict(k="id", n=len(geo.act)), ref=None, rad=False, late=mode == "late")

        def npar():
            return dict(id=len(geo.act), sq=len(geo.act), lin=2, proj=3)[st["t"]["k"]]

        def nterm(i):
            return ((i - 1) % len(terms)) + 1 if i else 0

        everyone = list(range(1, len(terms) + 1))
        for h in hist[1:]:
            op = h["op"]
            if op == "eval":
                i = nterm(h["i"]) if combo else 1
                obj = reg if i == 0 or not combo else kids[i - 1]
                n = npar()
                m, v = np.array(h["m"][:n], dtype=float), np.array(h["v"][:n], dtype=float)
                z = 1.0
                if st["rad"]:
                    z = np.pi / 8
                    m = m * 3
                    f = m.copy() - (st["ref"] if st["ref"] is not None else 0)
                    if any((f[p] - f[r_]) % 16 == 8 for p in range(n) for r_ in range(p)) or any((m[p] - m[r_]) % 16 == 8 for p in range(n) for r_ in range(p)):
                        continue
                a, b = m * z, v * z
                a0, b0 = a.copy(), b.copy()
                val, g, hv = obj(a), obj.deriv(a), obj.deriv2(a, b)
                H = obj.deriv2(a)
                zero = lambda x: np.zeros(n) if not isinstance(x, (np.ndarray, float)) else x
                H = H.toarray() if sps.issparse(H) else np.asarray(H) if isinstance(H, np.ndarray) else np.zeros((n, n))
                log("eval", i=i, m=exact(m), v=exact(v), val=ints(val, unit / z ** 2)[0], grad=ints(zero(g), unit / z), hv=ints(zero(hv), unit / z),
                    H=[ints(H[:, j], unit) for j in range(n)], clean=bool(np.array_equal(a, a0) and np.array_equal(b, b0)))
            elif op == "alpha" and combo:
                i = nterm(max(h["i"], 1))
                k, a = terms[i - 1]
                name = "alpha_s" if k == "small" else "alpha_" + AX[a] * (2 if k == "second" else 1)
                setattr(reg, name, [h["val"], float(h["val"])][rs.randint(2)])
                log("alpha", i=i, val=h["val"])
                log("mults", got=exact(np.array(reg.multipliers, dtype=float)))
            elif op == "len" and combo and h["axis"] <= dim:
                i = terms.index(("first", h["axis"] - 1)) + 1
                setattr(reg, "length_scale_" + AX[h["axis"] - 1], h["val"])
                log("len", i=i, val=h["val"])
                log("mults", got=exact(np.array(reg.multipliers, dtype=float)))
                log("same", what="length-scale-reported", got=q(getattr(reg, "length_scale_" + AX[h["axis"] - 1]), 1e6), want=[h["val"] * 10 ** 6], tol=1)
            elif op == "ref":
                n = npar()
                z = np.pi / 8 if st["rad"] else 1.0
                if h["how"] == "none":
                    reg.reference_model = None
                    vec = []
                elif h["how"] == "float":
                    reg.reference_model = float(h["v"][0]) * z
                    vec = [h["v"][0]] * n
                else:
                    reg.reference_model = np.array(h["v"][:n], dtype=float) * z
                    vec = h["v"][:n]
                st["ref"] = np.array(vec, dtype=float) if vec else None
                log("ref", ts=everyone, v=vec)
                if combo:
                    log("true", what="children-share-reference", ok=all((c.reference_model is None) == (not vec) and (not vec or np.allclose(c.reference_model, np.array(vec) * z)) for c in kids))
            elif op == "insm" and cls != "small" and cls != "full":
                reg.reference_model_in_smooth = bool(h["val"])
                log("insm", ts=everyone, val=bool(h["val"]))
            elif op == "setw":
                i = nterm(h["i"]) if combo else 1
                if i and h["face"] and terms[i - 1][0] in ("first", "full"):
                    k, a = terms[i - 1]
                    if k == "first":
                        vals = h["v"][:len(geo.lows(a))]
                        w = geo.facevec(a, vals, rs)
                        if not len(w):
                            continue
                    else:
                        vals, w, o = [], [], 0
                        for b in range(dim):
                            lo = geo.lows(b)
                            vb = h["v"][o:o + len(lo)]
                            o += len(lo)
                            vals.append(vb)
                            g2 = Geo(mesh, None)
                            full = rs.randint(1, 9, g2.nface(b)).astype(float)
                            for c, x in zip(lo, vb):
                                full[g2.face(c, b)] = x
                            w.append(full)
                        w = np.concatenate(w)
                    kids[i - 1].set_weights(**{h["key"]: w})
                    log("setw", ts=[i], key=h["key"], face=True, v=vals)
                else:
                    vals = h["v"][:len(geo.act)]
                    w = np.array(vals, dtype=float)
                    w0 = w.copy()
                    (reg if i == 0 or not combo else kids[i - 1]).set_weights(**{h["key"]: w})
                    log("setw", ts=everyone if i == 0 else [i], key=h["key"], face=False, v=vals)
                    log("true", what="weights-array-untouched", ok=bool(np.array_equal(w, w0)))
                j = i or 1
                log("keys", i=j, got=list(kids[j - 1].weights_keys))
            elif op == "remw":
                i = nterm(h["i"]) if combo else 1
                tgt = everyone if i == 0 else [i]
                have = [h["key"] in kids[j - 1].weights_keys for j in tgt]
                if not all(have) and any(have):
                    continue
                obj = reg if i == 0 or not combo else kids[i - 1]
                if not any(have):
                    try:
                        obj.remove_weights(h["key"])
                        ok = False
                    except KeyError:
                        ok = True
                    log("bad", what="removing-unknown-weights", refused=ok)
                else:
                    obj.remove_weights(h["key"])
                    log("remw", ts=tgt, key=h["key"])
            elif op == "map":
                if st["rad"]:
                    continue
                n = len(geo.act)
                t = [dict(k="id", n=n), dict(k="lin", A=np.reshape(h["v"][:2 * n], (n, 2)).tolist(), b=h["v"][24:24 + n]), dict(k="sq", n=n),
                     dict(k="proj", n=3, idx=[x + 1 for x in h["v"][:n]])][h["how"] - 1]
                if item["rough"] and h["how"] in (2,):
                    t = dict(k="proj", n=3, idx=[x + 1 for x in h["v"][:n]])
                old = npar()
                st["t"] = t
                drop = npar() != old
                if drop:
                    reg.reference_model = None
                    st["ref"] = None
                reg.mapping = build(t, rs) if t["k"] != "id" or rs.randint(2) else [maps.IdentityMap(nP=n), maps.IdentityMap(), None][rs.randint(3)]
                log("map", ts=everyone, t=t, drop=drop)
            elif op == "units" and cls in ("wls", "first", "second") and not item["rough"] and st["t"]["k"] == "id":
                if st["rad"] != h["rad"]:
                    reg.reference_model = None
                    st["ref"] = None
                    log("ref", ts=everyone, v=[])
                st["rad"] = h["rad"]
                reg.units = [None, "metric"][rs.randint(2)] if not h["rad"] else ["radian", "Radian"][rs.randint(2)]
                log("units", ts=everyone, rad=h["rad"])
            elif op == "active":
                if st["late"] and st["t"]["k"] == "id":
                    st["late"] = False
                    reg.reference_model = None
                    st["ref"] = None
                    if not combo:
                        reg.mapping = None
                    reg.active_cells = np.array(on)
                    geo = Geo(mesh, on)
                    st["t"] = dict(k="id", n=len(geo.act))
                    log("active", ac=geo.act, alphas=al_of(alphas))
                    log("true", what="active-cells-reported", ok=bool(np.array_equal(reg.active_cells, np.array(on))))
                elif not geo.none:
                    other = np.array(on)
                    other[rs.randint(nc)] ^= True
                    try:
                        reg.active_cells = other
                        ok = False
                    except AttributeError:
                        ok = True
                    log("bad", what="changing-active-cells", refused=ok)
            elif op == "irls" and cls == "sparse":
                m = np.array(h["m"][:npar()], dtype=float)
                reg.update_weights(m)
                for i, (k, a) in enumerate(terms):
                    nn = len(geo.act) if k == "small" else len(geo.lows(a))
                    log("setw", ts=[i + 1], key="irls", face=k != "small", v=[1] * nn)
                    log("true", what="two-norm-irls-weights-are-one", ok=bool(np.allclose(kids[i].get_weights("irls"), 1)))
            elif op == "bad":
                w = h["how"]
                tries = {1: ("weights-of-wrong-size", lambda: reg.set_weights(a=np.ones(nc + 31))),
                         2: ("weights-not-numbers", lambda: reg.set_weights(a="x")),
                         3: ("mapping-not-a-map", lambda: setattr(reg, "mapping", 3)),
                         4: ("reference-of-wrong-size", lambda: setattr(reg, "reference_model", np.ones(npar() + 1))),
                         5: ("units-not-a-string", lambda: setattr(reg, "units", 3))}
                if combo and rs.randint(2):
                    tries[w] = ("negative-alpha", lambda: setattr(reg, "alpha_x", -1.0))
                what, f = tries[w]
                try:
                    f()
                    ok = False
                except (ValueError, TypeError, IndexError):
                    ok = True
                log("bad", what=what, refused=ok)
    except Exception as exc:
        ev.append(exc_event(case, exc))
    return ev

# ------------------------------------------------------------------ the other classes, in floating point
def fdm(fun, x, v, h=1e-5):
    return (fun(x + h * v) - fun(x - h * v)) / (2 * h)


def run_num(item):
    import discretize, warnings
    from simpeg import regularization as R, maps
    warnings.simplefilter("ignore")
    case, kind = item["case"], item["num"]
    rs = np.random.RandomState(item["seed"])
    ev = [dict(op="new", case=case, mesh=dict(dim=1, n=[1], h=[[1]]), ac=[1], D=1, al=[], alphas=[], terms=[])]

    def near(what, got, want, tol=64, floor=0.0):
        got, want = np.atleast_1d(np.asarray(got, dtype=float)).ravel(), np.atleast_1d(np.asarray(want, dtype=float)).ravel()
        z = 2.0 ** 24 / max(np.abs(want).max() if want.size else 1.0, floor, 1e-300)
        ev.append(dict(op="same", case=case, what=what, got=q(got, z), want=q(want, z), tol=tol))

    def true(what, ok):
        ev.append(dict(op="true", case=case, what=what, ok=bool(ok)))

    def dense(H):
        return H.toarray() if sps.issparse(H) else np.asarray(H)

    def derivs(tag, reg, m, hess="exact", gtol=2e-6):
        """gradient against the value, Hessian product against the gradient (or only symmetric / definite), matrix against product"""
        m0 = m.copy()
        v, u = rs.randn(m.size), rs.randn(m.size)
        g = reg.deriv(m)
        sc = np.abs(g).max() * np.abs(v).sum() + 1e-12
        near(tag + ":gradient-fits-value", [g @ v / sc], [fdm(reg, m, v) / sc], tol=int(2 ** 24 * gtol) + 2, floor=1.0)
        Hv, Hu = reg.deriv2(m, v), reg.deriv2(m, u)
        near(tag + ":hessian-matrix-fits-product", dense(reg.deriv2(m)) @ v, Hv, tol=256)
        near(tag + ":hessian-symmetric", [u @ Hv], [v @ Hu], tol=256, floor=np.abs(Hv).sum() * np.abs(u).max())
        if hess == "exact":
            want = fdm(reg.deriv, m, v)
            near(tag + ":hessian-fits-gradient", Hv, want, tol=int(2 ** 24 * 2e-6) + 2, floor=np.abs(Hv).max())
        if hess in ("psd", "exact+"):
            true(tag + ":hessian-not-negative", v @ Hv >= -1e-9 * np.abs(Hv).sum())
        true(tag + ":inputs-untouched", np.array_equal(m, m0))

    def mesh_of(dim, lo=2, hi=4):
        n = [int(rs.randint(lo, hi + 1)) for _ in range(dim)]
        return dict(dim=dim, n=n, h=[list(rs.choice([1.0, 1.5, 2.0, 3.0], k)) for k in n])

    def setup(dim, active=None):
        me = mesh_of(dim)
        nc = int(np.prod(me["n"]))
        on = None
        if active if active is not None else rs.randint(3):
            on = rs.rand(nc) < 0.8
            on[rs.permutation(nc)[:3]] = True
        g = Geo(me, on)
        tm = discretize.TensorMesh([np.array(h) for h in me["h"]])
        vol = np.array([np.prod([me["h"][a][g.ix(c, a)] for a in range(dim)]) for c in g.act])
        pr = []
        for a in range(dim):
            pos = {c: i for i, c in enumerate(g.act)}
            st = int(np.prod(me["n"][:a]))
            pr.append([(pos[c], pos[c + st], 0.5 * (me["h"][a][g.ix(c, a)] + me["h"][a][g.ix(c, a) + 1])) for c in g.lows(a)])
        return me, g, tm, on, vol, pr

    def diffs(pr, f):
        return np.array([(f[j] - f[i]) / d for i, j, d in pr])

    def cellsq(g, pr, a, b):
        """average to cells of the products of the differences along all axes (half of each face of a cell)"""
        out = np.zeros(len(a))
        for p in pr:
            da, db = diffs(p, a), diffs(p, b)
            for (i, j, _), x in zip(p, da * db):
                out[i] += 0.5 * x
                out[j] += 0.5 * x
        return out

    def lp(fm, p, eps, scaled):
        """documented IRLS weights"""
        if not fm.size:
            return fm
        p = np.ones(fm.size) * p
        lam = np.ones(fm.size)
        if scaled:
            fx = np.abs(fm).max()
            ft = np.where(p >= 1, fx, eps / np.sqrt(np.where(p < 1, 1 - p, 1)))
            with np.errstate(all="ignore"):
                lam = np.where(ft > 0, fx / np.where(ft > 0, ft, 1) * (ft ** 2 + eps ** 2) ** (1 - p / 2), 1.0)
        return lam / (fm ** 2 + eps ** 2) ** (1 - p / 2)

    try:
        if kind == "cross":
            dim = rs.randint(2, 4)
            me, g, tm, on, vol, pr = setup(dim)
            n = len(g.act)
            wires = maps.Wires(("a", n), ("b", n))
            uw = rs.rand(n) + 0.5
            reg = R.CrossGradient(tm, wires, active_cells=on, approx_hessian=bool(rs.randint(2)), **(dict(weights=dict(u=uw)) if rs.randint(2) else {}))
            if "u" not in reg.weights_keys:
                reg.set_weights(u=uw)
            for step in range(4):
                m = rs.randn(2 * n)
                a, b = m[:n], m[n:]
                w = vol * uw
                near("cross:value", reg(m), np.sum(w * (cellsq(g, pr, a, a) * cellsq(g, pr, b, b) - cellsq(g, pr, a, b) ** 2)), floor=np.sum(w * cellsq(g, pr, a, a) * cellsq(g, pr, b, b)))
                derivs("cross", reg, m, hess="psd" if reg.approx_hessian else "exact")
                # the cross product itself, on gradients averaged to cells
                gr = [np.stack([sum_faces(p, x, n) for p in pr], axis=1) for x in (a, b)]
                cp = np.cross(gr[0], gr[1])
                near("cross:cross-gradient", reg.calculate_cross_gradient(m), cp if dim == 2 else np.linalg.norm(cp, axis=1))
                k = rs.randint(3)
                if k == 0:
                    uw = rs.rand(n) + 0.5
                    reg.set_weights(u=uw)
                elif k == 1:
                    reg.approx_hessian = not reg.approx_hessian
            reg.remove_weights("u")
            near("cross:value-after-removal", reg(m), np.sum(vol * (cellsq(g, pr, a, a) * cellsq(g, pr, b, b) - cellsq(g, pr, a, b) ** 2)), floor=np.sum(w * cellsq(g, pr, a, a) * cellsq(g, pr, b, b)))
            for bad, wm in (("three-models", maps.Wires(("a", n), ("b", n), ("c", n))), ("unequal-models", maps.Wires(("a", n), ("b", n + 1)))):
                try:
                    R.CrossGradient(tm, wm, active_cells=on)
                    ok = False
                except ValueError:
                    ok = True
                ev.append(dict(op="bad", case=case, what="cross:" + bad, refused=ok))
        elif kind == "jtv":
            me, g, tm, on, vol, pr = setup(rs.randint(1, 4))
            n, k = len(g.act), rs.randint(1, 4)
            wires = maps.Wires(*[("m%d" % i, n) for i in range(k)])
            uw = rs.rand(n) + 0.5
            eps = 10.0 ** rs.uniform(-3, 0)
            reg = R.JointTotalVariation(tm, wires, eps=eps, active_cells=on, weights=dict(u=uw))
            for step in range(3):
                m = rs.randn(k * n)
                s = sum(cellsq(g, pr, m[i * n:(i + 1) * n], m[i * n:(i + 1) * n]) for i in range(k))
                near("jtv:value", reg(m), np.sum(np.sqrt((vol * uw) ** 2 * s + eps * vol ** 2)))
                derivs("jtv", reg, m, hess="exact")
                uw = rs.rand(n) + 0.5
                reg.set_weights(u=uw)
                if step == 1:
                    reg.eps = eps = 0.5
        elif kind == "corr":
            me, g, tm, on, vol, pr = setup(rs.randint(1, 4))
            n = len(g.act)
            k = rs.randn(3)
            reg = R.LinearCorrespondence(tm, maps.Wires(("a", n), ("b", n)), active_cells=on, **(dict(coefficients=k) if rs.randint(2) else {}))
            k = np.array(reg.coefficients) if not np.allclose(reg.coefficients, k) else k
            for step in range(3):
                m = rs.randn(2 * n)
                near("corr:value", reg(m), np.sum((k[0] * m[:n] + k[1] * m[n:] + k[2]) ** 2))
                derivs("corr", reg, m)
                k = rs.randn(3)
                reg.coefficients = k
        elif kind == "sparse":
            dim = rs.randint(1, 4)
            me, g, tm, on, vol, pr = setup(dim)
            n = len(g.act)
            kw = {}
            ps = [float(rs.choice([0.0, 0.5, 1.0, 1.5, 2.0])) for _ in range(dim + 1)]
            eps, scaled, gt = 10.0 ** rs.uniform(-3, 0), bool(rs.randint(2)), ["total", "components"][rs.randint(2)]
            al = [float(x) * (rs.rand() < 0.75) for x in rs.rand(dim + 1)]     # some directions are switched off
            if not any(al):
                al[0] = 0.5
            reg = R.Sparse(tm, active_cells=on, norms=ps, gradient_type=gt, irls_scaled=scaled, irls_threshold=eps, alpha_s=al[0], **{"alpha_" + AX[a]: al[a + 1] for a in range(dim)})
            ref, ins = None, False
            uw = np.ones(n)
            irls = None
            for step in range(6):
                m = rs.randn(n)
                f0 = lambda m: m - ref if ref is not None else m
                f1 = lambda m, a: diffs(pr[a], m - ref if ref is not None and ins else m)
                if irls is None:
                    iw = [np.ones(n)] + [np.ones(len(pr[a])) for a in range(dim)]
                else:
                    iw = irls
                want = al[0] * np.sum(vol * uw * iw[0] * f0(m) ** 2)
                for a in range(dim):
                    fw = np.array([0.25 * (vol[i] + vol[j]) * (uw[i] + uw[j]) for i, j, _ in pr[a]])
                    want += al[a + 1] * np.sum(fw * iw[a + 1] * f1(m, a) ** 2)
                near("sparse:value", reg(m), want)
                derivs("sparse", reg, m)
                k = rs.randint(7) if step else 0
                if k == 0:
                    mm = rs.randn(n) * (rs.rand() < 0.9)
                    reg.update_weights(mm)
                    irls = [lp(f0(mm), ps[0], eps, scaled)]
                    tot = np.zeros(n)
                    for a in range(dim):
                        tot += np.abs(sum_faces(pr[a], mm - ref if ref is not None and ins else mm, n, None))
                    for a in range(dim):
                        if gt == "components":
                            irls.append(lp(f1(mm, a), ps[a + 1], eps, scaled))
                        else:
                            full = np.array([0.5 * (tot[i] + tot[j]) for i, j, _ in pr[a]])
                            if on is None and full.size:      # faces on the boundary take part in the maximum
                                irls.append(lp_with(lp, full, tot.max() if True else 0, ps[a + 1], eps, scaled, boundary=boundary_max(g, a, tot)))
                            else:
                                irls.append(lp(full, ps[a + 1], eps, scaled))
                elif k == 1:
                    ps = [float(rs.choice([0.0, 0.5, 1.0, 2.0])) for _ in range(dim + 1)]
                    reg.norms = ps
                elif k == 2:
                    gt = ["total", "components"][rs.randint(2)]
                    reg.gradient_type = gt
                elif k == 3:
                    eps = 10.0 ** rs.uniform(-3, 0)
                    reg.irls_threshold = eps
                    scaled = bool(rs.randint(2))
                    reg.irls_scaled = scaled
                elif k == 4:
                    ref = rs.randn(n) if rs.randint(3) else None
                    reg.reference_model = ref
                    ins = bool(rs.randint(2))
                    reg.reference_model_in_smooth = ins
                elif k == 5:
                    uw = rs.rand(n) + 0.5
                    reg.set_weights(u=uw)
                else:
                    for badn in ([1.0] * dim, [3.0] + [1.0] * dim, [1.0] * dim + [-1.0]):
                        try:
                            reg.norms = badn
                            ok = False
                        except ValueError:
                            ok = True
                        ev.append(dict(op="bad", case=case, what="sparse:norms", refused=ok))
                    near("sparse:norms-kept", [np.atleast_1d(o.norm)[0] if np.size(o.norm) else p for o, p in zip(reg.objfcts, ps)], ps, floor=1.0)
        elif kind == "vector":
            dim = rs.randint(2, 4)
            me, g, tm, on, vol, pr = setup(dim)
            n = len(g.act)
            uw = rs.rand(n) + 0.5
            rd = rs.randn(dim) if rs.randint(2) else rs.randn(n, dim)
            reg = R.CrossReferenceRegularization(tm, rd, active_cells=on, weights=dict(u=uw))
            for step in range(3):
                m = rs.randn(dim * n)
                X = np.cross(np.broadcast_to(rd, (n, dim)), m.reshape((n, dim), order="F"))
                near("crossref:value", reg(m), np.sum(vol * uw * (X ** 2 if dim == 2 else np.sum(X ** 2, axis=1))))
                derivs("crossref", reg, m)
                if step == 0:
                    uw = rs.rand(n) + 0.5
                    reg.set_weights(u=uw)
                else:
                    rd = rs.randn(n, dim)
                    reg.ref_dir = rd
            A = rs.randn(dim * n, 3)
            mp = [None, maps.IdentityMap(nP=dim * n), maps.LinearMap(A), maps.LinearMap(sps.csr_matrix(A))][rs.randint(4)]
            k = 3 if isinstance(mp, maps.LinearMap) else dim * n
            ps = [float(rs.choice([0.0, 1.0, 2.0])) for _ in range(dim + 1)]
            eps, scaled = 10.0 ** rs.uniform(-3, 0), bool(rs.randint(2))
            if mp is None:
                mp = maps.IdentityMap(nP=dim * n)
            ref = rs.randn(k) if rs.randint(2) else None
            uw = rs.rand(n) + 0.5
            reg = R.VectorAmplitude(tm, mp, active_cells=on, norms=ps, irls_threshold=eps, irls_scaled=scaled, gradient_type="components", reference_model=ref, reference_model_in_smooth=True)
            reg.set_weights(u=uw)
            al = reg.multipliers
            irls = None
            for step in range(4):
                m = rs.randn(k)
                d = m - ref if ref is not None else m
                f = np.reshape(A @ d if k == 3 else d, (n, dim), order="F")
                kern = [np.linalg.norm(f, axis=1)] + [np.linalg.norm(np.reshape([(f[j] - f[i]) / x for i, j, x in pr[a]], (-1, dim)), axis=1) for a in range(dim)]
                iw = irls or [np.ones(len(x)) for x in kern]
                want = al[0] * np.sum(vol * uw * iw[0] * kern[0] ** 2)
                for a in range(dim):
                    fw = np.array([0.25 * (vol[i] + vol[j]) * (uw[i] + uw[j]) for i, j, _ in pr[a]])
                    want += al[a + 1] * np.sum(fw * iw[a + 1] * kern[a + 1] ** 2)
                near("amplitude:value", reg(m), want)
                derivs("amplitude", reg, m)
                if step % 2 == 0:
                    reg.update_weights(m)
                    irls = [lp(x, p, eps, scaled) for x, p in zip(kern, ps)]
                else:
                    uw = rs.rand(n) + 0.5
                    reg.set_weights(u=uw)
        elif kind == "rotated":
            dim = rs.randint(2, 4)
            me, g, tm, on, vol, pr = setup(dim)
            n = len(g.act)
            Q, _ = np.linalg.qr(rs.randn(dim, dim))
            al = rs.rand(dim) + 0.1
            nall = tm.n_cells
            reg = R.SmoothnessFullGradient(tm, active_cells=on, alphas=al, reg_dirs=Q)
            m = rs.randn(n)
            derivs("rotated", reg, m)
            # turning the directions and the order of the weights together changes nothing; equal weights make directions irrelevant
            p = rs.permutation(dim)
            near("rotated:order-of-directions", R.SmoothnessFullGradient(tm, active_cells=on, alphas=al[p], reg_dirs=Q[:, p])(m), reg(m))
            near("rotated:isotropic", R.SmoothnessFullGradient(tm, active_cells=on, alphas=np.ones(dim), reg_dirs=Q)(m), R.SmoothnessFullGradient(tm, active_cells=on, alphas=np.ones(dim))(m))
            near("rotated:per-cell", R.SmoothnessFullGradient(tm, active_cells=on, alphas=np.tile(al, (nall, 1)), reg_dirs=np.tile(Q, (nall, 1, 1)))(m), reg(m))
            near("rotated:constant", reg(m + 3.7), reg(m))
            ref = rs.randn(n)
            v0 = reg(m - ref)
            reg.reference_model = ref
            near("rotated:reference", reg(m), v0)
            # a linear function on an even mesh: the value density in the interior is the anisotropic norm of its slope
            N = 9
            em = discretize.TensorMesh([N] * dim)
            s = rs.randn(dim)
            x = em.cell_centers @ s
            w = np.zeros(em.n_cells)
            mid = np.all(np.abs(em.cell_centers - em.cell_centers.mean(axis=0)) < 0.2, axis=1)
            w[mid] = 1.0
            reg = R.SmoothnessFullGradient(em, alphas=al, reg_dirs=Q)
            reg.set_weights(c=w)
            near("rotated:slope", reg(x), em.cell_volumes[mid].sum() * (s @ Q @ np.diag(al) @ Q.T @ s), tol=2000)
        elif kind == "tree":
            dim = rs.randint(2, 4)
            N = 4
            tr = discretize.TreeMesh([N] * dim)
            uni = rs.randint(2) == 0
            if uni:
                tr.refine(-1)
            else:
                tr.refine_points(rs.rand(2, dim), 2, padding_cells_by_level=[1], finalize=True) if hasattr(tr, "refine_points") else tr.refine(-1)
            nc = tr.n_cells
            on = rs.rand(nc) < 0.8
            on[:3] = True
            on = on if rs.randint(2) else None
            n = nc if on is None else int(on.sum())
            ref = rs.randn(n)
            kw = dict(active_cells=on, reference_model=ref, reference_model_in_smooth=bool(rs.randint(2)))
            cls = [R.WeightedLeastSquares, R.Sparse][rs.randint(2)]
            if cls is R.WeightedLeastSquares:
                kw.update(alpha_xx=0.3)
            reg = cls(tr, **kw)
            if cls is R.Sparse:
                reg.update_weights(rs.randn(n))
            m = rs.randn(n)
            derivs("tree", reg, m)
            for o in reg.objfcts[1:]:
                near("tree:constant", o(m + 2.5), o(m))
            cc = tr.cell_centers if on is None else tr.cell_centers[on]
            if uni:
                tm = discretize.TensorMesh([N] * dim)
                from scipy.spatial import cKDTree
                where = cKDTree(tm.cell_centers).query(tr.cell_centers)[1]
                on2 = None
                if on is not None:
                    on2 = np.zeros(tm.n_cells, bool)
                    on2[where[on]] = True
                order = np.argsort(where if on is None else where[on])
                kw.update(active_cells=on2, reference_model=ref[order])
                rt = cls(tm, **kw)
                rg = cls(tr, **dict(kw, active_cells=on, reference_model=ref))
                near("tree:equals-tensor", rg(m), rt(m[order]))
                near("tree:equals-tensor-gradient", rg.deriv(m)[order], rt.deriv(m[order]))
            # slopes along the axes
            for a, o in zip("xyz", [o for o in reg.objfcts if type(o).__name__ in ("SmoothnessFirstOrder", "SparseSmoothness")]):
                s = cc[:, "xyz".index(a)]
                o.reference_model_in_smooth = False
                fm = o.f_m(s)
                true("tree:slope", np.all((np.abs(fm - 1) < 0.51) | (np.abs(fm) < 1e-9)) if not uni else np.all((np.abs(fm - 1) < 1e-9) | (np.abs(fm) < 1e-9)))
        elif kind == "pgi":
            pgi(item, rs, near, true, derivs, setup, ev, case, dense)
    except Exception as exc:
        ev.append(exc_event(case, exc))
    return ev


def sum_faces(pr, x, n, _=0):
    """difference quotients averaged to cells, half of each face"""
    out = np.zeros(n)
    for i, j, d in pr:
        t = (x[j] - x[i]) / d
        out[i] += 0.5 * t
        out[j] += 0.5 * t
    return out


def boundary_max(g, a, tot):
    """values of the boundary faces along a: those of the adjacent cells"""
    return max([tot[i] for i, c in enumerate(g.act) if g.ix(c, a) in (0, g.n[a] - 1)])


def lp_with(lp, full, _, p, eps, scaled, boundary):
    return lp(np.r_[full, boundary], p, eps, scaled)[:-1]


def pgi(item, rs, near, true, derivs, setup, ev, case, dense):
    from simpeg import regularization as R, maps
    from simpeg.utils.pgi_utils import WeightedGaussianMixture
    me, g, tm, on, vol, pr = setup(rs.randint(1, 4))
    n = len(g.act)
    cov = ["full", "tied", "diag", "spherical"][item["seed"] % 4]
    K = rs.randint(2, 4)
    mu = rs.randn(K, 2) * 4
    rm = R.RegularizationMesh(tm, active_cells=on)
    import discretize
    clf = WeightedGaussianMixture(mesh=discretize.TensorMesh([n]), n_components=K, covariance_type=cov, max_iter=50, n_init=1, random_state=1, reg_covar=1e-3)
    X = np.vstack([mu[k] + rs.randn(max(n, 12), 2) @ (rs.randn(2, 2) * 0.4 + np.eye(2) * 0.5) for k in range(K)])
    clf = WeightedGaussianMixture(mesh=discretize.TensorMesh([len(X)]), n_components=K, covariance_type=cov, max_iter=100, n_init=1, random_state=1, reg_covar=1e-2)
    clf.fit(X)
    wires = maps.Wires(("a", n), ("b", n))
    exp = rs.randint(2) == 0
    ml = [maps.ExpMap(nP=n) if exp else maps.IdentityMap(nP=n), maps.IdentityMap(nP=n)]
    uw = rs.rand(n) + 0.5
    reg = R.PGIsmallness(clf, mesh=rm, wiresmap=wires, maplist=ml, approx_gradient=True, approx_eval=True, approx_hessian=True)
    reg.set_weights(u=uw)

    def prec(k):
        P = reg.gmm.precisions_
        return P if cov == "tied" else P[k] if cov == "full" else np.diag(np.ones(2) * P[k])

    def mapped(m):
        return np.c_[np.exp(m[:n]) if exp else m[:n], m[n:]]
    for step in range(5):
        m = rs.randn(2 * n)
        if step == 0:
            ref = rs.randn(2 * n)
            reg.reference_model = ref
        lab = np.array([np.argmin([np.sum((ref.reshape((n, 2), order="F")[i] - c) ** 2) for c in reg.gmm.means_]) for i in range(n)])
        r = (mapped(m) - ref.reshape((n, 2), order="F")) * np.sqrt(vol * uw)[:, None]
        near("pgi:value", reg(m), sum(r[i] @ prec(lab[i]) @ r[i] for i in range(n)))
        if not exp:
            derivs("pgi", reg, m)
        else:                                         # Gauss-Newton Hessian
            derivs("pgi", reg, m, hess="psd")
            J = np.r_[np.exp(m[:n]), np.ones(n)]
            v = rs.randn(2 * n)
            rv = (J * v).reshape((n, 2), order="F") * (vol * uw)[:, None]
            near("pgi:hessian-product", reg.deriv2(m, v), 2 * J * np.array([prec(lab[i]) @ rv[i] for i in range(n)]).ravel(order="F"))
        k = step % 3
        if k == 0:
            ref = rs.randn(2 * n) * 3
            reg.reference_model = ref
        elif k == 1:
            clf2 = WeightedGaussianMixture(mesh=discretize.TensorMesh([len(X)]), n_components=K, covariance_type=cov, max_iter=100, n_init=1, random_state=1, reg_covar=1e-2)
            clf2.fit(X * rs.uniform(0.5, 2))
            reg.gmm = clf2
        else:
            uw = rs.rand(n) + 0.5
            reg.set_weights(u=uw)
    full = R.PGIsmallness(clf, mesh=rm, wiresmap=wires, maplist=ml, approx_gradient=False, approx_eval=False, approx_hessian=False)
    full.reference_model = ref
    full.set_weights(u=uw)
    m = np.r_[rs.randn(n) * 0.3, rs.randn(n)] + 0.0
    v = rs.randn(2 * n)
    gg = full.deriv(m)
    sc = np.abs(gg).max() * np.abs(v).sum()
    near("pgi-full:gradient-fits-value", [gg @ v / sc], [fdm(full, m, v) / sc], tol=200, floor=1.0)
    near("pgi-full:hessian-matrix-fits-product", dense(full.deriv2(m)) @ v, full.deriv2(m, v), tol=256)
    comb = R.PGI(rm, clf, wiresmap=wires, maplist=ml, alpha_pgi=2.0, alpha_x=0.5)
    comb.reference_model = ref
    near("pgi:sum", comb(m), sum(a * o(m) for a, o in zip(comb.multipliers, comb.objfcts)))
    near("pgi:membership", reg.membership(m), [int(np.argmax(x)) for x in reg.gmm.predict_proba(mapped(m))], floor=1.0)


def one(it):
    return run_hist(it) if "hist" in it else run_num(it)


def run(ctx):
    import os, fnmatch
    ctx.model("Reg", "SPECIFICATION RSpec\nCONSTANTS Kinds = %s\n Ms0 <- DMesh\n Acts <- DActs\n WVals = %s\n Models <- %s\nINVARIANTS CachesCurrent AnswerIsDefinition DerivativesFit\nCHECK_DEADLOCK FALSE\n" % (('{"small", "first", "second"}', "{2}", "DModels1") if ctx.quick else ('{"small", "first", "second"}', "{2, 3}", "DModels")),
              need_actions=("SetW", "DelW", "SetRef", "SetAct", "Ask"), light=("AnswerIsDefinition", "DerivativesFit"))
    items = []
    for rough in (False, True):
        beh = ctx.behaviours("RegGen", "SPECIFICATION GSpec\nCONSTANTS Depth = 16\n Rough = %s\nCHECK_DEADLOCK FALSE\n" % str(rough).upper(), name="RegGen%d" % rough,
                             simulate=200 if ctx.quick else 3000, depth=20)
        items += [dict(case="%s/%s%d" % (h[0]["cls"], "rough" if rough else "even", i), hist=h, rough=rough, seed=ctx.seed * 77 + i) for i, h in enumerate(beh)]
    for k, n in (("cross", 12), ("jtv", 10), ("corr", 4), ("sparse", 24), ("vector", 12), ("rotated", 10), ("tree", 12), ("pgi", 12)):
        items += [dict(case="%s/num%d" % (k, i), num=k, seed=ctx.seed * 1009 + i) for i in range(n if ctx.quick else 12 * n)]
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    ctx.validate("TraceReg", ctx.pmap(one, items), chunk=400)
