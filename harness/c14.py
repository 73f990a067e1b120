"""C14: potential fields.  Problems, variants of them and histories of simulations in every
configuration sharing storage paths (TLC, PfGen) are replayed on the real simulations; the reference
is an integral over every cell by quadrature, sharing no formula with the code; TLC judges order,
values, refusals (TracePf), and model-checks the storage protocol (Pf)."""
import os
os.environ["NUMBA_NUM_THREADS"] = "4"                      # parallel kernels really run in parallel
import contextlib, fnmatch, io, shutil, tempfile, time, warnings
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor
import numpy as np
import scipy.sparse as sp
from vf.core import pair, exc_event, NCPU

G0 = 6.6743e-11


# ---------------------------------------------------------------- reference
def quad_kernels(bounds, loc, order):
    """integrals over each cell of the derivatives of 1/r of the given order at loc (outside)"""
    n = 7
    t, w = np.polynomial.legendre.leggauss(n)
    out = []
    for b in bounds:
        lo, hi = b[0::2], b[1::2]
        near = np.clip(loc, lo, hi)
        d = max(np.linalg.norm(loc - near), 1e-3)
        axes = []
        for a in range(3):
            k = int(np.ceil((hi[a] - lo[a]) / d)) if hi[a] - lo[a] > d else 1
            k = min(k, 12)
            ed = np.linspace(lo[a], hi[a], k + 1)
            c, h = (ed[1:] + ed[:-1]) / 2, np.diff(ed) / 2
            axes.append(((c[:, None] + h[:, None] * t).ravel(), (h[:, None] * w).ravel()))
        (x, wx), (y, wy), (z, wz) = axes
        R = np.stack(np.broadcast_arrays(loc[0] - x[:, None, None], loc[1] - y[None, :, None], loc[2] - z[None, None, :])).reshape(3, -1)
        W = (wx[:, None, None] * wy[None, :, None] * wz[None, None, :]).ravel()
        r = np.sqrt((R ** 2).sum(0))
        if order == 1:
            out.append((-R / r ** 3) @ W)
        elif order == 2:
            out.append(np.einsum("ip,jp,p->ij", R, R, 3 * W / r ** 5) - np.eye(3) * np.sum(W / r ** 3))
        else:
            T = -15 * np.einsum("ip,jp,kp,p->ijk", R, R, R, W / r ** 7)
            s = 3 * (R @ (W / r ** 5))
            I = np.eye(3)
            T += np.einsum("ij,k->ijk", I, s) + np.einsum("ik,j->ijk", I, s) + np.einsum("jk,i->ijk", I, s)
            out.append(T)
    return np.array(out)


AX = dict(x=0, y=1, z=2)


def ref_row(p, cache, g, i, comp):
    """row of the operator for one receiver, location and component"""
    loc = p["locs"][g][i]

    def K(order):
        k = (g, i, order)
        if k not in cache:
            cache[k] = quad_kernels(p["bounds"], loc, order)
        return cache[k]
    if p["phys"] == "grav":
        s = comp[1:]
        if comp == "guv":
            T = K(2)
            return G0 * 1e12 * (T[:, 1, 1] - T[:, 0, 0]) / 2
        if len(s) == 1:
            return G0 * 1e8 * K(1)[:, AX[s]]
        return G0 * 1e12 * K(2)[:, AX[s[0]], AX[s[1]]]
    inc, dec = np.radians(p["inc"]), np.radians(p["dec"])
    u = np.array([np.cos(inc) * np.sin(dec), np.cos(inc) * np.cos(dec), -np.sin(inc)])
    if comp == "tmi":
        V = np.einsum("cij,i->cj", K(2), u)
    elif comp.startswith("tmi_"):
        V = np.einsum("cijk,i,j->ck", K(3), u, np.eye(3)[AX[comp[4]]])
    elif len(comp) == 2:
        V = K(2)[:, AX[comp[1]]]
    else:
        V = K(3)[:, AX[comp[1]], AX[comp[2]]]
    V = V / (4 * np.pi)
    if p["mtype"] == "vector":
        return (V * p["amp0"]).T.ravel()                   # all x, then y, then z
    M = p["M"] if p.get("M") is not None else np.tile(u * p["amp0"], (len(V), 1))
    return (V * M).sum(1)


def ref_G(p):
    """the operator, and the size its elements have in any direction (what they are accurate to)"""
    cache = p.setdefault("cache", {})
    G, S = [], []
    for g, gr in enumerate(p["groups"]):
        for i in range(gr["n"]):
            for c in gr["comps"]:
                row = ref_row(p, cache, g, i, c)
                order = (1 if len(c) == 2 else 2) if p["phys"] == "grav" else 2 if len(c) == 2 or c == "tmi" else 3
                T = cache[(g, i, order)]
                size = np.sqrt((T.reshape(len(T), -1) ** 2).sum(1))
                if p["phys"] == "grav":
                    size = size * G0 * (1e8 if order == 1 else 1e12)
                else:
                    M = p["amp0"] if p.get("M") is None else np.linalg.norm(p["M"], axis=1)
                    size = size * M / (4 * np.pi)
                    size = np.tile(size, 3) if p["mtype"] == "vector" else size
                G.append(row)
                S.append(size)
    return np.array(G), np.array(S)


# ---------------------------------------------------------------- problems
def make_mesh(kind, layer, rs, scale, off):
    import discretize
    dim = 2 if layer else 3
    org = (np.r_[5.1e5, 6.02e6, 300.0] if off else np.r_[-1.3, 0.4, -6.0])[:dim]
    if kind in ("tensor", "nonuni"):
        ns = ([3, 2, 2], [2, 3, 2], [4, 2, 1])[rs.randint(3)][:dim]
        hs = [np.ones(n) * [1.0, 2.0, 0.5][rs.randint(3)] if kind == "tensor" else rs.choice([0.5, 1.0, 1.5, 2.0], n) for n in ns]
        return discretize.TensorMesh([h * scale for h in hs], origin=org)
    m = discretize.TreeMesh([np.ones(4) * scale * s for s in [(1.0, 1.0, 1.0), (1.0, 0.5, 1.0)][rs.randint(2)][:dim]], origin=org)
    if kind == "tree":
        m.refine(1, finalize=True)
    else:
        m.refine(1, finalize=False)
        m.insert_cells(org + scale * 0.3, m.max_level, finalize=True)
    return m


def cell_bounds(mesh, layer, zt, zb):
    c = mesh.cell_centers
    h = mesh.h_gridded
    cols = []
    for a in range(c.shape[1]):
        cols += [c[:, a] - h[:, a] / 2, c[:, a] + h[:, a] / 2]
    if layer:
        cols += [zb, zt]
    return np.column_stack(cols)


def problem(st, variant):
    """the problem of a setup, or a variant of it"""
    rs = np.random.RandomState(st["seed"])
    layer = st["dim"] == "layer"
    p = dict(phys=st["phys"], mtype=st["mtype"], amp=st["amp"], layer=layer, map=st["map"])
    scale = 1.15 if variant == "mesh" else 1.0
    mesh = make_mesh(st["mesh"], layer, rs, scale, st["offset"])
    nc = mesh.n_cells
    zt, zb = None, None
    r1, r2 = rs.rand(nc), rs.rand(nc)
    zbase = 300.0 if st["offset"] else 0.0
    if layer:
        zt, zb = (zbase - 0.5 * r1, zbase - 1.2 - r2) if st["zs"] == "array" else (np.full(nc, zbase), np.full(nc, zbase - 1.25))
        if variant == "z":
            zt = zt - 0.3
    order = rs.permutation(nc)
    k = dict(all=nc, some=max(nc - 2, 1), index=max(nc // 2, 1), few=min(2, nc))[st["active"]]
    if variant == "active":
        order = np.roll(order, 1) if k < nc else order
        k = k if k < nc else k - 1
    act = np.zeros(nc, dtype=bool)
    act[order[:k]] = True
    p.update(mesh=mesh, act=act, act_arg=np.sort(order[:k]) if st["active"] == "index" else None if k == nc and st["active"] == "all" else act)
    allb = cell_bounds(mesh, layer, zt, zb)
    p["bounds"], p["nc"] = allb[act], int(act.sum())
    if layer:
        p["zt"], p["zb"] = zt[act], zb[act]
        if st["zs"] == "scalar":
            p["zt"], p["zb"] = float(zt[0]), float(zb[0])
    nodes = mesh.total_nodes if st["mesh"].startswith("tree") else mesh.nodes
    lo, hi = allb[:, 0::2].min(0), allb[:, 1::2].max(0)
    p["locs"], p["groups"] = [], []
    pool = ["gx", "gy", "gz", "gxx", "gyy", "gzz", "gxy", "gxz", "gyz", "guv"] if st["phys"] == "grav" else ["tmi", "bx", "by", "bz", "bxx", "bzz", "tmi_y", "bxy"]
    for g in st["groups"]:
        L = []
        for kind in g["locs"]:
            d = 0.9 + 1.1 * rs.rand()
            x = lo + (hi - lo) * rs.rand(3)
            cell = allb[rs.randint(nc)]
            node = np.array([cell[2 * a + rs.randint(2)] for a in range(3)])
            near = nodes[np.argmin(((nodes - node[:nodes.shape[1]]) ** 2).sum(1))]
            node[:nodes.shape[1]] = near                   # aligned to the last digit, or clearly not aligned
            x[2] = hi[2] + d
            if kind == "node":
                x[:2] = node[:2]
            elif kind == "edge":
                x[0] = node[0]
            elif kind == "centre":
                x[:2] = (cell[0:4:2] + cell[1:4:2]) / 2
            elif kind == "side":
                x[0], x[2] = hi[0] + d, lo[2] + (hi[2] - lo[2]) * rs.rand()
            elif kind == "planar":
                x[0], x[2] = lo[0] - d, node[2]
            elif kind == "below":
                x[2] = lo[2] - d
            elif kind == "corner":
                x = np.r_[hi[0] + d, node[1], node[2]]
            elif kind == "far":
                x = hi + np.r_[12.0, 9.0, 7.0] * rs.rand(3) + 1
            L.append(x)
        L = np.array(L)
        comps = list(g["comps"])
        if variant == "locs":
            L = L + np.r_[0.0, 0.0, 0.31] * np.sign(L[:, 2:3] - (lo[2] + hi[2]) / 2 + 1e-9)
        if variant == "comps" and not st["amp"]:
            comps = [pool[(pool.index(c) + 1) % len(pool)] if c in pool else "tmi" for c in comps]
            comps = comps if len(set(comps)) == len(comps) else list(g["comps"])[::-1]
        if variant == "order":
            L, comps = L[::-1], comps if st["amp"] else comps[::-1]
        if variant == "fewer" and len(L) > 1:
            L = L[:-1]
        p["locs"].append(L)
        p["groups"].append(dict(comps=comps, n=len(L)))
    p["amp0"], p["inc"], p["dec"] = 50000.0, rs.choice([90.0, -30.0, 62.5, 0.0]), rs.choice([0.0, 20.0, -135.0])
    if variant == "field":
        p["inc"], p["dec"] = p["inc"] * 0.5 + 11, p["dec"] + 7
    if variant == "declination":
        p["dec"] = p["dec"] + 25
    if variant == "amplitude":
        p["amp0"] = 40000.0
    p["ncol"] = p["nc"] * (3 if p["mtype"] == "vector" else 1)
    return p


def survey_of(p):
    from simpeg.potential_fields import gravity, magnetics
    mod = gravity if p["phys"] == "grav" else magnetics
    rxs = [mod.Point(L, components=list(g["comps"])) for L, g in zip(p["locs"], p["groups"])]
    if p["phys"] == "grav":
        return gravity.Survey(gravity.SourceField(rxs))
    return magnetics.Survey(magnetics.UniformBackgroundField(receiver_list=rxs, amplitude=p["amp0"], inclination=p["inc"], declination=p["dec"]))


def mapping(p):
    from simpeg import maps
    n = p["ncol"]
    if p["map"] == "exp":
        return maps.ExpMap(nP=n)
    if p["map"] == "wide":
        rs = np.random.RandomState(n)
        return maps.LinearMap(sp.hstack([sp.diags(rs.rand(n) + 0.5), sp.diags(rs.rand(n) - 1.5)]).tocsr())
    return maps.IdentityMap(nP=n)


def make_sim(p, c, folder):
    from simpeg.potential_fields import gravity, magnetics
    mod = gravity if p["phys"] == "grav" else magnetics
    kw = dict(survey=survey_of(p), engine=c["engine"], store_sensitivities=c["store"], sensitivity_dtype=np.float32 if c["prec"] == 32 else np.float64, numba_parallel=bool(c["par"]))
    if p["act_arg"] is not None:
        kw["active_cells"] = p["act_arg"]
    if c["engine"] == "geoana":
        kw["n_processes"] = c["nproc"] or None
    kw["sensitivity_path"] = os.path.join(folder, ("d%d" if c["engine"] == "geoana" else "f%d") % c["path"])
    kw["rhoMap" if p["phys"] == "grav" else "chiMap"] = mapping(p)
    if p["phys"] == "mag":
        kw.update(model_type=p["mtype"], is_amplitude_data=p["amp"])
    if p["layer"]:
        return mod.SimulationEquivalentSourceLayer(p["mesh"], p["zt"], p["zb"], **kw)
    return mod.Simulation3DIntegral(p["mesh"], **kw)


# ---------------------------------------------------------------- questions
def model(p, k):
    n = p["ncol"] * (2 if p["map"] == "wide" else 1)
    rs = np.random.RandomState(100 + k)
    return rs.randn(n) * (0.5 if p["map"] == "exp" else 1.0)


def maps_at(p, m):
    mp = mapping(p)
    D = mp.deriv(m)
    return np.asarray(mp * m), D.toarray() if sp.issparse(D) else np.asarray(D)


def amp_parts(F):
    B = F.reshape(-1, 3)
    return np.linalg.norm(B, axis=1), B


class Refused(Exception):
    pass


def ask(case, sim, p, c, o, out):
    """one question to a simulation of problem p in configuration c"""
    what, m = o["what"], model(p, o["model"])
    rho, D = maps_at(p, m)
    if p.get("Gref") is None:
        p["Gref"] = ref_G(p)
    G, GS = p["Gref"]
    nd = G.shape[0] // (3 if p["amp"] else 1)
    rs = np.random.RandomState(o["w"] + 17)
    v, u = rs.randn(m.size), rs.randn(nd)
    wt = [None, rs.rand(nd) + 0.2, rs.randn(nd), np.ones(nd)][o["w"]]
    eps = 1e-5 if c["prec"] == 32 and c["store"] != "forward_only" else 3e-7
    tag = "%s/%s" % (c["engine"], c["store"])

    def same(name, got, want, scale):
        got, want = np.asarray(got, dtype=float), np.asarray(want)
        if got.shape != want.shape:
            out.append(dict(op="true", case=case, what=name + "-shape", ok=False, msg=str((got.shape, want.shape, tag))))
            return
        scale = np.where(np.asarray(scale) > 0, scale, 1.0)
        x, y = pair(got / scale, want / scale, bits=24, floor=1.0)
        out.append(dict(op="same", case=case, what=name, got=x, want=y, tol=int(eps * 2 ** 24) + 2, on=tag))

    def data(name, got, want, scale):
        got = np.asarray(got, dtype=float)
        scale = np.where(scale > 0, scale, 1.0)
        if p["amp"]:
            return same(name, got, want, scale)
        if got.shape != (nd,):
            out.append(dict(op="true", case=case, what=name + "-shape", ok=False, msg=str((got.shape, nd, tag))))
            return
        x, y = pair(got / scale, want / scale, bits=24, floor=1.0)
        it, table = iter(y), []
        for g in p["groups"]:
            table.append([{cc: next(it) for cc in g["comps"]} for _ in range(g["n"])])
        out.append(dict(op="data", case=case, what=name, groups=p["groups"], table=table, got=x, tol=int(eps * 2 ** 24) + 2, on=tag))
    F, S = G @ rho, GS @ np.abs(rho)
    if p["amp"]:
        amp, B = amp_parts(F)
        if (amp < 1e-3 * S.reshape(-1, 3).max(1)).any() and what not in ("dpred", "dpredf", "G"):
            return                                         # the amplitude is not differentiable near zero
        nrm = B / np.where(amp > 0, amp, 1.0)[:, None]
        Jf = np.einsum("ik,ikj->ij", nrm, G.reshape(nd, 3, -1))
        Sd = GS.reshape(nd, 3, -1).sum(1)
        loss = (S.reshape(-1, 3).max(1) / np.where(amp > 0, amp, 1.0))[:, None]
        Sd = Sd * loss
    else:
        Jf, Sd = G, GS
    J, SJ = Jf @ D, Sd @ np.abs(D)
    try:
        if what in ("dpred", "dpredf"):
            got = sim.dpred(m) if what == "dpred" else sim.dpred(m, f=sim.fields(m))
            data("data", got, amp if p["amp"] else F, S.reshape(-1, 3).max(1) if p["amp"] else S)
        elif what == "jvec":
            data("jvec", sim.Jvec(m, v), J @ v, SJ @ np.abs(v))
        elif what == "jtvec":
            same("jtvec", sim.Jtvec(m, u), J.T @ u, SJ.T @ np.abs(u))
        elif what == "J":
            got = sim.getJ(m)
            if isinstance(got, (np.ndarray, sp.spmatrix)) or sp.issparse(got):
                same("J", got.toarray() if sp.issparse(got) else np.asarray(got), J, np.where(SJ > 0, SJ, 1.0))
            else:
                data("J-operator", got @ v, J @ v, SJ @ np.abs(v))
                same("J-operator-T", got.T @ u, J.T @ u, SJ.T @ np.abs(u))
        elif what == "G":
            got = sim.G
            if isinstance(got, np.ndarray):
                same("G", np.asarray(got), G, GS)
            else:
                x, y = np.random.RandomState(3).randn(G.shape[1]), np.random.RandomState(4).randn(G.shape[0])
                same("G-operator", got @ x, G @ x, GS @ np.abs(x))
                same("G-operator-T", got.T @ y, G.T @ y, GS.T @ np.abs(y))
        else:
            W = None if wt is None else sp.diags(wt) if o["w"] % 2 else np.diag(wt)
            w2 = np.ones(nd) if wt is None else wt ** 2
            want = (w2[:, None] * J ** 2).sum(0)
            same("diagonal", sim.getJtJdiag(m, W=W), want, (w2[:, None] * SJ ** 2).sum(0))
    except NotImplementedError:
        out.append(dict(op="refused", case=case, ask={"dpredf": "dpred"}.get(what, what), engine=c["engine"], store=c["store"], amp=bool(p["amp"])))


class Fault(Exception):
    pass


@contextlib.contextmanager
def failing_save(at):
    """the disk is full somewhere in the middle of storing"""
    real, hit = np.save, [False]

    def save(name, arr, *a, **k):
        buf = io.BytesIO()
        real(buf, arr, *a, **k)
        b = buf.getvalue()
        if isinstance(name, (str, os.PathLike)):
            name = str(name)
            with open(name if name.endswith(".npy") else name + ".npy", "wb") as f:
                f.write(b[:len(b) * at // 100])
        else:
            name.write(b[:len(b) * at // 100])
        hit[0] = True
        raise OSError("No space left on device")
    np.save = save
    try:
        yield hit
    finally:
        np.save = real


def run_case(item):
    case, hist = item["case"], item["hist"]
    st = hist[0]
    out = [dict(op="new", case=case)]
    folder = tempfile.mkdtemp(prefix="vfpf")
    probs = [problem(st, "")] + [problem(st, v) for v in st["variants"]]
    sims, fault, hurt = [], None, set()
    try:
        for o in hist[1:]:
            k = o["op"]
            if k == "grid":
                grid(case, probs[0], o["par"], out, folder, item.get("stress", 3))
            elif k == "sim":
                if o["engine"] == "choclo" and o["par"] and not item.get("par"):
                    o = dict(o, par=False)                 # compiled once per worker: the grid covers them
                p = dict(probs[o["prob"]])
                s = make_sim(p, o, folder)
                out.append(dict(op="nd", case=case, nd=int(s.survey.nD), groups=p["groups"]))
                sims.append([s, p, o])
                if o["magn"]:
                    set_m(case, sims[-1], 5, out)
            elif k == "fault":
                fault = o["at"]
            elif not sims:
                continue
            elif k == "drop":
                if len(sims) > 1:
                    sims.pop(o["sim"] % len(sims))
            elif k == "magn":
                set_m(case, sims[o["sim"] % len(sims)], o["seed"], out)
            elif k == "ask":
                i = o["sim"] % len(sims)
                s, p, c = sims[i]
                where = (c["engine"], c["path"])
                if fault is not None and c["engine"] == "geoana" and c["store"] == "disk" and not hasattr(s, "_G"):
                    at, fault = fault, None
                    with failing_save(at) as hit:
                        try:
                            ask(case, s, p, c, o, [])
                        except OSError:
                            sims.pop(i)                    # this process gave up
                    if hit[0]:
                        hurt.add(where)
                    continue
                n0 = len(out)
                try:
                    ask(case, s, p, c, o, out)
                except Exception:
                    if where in hurt and c["store"] == "disk":
                        del out[n0:]                       # an error is fine after a failed write; a wrong answer is not
                        continue
                    raise
    finally:
        sims.clear()
        shutil.rmtree(folder, ignore_errors=True)
    return out


def set_m(case, entry, seed, out):
    s, p, c = entry
    if p["phys"] != "mag" or p["mtype"] != "scalar":
        return
    M = np.random.RandomState(seed).randn(p["nc"], 3) * p["amp0"]
    try:
        s.M = M
    except NotImplementedError:
        out.append(dict(op="true", case=case, what="magnetization-refused-by-geoana", ok=c["engine"] == "choclo"))
        return
    q = dict(p, M=M)
    q.pop("Gref", None)
    entry[1] = q


def grid(case, p, par, out, folder, stress):
    """one component: every way of asking for it, both precisions and storage modes"""
    for n, (eng, store, prec) in enumerate([("choclo", "ram", 64), ("choclo", "ram", 32), ("choclo", "disk", 64), ("choclo", "forward_only", 64)] + [("geoana", "ram", 64), ("geoana", "forward_only", 64), ("geoana", "disk", 32)]):
        c = dict(engine=eng, store=store, prec=prec, par=par, nproc=1, path=n)
        s = make_sim(p, c, folder)
        for k, what in enumerate(["dpred", "jvec", "jtvec", "G", "J", "diag"]):
            ask(case, s, p, c, dict(what=what, model=k % 3, w=1 + k % 2), out)
    if par and stress:                                     # many receivers at once
        rs = np.random.RandomState(5)
        b = p["bounds"]
        q = dict(p, locs=[np.c_[b[0, 0] + 8 * rs.rand(300), b[0, 2] + 8 * rs.rand(300), np.full(300, b[:, 5].max() + 1.0) + rs.rand(300)]], groups=[dict(comps=p["groups"][0]["comps"][:1], n=300)])
        q.pop("Gref", None)
        q.pop("cache", None)
        m = model(q, 0)
        ram = make_sim(q, dict(engine="choclo", store="ram", prec=64, par=True, nproc=1, path=90), folder)
        fwd = make_sim(q, dict(engine="choclo", store="forward_only", prec=64, par=True, nproc=1, path=91), folder)
        u = rs.randn(300)
        d0, j0, g0 = ram.dpred(m), ram.Jtvec(m, u), ram.getJtJdiag(m)
        S = np.abs(ram.getJ(m))
        for _ in range(stress):
            for name, got, want, sc in (("parallel-data", fwd.dpred(m), d0, S @ np.abs(m) if p["map"] == "id" else np.abs(d0).max()), ("parallel-jtvec", fwd.Jtvec(m, u), j0, S.T @ np.abs(u)),
                                        ("parallel-diagonal", diag(fwd, m), g0, g0)):
                x, y = pair(got / sc, want / sc, bits=24, floor=1.0)
                out.append(dict(op="same", case=case, what=name, got=x, want=y, tol=20))


def diag(sim, m):
    for a in ("_gtg_diagonal", "_weights_sha256"):
        if hasattr(sim, a):
            delattr(sim, a)                                # ask again in earnest
    return sim.getJtJdiag(m)


def one(it):
    t = time.time()
    r = one_(it)
    return r, time.time() - t


def batch(items):
    return [one(it) for it in items]


def one_(it):
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return run_case(it)
    except Exception as exc:
        return [exc_event(it["case"], exc)]


def run(ctx):
    B = "SPECIFICATION Spec\nCONSTANTS Probs = {1, 2}\n Precs = %s\n Paths = {1}\n MaxSims = %d\n MaxIno = %d\n MaxCrash = %d\nINVARIANTS OwnProblem Answers TagsTrue\nCHECK_DEADLOCK FALSE\n"
    for i, c in enumerate([("{64}", 3, 3, 1)] if ctx.quick else [("{32, 64}", 3, 3, 2), ("{64}", 4, 4, 2)]):
        ctx.model("Pf", B % c, name="Pf_%d" % i, need_actions=("Make", "Drop", "Begin", "Ask", "Untag", "Unlink", "Create", "Fill", "PutTag", "Crash"), timeout=3000)
    grid_ = ctx.behaviours("PfGen", "SPECIFICATION GridSpec\nCONSTANTS MaxOps = 0\n Rich = FALSE\nCHECK_DEADLOCK FALSE\n", name="PfGrid")
    beh = ctx.behaviours("PfGen", "SPECIFICATION GSpec\nCONSTANTS MaxOps = 18\n Rich = %s\nCHECK_DEADLOCK FALSE\n" % ("FALSE" if ctx.quick else "TRUE"), simulate=220 if ctx.quick else 4000, depth=40)
    items = []
    for h in grid_:
        st = h[0]
        if ctx.quick and h[1]["par"] and st["groups"][0]["comps"][0] not in ("gz", "tmi", "tmi_y", "bz"):
            continue                                       # the parallel functions take the kernel as an argument
        items.append(dict(case="grid/%s/%s/%s/%s" % (st["phys"], st["dim"], st["groups"][0]["comps"][0], "par" if h[1]["par"] else "ser"), hist=h, stress=2 if ctx.quick else 30))
    items.sort(key=lambda it: it["case"].endswith("ser"))  # the long ones first
    items += [dict(case="hist/%d" % i, hist=h, par=not ctx.quick) for i, h in enumerate(beh)]
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    # kernels are compiled in every process that uses them: keep like with like
    hs = sorted((i for i in items if i["case"].startswith("hist")), key=lambda i: (i["hist"][0]["phys"], i["hist"][0]["dim"]))
    n = max(1, -(-len(hs) // 12))
    batches = [hs[i:i + n] for i in range(0, len(hs), n)] + [[i] for i in items if not i["case"].startswith("hist")]
    out, took = [], {}
    with ProcessPoolExecutor(NCPU, mp_context=mp.get_context("fork")) as ex:   # its workers may have children
        for bt, rs in zip(batches, ex.map(batch, batches)):
            for it, (r, t) in zip(bt, rs):
                out += r
                took[it["case"]] = t
    if os.environ.get("VF_TIME"):
        print(sorted(((round(t, 1), c) for c, t in took.items()), reverse=True)[:12], sum(took.values()))
    ctx.validate("TracePf", out, chunk=600)
