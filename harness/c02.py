"""C02: Jvec, Jtvec, getJ, getJtJdiag and the derivative of dpred are one operator."""
import numpy as np
import scipy.sparse as sps
import time, os, fnmatch
from vf.core import q, BIG, exc_event
import zoo

BITS = 20


def blocks_of(entry, sim):
    """block number of every datum (source-receiver pair); families whose data are
    interleaved get blocks by magnitude only"""
    sizes = [n for b in entry.block_sizes() for n in b]
    nD = sim.survey.nD
    if entry.composable and sum(sizes) == nD:
        return np.repeat(np.arange(len(sizes)), sizes)
    return np.zeros(nD, int)


def scale_rows(R, blk):
    """one scale per block so that the largest entry of the block is 1"""
    s = np.ones(R.shape[0])
    for b in np.unique(blk):
        m = np.abs(R[blk == b]).max() if R.shape[1] else 0
        s[blk == b] = 1.0 / m if m > 0 and np.isfinite(m) else 1.0
    return s


def run_entry(item):
    name, quick, seed, kmodel = item["entry"], item["quick"], item["seed"], item["k"]
    entry = zoo.ZOO[name]
    case = "%s#%d" % (name, kmodel)
    rs = np.random.RandomState(seed * 1000 + kmodel * 17 + sum(map(ord, name)))
    ev = []
    t0 = time.time()
    try:
        sim = entry.sim()
        m = entry.model(kmodel)
        d = np.asarray(sim.dpred(m))
        nD, nP = d.size, m.size
        blk = blocks_of(entry, sim)
        full = "JtJ" in entry.caps or not quick
        if full:
            I = np.arange(nD)
        else:
            I = []
            for b in np.unique(blk):
                w = np.flatnonzero(blk == b)
                k = 3 if len(np.unique(blk)) > 1 else 14
                I += list(rs.permutation(w)[:k])
            I = np.array(sorted(I))
        f = sim.fields(m)
        rows, lens = [], []
        for i in I:
            e = np.zeros(nD)
            e[i] = 1.0
            r = np.asarray(sim.Jtvec(m, e, f=f)).ravel()
            lens.append(r.size)
            rows.append(r if r.size == nP else np.full(nP, np.nan))
        R = np.array(rows)
        B = blk[I]
        ev.append(dict(op="new", case=case, nD=int(sim.survey.nD) if not getattr(sim, "is_amplitude_data", False) else int(nD), nd=int(nD), nP=int(nP), nrow=int(lens[0]) if len(set(lens)) == 1 else -1))
        # one power-of-two unit per model parameter (wired models mix magnitudes)
        unit = np.ones(nP)
        for sl in entry.parts(nP):
            unit[sl] = 2.0 ** np.round(np.log2(np.maximum(np.abs(m[sl]), 0.3 * max(np.abs(m[sl]).max(), 1e-3))))
        R = R * unit[None, :]
        Rn = np.nan_to_num(R) * scale_rows(np.nan_to_num(R), B)[:, None]
        colw = np.abs(Rn).max(axis=0)
        nseg = 1 if nP < 12 else (4 if nP >= 40 else 2)
        segs = np.array_split(np.arange(nP), nseg)
        dirs = []
        for sg in segs:
            top = sg[np.argsort(-colw[sg])[:3]]
            oth = rs.choice(sg, size=min(2, sg.size), replace=False)
            dirs.append(np.unique(np.r_[top, oth]))
        dirs.append(np.unique(np.concatenate([sg[np.argsort(-colw[sg])[:2]] for sg in segs])))
        fd_budget = len(dirs) if not quick else min(3, len(dirs))
        fd_ix = set(rs.permutation(len(dirs))[:fd_budget].tolist())
        for n, C in enumerate(dirs):
            c = rs.choice([-2, -1, 1, 2], size=C.size)
            sc = scale_rows(R[:, C], B)
            Ri = q2(R[:, C] * sc[:, None], 2.0 ** BITS)
            v = np.zeros(nP)
            v[C] = c * unit[C]
            for how in (("passed-fields", "own-fields") if n == 0 else ("own-fields",) if n % 2 else ("passed-fields",)):
                got = np.asarray(sim.Jvec(m, v, f=f) if how == "passed-fields" else sim.Jvec(m, v)).ravel()
                ev.append(dict(op="forward", case=case, how=how, R=Ri, c=c, tol=tolint(entry.tol, C.size),
                               got=q(got[I] * sc, 2.0 ** BITS) if got.size == nD else [BIG]))
            if n in fd_ix:
                h = entry.fdstep / np.abs(c).max()
                g = (np.asarray(sim.dpred(m + h * v)) - np.asarray(sim.dpred(m - h * v))) / (2 * h)
                ev.append(dict(op="fd", case=case, R=Ri, c=c, tol=tolint(entry.fdtol, C.size),
                               got=q(g[I] * sc, 2.0 ** BITS) if g.size == nD else [BIG]))
        # transposed product of several data at once
        Cj = dirs[-1]
        for n in range(2):
            K = rs.permutation(len(I))[:8]
            if n == 0:    # one datum of each block first
                K = np.array([np.flatnonzero(B == b)[-1] for b in np.unique(B)])[:12]
            wi = rs.choice([-2, -1, 1, 2], size=K.size)
            sc = scale_rows(R[:, Cj], B)
            w = np.zeros(nD)
            w[I[K]] = wi * sc[K]
            wmax = np.abs(w).max()
            got = np.asarray(sim.Jtvec(m, w / wmax, f=f if n else None)).ravel() * wmax
            ev.append(dict(op="transposed", case=case, how=["own-fields", "passed-fields"][n], w=wi,
                           R=q2(R[K][:, Cj] * sc[K][:, None], 2.0 ** BITS), tol=tolint(entry.tol, K.size),
                           got=q((got * unit)[Cj], 2.0 ** BITS) if got.size == nP else [BIG]))
        if "getJ" in entry.caps:
            s2 = entry.sim()
            J = s2.getJ(m)
            shape = list(J.shape)
            J = np.asarray(J @ np.eye(nP)) if not isinstance(J, np.ndarray) else J
            ok = J.shape == (nD, nP)
            C = np.unique(np.concatenate(dirs))
            sc = scale_rows(R[:, C], B)
            ev.append(dict(op="explicit", case=case, shape=shape, want=[nD, nP], R=q2(R[:, C] * sc[:, None], 2.0 ** BITS),
                           got=q2((J * unit)[I][:, C] * sc[:, None], 2.0 ** BITS) if ok else [[BIG]], tol=tolint(entry.tol, 2)))
        if "JtJ" in entry.caps:
            s2 = entry.sim()
            C = np.unique(np.concatenate(dirs))
            rm = np.abs(R[:, C]).max(axis=1)
            rm[rm == 0] = 1.0
            for n, how in enumerate(("weights-1", "none", "weights-2")):
                if how == "none":
                    g = np.asarray(s2.getJtJdiag(m)).ravel()
                    g = g * unit ** 2 if g.size == nP else g
                    sc = 2.0 ** 10 / np.abs(R[:, C]).max()
                    Rs, w = R[:, C] * sc, np.ones(nD, int)
                    gs = g * sc ** 2
                else:
                    K = np.sort(rs.permutation(nD)[:8])
                    cw = rs.choice([1, 2, 3], size=K.size)
                    W = np.zeros(nD)
                    W[K] = cw / rm[K] * rm[K].max()
                    g = np.asarray(s2.getJtJdiag(m, W=sps.diags(W))).ravel()
                    g = g * unit ** 2 if g.size == nP else g
                    Rs, w = R[K][:, C] / rm[K][:, None] * 2.0 ** 10, cw
                    gs = g / rm[K].max() ** 2 * 2.0 ** 20
                if g.size != nP:
                    gs = np.full(nP, np.nan)
                tol = int(np.sum(w ** 2) * 2 ** 10 * 1.2) + 10
                ev.append(dict(op="diag", case=case, how=how, R=q2(Rs, 1.0), w=w, got=q(gs[C]), tol=tol))
    except Exception as exc:
        ev.append(exc_event(case, exc))
    if os.environ.get("VF_TIME"):
        print("   ", case, "%.1fs" % (time.time() - t0), flush=True)
    return ev


def q2(M, s):
    return [q(r, s) for r in np.atleast_2d(M)]


def tolint(rel, n):
    return int(np.ceil(rel * 2.0 ** BITS)) + 2 * n + 2


def group_items(names):
    """entries sharing compiled kernels run in one process one after another"""
    return names


def run_group(item):
    ev = []
    for it in item["items"]:
        ev += run_entry(it)
    return ev


def make_groups(items):
    g = {}
    for it in items:
        n = it["entry"]
        if "choclo" in n or n in ("grav/expmap", "mag/expmap"):
            fam = "grav" if n.startswith("grav") else "mag"
            key = "choclo-%s-%s" % (fam, "fwd" if "forward_only" in n else "eql" if "eql" in n else "ram")
        else:
            key = "%s#%d" % (n, it["k"])
        g.setdefault(key, []).append(it)
    order = sorted(g, key=lambda k: 0 if k.startswith("choclo-mag") else 1 if k.startswith("choclo") else 2 if k.startswith("tdem/h") else 3 if k.startswith("tdem/b") else 4 if k.startswith("tdem") else 5)
    return [dict(case=k, items=g[k]) for k in order]


def run(ctx):
    ctx.model("Sens", "SPECIFICATION Spec\nCONSTANT Vals = %s\nINVARIANTS ForwardIsJ AdjointIsJT AdjointIdentity DiagIsNorm\nCHECK_DEADLOCK FALSE\n"
              % ("{0, 1}" if ctx.quick else "{0, 1, 2}"), need_actions=("Forward", "Turn", "Adjoint"))
    zoo.load()
    ks = [0] if ctx.quick else [0, 1, 2]
    items = [dict(entry=n, quick=ctx.quick, seed=ctx.seed, k=k) for n, e in zoo.ZOO.items() if "J" in e.caps for k in ks
             if fnmatch.fnmatch(n, os.environ.get("VF_ONLY", "*"))]
    ev = ctx.pmap(run_group, make_groups(items), timeout=800 if ctx.quick else 3000)
    ctx.extra["simulations"] = sorted(set(e["case"].split("#")[0] for e in ev))
    ctx.validate("TraceSens", ev, chunk=60)
