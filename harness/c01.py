"""C01: a simulation's answers depend only on the inputs in force.
Histories come from TLC (HistoryGen); each is replayed on one long-lived simulation
object and every answer is compared by TLC with that of a newly built one."""
import numpy as np
import scipy.sparse as sps
import os, time, fnmatch
from vf.core import q, exc_event
import zoo
from c02 import blocks_of, make_groups

BITS = 28
TOL = 30            # 30 / 2**28 ~ 1.1e-7 of the largest reference value


def near_model(m):
    return m * (1 + 3e-6) + 0.0


def configs(entry, quick):
    """alternative configurations: list of (name, assignments) ; 0 is the initial one"""
    from simpeg import maps
    s = entry.sim()
    acts = []
    for a in sorted(s._act_map_names):
        mp = getattr(s, a, None)
        if mp is None or not hasattr(mp, "deriv"):
            continue
        nout = mp.shape[0]
        new = maps.LinearMap(sps.eye(nout, format="csr") * 1.3) * mp
        acts.append(("map:" + a, a, new, (a, mp)))
    for p, f in sorted(entry.setprops.items()):
        init = None
        for cand in (p + "Map", {"sigma": "rhoMap", "rho": "sigmaMap"}.get(p, "-")):
            if cand in s._act_map_names and getattr(s, cand, None) is not None:
                init = (cand, getattr(s, cand))
        if init is None:
            cur = getattr(s, p, None)
            init = (p, cur)
        acts.append(("prop:" + p, p, f(1), init))
    return acts


def run_entry(item):
    name, hist, seed = item["entry"], item["hist"], item["seed"]
    entry = zoo.ZOO[name]
    case = "%s#%s" % (name, item["h"])
    t0 = time.time()
    ev = [dict(op="new", case=case)]
    try:
        rs = np.random.RandomState(seed * 77 + sum(map(ord, name)) + item["h"])
        acts = configs(entry, True)
        vv = [a for a in acts if a[0].startswith("prop:")]
        if vv and item["h"] % 3 == 0:
            # one value after another, without going back to the initial state in between
            p = vv[item["h"] // 3 % len(vv)]
            acts = [p, (p[0] + "'", p[1], entry.setprops[p[1]](2), p[3])]
        elif len(acts) > 2:
            # rotate so that different histories use different assignments
            o = item["h"] % len(acts)
            acts = acts[o:] + acts[:o]
        acts = (acts + [None, None])[:2]
        m0 = entry.model(0)
        M = [m0, entry.model(1), near_model(m0)]

        def apply(sim, old, new):
            same = old and new and acts[old - 1] and acts[new - 1] and acts[old - 1][1] == acts[new - 1][1]
            if old and acts[old - 1] and not same:
                setattr(sim, *acts[old - 1][3])
            if new and acts[new - 1]:
                setattr(sim, acts[new - 1][1], acts[new - 1][2])

        def has_model(sim):
            return sim.needs_model or getattr(sim, "_has_nested_models", False)
        sim = entry.sim()
        d0 = np.asarray(entry.sim().dpred(m0))
        nD, nP = d0.size, m0.size
        blk = blocks_of(entry, sim)
        bs = np.array([max(np.abs(d0[blk == b]).max(), 1e-300) for b in range(blk.max() + 1)])[blk] if nD == blk.size else np.full(nD, np.abs(d0).max())
        w = rs.choice([-2.0, -1.0, 1.0, 2.0], nD) / bs * bs.max()
        v = rs.choice([-2.0, -1.0, 1.0, 2.0], nP)
        for sl in entry.parts(nP):
            v[sl] *= max(np.abs(m0[sl]).max(), 1e-3)
        W = [None, sps.diags(rs.choice([1.0, 2.0, 3.0], nD) / bs * bs.max()), sps.diags(rs.choice([1.0, 5.0], nD) / bs * bs.max())]
        pool = {}

        def allowed(kind):
            b = kind.rstrip("f") if kind.startswith(("dpred", "jvec", "jtvec")) else kind
            if b == "dpred":
                return True
            if b in ("jvec", "jtvec"):
                return "J" in entry.caps
            return ("getJ" in entry.caps) if b == "getJ" else ("JtJ" in entry.caps)

        def ask(s, kind, c, k, shared):
            m = M[k]
            if kind == "dpred":
                return s.dpred(m)
            if kind in ("dpredf", "jvecf", "jtvecf"):
                f = shared.get((c, k))
                if f is None:
                    f = shared[(c, k)] = s.fields(m)
                if kind == "dpredf":
                    return s.dpred(m, f=f)
                return s.Jvec(m, v, f=f) if kind == "jvecf" else s.Jtvec(m, w, f=f)
            if kind == "jvec":
                return s.Jvec(m, v)
            if kind == "jtvec":
                return s.Jtvec(m, w)
            if kind == "getJ":
                J = s.getJ(m)
                return np.r_[np.asarray(J @ v).ravel(), np.asarray(J.T @ w).ravel()]
            return s.getJtJdiag(m, W=W[int(kind[3])]) if kind != "jtj0" else s.getJtJdiag(m)

        def base(kind):
            return "dpred" if kind.startswith("dpred") else "jvec" if kind.startswith("jvec") else "jtvec" if kind.startswith("jtvec") else kind
        refs, got = {}, []
        c = 0
        for st in hist:
            if st["op"] == "cfg":
                apply(sim, c, st["c"])
                c = st["c"]
                got.append((dict(op="cfg", case=case, c=c), None))
                continue
            k = st["k"]
            if st["op"] == "model":
                if has_model(sim):
                    sim.model = M[k]
                got.append((dict(op="model", case=case, k=k), None))
                continue
            kind = st["kind"]
            if not allowed(kind) or item["skip"](kind):
                continue
            if not has_model(sim):
                if kind != "dpred":
                    continue
                sim.model = None
                val = np.asarray(sim.dpred(None)).ravel()
            else:
                val = np.asarray(ask(sim, kind, c, k, pool)).ravel()
            b = base(kind)
            if (b, c, k) not in refs:
                s2 = entry.sim()
                apply(s2, 0, c)
                if not has_model(s2):
                    refs[(b, c, k)] = np.asarray(s2.dpred(None)).ravel()
                else:
                    refs[(b, c, k)] = np.array(np.asarray(ask(s2, b, c, k, {})).ravel())
            got.append((dict(op="query", case=case, kind=kind, k=k, tol=TOL), np.array(val)))
        # scales per element from the references
        scale, sel = {}, {}
        for b in set(x[0] for x in refs):
            R = np.array([np.abs(refs[x]) for x in refs if x[0] == b])
            mx = np.nan_to_num(R.max(axis=0))
            n = mx.size
            fl = np.zeros(n)
            if b in ("dpred", "jvec") or b == "getJ":
                nd = min(n, nD)
                for u in np.unique(blk) if nd == blk.size else [None]:
                    ix = np.flatnonzero(blk == u) if u is not None else np.arange(nd)
                    fl[ix] = mx[ix].max()
                if n > nd:
                    for sl in entry.parts(n - nd):
                        fl[nd:][sl] = mx[nd:][sl].max()
            else:
                for sl in entry.parts(n):
                    fl[sl] = mx[sl].max()
            sc = np.maximum(mx, 1e-3 * fl)
            scale[b] = 2.0 ** BITS / np.where(sc > 0, sc, 1.0)
            K = np.arange(n)
            if n > 48:
                K = np.unique(np.r_[np.argsort(-mx)[:8], rs.permutation(n)[:40]])
            sel[b] = K
        for (b, cc, k), val in refs.items():
            ev.append(dict(op="ref", case=case, kind=b, c=cc, k=k, v=q((val * scale[b])[sel[b]])))
        for e, val in got:
            if val is not None:
                b = base(e["kind"])
                e["v"] = q((val * scale[b])[sel[b]]) if val.size == scale[b].size else [0]
            ev.append(e)
    except Exception as exc:
        ev.append(exc_event(case, exc))
    if os.environ.get("VF_TIME"):
        print("   ", case, "%.1fs" % (time.time() - t0), flush=True)
    return ev


def never(kind):
    return False


def run_group(item):
    ev = []
    for it in item["items"]:
        ev += run_entry(it)
    return ev


def run(ctx):
    ctx.model("History", "SPECIFICATION HSpec\nCONSTANTS Cfgs = {0, 1}\n Models = {0, 1%s}\n Bound = %d\nINVARIANTS AnswersCurrent WeightsCurrent CachesCurrent PoolHonest\nCHECK_DEADLOCK FALSE\n"
              % ("" if ctx.quick else ", 2", 5 if ctx.quick else 6), need_actions=("SetModel", "SetCfg", "AskFields", "AskProduct", "AskWithFields", "AskJ", "AskDiag"))
    nr = 5 if ctx.quick else 12
    beh = ctx.behaviours("HistoryGen", "SPECIFICATION GSpec\nCONSTANT Rounds = %d\nCHECK_DEADLOCK FALSE\n" % nr, simulate=40, depth=14 * (nr + 1))
    zoo.load()
    names = [n for n in zoo.ZOO if fnmatch.fnmatch(n, os.environ.get("VF_ONLY", "*"))]
    items = []
    for i, n in enumerate(names):
        for r in range(1 if ctx.quick else 3):
            h = (i + r * 13 + ctx.seed) % len(beh)
            items.append(dict(entry=n, hist=beh[h], h=h, k=h, seed=ctx.seed, skip=never))
    ev = ctx.pmap(run_group, make_groups(items), timeout=800 if ctx.quick else 3000)
    ctx.extra["simulations"] = sorted(set(e["case"].split("#")[0] for e in ev))
    ctx.validate("TraceHistory", ev, chunk=300)
