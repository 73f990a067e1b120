"""C15: the data of a survey are the concatenation of what each source-receiver pair gives alone."""
import numpy as np
import os, time, fnmatch
from vf.core import q, exc_event
import zoo
from c02 import make_groups

BITS = 26
TOL = 40          # 40 / 2**26 = 6e-7 of the pair's largest datum

# layered simulations interpolate in offset or time between the extremes of the survey
LOOSE = ("tdem1d", "dc1d")


def part(n, p):
    if p == "all":
        return np.arange(n)
    if p == "rev":
        return np.arange(n)[::-1]
    if p == "first":
        return np.array([0])
    if p == "last":
        return np.array([n - 1])
    return np.arange(1, n) if n > 1 else np.array([0])


def nlocs(rx):
    lo = rx.locations
    return lo[0].shape[0] if isinstance(lo, (list, tuple)) else lo.shape[0]


def dims(name, rx):
    """locations, times, components measured by a receiver, in its data order"""
    nl, nt, nc = nlocs(rx), 1, 1
    if name.startswith(("grav", "mag", "mvi")) and not name.startswith("magpde"):
        nc = len(rx.components)
    elif getattr(rx, "times", None) is not None:
        nt = len(rx.times)
    if name.startswith(("vrm", "fdem1d")) or nl * nt * nc != rx.nD:
        return None
    return nl, nt, nc


def sub_rx(name, rx, d, pl, pt, pc):
    nl, nt, nc = d
    if nc > 1:
        return type(rx)(rx.locations[part(nl, pl)], components=[rx.components[i] for i in part(nc, pc)])
    if pl != "all":
        lo = rx.locations
        ix = part(nl, pl)
        rx.locations = type(lo)([a[ix] for a in lo]) if isinstance(lo, (list, tuple)) else lo[ix]
    if nt > 1 and pt != "all":
        rx.times = np.asarray(rx.times)[part(nt, pt)]
    return rx


def run_entry(item):
    name, seed = item["entry"], item["seed"]
    entry = zoo.ZOO[name]
    case = "%s#%s" % (name, item["k"])
    t0 = time.time()
    ev = [dict(op="new", case=case)]
    try:
        rs = np.random.RandomState(seed * 31 + sum(map(ord, name)))
        m = entry.model(item["k"])
        nP = m.size
        hasJ = "J" in entry.caps and item["J"]
        v = rs.choice([-2.0, -1.0, 1.0, 2.0], nP)
        for sl in entry.parts(nP):
            v[sl] *= max(np.abs(m[sl]).max(), 1e-3)
        tol = int(1e-3 * 2 ** BITS) if name.startswith(LOOSE) else TOL
        npairs = [len(rx) for _, rx in entry.specs]
        D, JV, SC, JSC, JT, WT, DIM = {}, {}, {}, {}, {}, {}, {}
        allp = [(s, r) for s in range(len(npairs)) for r in range(npairs[s])]
        # the pairs used by the selections
        sels, used = [], set()
        for h in item["sels"]:
            sel, seen = [], []
            for src in h:
                s = (src["s"] - 1) % len(npairs)
                rr = []
                for x in src["rx"]:
                    r = (x["r"] - 1) % npairs[s]
                    rr.append(dict(x, r=r))
                    used.add((s, r))
                sel.append((s, rr))
            if len(npairs) == 1 or not item["multi"]:
                sel = sel[:1]
            if any(len(s2) > 0 for s2 in [sel]):
                sels.append(sel)
        sels.append([(s, [dict(r=r, pl="all", pt="all", pc="all") for r in range(npairs[s])]) for s in reversed(range(len(npairs)))])
        for s, r in allp:
            sim = entry.sim([(s, [r])])
            d = np.asarray(sim.dpred(m)).ravel()
            rx = entry.specs[s][1][r]()
            dm = dims(name, rx)
            DIM[s, r] = dm
            if dm is None:
                dm = (d.size, 1, 1)
            sc = 2.0 ** BITS / max(np.abs(d).max(), 1e-300)
            D[s, r], SC[s, r] = d, sc
            e = dict(op="pair", case=case, s=s, r=r, nl=dm[0], nt=dm[1], nc=dm[2], d=q(d, sc), jv=[])
            if hasJ:
                jv = np.asarray(sim.Jvec(m, v)).ravel()
                JSC[s, r] = 2.0 ** BITS / max(np.abs(jv).max(), 1e-300)
                e["jv"] = q(jv, JSC[s, r])
                w = rs.choice([-1.0, 1.0, 2.0], d.size) / max(np.abs(d).max(), 1e-300)
                WT[s, r] = w
                JT[s, r] = np.asarray(sim.Jtvec(m, w)).ravel()
            ev.append(e)
        for sel in sels:
            srcs, flat, scv, jscv = [], [], [], []
            for s, rr in sel:
                sf, rxs = entry.specs[s]
                lst = []
                for x in rr:
                    r = x["r"]
                    dm = DIM[s, r]
                    rx = rxs[r]()
                    x = dict(x)
                    if dm is None:
                        x.update(pl="all", pt="all", pc="all")
                    else:
                        if dm[2] == 1:
                            x["pc"] = "all"
                        if dm[1] == 1:
                            x["pt"] = "all"
                        rx = sub_rx(name, rx, dm, x["pl"], x["pt"], x["pc"])
                    lst.append(rx)
                    n = rx.nD
                    scv += [SC[s, r]] * n
                    jscv += [JSC.get((s, r), 1.0)] * n
                    flat.append(dict(s=s, r=r, pl=x["pl"], pt=x["pt"], pc=x["pc"]))
                srcs.append(sf(lst))
            sim = entry.mk_sim(entry.mk_survey(srcs))
            if hasattr(type(sim), "solver") and hasattr(type(sim), "solver_opts"):
                from simpeg.utils import get_default_solver
                sim.solver = get_default_solver()
            d = np.asarray(sim.dpred(m)).ravel()
            e = dict(op="survey", case=case, sel=flat, tol=tol, jv=[], d=q(d * np.array(scv)) if d.size == len(scv) else [0])
            if hasJ:
                jv = np.asarray(sim.Jvec(m, v)).ravel()
                e["jv"] = q(jv * np.array(jscv)) if jv.size == len(jscv) else [0]
            ev.append(e)
            whole = all(x["pl"] == "all" and x["pt"] == "all" and x["pc"] == "all" for x in flat)
            if hasJ and whole:
                w = np.concatenate([WT[x["s"], x["r"]] for x in flat])
                jt = np.asarray(sim.Jtvec(m, w)).ravel()
                P = [JT[x["s"], x["r"]] for x in flat]
                mx = max(np.abs(p).max() for p in P)
                K = np.unique(np.r_[np.argsort(-np.abs(jt))[:10], rs.permutation(nP)[:20]])
                ev.append(dict(op="adjoint", case=case, jt=q(jt[K], 2.0 ** 24 / mx), pairs=[q(p[K], 2.0 ** 24 / mx) for p in P], tol=tol))
    except Exception as exc:
        ev.append(exc_event(case, exc))
    if os.environ.get("VF_TIME"):
        print("   ", case, "%.1fs" % (time.time() - t0), flush=True)
    return ev


def run_group(item):
    ev = []
    for it in item["items"]:
        ev += run_entry(it)
    return ev


def run(ctx):
    ctx.model("Compose", "SPECIFICATION CSpec\nCONSTANTS NSrc = %d\n NRx = 2\nINVARIANT DataAreConcatenation\nCHECK_DEADLOCK FALSE\n" % (2 if ctx.quick else 3),
              need_actions=("SolveGroup", "Project"))
    beh = ctx.behaviours("ComposeGen", "SPECIFICATION GSpec\nCONSTANTS MaxSrc = 4\n MaxRx = 4\nCHECK_DEADLOCK FALSE\n", simulate=120, depth=22)
    beh = [b for b in beh if len(b) > 1 or len(b[0]["rx"]) > 1]
    zoo.load()
    names = [n for n, e in zoo.ZOO.items() if e.composable and fnmatch.fnmatch(n, os.environ.get("VF_ONLY", "*"))]
    ns = 3 if ctx.quick else 12
    items = []
    for i, n in enumerate(names):
        sels = [beh[(i * 7 + j * 11 + ctx.seed) % len(beh)] for j in range(ns)]
        items.append(dict(entry=n, sels=sels, k=0, seed=ctx.seed, J=True, multi=not n.startswith(("grav", "mag", "mvi", "richards"))))
    ev = ctx.pmap(run_group, make_groups(items), timeout=800 if ctx.quick else 3000)
    ctx.extra["simulations"] = sorted(set(e["case"].split("#")[0] for e in ev))
    ctx.validate("TraceCompose", ev, chunk=200)
