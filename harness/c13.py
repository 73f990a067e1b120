"""C13: composite simulations spread over processes.  Histories of requests (TLC, ParallelGen) are
replayed on the real multiprocessing composites with members that take their time, fail at a given
model and task, raise errors that cannot be sent, or take their process down; TLC judges every answer
against the exact serial composite, every failure as an error, and that nothing waits for ever."""
import copy, fnmatch, os, signal, sys, time, warnings
import multiprocessing as mp
import numpy as np
import scipy.sparse as sp
from vf.core import pair, q, exc_event, NCPU
import c12

HANG = 45
HUNG = mp.get_context("fork").Value("i", 0)                # cases that never came back: a few are enough


class Hang(BaseException):
    pass


class CustomError(Exception):
    """cannot be rebuilt from its arguments on the other side"""

    def __init__(self, where, what):
        super().__init__("%s %s" % (where, what))


class F:
    def __init__(self, m, sq):
        self.u = m ** 2 if sq else m.copy()


def _classes():
    from simpeg import simulation, survey, maps, props

    class PolySim(simulation.BaseSimulation):
        x, xMap, xDeriv = props.Invertible("a model")

        def __init__(self, t):
            super().__init__(survey=survey.BaseSurvey([]))
            self.G, self.H = [np.array(t[k], dtype=float).reshape(len(t[k]), -1) for k in "GH"]
            self.sq, self.fail, self.slow = t["sq"], t["fail"], t["slow"] / 1000.0
            self.xMap = maps.IdentityMap(nP=self.G.shape[1])
            self.survey._vnD = np.r_[self.G.shape[0]]

        def step(self, on, m):
            if self.slow:
                time.sleep(self.slow)
            f = self.fail
            if f["on"] == on and m is not None and m[0] == f["at"]:
                if f["how"] == "exit":
                    os._exit(3)
                if f["how"] == "odd":
                    err = ValueError("member fails")
                    err.held = lambda: None
                    raise err
                raise CustomError(on, m) if f["how"] == "custom" else ValueError("member fails")

        @property
        def model(self):
            return simulation.BaseSimulation.model.fget(self)

        @model.setter
        def model(self, value):
            if value is not None and self.fail["on"] == "model":
                self.step("model", value)
            simulation.BaseSimulation.model.fset(self, value)

        def fields(self, m=None):
            if m is not None:
                self.model = m
            self.step("fields", self.model)
            return F(self.model, self.sq)

        def dpred(self, m=None, f=None):
            if m is not None:
                self.model = m
            f = self.fields(m) if f is None else f
            self.step("dpred", self.model)
            return self.G @ f.u + self.H @ self.model

        def J(self, m, f):
            self.model = m
            if f is not None and not np.array_equal(f.u, F(m, self.sq).u):
                return np.full(self.G.shape, np.nan)
            return self.G * (2 * self.model if self.sq else np.ones(self.G.shape[1])) + self.H

        def Jvec(self, m, v, f=None):
            self.step("jvec", m)
            return self.J(m, f) @ v

        def Jtvec(self, m, v, f=None):
            self.step("jtvec", m)
            return self.J(m, f).T @ v

        def getJtJdiag(self, m, W=None, f=None):
            self.step("diag", m)
            w = np.ones(self.G.shape[0]) if W is None else W.diagonal()
            return np.einsum("i,ij->j", w ** 2, self.J(m, f) ** 2)

    class SqMap(maps.IdentityMap):
        def __init__(self, A):
            super().__init__(nP=A.shape[1])
            self.A = A

        @property
        def shape(self):
            return self.A.shape

        def _transform(self, m):
            return self.A @ (m * m)

        def deriv(self, m, v=None):
            D = self.A @ sp.diags(2.0 * m) if sp.issparse(self.A) else self.A * (2.0 * m)[None, :]
            return D if v is None else D @ v
    me = sys.modules[__name__]
    for c in (PolySim, SqMap):                              # sent between processes by name
        c.__qualname__ = c.__name__
        setattr(me, c.__name__, c)


def mapping(p):
    from simpeg import maps
    A = np.array(p["M"], dtype=float)
    A = A if p.get("how") == "dense" else sp.csr_matrix(A)
    return SqMap(A) if p["sq"] else maps.LinearMap(A)  # noqa: F821


def strip(t):
    return dict(kind=t["kind"], G=t["G"], H=t["H"], sq=t["sq"], fail=t["fail"], sub=[strip(x) for x in t["sub"]], maps=[dict(M=p["M"], sq=p["sq"], b=p["b"]) for p in t["maps"]])


def guard(fn):
    """outcome, value"""
    def on(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on)
    signal.alarm(HANG)
    try:
        return "value", fn()
    except Hang:
        HUNG.value += 1
        return "hang", None
    except Exception as exc:
        return "error", exc
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def kill_children():
    for p in mp.active_children():
        p.kill()
        p.join(5)


def run_case(item):
    from simpeg import meta
    case, hist = item["case"], item["hist"]
    out = [dict(op="new", case=case)]
    st = hist[0]
    n, s = st["n"], copy.deepcopy(st["s"])
    cls = dict(stitch=meta.MultiprocessingMetaSimulation, sum=meta.MultiprocessingSumMetaSimulation, repeat=meta.MultiprocessingRepeatedSimulation)[s["kind"]]
    maps_, subs = [mapping(p) for p in s["maps"]], [PolySim(t) for t in s["sub"]]  # noqa: F821
    before = len(mp.active_children())
    oc, sim = guard(lambda: cls(subs[0] if s["kind"] == "repeat" else subs, maps_, n_processes=st["nproc"]))
    out.append(dict(op="setup", case=case, s=strip(s)))
    if oc != "value":
        out.append(dict(op="exception", case=case, type="construct-" + oc, msg=str(sim)))
        kill_children()
        return out
    out.append(dict(op="procs", case=case, n=len(mp.active_children()) - before, asked=st["nproc"]))
    kept, last, hung = {}, None, False
    for o in hist[1:]:
        k = o["op"]
        if k in ("dpred", "jvec", "jtvec", "diag"):
            m = last if o["again"] and last is not None else o["m"]
            last = m
            x = np.array(m, dtype=float)
            ndat = c12.nd(s)
            w, v = np.array(o["w"][:ndat], dtype=float), np.array(o["v"][:n], dtype=float)
            wk = "matrix" if o["wkind"] == "vector" and s["kind"] == "sum" else o["wkind"]
            W = None if wk == "none" else w if wk == "vector" else sp.diags(w)

            def ask():
                f = None
                if o["f"] == "fresh":
                    f = sim.fields(x.copy())
                elif o["f"] == "kept":
                    f = kept.get(tuple(m))
                if o["keep"] and f is not None:
                    kept[tuple(m)] = f
                return sim.dpred(x, f=f) if k == "dpred" else sim.Jvec(x, v, f=f) if k == "jvec" else sim.Jtvec(x, w, f=f) if k == "jtvec" else sim.getJtJdiag(x, W=W, f=f)
            oc, r = guard(ask)
            out.append(dict(op=k, case=case, m=m, v=o["v"], w=o["w"], wkind=o["wkind"], outcome=oc, got=q(r) if oc == "value" else [], msg=repr(r)[:200] if oc == "error" else ""))
        elif k == "setmodel":
            last = o["m"]
            oc, r = guard(lambda: setattr(sim, "model", np.array(o["m"], dtype=float)))
            out.append(dict(op="store", case=case, m=o["m"], fields=False, outcome=oc))
        elif k == "fields":
            last = o["m"]
            oc, r = guard(lambda: sim.fields(np.array(o["m"], dtype=float)))
            if oc == "value":
                kept[tuple(o["m"])] = r
            out.append(dict(op="store", case=case, m=o["m"], fields=True, outcome=oc))
        elif k == "dpred0":
            if last is None:
                continue
            oc, r = guard(lambda: sim.dpred())
            out.append(dict(op="dpred", case=case, m=last, v=[], w=[], wkind="none", outcome=oc, got=q(r) if oc == "value" else [], msg=repr(r)[:200] if oc == "error" else ""))
        elif k == "maps":
            if any(t["fail"]["on"] != "none" for t in s["sub"]):
                continue
            i = (o["i"] - 1) % len(s["maps"])
            no = len(s["maps"][i]["M"])
            new = dict(M=[r[:n] for r in o["M"][:no]], sq=o["sq"], b=[0] * no)
            if s["kind"] == "repeat" and o["n"] > 0 and len(s["maps"]) < 6:
                s["maps"].append(new)
            elif s["kind"] == "repeat" and o["n"] < 0 and len(s["maps"]) > 1:
                s["maps"].pop(i)
            else:
                s["maps"][i] = new
            kept.clear()
            oc, r = guard(lambda: setattr(sim, "mappings", [mapping(p) for p in s["maps"]]))
            if oc != "value":
                out.append(dict(op="exception", case=case, type="maps-" + oc, msg=str(r)))
                break
            out.append(dict(op="maps", case=case, maps=strip(s)["maps"], nd=int(sim.survey.nD)))
        if out[-1].get("outcome") == "hang":
            hung = True
            break
    if not hung:
        oc, r = guard(lambda: sim.join())
        t1 = time.time()
        while oc == "value" and len(mp.active_children()) > before and time.time() - t1 < 5:
            time.sleep(0.02)
        out.append(dict(op="joined", case=case, outcome=oc, alive=len(mp.active_children()) - before, msg=str(r)))
    kept.clear()
    del sim
    kill_children()
    return out


REAL = ["dc2d/n/noJ", "dc3d/cc/Robin/J", "fdem/e/sigma", "fdem1d/sigma", "tdem/b/sigma", "nsem1d/rec", "grav/expmap", "linear/G-exp", "tomo/exp", "ip3d/cc/sigma/noJ", "vrm/lin", "magpde/J"]


def run_real(item):
    import zoo
    from simpeg import maps, meta
    e, case = zoo.ZOO[item["entry"]], item["case"]
    rs = np.random.RandomState(item["seed"])
    out = [dict(op="new", case=case)]

    def same(what, a, b):
        x, y = pair(np.asarray(a), np.asarray(b), bits=24)
        out.append(dict(op="same", case=case, what=what, got=x, want=y, tol=40))
    n, k, kind = e.model(0).size, rs.randint(2, 4), ["stitch", "sum", "repeat"][rs.randint(3)]
    mps = [maps.Projection(n, rs.permutation(n)) if i else maps.IdentityMap(nP=n) for i in range(k)]
    a, b = [[e.sim() for _ in range(1 if kind == "repeat" else k)] for _ in range(2)]
    ser = dict(stitch=meta.MetaSimulation, sum=meta.SumMetaSimulation, repeat=meta.RepeatedSimulation)[kind](a[0] if kind == "repeat" else a, mps)
    cls = dict(stitch=meta.MultiprocessingMetaSimulation, sum=meta.MultiprocessingSumMetaSimulation, repeat=meta.MultiprocessingRepeatedSimulation)[kind]
    oc, par = guard(lambda: cls(b[0] if kind == "repeat" else b, mps, n_processes=rs.randint(1, k + 1)))
    if oc != "value":
        out.append(dict(op="exception", case=case, type="construct-" + oc, msg=str(par)))
        kill_children()
        return out
    try:
        models = [e.model(0), e.model(1)]
        for step in range(item["n"]):
            m, c = models[rs.randint(2)], rs.randint(4)
            v, w = rs.randn(n), rs.randn(ser.survey.nD)
            if c == 3:
                try:
                    want = ser.getJtJdiag(m, W=sp.diags(w))
                except (NotImplementedError, AttributeError, TypeError):
                    continue
            ask = [lambda x: x.dpred(m), lambda x: x.Jvec(m, v), lambda x: x.Jtvec(m, w), lambda x: x.getJtJdiag(m, W=sp.diags(w))][c]
            want = ask(ser)
            oc, got = guard(lambda: ask(par))
            if oc != "value":
                out.append(dict(op="exception", case=case, type="request-" + oc, msg=repr(got)))
                break
            same("answer-of-the-serial-composite", got, want)
        oc, r = guard(lambda: par.join())
        out.append(dict(op="joined", case=case, outcome=oc, alive=len(mp.active_children())))
    finally:
        kill_children()
    return out


class Unsendable:
    def __reduce__(self):
        raise TypeError("cannot be sent to another process")


def run_odd(item):
    """a member that cannot be sent is refused, and nobody is left waiting"""
    from simpeg import meta, maps
    case, out = item["case"], [dict(op="new", case=item["case"])]
    t = dict(G=[[1, 2]], H=[[0, 1]], sq=False, fail=dict(on="none", at=0, how="raise"), slow=0)
    for k in range(3):
        ms = [PolySim(t) for _ in range(3)]  # noqa: F821
        ms[k].held = Unsendable()
        for cls in (meta.MultiprocessingMetaSimulation, meta.MultiprocessingSumMetaSimulation):
            oc, r = guard(lambda: cls(ms, [maps.IdentityMap(nP=2)] * 3, n_processes=1 + k))
            out.append(dict(op="true", case=case, what="unsendable-member-is-an-error", ok=oc == "error", msg=str(r)))
            out.append(dict(op="true", case=case, what="joining-ends-all-workers", ok=len(mp.active_children()) == 0))
            kill_children()
    return out


def one(it):
    if HUNG.value >= 4:
        return []
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)                                     # workers taken down complain
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return run_real(it) if "entry" in it else run_odd(it) if "odd" in it else run_case(it)
    except Exception as exc:
        kill_children()
        return [exc_event(it["case"], exc)]


def run(ctx):
    import zoo
    from concurrent.futures import ProcessPoolExecutor
    B = "SPECIFICATION Spec\nCONSTANTS W = %d\n MaxReq = %d\n MaxFail = %d\n MaxDeath = %d\n Models = {1, 2}\nINVARIANTS OwnAnswers OwnKeys NothingLeft ErrorsSurface EachOnce\nPROPERTIES Answered JoinEnds\nCHECK_DEADLOCK FALSE\n"
    for i, c in enumerate([(2, 3, 2, 1)] if ctx.quick else [(2, 4, 3, 1), (3, 3, 2, 1), (4, 2, 1, 1)]):
        ctx.model("Parallel", B % c, name="Parallel_%d" % i, need_actions=("Begin", "AskFields", "GetKey", "KeyLost", "Send", "Collect", "Lost", "Join", "Model", "Fields", "Eval", "Stop", "Die"), timeout=3000)
    beh = ctx.behaviours("ParallelGen", "SPECIFICATION GSpec\nCONSTANTS MaxOps = 12\nCHECK_DEADLOCK FALSE\n", simulate=160 if ctx.quick else 3000, depth=40)
    items = [dict(case="exact/%d" % i, hist=h) for i, h in enumerate(beh)]
    zoo.load()
    for e in REAL:
        items += [dict(case="real/%s/%d" % (e, i), entry=e, seed=ctx.seed * 173 + i * 7 + sum(map(ord, e)), n=5 if ctx.quick else 12) for i in range(1 if ctx.quick else 6)]
    items.append(dict(case="unsendable", odd=1))
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    _classes()
    out = []
    with ProcessPoolExecutor(NCPU, mp_context=mp.get_context("fork")) as ex:   # its workers may have children
        for r in ex.map(one, items):
            out += r
    ctx.validate("TraceParallel", out, chunk=400)
