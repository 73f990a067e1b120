"""C17: assignments.  Every public setting of the objects of a catalogue is given good and bad values;
what is accepted, what is read back and what the rest of the object looks like afterwards is judged by
TLC (TraceAssign) against the domains of the settings (spec/domains.json) and, for the validators
themselves, against their specification (Validate)."""
import contextlib, fnmatch, hashlib, inspect, io, json, os, shutil, tempfile, time, warnings
import numpy as np
import scipy.sparse as sp
from vf.core import exc_event, VERIF, MachineryError
import zoo

warnings.filterwarnings("ignore")


# ------------------------------------------------------------------ the objects
def first(root, cls):
    """the first object of a class in a survey"""
    for s in root.source_list:
        if type(s) is cls:
            return s
        if type(getattr(s, "waveform", None)) is cls:
            return s.waveform
        for r in getattr(s, "receiver_list", []):
            if type(r) is cls:
                return r


def label(cls):
    return cls.__module__.replace("simpeg.", "").replace("electromagnetics", "em").replace("potential_fields", "pf") + ":" + cls.__name__


def catalogue():
    import discretize
    import simpeg
    from simpeg import maps, data, data_misfit, regularization, directives, optimization, inverse_problem, inversion, simulation, survey, meta, objective_function
    zoo.load()
    cat = {}
    for n, e in zoo.ZOO.items():
        s = e.sim()
        cat.setdefault(label(type(s)), e.sim)
        sv = s.survey
        cat.setdefault(label(type(sv)), e.survey)
        for src in getattr(sv, "source_list", []):
            for o in (src, getattr(src, "waveform", None), *getattr(src, "receiver_list", [])):
                if o is not None and type(o).__module__.startswith("simpeg"):
                    cat.setdefault(label(type(o)), lambda e=e, c=type(o): first(e.survey(), c))
    mesh = discretize.TensorMesh([4, 3], "CC")
    m3 = discretize.TensorMesh([3, 2, 2])
    n = mesh.nC
    w2 = maps.Wires(("a", n), ("b", n))

    def lin():
        sv = survey.BaseSurvey([survey.BaseSrc([survey.BaseRx(np.zeros((5, 1)))])])
        return simulation.LinearSimulation(survey=sv, model_map=maps.IdentityMap(nP=n), G=np.random.RandomState(1).randn(5, n))

    def dat():
        return data.Data(lin().survey, dobs=np.arange(5.0), standard_deviation=0.1)

    def mis():
        s = lin()
        return data_misfit.L2DataMisfit(data=data.Data(s.survey, dobs=np.arange(5.0), standard_deviation=0.1), simulation=s)

    def prob():
        return inverse_problem.BaseInvProblem(mis(), regularization.WeightedLeastSquares(mesh), optimization.InexactGaussNewton(maxIter=2), beta=1.0)
    more = [lin, dat, lambda: data.SyntheticData(lin().survey, dobs=np.arange(5.0), dclean=np.ones(5)), mis, prob, lambda: inversion.BaseInversion(prob(), []),
            lambda: directives.DirectiveList(directives.BetaSchedule()), lambda: meta.MetaSimulation([lin()], [maps.IdentityMap(nP=n)]), lambda: meta.SumMetaSimulation([lin()], [maps.IdentityMap(nP=n)]),
            lambda: meta.RepeatedSimulation(lin(), [maps.IdentityMap(nP=n)] * 2),
            lambda: objective_function.L2ObjectiveFunction(nP=4), lambda: objective_function.L2ObjectiveFunction(nP=4) + 2 * objective_function.L2ObjectiveFunction(nP=4),
            lambda: survey.BaseRx(np.zeros((3, 2))), lambda: survey.BaseSrc([], location=[0.0, 1.0]), lambda: survey.BaseSurvey([]), lambda: survey.BaseTimeRx(np.zeros((3, 2)), np.arange(3.0)),
            lambda: survey.RxLocationBased(np.zeros((3, 2))) if hasattr(survey, "RxLocationBased") else None]
    R = regularization
    for c in ("Smallness", "SmoothnessFirstOrder", "SmoothnessSecondOrder", "WeightedLeastSquares", "Sparse", "SparseSmallness", "SparseSmoothness", "BaseRegularization", "AmplitudeSmallness", "AmplitudeSmoothnessFirstOrder", "VectorAmplitude"):
        if hasattr(R, c):
            kw = dict(orientation="x") if "Smoothness" in c else {}
            if "mplitude" in c:
                more.append(lambda c=c, kw=kw: getattr(R, c)(mesh, mapping=maps.IdentityMap(nP=2 * n), **kw))
            else:
                more.append(lambda c=c, kw=kw: getattr(R, c)(mesh, **kw))
    more += [lambda: R.CrossGradient(mesh, w2), lambda: R.JointTotalVariation(mesh, w2), lambda: R.LinearCorrespondence(mesh, w2),
             lambda: R.CrossReferenceRegularization(m3, np.r_[0.0, 1.0, 0.0]), lambda: R.RegularizationMesh(mesh)]
    for c in vars(directives).values():
        if inspect.isclass(c) and issubclass(c, directives.InversionDirective):
            more.append(c)
    for c in vars(optimization).values():
        if inspect.isclass(c) and issubclass(c, (optimization.Minimize, optimization.Remember)) or c in (getattr(optimization, "StoppingCriteria", 0), getattr(optimization, "IterationPrinters", 0)):
            more.append(c)
    more += [lambda: maps.ExpMap(nP=4), lambda: maps.InjectActiveCells(mesh, np.arange(n) % 2 == 0, 1.0), lambda: maps.LogisticSigmoidMap(nP=4, lower_bound=0, upper_bound=2.0), lambda: maps.Weighting(nP=3, weights=np.ones(3)),
             lambda: maps.Mesh2Mesh([mesh, mesh]), lambda: maps.SelfConsistentEffectiveMedium(sigma0=1e-3, sigma1=1.0, nP=4), lambda: maps.ParametricCircleMap(mesh), lambda: maps.ParametricLayer(mesh), lambda: maps.ParametricBlock(mesh),
             lambda: maps.ParametricEllipsoid(mesh), lambda: maps.ParametricPolyMap(mesh, 2), lambda: maps.ParametricSplineMap(mesh, np.r_[-0.3, 0.0, 0.2, 0.4, 0.5]), lambda: maps.ParametricCasingAndLayer(discretize.CylindricalMesh([4, 1, 4])), lambda: maps.SurjectFull(mesh), lambda: maps.SurjectVertical1D(mesh),
             lambda: maps.Surject2Dto3D(m3), lambda: maps.SphericalSystem(nP=6), lambda: maps.Projection(5, np.r_[1, 3]), lambda: maps.LinearMap(np.ones((2, 3))), lambda: maps.ComplexMap(nP=4), lambda: maps.PolynomialPetroClusterMap(), lambda: maps.TileMap(*_tiles()), lambda: maps.Wires(("a", 2), ("b", 3)), lambda: maps.EffectiveSusceptibilityMap(nP=3, ambient_field_magnitude=5e4)]
    for f in more:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                o = f()
        except Exception:
            continue
        if o is not None:
            cat.setdefault(label(type(o)), f)
    return cat


def _tiles():
    import discretize
    g = discretize.TreeMesh([4, 4])
    g.refine(1)
    return g, np.ones(g.nC, bool), g


# ------------------------------------------------------------------ reading
def near(x):
    return "%.12g" % x if np.isfinite(x) else repr(x)


def tok(x, depth=0, ids=True):
    if x is None or isinstance(x, (bool, int, str, np.bool_, np.integer)):
        return "%s:%r" % (type(x).__name__, x)
    if isinstance(x, (float, np.floating)):
        return "%s:%s" % (type(x).__name__, near(float(x)))
    if isinstance(x, (complex, np.complexfloating)):
        return "%s:%s,%s" % (type(x).__name__, near(x.real), near(x.imag))
    if isinstance(x, (np.ndarray, os.PathLike)) and not isinstance(x, np.ndarray):
        return "path:" + str(x)
    if isinstance(x, np.ndarray) and x.dtype != object:
        if x.dtype.kind in "fc" and x.size < 64:
            return "array%s%s:%s" % (x.shape, x.dtype.str, ",".join(near(abs(v)) if x.dtype.kind == "c" else near(v) for v in x.ravel()))
        return "array%s%s:%s" % (x.shape, x.dtype.str, hashlib.md5(np.ascontiguousarray(x).tobytes()).hexdigest()[:10])
    if isinstance(x, np.ndarray):
        return "objects" + repr(x.tolist())
    if sp.issparse(x):
        c = x.tocsr()
        return "sparse%s:%s" % (x.shape, hashlib.md5(c.data.tobytes() + c.indices.tobytes()).hexdigest()[:10])
    if isinstance(x, (list, tuple)) and depth < 4:
        return "%s(%s)" % (type(x).__name__, ",".join(tok(y, depth + 1, ids) for y in x))
    if isinstance(x, dict) and depth < 4:
        return "dict(%s)" % ",".join("%s=%s" % (k, tok(v, depth + 1, ids)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    return "%s@%x" % (type(x).__name__, id(x)) if ids else type(x).__name__


SKIP = {"model", "debug", "inversion", "deleteTheseOnModelUpdate"}
# settings that hold nothing to give back: refused on purpose whatever the value, or only given before anything is read
NOT_AGAIN = {"parent", "on_disk", "active_cells", "indActive", "ind_active", "actInd", "value_inactive", "valInactive"}


def settable(o):
    # physical properties and their mappings: C05
    return [p for p, v in inspect.getmembers(type(o), lambda q: isinstance(q, property)) if v.fset and not p.startswith("_") and p not in SKIP and getattr(v.fset, "__module__", "") != "simpeg.props"]


def readable(o):
    ps = [p for p, v in inspect.getmembers(type(o), lambda q: isinstance(q, property)) if not p.startswith("_")]
    return ps + [k for k in vars(o) if not k.startswith("_") and k not in ps]


class Raises(str):
    pass


def read(o, a):
    try:
        return getattr(o, a)
    except Exception as exc:
        return Raises("raises " + type(exc).__name__)


def look(o, names):
    return {a: tok(read(o, a), ids=ids) for a, ids in names}


def digest(d):
    return hashlib.md5(json.dumps(d, sort_keys=True).encode()).hexdigest()[:12]


def steady(make):
    """the attributes that are cheap to read and read the same twice; objects made anew at every
    reading are known by their type"""
    o = make()
    held, keep, st = [], [], set(settable(o))
    for a in readable(o):
        t = time.process_time()
        x = read(o, a)
        held += [x, read(o, a)]
        if time.process_time() - t > 0.02 and a not in st:
            continue
        for ids in (True, False) if a in st else (False,):
            if tok(held[-2], ids=ids) == tok(held[-1], ids=ids):
                keep.append((a, ids))
                break
    return keep


# ------------------------------------------------------------------ values
def fun(*a, **k):
    return 1.0


THING = object()
VALUES = dict(neg=-1, zero=0, one=1, two=2, five=5, eight=8, ninetyone=91.0, big=1e6, half=0.5, neghalf=-0.5, onehalf=1.5, tiny=1e-3, true=True, false=False, none=None, word="nonsense", x="x", Z="Z", thing=THING,
              empty=[], ints=[1, 2], ints3=[0, 1, 1], npint=np.int64(3), vec1=np.r_[0.5], vec2=np.r_[1.0, 2.0], vec3=np.r_[1.0, 2.0, 2.0], negvec3=np.r_[-1.0, -2.0, 0.0], idx=np.r_[0, 2], mat23=np.ones((2, 3)), mat32=np.arange(6.0).reshape(3, 2), row=np.ones((1, 3)), deep=np.ones((2, 2, 2, 2)),
              cplx=1j, fun=fun, dict={}, texts=["a", "b"], number="3", bools=[True, False], nested=[[1.0, 2.0, 3.0]], mixed=[1, "a"], cube=np.ones((1, 2, 3)))
DYNAMIC = ["first", "doubled", "spoiled", "shorter", "longer", "negated"]
WORDS = ["volt", "apparent_resistivity", "Apparent_Chargeability", "ram", "disk", "forward_only", "Neumann", "ROBIN", "dirichlet", "mixed", "real", "imag", "complex", "Both", "xx", "xy", "yx", "zx", "zy", "b", "H", "dbdt", "dhdt", "e", "j", "y",
         "geoana", "choclo", "scalar", "vector", "gz", "tmi", "magnetic", "electric", "total", "secondary", "partial", "components", "amplitude", "phase", "apparent_conductivity", "in", "out", "re", "in-phase", "finite_volume", "loop", "biot-savart", "cartesian", "spherical", "linear", "cubic", "head", "circular", "rectangle", "MaxDerivative", "uniform", "dipole-dipole", "pole-pole"]
ALL = list(VALUES) + DYNAMIC + ["w:" + w for w in WORDS]


def pool(cur):
    return list(VALUES) + (DYNAMIC if isinstance(cur, (list, np.ndarray)) else []) + (["w:" + w for w in WORDS] if isinstance(cur, str) and not isinstance(cur, Raises) else [])


def value(name, cur=None):
    if name.startswith("w:"):
        return name[2:]
    if name in VALUES:
        v = VALUES[name]
        return v.copy() if isinstance(v, (np.ndarray, list, dict)) else v
    if isinstance(cur, list):
        cur = list(cur)
        return dict(first=cur[0] if cur else None, doubled=cur + cur, spoiled=cur + [THING], shorter=cur[:-1], longer=cur + cur[:1], negated=cur[::-1])[name]
    c = np.array(cur)
    if c.ndim == 0 or c.dtype.kind not in "fciub":
        return None
    return dict(first=c[0] if len(c) else c, doubled=np.concatenate([c, c]), spoiled=c.astype(object), shorter=c[:-1], longer=np.concatenate([c, c[:1]]), negated=np.logical_not(c) if c.dtype == bool else -c)[name]


def milli(x):
    x = complex(x)
    if x.imag != 0 or not np.isfinite(x.real) or abs(x.real) > 1.9e6:
        return 1999999999
    return int(round(x.real * 1000))


def attempt(f, *a):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return True, f(*a)
    except Exception:
        return False, None


def mro(v):
    return [c.__name__ for c in type(v).__mro__]


def castable(v, dt):
    if isinstance(v, np.ndarray):
        return bool(np.can_cast(v.dtype, dt, "safe"))
    return attempt(lambda: np.asarray(v, dtype=dt))[0]


def describe(v):
    """what a value is, without asking simpeg"""
    import pathlib
    fok, f = attempt(float, v)
    iok, i = attempt(int, v)
    bok, b = attempt(bool, v)
    aok, arr = attempt(np.asarray, v)
    if not aok or arr.dtype.kind not in "fciub":
        aok2, arr2 = attempt(lambda: np.asarray(v, dtype=float))
        shape, vals = (list(arr2.shape), [milli(q) for q in arr2.ravel()[:200]]) if aok2 else (list(arr.shape) if aok else [], [])
    else:
        shape, vals = list(arr.shape), [milli(q) for q in arr.ravel()[:200]]
    islist = isinstance(v, list)
    return dict(none=v is None, str=isinstance(v, str), text=v if isinstance(v, str) else "", fold=v.casefold() if isinstance(v, str) else "", fl=dict(ok=fok, n=milli(f) if fok else 0), it=dict(ok=iok, n=milli(i) if iok else 0),
                bl=dict(ok=bok, v=bool(b) if bok else False), mro=mro(v), islist=islist, elems=[mro(q) for q in v] if islist else [], dup=islist and (lambda r: r[0] and r[1] != len(v))(attempt(lambda: len(set(v)))), call=callable(v), hash=attempt(lambda: set(v if islist else [v]))[0],
                dt={n: castable(v, d) for n, d in (("float", float), ("int", int), ("complex", complex), ("bool", bool))}, loc=attempt(lambda: np.atleast_1d(v).astype(float))[0], shape=shape, vals=vals,
                akind="" if not aok else "b" if arr.dtype == bool else "i" if arr.dtype.kind in "iu" else "o", casts=dict(Path=attempt(pathlib.Path, v)[0], tuple=attempt(tuple, v)[0]))


def seen(r, v):
    """what is read back"""
    same = r is v or (isinstance(r, (bool, int, float, str, complex)) and type(r) is type(v) and r == v)
    d = dict(k="other", n=0, text="", shape=[], vals=[], same=bool(same))
    if isinstance(r, Raises):
        d["k"] = "raises"
    elif r is None:
        d["k"] = "none"
    elif isinstance(r, (bool, np.bool_)):
        d.update(k="bool", n=1000 * int(r))
    elif isinstance(r, (int, np.integer)):
        d.update(k="int", n=milli(r))
    elif isinstance(r, (float, np.floating)):
        d.update(k="float", n=milli(r))
    elif isinstance(r, str):
        d.update(k="str", text=r)
    elif isinstance(r, np.ndarray) and r.dtype.kind in "fciub":
        d.update(k="array", shape=list(r.shape), vals=[milli(q) for q in r.ravel()[:200]])
    elif isinstance(r, (list, tuple)):
        d.update(k="list", n=1000 * len(r))
    return d


def difference(a, b):
    return sorted(k for k in a if a[k] != b.get(k))


def plan(cat, copies):
    """every setter on a few objects: (object, its attributes)"""
    met, out = {}, []
    for key, make in cat.items():
        with contextlib.redirect_stdout(io.StringIO()):
            o = make()
        attrs = []
        for a in settable(o):
            f = getattr(type(o), a).fset
            c = getattr(f, "__code__", None)
            k = (a, c.co_filename, c.co_firstlineno) if c is not None else (a, type(f).__name__)
            if met.get(k, 0) < copies:
                met[k] = met.get(k, 0) + 1
                attrs.append(a)
        if attrs:
            out.append((key, attrs))
    return out


def assign(case, o, names, key, a, p, v, judge, coupled=False):
    """one assignment, recorded"""
    b1 = look(o, names)
    names = [q for q, t in zip(names, look(o, names).values()) if b1[q[0]] == t]
    before = look(o, names)
    given, desc = tok(v), describe(v)
    try:
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            setattr(o, a, v)
        out = "accept"
    except Exception:
        out = "raise"
    after = look(o, names)
    ch = difference(before, after)
    e = dict(op="set", case=case, key=key + "." + a, probe=p, out=out, was=digest(before), state=digest(after), kept=tok(v) == given, judge=judge, coupled=coupled, v=desc, r=seen(read(o, a), v))
    if out == "raise" and ch:
        e["changed"] = ch
    if not judge or key + "." + a not in DOMAINS:
        e["v"] = e["r"] = 0
    return e


def again(case, o, names, key, a, p, coupled=False):
    r = read(o, a)
    if isinstance(r, Raises) or a in NOT_AGAIN:
        return []
    t = tok(r, ids=(a, True) in names)
    try:
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            setattr(o, a, r)
        out = "accept"
    except Exception:
        out = "raise"
    u = tok(read(o, a), ids=(a, True) in names)
    return [dict(op="again", case=case, key=key + "." + a, probe=p, out=out, coupled=coupled, stays=t == u, state="", values=[t[:80], u[:80]])]


def quietly(make):
    with contextlib.redirect_stdout(io.StringIO()):
        return make()


class Scratch:
    def __enter__(self):
        self.tmp, self.cwd = tempfile.mkdtemp(prefix="vf_c17_"), os.getcwd()
        os.chdir(self.tmp)

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.tmp, ignore_errors=True)


def run_object(item):
    case, key = item["case"], item["key"]
    out = [dict(op="new", case=case, state="")]
    with Scratch():
        try:
            def make():
                return quietly(CAT[key])
            names = steady(make)
            for a in item["attrs"]:
                o = make()
                cur = read(o, a)
                out += again(case, o, names, key, a, "initial")
                fresh = None
                for p in pool(cur):
                    # reuse the object while its assignments are refused
                    if fresh is None:
                        fresh = make()
                    e = assign(case, fresh, names, key, a, p, value(p, read(fresh, a)), not (p == "none" and DOMAINS.get(key + "." + a, {}).get("kind") == "cells"))
                    out.append(e)
                    if e["out"] == "accept":
                        out += again(case, fresh, names, key, a, p)
                    if e["out"] == "accept" or e["was"] != e["state"]:
                        fresh = None
        except Exception as exc:
            out.append(exc_event(case, exc))
    return out


def run_history(item):
    case, hist = item["case"], item["hist"]
    keys = sorted(k for k, a in PLAN)
    key = keys[hist[0]["object"] % len(keys)]
    out = [dict(op="new", case=case, state="")]
    with Scratch():
        try:
            o = quietly(CAT[key])
            names, attrs = steady(lambda: quietly(CAT[key])), [a for a in settable(o) if not isinstance(read(o, a), Raises)]
            for q in hist[0]["asks"]:
                out.append(ask(case, q["d"], q["p"]))
            changed = False
            for h in hist[1:]:
                if not attrs:
                    break
                a = attrs[h["a"] % len(attrs)]
                if h["op"] == "again":
                    out += again(case, o, names, key, a, "current", changed)
                    continue
                cur = read(o, a)
                ps = pool(cur)
                p = ps[ALL.index(h["p"]) % len(ps)]
                d = DOMAINS.get(key + "." + a)
                e = assign(case, o, names, key, a, p, value(p, cur), d is not None and d["kind"] in STATIC and not d.get("dynamic"), changed)
                out.append(e)
                if e["out"] == "accept":
                    out += again(case, o, names, key, a, p)
                    changed = True
        except Exception as exc:
            out.append(exc_event(case, exc))
    return out


STATIC = {"float", "integer", "string", "cast", "type", "direction", "callable"}
CLASSES = dict(int=int, float=float, str=str, list=list, dict=dict, bool=bool, ndarray=np.ndarray)


def bound(n):
    return np.inf if n == 2000000000 else -np.inf if n == -2000000000 else n / 1000


def ask(case, d, p):
    """a question to a validator"""
    from simpeg import utils as u
    d = dict(d, none=False)
    v = value(p, [3.0, 4.0])
    k = d["kind"]
    types = tuple(CLASSES[t] for t in d.get("types", [])) or None
    given = tok(v)
    if k == "string":
        d["folded"] = [[w.casefold() for w in ws] for ws in d["words"]]
    f = dict(float=lambda: u.validate_float("q", v, min_val=bound(d["lo"]), max_val=bound(d["hi"]), inclusive_min=d["loin"], inclusive_max=d["hiin"]),
             integer=lambda: u.validate_integer("q", v, min_val=bound(d["lo"]), max_val=bound(d["hi"])),
             string=lambda: u.validate_string("q", v, None if d["free"] else [tuple(w) if len(w) > 1 else w[0] for w in d["words"]], case_sensitive=d["cased"]),
             type=lambda: u.validate_type("q", v, types if len(types) > 1 else types[0], cast=False),
             direction=lambda: u.validate_direction("q", v, dim=d["dim"]), cells=lambda: u.validate_active_indices("q", v, d["n"]),
             array=lambda: u.validate_ndarray_with_shape("q", v, shape=None if d["free"] else [tuple("*" if i < 0 else i for i in s) for s in d["shapes"]] if len(d["shapes"]) > 1 else tuple("*" if i < 0 else i for i in d["shapes"][0]), dtype=tuple(CLASS[t] for t in d["dtypes"]) if len(d["dtypes"]) > 1 else CLASS[d["dtypes"][0]]),
             list=lambda: u.validate_list_of_types("q", v, types if len(types) > 1 else types[0], ensure_unique=d["unique"], min_n=d["lo"], max_n=None if d["hi"] < 0 else d["hi"]),
             location=lambda: u.validate_location_property("q", v, dim=d["dim"] or None), callable=lambda: u.validate_callable("q", v))[k]
    ok, r = attempt(f)
    return dict(op="ask", case=case, d=d, probe=p, v=describe(v), out="accept" if ok else "raise", r=seen(r, v), kept=tok(v) == given)


CLASS = dict(float=float, int=int, complex=complex, bool=bool)
CAT, PLAN, DOMAINS = {}, [], {}


def run(ctx):
    cfg = "SPECIFICATION ASpec\nCONSTANTS Values <- TwoValues\n Dom <- TwoDom\n NormOf <- TwoNorm\n MaxOps = %d\n Order = \"%s\"\nINVARIANTS AlwaysInDomain RejectedChangesNothing DerivedFollows\nCHECK_DEADLOCK FALSE\n"
    ctx.model("Assign", cfg % (4 if ctx.quick else 6, "check first"), need_actions=("Assign", "Again", "Derive"))
    # the mistake the trace is watched for breaks the design
    rc, out = ctx.tlc("Assign", cfg % (3, "store first"), "Assign_mistake")
    if rc == 0 or "is violated" not in out:
        raise MachineryError("storing before checking is not told apart by Assign")
    os.environ["DOMAINS_FILE"] = os.path.join(VERIF, "spec", "domains.json")
    DOMAINS.update(json.load(open(os.path.join(VERIF, "spec", "domains.json"))))
    CAT.update(catalogue())
    PLAN[:] = plan(CAT, 1 if ctx.quick else 3)
    items = [dict(case="object/" + k, key=k, attrs=a, run=run_object) for k, a in PLAN]
    items = [dict(it, case=it["case"] + "/%d" % i, attrs=it["attrs"][i::4]) for it in items for i in range(4) if it["attrs"][i::4]]
    beh = ctx.behaviours("AssignGen", "SPECIFICATION GSpec\nCONSTANTS MaxOps = 12\n Objects = %d\n Probes = {%s}\nCHECK_DEADLOCK FALSE\n" % (len(PLAN), ", ".join('"%s"' % p for p in ALL)), simulate=150 if ctx.quick else 3000, depth=20)
    items += [dict(case="history/%d" % i, hist=h, run=run_history) for i, h in enumerate(beh)]
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    ev = ctx.pmap(one, items)
    ctx.validate("TraceAssign", ev, chunk=2500)
    ctx.assumptions += ["domains are those of spec/domains.json; settings outside it are judged only for refused assignments and reading back", "values are drawn from a pool of %d" % len(ALL)]


def one(it):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return it["run"](it)
