"""C18: seeded computations are reproducible, inputs stay as they are.  Sessions (TLC, RngGen) of
randomised computations run in several processes, each in its own order; TLC follows the streams and
judges every answer (TraceRng).  The public computations of the zoo and of the utilities are called on
arguments of which every array is fingerprinted before and after."""
import contextlib, fnmatch, hashlib, io, os, random, warnings
import numpy as np
import scipy.sparse as sp
from vf.core import pair, exc_event
import zoo

warnings.filterwarnings("ignore")


def token(*xs):
    h = hashlib.md5()
    for x in xs:
        if sp.issparse(x):
            x = x.tocsr()
            h.update(x.data.tobytes() + x.indices.tobytes() + x.indptr.tobytes())
        elif isinstance(x, np.ndarray):
            h.update(str((x.shape, x.dtype.str)).encode() + (x.tobytes() if x.dtype != object else repr(x.tolist()).encode()))
        else:
            h.update(repr(x).encode())
    return int(h.hexdigest()[:7], 16)


def globe():
    s = np.random.get_state()
    return token(s[0], s[1], s[2:], random.getstate())


def enc(x, n=12):
    """a few entries on the scale of the largest, which comes along"""
    a = np.asarray(x, dtype=float).ravel()
    if a.size == 0 or not np.all(np.isfinite(a)):
        return [int(a.size), -1]
    m = np.abs(a).max()
    idx = np.unique(np.linspace(0, a.size - 1, n).astype(int))
    if m == 0:
        return [int(a.size)] + [0] * len(idx)
    return [int(a.size), int(round(np.log2(m) * 1e6))] + [int(round(v * 1e6)) for v in np.r_[a[idx], np.linalg.norm(a) / np.sqrt(a.size), a.mean()] / m]


# ------------------------------------------------------------------ randomised computations
def problem(arg, two=False):
    from simpeg import maps, data, data_misfit, regularization, simulation, optimization, inverse_problem
    import discretize
    rs = np.random.RandomState(30 + arg)
    mesh = discretize.TensorMesh([rs.uniform(0.5, 2.0, n) for n in ([14] if arg == 1 else [4, 5])])
    n = mesh.nC
    mis = []
    for k in range(2 if two else 1):
        G = rs.randn(9, n)
        sim = simulation.LinearSimulation(model_map=maps.IdentityMap(nP=n) if arg == 1 else maps.ExpMap(nP=n), G=G)
        d = data.Data(sim.survey, dobs=rs.randn(9), standard_deviation=0.1 + rs.rand(9))
        mis.append(data_misfit.L2DataMisfit(data=d, simulation=sim))
    reg = regularization.WeightedLeastSquares(mesh, alpha_s=0.3, reference_model=np.zeros(n))
    dm = mis[0] + mis[1] if two else mis[0]
    prob = inverse_problem.BaseInvProblem(dm, reg, optimization.InexactGaussNewton(maxIter=3, maxIterCG=8), beta=1.0)
    prob.model = 0.1 + 0.2 * rs.rand(n)
    return mesh, dm, reg, prob


def started(d, prob):
    from simpeg import inversion
    prob.opt.print_type = None
    inversion.BaseInversion(prob, [d])          # gives the directive its inversion
    d.initialize()
    return d


def f_noise(arg, seed):
    from simpeg import simulation, maps
    rs = np.random.RandomState(9 + arg)
    if arg == 1:
        sim, m = simulation.LinearSimulation(model_map=maps.IdentityMap(nP=5), G=rs.randn(300, 5)), rs.randn(5)
    else:
        sim, m = zoo.ZOO["grav/choclo/ram"].sim(), zoo.ZOO["grav/choclo/ram"].model(2)
    d = sim.make_synthetic_data(m, relative_error=0.05, noise_floor=0.01, add_noise=True, random_seed=seed)
    return d.dobs - d.dclean


def f_model(arg, seed):
    from simpeg.utils import model_builder
    return model_builder.create_random_model((6, 5) if arg == 1 else 30, random_seed=seed, its=3, bounds=[-1.0, 2.0])


def f_topo(arg, seed):
    from simpeg.electromagnetics.static.utils import genTopography
    import discretize
    return genTopography(discretize.TensorMesh([6, 5, 3] if arg == 1 else [9, 4]), -2.0, 3.0, seed=seed, its=2)[0]


def f_eig(arg, seed):
    from simpeg.utils import eigenvalue_by_power_iteration
    mesh, dm, reg, prob = problem(arg)
    return eigenvalue_by_power_iteration(dm + reg, prob.model, n_pw_iter=2, random_seed=seed)


def f_beta_eig(arg, seed):
    from simpeg import directives
    d = started(directives.BetaEstimate_ByEig(beta0_ratio=2.0, n_pw_iter=2, random_seed=seed), problem(arg)[3])
    return [float(d.beta0), float(d.invProb.beta)]


def f_beta_max(arg, seed):
    from simpeg import directives
    d = started(directives.BetaEstimateMaxDerivative(beta0_ratio=2.0, random_seed=seed), problem(arg)[3])
    return [float(d.beta0), float(d.invProb.beta)]


def f_alphas(arg, seed):
    from simpeg import directives
    mesh, dm, reg, prob = problem(arg)
    started(directives.AlphasSmoothEstimate_ByEig(alpha0_ratio=1.5, n_pw_iter=2, random_seed=seed), prob)
    return [float(x) for x in reg.multipliers]


def f_scaling(arg, seed):
    from simpeg import directives
    mesh, dm, reg, prob = problem(arg, True)
    started(directives.ScalingMultipleDataMisfits_ByEig(n_pw_iter=2, random_seed=seed), prob)
    return [float(x) for x in dm.multipliers]


def f_paired(arg, seed):
    from simpeg import directives, regularization, inverse_problem, optimization
    mesh, dm, reg, prob = problem(arg, True)
    reg = reg + regularization.WeightedLeastSquares(mesh, alpha_s=2.0, length_scale_x=3.0)
    p2 = inverse_problem.BaseInvProblem(dm, reg, optimization.InexactGaussNewton(maxIter=3), beta=1.0)
    p2.model = prob.model
    d = directives.PairedBetaEstimate_ByEig()
    d.seed, d.n_pw_iter = seed, 2
    try:
        started(d, p2)
    except (ValueError, TypeError):     # the multipliers of the similarity measure are not there
        pass
    return d.ratios


def f_gmm(arg, seed):
    from simpeg.utils import WeightedGaussianMixture
    import discretize
    rs = np.random.RandomState(4)
    mesh = discretize.TensorMesh([60])
    X = np.r_[rs.randn(20, 1), rs.randn(25, 1) + 2.0, 0.5 * rs.randn(15, 1) - 3.0]
    g = WeightedGaussianMixture(n_components=4, mesh=mesh, actv=np.ones(60, bool), random_state=int(np.ravel(seed)[0]), n_init=1, max_iter=3 + arg, tol=1e-12, init_params="random" if arg == 1 else "kmeans")
    g.fit(X)
    o = np.argsort(g.means_.ravel())
    return np.r_[g.means_.ravel()[o], g.weights_[o]]


def f_inversion(arg, seed):
    from simpeg import directives, inversion
    mesh, dm, reg, prob = problem(arg)
    inv = inversion.BaseInversion(prob, [directives.BetaEstimate_ByEig(beta0_ratio=1.0, n_pw_iter=2, random_seed=seed), directives.BetaSchedule(coolingFactor=2.0, coolingRate=1)])
    prob.opt.print_type = None
    return inv.run(prob.model.copy())


def passes(f):
    """only what it does to the random state counts: the order of convergence may be rounding noise"""
    try:
        f()
    except AssertionError:
        pass
    return 1.0


def f_maptest(arg, seed):
    from simpeg import maps
    mp = maps.ExpMap(nP=4) if arg == 1 else maps.LogMap(nP=3)
    return [passes(lambda: mp.test(m=np.full(mp.nP, 0.7), num=3, random_seed=seed))]


def f_objtest(arg, seed):
    mesh, dm, reg, prob = problem(arg)
    return [passes(lambda: (reg if arg == 1 else dm).test(x=prob.model, num=3, random_seed=seed))]


FNS = {"noise": (f_noise, True), "model": (f_model, True), "topo": (f_topo, True), "eig": (f_eig, True), "beta_eig": (f_beta_eig, True),
       "beta_max": (f_beta_max, True), "alphas": (f_alphas, True), "scaling": (f_scaling, True), "paired": (f_paired, True), "gmm": (f_gmm, False), "inversion": (f_inversion, False),
       "maptest": (f_maptest, False), "objtest": (f_objtest, False)}


def seed_as(how, seed, gen):
    return {"int": lambda: seed, "npint": lambda: np.int64(seed), "list": lambda: [seed], "seq": lambda: np.random.SeedSequence(seed),
            "gen": lambda: gen, "bits": lambda: gen.bit_generator, "none": lambda: None}[how]()


def run_session(item):
    case, out, gens = item["case"], [dict(op="new", case=item["case"])], [None, None]

    def make(g, s):
        gens[g - 1] = np.random.default_rng(s)
        out.append(dict(op="make", case=case, g=g, seed=s))
    for o in item["hist"]:
        if o["op"] == "start":
            for g, s in enumerate(o["seeds"]):
                make(g + 1, s)
        elif o["op"] == "remake":
            make(o["g"], o["seed"])
        elif o["op"] == "global":
            np.random.seed(o["seed"]), random.seed(o["seed"])
        elif o["op"] == "draw":
            np.random.rand(o["n"]), random.random()
        else:
            fn, spread = FNS[o["fn"]]
            if o["fn"] in ("gmm", "maptest", "objtest") and o["how"] in ("gen", "bits", "none", "seq"):
                o = dict(o, how="int")          # mixtures take numbers; how much a derivative test draws depends on its outcome
            before = globe()
            with contextlib.redirect_stdout(io.StringIO()):
                got = fn(o["arg"], seed_as(o["how"], o["seed"], gens[o["g"] - 1]))
            out.append(dict(o, case=case, got=enc(got), spread=spread, before=before, after=globe()))
    return out


def run_noise(item):
    """the noise added to synthetic data"""
    from simpeg import simulation, maps, survey, data
    case, out, rs = item["case"], [dict(op="new", case=item["case"])], np.random.RandomState(item["seed"])
    for k in range(item["n"]):
        n = 400
        G = rs.randn(n, 4) * np.exp(rs.randn(n, 1))
        sv = survey.BaseSurvey([survey.BaseSrc([survey.BaseRx(np.zeros((n, 1)))])])
        sim, m = simulation.LinearSimulation(survey=sv, model_map=maps.IdentityMap(nP=4), G=G), rs.randn(4)
        kind = ["scalar", "array", "floor", "rel", "none", "off"][k % 6]
        rel, flo = {"scalar": (0.07, 0.3), "array": (0.1 * rs.rand(n), 0.01 + rs.rand(n)), "floor": (0.0, 0.2), "rel": (0.1, 0.0), "none": (0.0, 0.0), "off": (0.1, 0.1)}[kind]
        keep = [np.copy(rel), np.copy(flo), m.copy()]
        before = [token(np.asarray(x)) for x in keep]
        args = dict(relative_error=rel, noise_floor=flo, add_noise=kind != "off", random_seed=[None, k, np.random.default_rng(k)][k % 3])
        if k % 2:
            args["f"] = sim.fields(m)
        g0 = globe()
        d = sim.make_synthetic_data(m, **args)
        out.append(dict(op="true", case=case, what="global-random-state", ok=g0 == globe()))
        out.append(dict(op="frame", case=case, before=before, after=[token(np.asarray(rel)), token(np.asarray(flo)), token(m)], what="make_synthetic_data"))
        clean = G @ m
        a, b = pair(d.dclean, clean)
        out.append(dict(op="same", case=case, what="clean-data", got=a, want=b, tol=4))
        std = np.sqrt((rel * np.abs(clean)) ** 2 + np.asarray(flo) ** 2) * np.ones(n)
        a, b = pair(d.standard_deviation, np.sqrt((rel * np.abs(d.dobs)) ** 2 + np.asarray(flo) ** 2) * np.ones(n))
        out.append(dict(op="same", case=case, what="stored-uncertainties", got=a, want=b, tol=4))
        if kind in ("none", "off"):
            a, b = pair(d.dobs, clean)
            out.append(dict(op="same", case=case, what="no-noise", got=a, want=b, tol=4))
        else:
            out.append(dict(op="noise", case=case, n=n, z=[int(round(v)) for v in np.clip((d.dobs - d.dclean) / std, -9, 9) * 1000]))
        mine = clean.copy()
        e = data.Data(sv, dobs=mine, standard_deviation=0.1)
        e[sv.source_list[0], sv.source_list[0].receiver_list[0]] = np.arange(float(n))
        out.append(dict(op="frame", case=case, before=[token(clean)], after=[token(mine)], what="array given to Data"))
        a, b = pair(e.dobs, np.arange(float(n)))
        out.append(dict(op="same", case=case, what="edited-data", got=a, want=b, tol=4))
        # the clean data stay clean when the observed ones are edited
        d[sim.survey.source_list[0], sim.survey.source_list[0].receiver_list[0]] = np.arange(float(n))
        a, b = pair(d.dclean, clean)
        out.append(dict(op="same", case=case, what="clean-data-after-editing", got=a, want=b, tol=4))
    return out


# ------------------------------------------------------------------ nothing handed over is modified
SIMPLE = (int, float, complex, str, bool, np.number, np.bool_)


def tree(obj, path="", seen=None, depth=0):
    """fingerprints of all arrays and settings that hang on an object"""
    seen = {} if seen is None else seen
    out = {}
    if id(obj) in seen or depth > 7:
        return out
    if isinstance(obj, np.ndarray) or sp.issparse(obj):
        out[path] = (id(obj), token(obj))
    elif isinstance(obj, SIMPLE):
        out[path] = (0, token(obj))
    elif isinstance(obj, (list, tuple)):
        seen[id(obj)] = obj
        out[path] = (0, token(len(obj)))
        for i, x in enumerate(obj):
            out.update(tree(x, "%s[%d]" % (path, i), seen, depth + 1))
    elif type(obj).__module__.startswith(("simpeg.", "discretize")) and hasattr(obj, "__dict__"):
        seen[id(obj)] = obj
        for k, v in vars(obj).items():
            out.update(tree(v, path + "." + k, seen, depth + 1))
    return out


def changed(before, after):
    """what was there is still there, as it was"""
    return sorted(k for k, (i, t) in before.items() if k in after and after[k][1] != t)


def frame_event(case, what, before, roots):
    after = {}
    seen = {}
    for k, v in roots.items():
        after.update(tree(v, k, seen))
    bad = changed(before, after)
    keys = [k for k in sorted(before) if k in after]
    return dict(op="frame", case=case, what=what, changed=bad[:6], before=[token(*[before[k][1] for k in keys])], after=[token(*[after[k][1] for k in keys])])


def snapshot(roots):
    out, seen = {}, {}
    for k, v in roots.items():
        out.update(tree(v, k, seen))
    return out


def run_zoo(item):
    from simpeg import data, data_misfit
    case, name = item["case"], item["entry"]
    e, out = zoo.ZOO[name], [dict(op="new", case=item["case"])]
    rs = np.random.RandomState(item["seed"])
    sim = e.sim()
    m = e.model(rs.randint(50)).copy()
    amp = name.startswith("magamp")                 # its survey counts the components, its data the amplitudes
    nd = sim.survey.nD // (3 if amp else 1)
    v, w, W = rs.randn(m.size), rs.randn(nd), sp.diags(0.5 + rs.rand(nd))
    own = dict(survey=sim.survey, mesh=getattr(sim, "mesh", None), m=m, v=v, w=w, W=W)
    for k, x in vars(sim).items():
        if k.endswith("Map") or k in ("_model_map", "_active_cells", "_G", "_topo"):
            own[k] = x

    def call(what, f, **extra):
        roots = dict(own, **extra)
        b = snapshot(roots)
        r = f()
        out.append(frame_event(case, what, b, roots))
        return r
    layouts = item["layout"]

    def lay(a):
        if layouts == "plain":
            return a
        big = np.zeros(2 * a.size + 1)
        big[1::2] = a
        return big[1::2]
    f = call("fields", lambda: sim.fields(m))
    d0 = np.asarray(call("dpred", lambda: sim.dpred(m, f=f))).copy()
    d1 = np.asarray(call("dpred", lambda: sim.dpred(lay(m))))
    a, b = pair(d1, d0, bits=26)
    out.append(dict(op="same", case=case, what="memory-layout-dpred", got=a, want=b, tol=1024))
    if "J" in e.caps:
        j0 = np.asarray(call("Jvec", lambda: sim.Jvec(m, v, f=f))).copy()
        t0 = np.asarray(call("Jtvec", lambda: sim.Jtvec(m, w, f=f))).copy()
        for what, x, y in (("Jvec", lambda: sim.Jvec(lay(m), lay(v)), j0), ("Jtvec", lambda: sim.Jtvec(lay(m), lay(w)), t0)):
            a, b = pair(np.asarray(call(what, x)), y, bits=26)
            out.append(dict(op="same", case=case, what="memory-layout-" + what, got=a, want=b, tol=1024))
    if "getJ" in e.caps:
        call("getJ", lambda: sim.getJ(m))
    if "JtJ" in e.caps:
        call("getJtJdiag", lambda: sim.getJtJdiag(m, W=W))
        call("getJtJdiag", lambda: sim.getJtJdiag(m))
    if np.iscomplexobj(d0) or amp:
        return out
    rel, flo = 0.02 + 0.02 * rs.rand(nd), 1e-3 * np.abs(d0).max() * (1 + rs.rand(nd))
    syn = call("make_synthetic_data", lambda: sim.make_synthetic_data(m, relative_error=rel, noise_floor=flo, add_noise=True, random_seed=3), rel=rel, flo=flo)
    dobs, std = syn.dobs.copy(), syn.standard_deviation.copy()
    dat = call("Data", lambda: data.Data(sim.survey, dobs=dobs, standard_deviation=std), dobs=dobs, std=std)
    mis = data_misfit.L2DataMisfit(data=dat, simulation=sim)
    ex = dict(dobs=dobs, std=std, dat=dat)
    call("misfit", lambda: mis(m), **ex)
    call("residual", lambda: mis.residual(m), **ex)
    if "J" in e.caps:
        call("misfit-deriv", lambda: mis.deriv(m), **ex)
        call("misfit-deriv2", lambda: mis.deriv2(m, v), **ex)
    return out


def run_inversion(item):
    """starting models, references, bounds and directive settings stay what they were"""
    from simpeg import optimization, inverse_problem, inversion, directives, regularization, maps, data, data_misfit, simulation
    import discretize
    case, out = item["case"], [dict(op="new", case=item["case"])]
    for k in range(item["n"]):
        rs = np.random.RandomState(item["seed"] + k)
        mesh = discretize.TensorMesh([[7], [4, 3], [3, 2, 2]][k % 3])
        n = mesh.nC
        G = rs.randn(8, n)
        sim = simulation.LinearSimulation(model_map=maps.IdentityMap(nP=n), G=G)
        dobs, std = rs.randn(8), 0.1 + rs.rand(8)
        dat = data.Data(sim.survey, dobs=dobs, standard_deviation=std)
        m0, mref, lo, up = 0.1 * rs.randn(n), rs.randn(n) * 0.1, np.full(n, -0.4), np.full(n, 0.6)
        wts = 0.5 + rs.rand(n)
        norms = [1.0] + [1.5] * mesh.dim
        reg = [regularization.WeightedLeastSquares, regularization.Sparse][k % 2](mesh, reference_model=mref, weights={"mine": wts}, **(dict(norms=norms) if k % 2 else {}))
        Opt = [optimization.ProjectedGNCG, optimization.InexactGaussNewton, optimization.ProjectedGradient, optimization.BFGS, optimization.ProjectedGNCG, optimization.SteepestDescent][k % 6]
        opt = Opt(maxIter=4, **(dict(lower=lo, upper=up) if k % 6 in (0, 2, 4) else {}))
        opt.print_type = None
        dmis = data_misfit.L2DataMisfit(data=dat, simulation=sim)
        prob = inverse_problem.BaseInvProblem(dmis, reg, opt, beta=1.0)
        dl = [directives.BetaEstimate_ByEig(beta0_ratio=1.0, random_seed=1), directives.BetaSchedule(coolingFactor=2.0, coolingRate=1)]
        if k % 2:
            dl[1] = directives.UpdateIRLS(max_irls_iterations=2)
        if k % 3 == 0:
            dl.append(directives.UpdatePreconditioner())
        if k % 4 == 0 :
            dl.insert(0, directives.UpdateSensitivityWeights(every_iteration=False))
        own = dict(m0=m0, mref=mref, lo=lo, up=up, wts=wts, G=G, dobs=dobs, std=std, norms=norms)
        b = snapshot(own)
        g0 = globe()
        with contextlib.redirect_stdout(io.StringIO()):
            inversion.BaseInversion(prob, directives.DirectiveList(*dl) if k % 2 else dl).run(m0)
        out.append(frame_event(case, Opt.__name__, b, own))
        out.append(dict(op="true", case=case, what="global-random-state", ok=g0 == globe()))
    return out


# ------------------------------------------------------------------ utilities
def calls(rs):
    import discretize
    from simpeg import maps, utils
    from simpeg.utils import model_builder as mb
    from simpeg.electromagnetics.static import utils as su
    from simpeg.electromagnetics.static import resistivity as dc
    from simpeg.electromagnetics import utils as eu
    m3 = discretize.TensorMesh([[2.0, 3, 2, 3], [2.0, 2, 4], [1.0, 2, 2, 3]], "CCN")
    m2 = discretize.TensorMesh([[2.0, 3, 2, 3], [1.0, 2, 2, 3]], "CN")
    c3, n3 = m3.cell_centers.copy(), m3.nC
    act = c3[:, 2] < -1.5 - 0.3 * np.abs(c3[:, 0])
    act2 = m2.cell_centers[:, 1] < -1.5
    P = np.c_[rs.uniform(-4, 4, 6), rs.uniform(-3, 3, 6), rs.uniform(-1, 2, 6)]
    topo = np.c_[rs.uniform(-6, 6, 30), rs.uniform(-5, 5, 30), -1 - rs.rand(30)]
    mod = rs.rand(n3)
    e = np.c_[np.arange(8) * 10.0, np.zeros(8), np.zeros(8)]
    A, B, M, N = e[[0, 0, 1]] + 0.0, e[[1, 1, 2]] + 0.0, e[[3, 4, 5]] + 0.0, e[[4, 5, 6]] + 0.0
    sv = su.generate_survey_from_abmn_locations(locations_a=A, locations_b=B, locations_m=M, locations_n=N, data_type="volt")
    volts = rs.rand(3) + 0.5
    vec = rs.randn(5, 3)
    yield "add_block", mb.add_block, (c3, mod, np.r_[-2.0, -2, -5], np.r_[2.0, 2, -1], 7.0)
    yield "block", mb.create_block_in_wholespace, (c3, np.r_[-2.0, -2, -5], np.r_[2.0, 2, -1], np.r_[1.0, 5.0])
    yield "ellipse", mb.create_ellipse_in_wholespace, (c3, np.r_[0.0, 0, -3], np.r_[3.0, 2.0, 2.0], 10.0, 0.3)
    yield "sphere", mb.get_indices_sphere, (np.r_[0.0, 0, -3], 2.5, c3)
    yield "layers2", mb.create_2_layer_model, (c3, -3.0, 1.0, 2.0)
    yield "layers", mb.create_layers_model, (c3, np.r_[0.0, -2.0, -4.0], np.r_[1.0, 2.0, 3.0])
    yield "function", mb.create_from_function, (c3, lambda x, y, z: np.sin(x) + z)
    yield "polygon", mb.get_indices_polygon, (m3, np.vstack([P, P + [0, 0, -4.0]]))
    yield "random_model_kernel", lambda k, b: mb.create_random_model((5, 4), random_seed=2, anisotropy=k, its=2, bounds=b), (rs.rand(3, 3), np.r_[1.0, 3.0])
    yield "depth_weighting", lambda r, a: utils.depth_weighting(m3, r, active_cells=a, exponent=2.0), (P, act)
    yield "depth_weighting_z", lambda a: utils.depth_weighting(m3, 0.0, active_cells=a), (act,)
    yield "distance_weighting", lambda r, a: utils.distance_weighting(m3, r, active_cells=a, exponent=3.0, engine="scipy", cdist_opts=dict(metric="euclidean")), (P, act)
    yield "surface_layer_index", lambda t: utils.model_utils.surface_layer_index(m3, t, index=1), (topo,)
    yield "discrete_topography", lambda a: utils.get_discrete_topography(m3, a), (np.asarray(c3[:, 2] < -1.5),)
    yield "shift_to_topography", lambda p, a, h: utils.shift_to_discrete_topography(m3, p, a, heights=h), (P, np.asarray(c3[:, 2] < -1.5), rs.rand(6))
    yield "shift_keep_horizontal", lambda p, a, h: utils.shift_to_discrete_topography(m3, p, a, heights=h, shift_horizontal=False), (P, np.asarray(c3[:, 2] < -1.5), rs.rand(6))
    yield "shift_2d", lambda p, a: utils.shift_to_discrete_topography(m2, p, a, heights=1.0), (P[:, [0, 2]].copy(), act2)
    yield "drape", lambda p, a: su.drapeTopotoLoc(m3, p, active_cells=a), (P, np.asarray(c3[:, 2] < -1.5))
    yield "cartesian2spherical", utils.mat_utils.cartesian2spherical, (vec,)
    yield "spherical2cartesian", utils.mat_utils.spherical2cartesian, (np.abs(vec),)
    yield "dip_azimuth", utils.mat_utils.dip_azimuth2cartesian, (rs.uniform(-90, 90, 5), rs.uniform(0, 360, 5))
    yield "coterminal", utils.mat_utils.coterminal, (10 * rs.randn(6),)
    yield "plane", utils.mat_utils.define_plane_from_points, (P[0].copy(), P[1].copy(), P[2].copy())
    yield "unique_rows", utils.mat_utils.unique_rows, (np.round(np.vstack([vec, vec])),)
    yield "probing", lambda A: utils.mat_utils.estimate_diagonal(A, 6, k=3), (rs.randn(6, 6),)
    yield "separations", lambda s: [v for _, v in sorted(su.electrode_separations(s).items())], (sv,)
    yield "pseudo_locations", su.pseudo_locations, (sv,)
    yield "geometric_factor", su.geometric_factor, (sv,)
    yield "apparent_resistivity", su.apparent_resistivity_from_voltage, (sv, volts)
    yield "abmn", lambda a, b, m, n: su.generate_survey_from_abmn_locations(locations_a=a, locations_b=b, locations_m=m, locations_n=n, data_type="volt", output_sorting=True)[1], (A, B, M, N)
    yield "lines_3d_to_2d", lambda s, ids: np.vstack([x.locations_a for x in su.convert_survey_3d_to_2d_lines(s, ids)]), (sv, np.zeros(3, int))
    yield "line_ids", su.xy_2_lineID, (sv,)
    yield "dcip_survey", lambda x: su.generate_dcip_survey(x, "dipole-dipole", 10.0, 10.0, 4).locations_a, (np.array([[0.0, 0, 0], [100.0, 0, 0]]),)
    yield "dcip_line", lambda x, t: np.vstack([np.ravel(s.location[0]) for s in su.generate_dcip_sources_line("dipole-dipole", "volt", "3D", x, t, 3, 10.0)]), (np.r_[0.0, 60.0, 0.0, 0.0], 1.0)
    yield "segmented_line", lambda x: eu.segmented_line_current_source_term(m3, x), (np.array([[-3.3, -1.0, -3.6], [1.7, -0.2, -3.6], [1.2, -0.3, -4.4]]),)
    yield "line_through_faces", lambda x: eu.line_through_faces(m3, x), (np.array([[-1.5, -3.0, -2.0], [-1.5, 1.0, -2.0]]),)
    yield "convolve", lambda t: eu.convolve_with_waveform(lambda s: np.exp(-s), _wave(), t), (np.r_[0.1, 0.2, 0.5],)
    yield "colecole", lambda f, s: eu.em1d_utils.ColeCole(f, s, 0.1, 0.2, 0.5), (np.r_[1.0, 10.0, 100.0], 0.01)
    for nm, mp in (("exp", maps.ExpMap(nP=n3)), ("log", maps.LogMap(nP=n3)), ("sph", maps.SphericalSystem(nP=n3 - n3 % 3)), ("inj", maps.InjectActiveCells(m3, act, 1.0)),
                   ("wire", maps.Wires(("a", 5), ("b", n3 - 5)).a), ("self", maps.SelfConsistentEffectiveMedium(sigma0=1e-3, sigma1=1.0, nP=n3)), ("surj1", maps.SurjectVertical1D(m3)),
                   ("weights", maps.Weighting(nP=n3, weights=rs.rand(n3))), ("chi", maps.ChiMap(nP=n3)), ("recip", maps.ReciprocalMap(nP=n3)), ("logistic", maps.LogisticSigmoidMap(nP=n3, lower_bound=0.0, upper_bound=2.0)),
                   ("proj", maps.Projection(n3, np.r_[3, 1, 3])), ("plane", maps.SphericalSystem(nP=6)), ("sum", maps.SumMap([maps.ExpMap(nP=n3), maps.IdentityMap(nP=n3)]))):
        n = mp.nP if isinstance(mp.nP, (int, np.integer)) else n3
        x = 0.1 + 0.7 * rs.rand(n)
        yield "map-" + nm, lambda y, mp=mp: mp * y, (x,)
        yield "map-deriv-" + nm, lambda y, mp=mp: mp.deriv(y), (x.copy(),)
        yield "map-deriv-v-" + nm, lambda y, z, mp=mp: mp.deriv(y, v=z), (x.copy(), rs.randn(n))


def _wave():
    from simpeg.electromagnetics import time_domain as td
    return td.sources.PiecewiseLinearWaveform(times=np.r_[-0.02, -0.01, 0.0], currents=np.r_[0.0, 1.0, 0.0])


def dense(r):
    if sp.issparse(r):
        r = r.toarray()
    if isinstance(r, (list, tuple)):
        return np.concatenate([np.ravel(dense(x)).astype(float) for x in r]) if len(r) else np.zeros(0)
    return np.asarray(r, dtype=float)


def strided(a):
    big = np.zeros(tuple(2 * k + 1 for k in a.shape), a.dtype)
    v = big[tuple(slice(1, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def run_utils(item):
    case, out = item["case"], [dict(op="new", case=item["case"])]
    for name, fn, args in calls(np.random.RandomState(item["seed"])):
        try:
            roots = {"arg%d" % i: a for i, a in enumerate(args)}
            b, g0 = snapshot(roots), globe()
            first = dense(fn(*args))
            out.append(frame_event(case, name, b, roots))
            out.append(dict(op="true", case=case, what="global-random-state", fn=name, ok=g0 == globe()))
            for how, conv in (("again", lambda a: a), ("strided", strided), ("fortran", np.asfortranarray)):
                r = dense(fn(*[conv(a) if isinstance(a, np.ndarray) else a for a in args]))
                x, y = pair(r, first, bits=26)
                out.append(dict(op="same", case=case, what="memory-layout" if how != "again" else "asked-again", fn=name, got=x if len(x) < 300 else x[:300], want=y if len(y) < 300 else y[:300], tol=512))
        except Exception as exc:
            out.append(exc_event(case, exc, fn=name))
    return out


def one(it):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return it["run"](it)


def run(ctx):
    zoo.load()
    ctx.model("Rng", "SPECIFICATION Spec\nCONSTANTS Fns = {\"noise\", \"estimate\"}\n Seeds = {1, 2}\n Gens = {1, 2}\n Objs = {1}\n MaxOps = %d\nINVARIANTS Reproducible Independent NoReuse CallersOwn\nCHECK_DEADLOCK FALSE\n" % (4 if ctx.quick else 5),
              need_actions=("SeedGlobal", "Write", "Make", "CallSeed", "CallGen", "CallNone"))
    fns = "{%s}" % ", ".join('"%s"' % f for f in FNS)
    beh = ctx.behaviours("RngGen", "SPECIFICATION GSpec\nCONSTANTS MaxOps = 14\n Fns = %s\nCHECK_DEADLOCK FALSE\n" % fns, simulate=60 if ctx.quick else 600, depth=40)
    items = [dict(case="session/%d" % i, hist=h, run=run_session) for i, h in enumerate(beh)]
    items += [dict(case="noise/%d" % i, seed=ctx.seed * 31 + i, n=12, run=run_noise) for i in range(2 if ctx.quick else 20)]
    items += [dict(case="zoo/" + n, entry=n, seed=ctx.seed * 7 + i, layout="strided", run=run_zoo) for i, n in enumerate(zoo.ZOO)]
    items += [dict(case="inversion/%d" % i, seed=ctx.seed * 100 + i * 12, n=12, run=run_inversion) for i in range(2 if ctx.quick else 20)]
    items += [dict(case="utils/%d" % i, seed=ctx.seed * 100 + i, run=run_utils) for i in range(2 if ctx.quick else 12)]
    pat = os.environ.get("VF_ONLY")
    if pat:
        items = [i for i in items if fnmatch.fnmatch(i["case"], pat)]
    ev = ctx.pmap(one, items)
    rng = [e for e in ev if e["case"].startswith("session/")]
    if rng:
        ctx.validate("TraceRng", rng, chunk=10 ** 9)
    rest = [e for e in ev if not e["case"].startswith("session/")]
    if rest:
        ctx.validate("TraceRng", rest, name="TraceRng_frame", chunk=900)
    ctx.assumptions += ["answers are compared to about one part in a million, not bit by bit", "estimate_diagonal with random vectors has no seed and is not judged",
                        "in-place editing by the caller is the caller's"]
