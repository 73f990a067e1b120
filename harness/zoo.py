"""The zoo: one small, fast instance of every simulation family, with a survey of several
sources and receivers of different kinds and sizes.  Used by C01, C02, C12, C15."""
import numpy as np
import warnings

warnings.filterwarnings("ignore")


class Entry:
    def __init__(self, name, mk_sim, specs, mk_survey, models, caps=("J",), tol=1e-6, fdtol=1e-3, setprops=None, wtol=None,
                 composable=True, fdstep=1e-4, group=None, wires=None):
        self.wires = wires
        self.name, self.mk_sim, self.specs, self.mk_survey, self._models = name, mk_sim, specs, mk_survey, models
        self.caps, self.tol, self.fdtol = set(caps), tol, fdtol
        self.setprops = setprops or {}
        self.composable = composable
        self.fdstep = fdstep
        self.group = group or name.split("/")[0]

    def survey(self, sel=None):
        """sel: list of (source index, [receiver indices]); default everything in order"""
        if sel is None:
            sel = [(i, list(range(len(rx)))) for i, (_, rx) in enumerate(self.specs)]
        srcs = []
        for i, rr in sel:
            sf, rxs = self.specs[i]
            srcs.append(sf([rxs[r]() for r in rr]))
        return self.mk_survey(srcs)

    def sim(self, sel=None, **kw):
        sim = self.mk_sim(self.survey(sel), **kw)
        if hasattr(type(sim), "solver") and hasattr(type(sim), "solver_opts"):
            from simpeg.utils import get_default_solver
            sim.solver = get_default_solver()
        return sim

    def model(self, k):
        return self._models(k)

    def parts(self, nP):
        """slices of the model that belong to one property each"""
        w = self.wires or [nP]
        o = np.r_[0, np.cumsum(w)]
        return [slice(o[i], o[i + 1]) for i in range(len(w))]

    def block_sizes(self):
        return [[r().nD for r in rx] for _, rx in self.specs]


ZOO = {}


def reg(e):
    ZOO[e.name] = e


def rnd(seed, n):
    return np.random.RandomState(seed).rand(n)


def _mods(n, base=0.0, amp=1.0, positive=False):
    def f(k):
        v = base + amp * (rnd(1000 + k, n) - 0.5)
        return v
    return f


# ----------------------------------------------------------------------------- DC / IP / SP / SIP
def build_static():
    import discretize
    from simpeg import maps
    from simpeg.electromagnetics.static import resistivity as dc, induced_polarization as ip, self_potential as sp
    from simpeg.electromagnetics.static import spectral_induced_polarization as sip
    mesh = discretize.TensorMesh([[(10.0, 6)], [(10.0, 5)], [(10.0, 4)]], "CCN")
    R = dc.receivers
    P = np.array
    M1 = P([[-12.0, -3.0, -2.0], [3.0, 8.0, -1.0], [14.0, 2.0, -7.0]])
    M2 = P([[11.0, 4.0, -3.0], [-4.0, 9.0, -6.0]])
    D = np.r_[6.0, 5.0, -2.0]

    def dcspecs(dt="volt"):
        return [
            (lambda rx: dc.sources.Dipole(rx, np.r_[-20.0, 3.0, -1.0], np.r_[17.0, -6.0, -2.0]),
             [lambda: R.Dipole(M1, M1 + D, data_type=dt), lambda: R.Pole(M2, data_type=dt)]),
            (lambda rx: dc.sources.Pole(rx, np.r_[4.0, 7.0, -4.0], current=2.5),
             [lambda: R.Pole(M1, data_type=dt), lambda: R.Dipole(M2, M2 - D, data_type=dt)]),
            (lambda rx: dc.sources.Multipole(rx, P([[-9.0, -9.0, -3.0], [9.0, 2.0, -12.0], [1.0, 7.0, -22.0]]), current=[1.0, -0.25, -0.75]),
             [lambda: R.Pole(M2, data_type=dt)]),
        ]
    for form, cls in (("cc", dc.Simulation3DCellCentered), ("n", dc.Simulation3DNodal)):
        bcs = ("Robin", "Dirichlet", "Neumann") if form == "cc" else ("Robin", "Neumann")
        for bc in bcs:
            for storeJ in (False, True):
                if bc != "Robin" and storeJ:
                    continue
                nm = "dc3d/%s/%s/%s" % (form, bc, "J" if storeJ else "noJ")
                specs = dcspecs()
                if bc == "Neumann":
                    specs = specs[:1]
                reg(Entry(nm, lambda s, cls=cls, bc=bc, sj=storeJ, **kw: cls(
                    mesh, survey=s, **{**dict(sigmaMap=maps.ExpMap(nP=mesh.nC), storeJ=sj, bc_type=bc), **kw}),
                    specs, dc.Survey, _mods(mesh.nC, -3.0, 2.0), caps=("J", "JtJ", "getJ"),
                    setprops=dict(sigma=lambda k: np.exp(-3 + rnd(77 + k, mesh.nC)), rho=lambda k: np.exp(3 + rnd(57 + k, mesh.nC)))))
        # resistivity parameterisation, active cells, miniaturised survey, surface conductance is separate
        act = np.ones(mesh.nC, bool)
        act[mesh.cell_centers[:, 2] > -10] = mesh.cell_centers[mesh.cell_centers[:, 2] > -10, 0] < 100
        reg(Entry("dc3d/%s/rho-inject" % form, lambda s, cls=cls, **kw: cls(
            mesh, survey=s, **{**dict(rhoMap=maps.InjectActiveCells(mesh, mesh.cell_centers[:, 0] < 15, 1e4) * maps.ExpMap(nP=int((mesh.cell_centers[:, 0] < 15).sum()))), **kw}),
            dcspecs(), dc.Survey, _mods(int((mesh.cell_centers[:, 0] < 15).sum()), 3.0, 2.0), caps=("J", "JtJ", "getJ")))
        reg(Entry("dc3d/%s/mini" % form, lambda s, cls=cls, **kw: cls(
            mesh, survey=s, **{**dict(sigmaMap=maps.ExpMap(nP=mesh.nC), miniaturize=True), **kw}),
            dcspecs()[:2], dc.Survey, _mods(mesh.nC, -3.0, 2.0), caps=("J", "JtJ", "getJ")))

        def apsurvey(srcs):
            s = dc.Survey(srcs)
            s.set_geometric_factor()
            return s
        reg(Entry("dc3d/%s/appres" % form, lambda s, cls=cls, **kw: cls(
            mesh, survey=s, **{**dict(sigmaMap=maps.ExpMap(nP=mesh.nC)), **kw}),
            dcspecs("apparent_resistivity")[:2], apsurvey, _mods(mesh.nC, -3.0, 2.0), caps=("J", "JtJ", "getJ")))
    # IP
    for form, cls in (("cc", ip.Simulation3DCellCentered), ("n", ip.Simulation3DNodal)):
        for storeJ in (False, True):
            for par in ("sigma", "rho"):
                if storeJ and par == "rho":
                    continue
                pr = {par: np.exp(-3 + rnd(5, mesh.nC)) if par == "sigma" else np.exp(3 + rnd(5, mesh.nC))}
                reg(Entry("ip3d/%s/%s/%s" % (form, par, "J" if storeJ else "noJ"), lambda s, cls=cls, sj=storeJ, pr=pr, **kw: cls(
                    mesh, survey=s, **{**dict(etaMap=maps.IdentityMap(nP=mesh.nC), storeJ=sj), **pr, **kw}),
                    dcspecs()[:2], dc.Survey, lambda k: 0.02 + 0.1 * rnd(300 + k, mesh.nC), caps=("J", "JtJ", "getJ"),
                    fdtol=1e-5, setprops={par: (lambda k, par=par: np.exp((-3 if par == "sigma" else 3) + rnd(77 + k, mesh.nC)))}))
    # SP
    q_rx = [(lambda rx: sp.sources.StreamingCurrents(rx), [lambda: R.Dipole(M1, M1 + D), lambda: R.Pole(M2)])]
    reg(Entry("sp/cc", lambda s, **kw: sp.Simulation3DCellCentered(mesh, survey=s, **{**dict(sigma=0.01 * np.exp(rnd(9, mesh.nC)), qMap=maps.IdentityMap(nP=mesh.nC)), **kw}),
              q_rx, sp.Survey, _mods(mesh.nC, 0.0, 1.0), caps=("J", "JtJ", "getJ"), composable=False))
    # SIP: one receiver set, data over shared time channels
    times = np.r_[1e-3, 3e-3, 8e-3]
    wires = maps.Wires(("eta", mesh.nC), ("taui", mesh.nC), ("c", mesh.nC))
    sspec = [
        (lambda rx: sip.sources.Dipole(rx, np.r_[-20.0, 3.0, -1.0], np.r_[17.0, -6.0, -2.0]), [lambda: sip.receivers.Dipole(M1, M1 + D, times)]),
        (lambda rx: sip.sources.Dipole(rx, np.r_[-10.0, 3.0, -4.0], np.r_[9.0, 6.0, -12.0]), [lambda: sip.receivers.Dipole(M2, M2 + D, times)]),
    ]
    for form, cls in (("cc", sip.Simulation3DCellCentered), ("n", sip.Simulation3DNodal)):
        for storeJ in (False, True):
            reg(Entry("sip3d/%s/%s" % (form, "J" if storeJ else "noJ"), lambda s, cls=cls, sj=storeJ, **kw: cls(
                mesh, survey=s, **{**dict(rho=np.exp(3 + rnd(5, mesh.nC)), etaMap=wires.eta, tauiMap=wires.taui, cMap=wires.c, storeJ=sj), **kw}),
                sspec, sip.Survey, lambda k: np.r_[0.05 + 0.1 * rnd(1 + k, mesh.nC), 10 + 50 * rnd(2 + k, mesh.nC), 0.4 + 0.3 * rnd(3 + k, mesh.nC)],
                caps=("J", "JtJ") if storeJ else ("J",), fdtol=5e-3, wires=[mesh.nC] * 3, composable=False))
    # 2D
    m2 = discretize.TensorMesh([[(10.0, 8)], [(10.0, 5)]], "CN")
    A2 = P([[-12.0, -2.0], [3.0, -1.0], [14.0, -7.0]])
    B2 = P([[11.0, -3.0], [-4.0, -6.0]])
    D2 = np.r_[6.0, -2.0]
    s2 = [
        (lambda rx: dc.sources.Dipole(rx, np.r_[-22.0, -1.0], np.r_[17.0, -2.0]), [lambda: R.Dipole(A2, A2 + D2), lambda: R.Pole(B2)]),
        (lambda rx: dc.sources.Pole(rx, np.r_[4.0, -4.0]), [lambda: R.Pole(A2), lambda: R.Dipole(B2, B2 - D2)]),
    ]
    for form, cls, icls in (("cc", dc.Simulation2DCellCentered, ip.Simulation2DCellCentered), ("n", dc.Simulation2DNodal, ip.Simulation2DNodal)):
        for storeJ in (False, True):
            reg(Entry("dc2d/%s/%s" % (form, "J" if storeJ else "noJ"), lambda s, cls=cls, sj=storeJ, **kw: cls(
                m2, survey=s, **{**dict(sigmaMap=maps.ExpMap(nP=m2.nC), storeJ=sj, nky=7), **kw}),
                s2, dc.Survey, _mods(m2.nC, -3.0, 2.0), caps=("J", "getJ"), fdtol=2e-3,
                setprops=dict(sigma=lambda k: np.exp(-3 + rnd(77 + k, m2.nC)))))
            reg(Entry("ip2d/%s/%s" % (form, "J" if storeJ else "noJ"), lambda s, cls=icls, sj=storeJ, **kw: cls(
                m2, survey=s, **{**dict(rho=np.exp(3 + rnd(5, m2.nC)), etaMap=maps.IdentityMap(nP=m2.nC), storeJ=sj, nky=7), **kw}),
                s2, dc.Survey, lambda k: 0.02 + 0.1 * rnd(300 + k, m2.nC), caps=("J", "getJ", "JtJ"), fdtol=1e-5))
        reg(Entry("dc2d/%s/rho" % form, lambda s, cls=cls, **kw: cls(
            m2, survey=s, **{**dict(rhoMap=maps.ExpMap(nP=m2.nC), nky=5), **kw}),
            s2, dc.Survey, _mods(m2.nC, 3.0, 2.0), caps=("J", "getJ"), fdtol=2e-3))
    w2 = maps.Wires(("eta", m2.nC), ("taui", m2.nC), ("c", m2.nC))
    sspec2 = [
        (lambda rx: sip.sources.Dipole(rx, np.r_[-22.0, -1.0], np.r_[17.0, -2.0]), [lambda: sip.receivers.Dipole(A2, A2 + D2, times)]),
        (lambda rx: sip.sources.Dipole(rx, np.r_[-10.0, -4.0], np.r_[9.0, -12.0]), [lambda: sip.receivers.Dipole(B2, B2 + D2, times)]),
    ]
    for form, cls in (("cc", sip.Simulation2DCellCentered), ("n", sip.Simulation2DNodal)):
        reg(Entry("sip2d/%s" % form, lambda s, cls=cls, **kw: cls(
            m2, survey=s, **{**dict(rho=np.exp(3 + rnd(5, m2.nC)), etaMap=w2.eta, tauiMap=w2.taui, cMap=w2.c, nky=7), **kw}),
            sspec2, sip.Survey, lambda k: np.r_[0.05 + 0.1 * rnd(1 + k, m2.nC), 10 + 50 * rnd(2 + k, m2.nC), 0.4 + 0.3 * rnd(3 + k, m2.nC)],
            caps=("J", "JtJ"), fdtol=5e-3, wires=[m2.nC] * 3, composable=False))
    # 1D
    s1 = [
        (lambda rx: dc.sources.Dipole(rx, np.r_[-22.0, 0.0, 0.0], np.r_[17.0, 0.0, 0.0]), [lambda: R.Dipole(P([[-5.0, 0, 0], [2.0, 0, 0.0]]), P([[5.0, 0, 0], [9.0, 0, 0.0]]))]),
        (lambda rx: dc.sources.Dipole(rx, np.r_[-42.0, 0.0, 0.0], np.r_[37.0, 0.0, 0.0]), [lambda: R.Dipole(P([[-5.0, 0, 0.0]]), P([[5.0, 0, 0.0]])), lambda: R.Dipole(P([[-8.0, 0, 0.0]]), P([[6.0, 0, 0.0]]))]),
    ]
    w1 = maps.Wires(("rho", 4), ("t", 3))
    reg(Entry("dc1d/rho-thick", lambda s, **kw: dc.Simulation1DLayers(survey=s, **{**dict(
        rhoMap=maps.ExpMap(nP=4) * w1.rho, thicknessesMap=maps.ExpMap(nP=3) * w1.t), **kw}),
        s1, dc.Survey, lambda k: np.r_[3 + rnd(k + 4, 4), 1.5 + rnd(k + 8, 3)], wires=[4, 3], caps=("J", "getJ"), fdtol=5e-3))
    reg(Entry("dc1d/sigma", lambda s, **kw: dc.Simulation1DLayers(survey=s, **{**dict(
        sigmaMap=maps.ExpMap(nP=4), thicknesses=np.r_[4.0, 6.0, 9.0]), **kw}),
        s1, dc.Survey, lambda k: -3 + rnd(k + 4, 4), caps=("J", "getJ"), fdtol=5e-3,
        setprops=dict(thicknesses=lambda k: np.r_[4.0, 6.0, 9.0] + k)))


# ----------------------------------------------------------------------------- FDEM
def build_fdem():
    import discretize
    from scipy.constants import mu_0
    from simpeg import maps
    import simpeg.electromagnetics.frequency_domain as fdem
    cs = 10.0
    mesh = discretize.TensorMesh([[(cs, 2, -1.4), (cs, 2), (cs, 2, 1.4)], [(cs, 2, -1.4), (cs, 1), (cs, 2, 1.4)], [(cs, 2, -1.4), (cs, 1), (cs, 2, 1.4)]], "CCC")
    X1 = np.array([[-9.0, 3.0, 2.0], [7.0, 8.0, -4.0]])
    X2 = np.array([[4.0, -7.0, 3.0], [12.0, 2.0, -6.0], [-3.0, 1.0, 9.0]])
    Rx = fdem.receivers
    allrx = ["PointElectricField", "PointMagneticFluxDensity", "PointMagneticFluxDensitySecondary", "PointMagneticField", "PointMagneticFieldSecondary", "PointCurrentDensity"]
    T = {"e": fdem.Simulation3DElectricField, "b": fdem.Simulation3DMagneticFluxDensity, "h": fdem.Simulation3DMagneticField, "j": fdem.Simulation3DCurrentDensity}

    def rxs(names):
        out = []
        for i, n in enumerate(names):
            out.append(lambda n=n, i=i: getattr(Rx, n)(X1 if i % 2 else X2, orientation="xyz"[i % 3], component=("real", "imag")[i % 2]))
        return out

    def rawvec(rx, ft, f):
        rs = np.random.RandomState(3)
        nf, ne = mesh.nF, mesh.nE
        a, b = (nf, ne) if ft in "eb" else (ne, nf)
        return fdem.sources.RawVec(rx, f, rs.rand(a) * 1e-3 + 1j * rs.rand(a) * 1e-3, rs.rand(b) * 1e-2)
    for ft, cls in T.items():
        av = ["PointElectricField", "PointMagneticFluxDensity", "PointMagneticField", "PointCurrentDensity"]
        sec = {"e": ["PointMagneticFluxDensitySecondary"], "b": ["PointMagneticFluxDensitySecondary"], "h": [], "j": []}[ft]
        specs = [
            (lambda rx: fdem.sources.MagDipole(rx, frequency=20.0, location=np.r_[1.0, 2.0, 3.0]), rxs(av + sec)),
            (lambda rx: fdem.sources.CircularLoop(rx, frequency=5.0, location=np.r_[0.0, 1.0, 3.0], radius=8.0), rxs(list(reversed(av)))),
            (lambda rx, ft=ft: rawvec(rx, ft, 5.0), rxs(av[1:] + av[:1])),
            (lambda rx: fdem.sources.LineCurrent(rx, frequency=20.0, location=np.array([[-8.0, 0.0, 0.0], [8.0, 0.0, 0.0], [8.0, 6.0, 0.0]])), rxs(av[2:])) if ft in "eb" else (lambda rx, ft=ft: rawvec(rx, ft, 20.0), rxs(av[2:])),
            (lambda rx: fdem.sources.MagDipole_Bfield(rx, frequency=20.0, location=np.r_[1.0, 2.0, 3.0]), rxs(av[:2])),
        ]
        reg(Entry("fdem/%s/sigma" % ft, lambda s, cls=cls, **kw: cls(mesh, survey=s, **{**dict(sigmaMap=maps.ExpMap(nP=mesh.nC)), **kw}),
                  specs, fdem.Survey, _mods(mesh.nC, 0.0, 1.0), caps=("J", "JtJ", "getJ"), fdtol=5e-3,
                  setprops=dict(mu=lambda k: mu_0 * (1 + rnd(k + 31, mesh.nC)), sigma=lambda k: np.exp(rnd(k + 41, mesh.nC)))))
        reg(Entry("fdem/%s/rho" % ft, lambda s, cls=cls, **kw: cls(mesh, survey=s, **{**dict(rhoMap=maps.ExpMap(nP=mesh.nC), mu=mu_0 * (1 + rnd(31, mesh.nC))), **kw}),
                  specs[:3], fdem.Survey, _mods(mesh.nC, 0.0, 1.0), caps=("J", "JtJ", "getJ"), fdtol=5e-3))
        w = maps.Wires(("s", mesh.nC), ("m", mesh.nC))
        reg(Entry("fdem/%s/sigma-mu" % ft, lambda s, cls=cls, w=w, **kw: cls(mesh, survey=s, **{**dict(
            sigmaMap=maps.ExpMap(nP=mesh.nC) * w.s, muMap=maps.ExpMap(nP=mesh.nC) * w.m), **kw}),
            specs[:3] if ft in "eb" else specs[2:4], fdem.Survey, lambda k: np.r_[rnd(k + 1, mesh.nC), np.log(mu_0) + rnd(k + 2, mesh.nC)], wires=[mesh.nC] * 2, caps=("J", "JtJ", "getJ"), fdtol=5e-3))
        if ft in "hj":
            reg(Entry("fdem/%s/mu-dipole" % ft, lambda s, cls=cls, w=w, **kw: cls(mesh, survey=s, **{**dict(
                sigma=np.exp(rnd(4, mesh.nC)), muMap=maps.ExpMap(nP=mesh.nC)), **kw}),
                specs[:1], fdem.Survey, lambda k: np.log(mu_0) + rnd(k + 2, mesh.nC), caps=("J", "JtJ", "getJ"), fdtol=5e-3))
        if ft in "eb":
            reg(Entry("fdem/%s/mui" % ft, lambda s, cls=cls, **kw: cls(mesh, survey=s, **{**dict(
                sigma=np.exp(rnd(4, mesh.nC)), muiMap=maps.ExpMap(nP=mesh.nC)), **kw}),
                specs[:1], fdem.Survey, lambda k: -np.log(mu_0) + rnd(k + 2, mesh.nC), caps=("J", "JtJ", "getJ"), fdtol=5e-3))
    # forward-only permittivity
    # 1D layered
    loc = np.array([[6.0, 1.0, 0.5]])
    loc2 = np.array([[9.0, -2.0, 1.5]])
    s1 = [
        (lambda rx: fdem.sources.MagDipole(rx, frequency=900.0, location=np.r_[0.0, 0.0, 1.0], orientation="z"),
         [lambda: Rx.PointMagneticFieldSecondary(loc, orientation="z", component="both", data_type="field"), lambda: Rx.PointMagneticFieldSecondary(loc2, orientation="x", component="real")]),
        (lambda rx: fdem.sources.MagDipole(rx, frequency=7000.0, location=np.r_[0.0, 0.0, 1.0], orientation="x"),
         [lambda: Rx.PointMagneticFieldSecondary(loc, orientation="z", component="imag")]),
        (lambda rx: fdem.sources.CircularLoop(rx, frequency=7000.0, location=np.r_[0.0, 0.0, 1.0], radius=5.0),
         [lambda: Rx.PointMagneticFieldSecondary(np.array([[0.0, 0.0, 1.0]]), orientation="z", component="both")]),
        (lambda rx: fdem.sources.MagDipole(rx, frequency=900.0, location=np.r_[0.0, 0.0, 1.0], orientation="z"),
         [lambda: Rx.PointMagneticFieldSecondary(loc, orientation="z", component="both", data_type="ppm")]),
    ]
    w1 = maps.Wires(("s", 3), ("mu", 3), ("t", 2), ("h", 2))
    reg(Entry("fdem1d/sigma", lambda s, **kw: fdem.Simulation1DLayered(survey=s, **{**dict(thicknesses=np.r_[5.0, 8.0], sigmaMap=maps.ExpMap(nP=3)), **kw}),
              s1, fdem.Survey, lambda k: -3 + rnd(k + 6, 3), caps=("J", "JtJ", "getJ"), fdtol=5e-3))
    reg(Entry("fdem1d/all", lambda s, **kw: fdem.Simulation1DLayered(survey=s, **{**dict(
        sigmaMap=maps.ExpMap(nP=3) * w1.s, muMap=maps.ExpMap(nP=3) * w1.mu, thicknessesMap=maps.ExpMap(nP=2) * w1.t, hMap=maps.ExpMap(nP=2) * w1.h, topo=np.zeros(3)), **kw}),
        s1[:2], fdem.Survey, lambda k: np.r_[-3 + rnd(k + 6, 3), np.log(mu_0) + 0.5 * rnd(k + 2, 3), 1.5 + rnd(k + 3, 2), 2.5 + rnd(k + 4, 2)], wires=[3, 3, 2, 2], caps=("J", "JtJ", "getJ"), fdtol=1e-2, composable=False))


# ----------------------------------------------------------------------------- TDEM
def build_tdem():
    import discretize
    from simpeg import maps
    import simpeg.electromagnetics.time_domain as tdem
    cs = 10.0
    mesh = discretize.TensorMesh([[(cs, 2, -1.4), (cs, 1), (cs, 2, 1.4)], [(cs, 1, -1.4), (cs, 2), (cs, 1, 1.4)], [(cs, 2, -1.4), (cs, 1), (cs, 1, 1.4)]], "CCC")
    X1 = np.array([[-9.0, 3.0, 2.0], [7.0, 8.0, -4.0]])
    X2 = np.array([[4.0, -7.0, 3.0]])
    Rx = tdem.receivers
    steps = [(0.8e-5, 1), (1.1e-5, 2), (3e-5, 2), (8e-5, 2)]
    tt = np.r_[2.2e-5, 7.5e-5, 2.1e-4]
    t2 = np.r_[1.3e-5, 1.0e-4]
    T = {"e": tdem.Simulation3DElectricField, "b": tdem.Simulation3DMagneticFluxDensity, "h": tdem.Simulation3DMagneticField, "j": tdem.Simulation3DCurrentDensity}
    some = ["PointElectricField", "PointMagneticFluxTimeDerivative", "PointCurrentDensity", "PointMagneticFieldTimeDerivative"]
    full = ["PointElectricField", "PointMagneticFluxDensity", "PointMagneticFluxTimeDerivative", "PointCurrentDensity", "PointMagneticField", "PointMagneticFieldTimeDerivative"]
    avail = dict(e=some, b=full, h=full, j=some)

    def rxs(names, off=0):
        out = []
        for i, n in enumerate(names):
            i += off
            out.append(lambda n=n, i=i: getattr(Rx, n)(X1 if i % 2 else X2, times=tt if i % 3 else t2, orientation="xyz"[i % 3]))
        return out
    for ft, cls in T.items():
        av = avail[ft]
        ramp = lambda: tdem.sources.RampOffWaveform(off_time=2e-5)
        tri = lambda: tdem.sources.TriangularWaveform(start_time=0.0, peak_time=1e-5, off_time=2.5e-5)
        specs = [
            (lambda rx: tdem.sources.MagDipole(rx, location=np.r_[1.0, 2.0, 3.0]), rxs(av)),
            (lambda rx: tdem.sources.CircularLoop(rx, location=np.r_[0.0, 1.0, 3.0], radius=8.0, waveform=tdem.sources.StepOffWaveform()), rxs(av[1:3], 1)),
        ]
        reg(Entry("tdem/%s/sigma" % ft, lambda s, cls=cls, **kw: cls(mesh, survey=s, **{**dict(sigmaMap=maps.ExpMap(nP=mesh.nC), time_steps=steps), **kw}),
                  specs, tdem.Survey, _mods(mesh.nC, 0.0, 1.0), fdtol=2e-3,
                  setprops=dict(sigma=lambda k: np.exp(rnd(k + 41, mesh.nC)))))
        reg(Entry("tdem/%s/rho" % ft, lambda s, cls=cls, **kw: cls(mesh, survey=s, **{**dict(rhoMap=maps.ExpMap(nP=mesh.nC), time_steps=steps), **kw}),
                  specs[:1], tdem.Survey, _mods(mesh.nC, 0.0, 1.0), fdtol=2e-3))
        # nanosecond channels with changing step lengths
        fast = [(lambda rx: tdem.sources.MagDipole(rx, location=np.r_[1.0, 2.0, 3.0]),
                 [lambda av=av: getattr(Rx, av[0])(X2, times=np.r_[3e-9, 2.1e-8], orientation="x"), lambda av=av: getattr(Rx, av[1])(X1, times=np.r_[5e-9, 1.6e-8, 2.3e-8], orientation="z")])]
        reg(Entry("tdem/%s/fast" % ft, lambda s, cls=cls, **kw: cls(mesh, survey=s, **{**dict(sigmaMap=maps.ExpMap(nP=mesh.nC), time_steps=[(1e-9, 3), (2e-9, 2), (5e-9, 4)], dt_threshold=1e-12), **kw}),
                  fast, tdem.Survey, _mods(mesh.nC, 0.0, 1.0), fdtol=2e-3, fdstep=1e-2))
        if ft in "eb":
            wspecs = [
                (lambda rx: tdem.sources.LineCurrent(rx, location=np.array([[-8.0, -8.0, 0.0], [8.0, -8.0, 0.0], [8.0, 8.0, 0.0], [-8.0, 8.0, 0.0], [-8.0, -8.0, 0.0]]), waveform=ramp()), rxs(av[:3])),
                (lambda rx: tdem.sources.MagDipole(rx, location=np.r_[1.0, 2.0, 3.0], waveform=ramp()), rxs(av[:2])),
            ]
            reg(Entry("tdem/%s/wave" % ft, lambda s, cls=cls, **kw: cls(mesh, survey=s, **{**dict(sigmaMap=maps.ExpMap(nP=mesh.nC), time_steps=steps), **kw}),
                      wspecs, tdem.Survey, _mods(mesh.nC, 0.0, 1.0), fdtol=2e-3))
        gal = [
            (lambda rx, ft=ft: tdem.sources.LineCurrent(rx, location=np.array([[-8.0, 0.0, 0.0], [8.0, 0.0, 0.0]]), waveform=tdem.sources.StepOffWaveform() if ft != "b" else tri()), rxs(av)),
            (lambda rx: tdem.sources.LineCurrent(rx, location=np.array([[2.0, -9.0, 0.0], [2.0, 9.0, 0.0]]), waveform=tri()), rxs(av[1:3], 1)),
        ]
        reg(Entry("tdem/%s/galvanic" % ft, lambda s, cls=cls, **kw: cls(mesh, survey=s, **{**dict(sigmaMap=maps.ExpMap(nP=mesh.nC), time_steps=steps), **kw}),
                  gal, tdem.Survey, _mods(mesh.nC, 0.0, 1.0), fdtol=2e-3))
    # 1D
    loc = np.array([[6.0, 1.0, 0.5]])
    times = np.r_[1e-5, 1e-4, 1e-3]
    s1 = [
        (lambda rx: tdem.sources.MagDipole(rx, location=np.r_[0.0, 0.0, 1.0], waveform=tdem.sources.StepOffWaveform()),
         [lambda: Rx.PointMagneticFluxDensity(loc, times=times, orientation="z"), lambda: Rx.PointMagneticFluxTimeDerivative(loc, times=times[1:], orientation="x")]),
        (lambda rx: tdem.sources.CircularLoop(rx, location=np.r_[0.0, 0.0, 1.0], radius=7.0, waveform=tdem.sources.RampOffWaveform(off_time=2e-6)),
         [lambda: Rx.PointMagneticFluxTimeDerivative(np.array([[0.0, 0.0, 1.0]]), times=times, orientation="z"), lambda: Rx.PointMagneticField(np.array([[0.0, 0.0, 1.0]]), times=times[:2], orientation="z")]),
    ]
    from scipy.constants import mu_0
    w1 = maps.Wires(("s", 3), ("mu", 3), ("t", 2), ("h", 1))
    reg(Entry("tdem1d/sigma", lambda s, **kw: tdem.Simulation1DLayered(survey=s, **{**dict(thicknesses=np.r_[5.0, 8.0], sigmaMap=maps.ExpMap(nP=3)), **kw}),
              s1, tdem.Survey, lambda k: -3 + rnd(k + 6, 3), caps=("J", "JtJ", "getJ"), fdtol=5e-3))
    reg(Entry("tdem1d/all", lambda s, **kw: tdem.Simulation1DLayered(survey=s, **{**dict(
        sigmaMap=maps.ExpMap(nP=3) * w1.s, muMap=maps.ExpMap(nP=3) * w1.mu, thicknessesMap=maps.ExpMap(nP=2) * w1.t, hMap=maps.ExpMap(nP=1) * w1.h, topo=np.r_[0., 0., 0.]), **kw}),
        s1[:1], tdem.Survey, lambda k: np.r_[-3 + rnd(k + 6, 3), np.log(mu_0) + 0.5 * rnd(k + 2, 3), 1.5 + rnd(k + 3, 2), 2.5 + rnd(k + 4, 1)], caps=("J", "JtJ", "getJ"), fdtol=1e-2))


# ----------------------------------------------------------------------------- NSEM
def build_nsem():
    import discretize
    from simpeg import maps
    import simpeg.electromagnetics.natural_source as ns
    Rx = ns.receivers
    # 3D primary secondary
    m3 = discretize.TensorMesh([[(200.0, 1, -1.5), (200.0, 2), (200.0, 1, 1.5)], [(200.0, 1, -1.5), (200.0, 2), (200.0, 1, 1.5)], [(200.0, 2, -1.5), (200.0, 3), (200.0, 2, 1.5)]], "CCC")
    act = m3.cell_centers[:, 2] < 0
    na = int(act.sum())
    mp = lambda: maps.InjectActiveCells(m3, act, 1e-8) * maps.ExpMap(nP=na)
    hs = np.where(act, 1e-1, 1e-8)
    X1 = np.array([[-90.0, 33.0, 0.0], [70.0, 80.0, 0.0]])
    X2 = np.array([[40.0, -70.0, 0.0]])
    lst = [
        lambda: Rx.Impedance(X1, orientation="xy", component="real"),
        lambda: Rx.Impedance(X2, orientation="yx", component="imag"),
        lambda: Rx.Impedance(X1, orientation="xx", component="imag"),
        lambda: Rx.Impedance(X1, orientation="yy", component="real"),
        lambda: Rx.Impedance(X2, orientation="xy", component="apparent_resistivity"),
        lambda: Rx.Impedance(X1, orientation="yx", component="phase"),
        lambda: Rx.Tipper(X1, orientation="zx", component="real"),
        lambda: Rx.Tipper(X2, X2 + 20, orientation="zy", component="imag"),
        lambda: Rx.Tipper(X1, X1 + 25, orientation="xy", component="imag"),
        lambda: Rx.Admittance(X1, orientation="xy", component="real"),
        lambda: Rx.Admittance(X2, orientation="zx", component="imag"),
        lambda: Rx.Admittance(X1, orientation="yx", component="imag"),
        lambda: Rx.ApparentConductivity(X1),
        lambda: Rx.Impedance(X1, X1 + 30, orientation="xy", component="imag"),
    ]
    sp3 = [
        (lambda rx: ns.sources.PlanewaveXYPrimary(rx, frequency=10.0), lst),
        (lambda rx: ns.sources.PlanewaveXYPrimary(rx, frequency=1.0), [lst[0], lst[6], lst[12]]),
    ]
    reg(Entry("nsem3d/ps", lambda s, **kw: ns.Simulation3DPrimarySecondary(m3, survey=s, **{**dict(sigmaPrimary=hs, sigmaMap=mp()), **kw}),
              sp3, ns.Survey, _mods(na, -2.0, 1.0), fdtol=2e-3))
    sp3b = [(sp3[0][0], lst[:9] + lst[13:]), (sp3[1][0], [lst[6], lst[0]])]
    reg(Entry("nsem3d/ps-getJ", lambda s, **kw: ns.Simulation3DPrimarySecondary(m3, survey=s, **{**dict(sigmaPrimary=hs, sigmaMap=mp()), **kw}),
              sp3b, ns.Survey, _mods(na, -2.0, 1.0), caps=("J", "JtJ", "getJ"), fdtol=2e-3))
    # 2D
    m2 = discretize.TensorMesh([[(40.0, 1, -1.4), (40.0, 4), (40.0, 1, 1.4)], [(40.0, 2, -1.4), (40.0, 4), (40.0, 2, 1.4)]], "CC")
    Y1 = np.array([[-37.0, 0.0], [51.0, 0.0]])
    Y2 = np.array([[13.0, 0.0]])
    a2 = m2.cell_centers[:, 1] < 0
    n2 = int(a2.sum())
    mp2 = lambda air=1e-8: maps.InjectActiveCells(m2, a2, air) * maps.ExpMap(nP=n2)
    for nm, cls, ori in (("e", ns.Simulation2DElectricField, "xy"), ("h", ns.Simulation2DMagneticField, "yx")):
        l2 = [lambda ori=ori: Rx.Impedance(Y1, orientation=ori, component="real"),
              lambda ori=ori: Rx.Impedance(Y2, orientation=ori, component="imag"),
              lambda ori=ori: Rx.Impedance(Y1, orientation=ori, component="apparent_resistivity"),
              lambda ori=ori: Rx.Impedance(Y2, orientation=ori, component="phase")]
        l2b = l2 + ([lambda: Rx.Tipper(Y1, orientation="zx", component="real")] if nm == "h" else [])
        l2b += [lambda nm=nm: Rx.Admittance(Y1, orientation="yx" if nm == "e" else "xy", component="real")]
        reg(Entry("nsem2d/%s" % nm, lambda s, cls=cls, nm=nm, **kw: cls(m2, survey=s, **{**dict(sigmaMap=mp2(1e-8 if nm == "e" else 1e-4)), **kw}),
                  [(lambda rx: ns.sources.Planewave(rx, frequency=20.0), l2b), (lambda rx: ns.sources.Planewave(rx, frequency=5.0), l2[:2])],
                  ns.Survey, _mods(n2, -2.0, 1.0), caps=("J", "JtJ", "getJ"), fdtol=2e-3))
    # 1D
    m1 = discretize.TensorMesh([[(50.0, 6, 1.3)]], x0="N")
    Z = np.array([[0.0]])
    l1 = [lambda c=c, o=o: Rx.Impedance(Z, orientation=o, component=c) for c, o in (("real", "xy"), ("imag", "xy"), ("apparent_resistivity", "yx"), ("phase", "yx"))]
    for nm, cls in (("e", ns.Simulation1DElectricField), ("h", ns.Simulation1DMagneticField)):
        reg(Entry("nsem1d/%s" % nm, lambda s, cls=cls, **kw: cls(m1, survey=s, **{**dict(sigmaMap=maps.ExpMap(nP=m1.nC)), **kw}),
                  [(lambda rx: ns.sources.Planewave(rx, frequency=20.0), l1), (lambda rx: ns.sources.Planewave(rx, frequency=5.0), l1[1:3])],
                  ns.Survey, _mods(m1.nC, -2.0, 1.0), fdtol=2e-3))
    w = maps.Wires(("s", 4), ("t", 3))
    for fix in (False, True):
        reg(Entry("nsem1d/rec%s" % ("-thick" if not fix else ""), lambda s, fix=fix, **kw: ns.Simulation1DRecursive(survey=s, **{**(dict(
            sigmaMap=maps.ExpMap(nP=4), thicknesses=np.r_[30.0, 50.0, 90.0]) if fix else dict(sigmaMap=maps.ExpMap(nP=4) * w.s, thicknessesMap=maps.ExpMap(nP=3) * w.t)), **kw}),
            [(lambda rx: ns.sources.Planewave(rx, frequency=20.0), l1), (lambda rx: ns.sources.Planewave(rx, frequency=200.0), l1[1:3])],
            ns.Survey, (lambda k: -2 + rnd(k, 4)) if fix else (lambda k: np.r_[-2 + rnd(k, 4), 3 + rnd(k + 9, 3)]), caps=("J", "JtJ"), fdtol=5e-3))


# ----------------------------------------------------------------------------- potential fields
def build_pf():
    import discretize
    from simpeg import maps
    from simpeg.potential_fields import gravity, magnetics
    mesh = discretize.TensorMesh([[(10.0, 4)], [(10.0, 3)], [(10.0, 3)]], "CCN")
    act = np.ones(mesh.nC, bool)
    act[[1, 7, 30]] = False
    na = int(act.sum())
    X1 = np.array([[-9.0, 3.0, 5.0], [7.0, 8.0, 4.0], [2.0, -11.0, 7.0]])
    X2 = np.array([[4.0, -7.0, 3.0], [-13.0, 9.0, 6.0]])
    gsp = [(lambda rx: gravity.SourceField(rx), [lambda: gravity.Point(X1, components=["gz", "gx", "gxy"]), lambda: gravity.Point(X2, components="gzz"), lambda: gravity.Point(X2 + 1, components=["gy", "gxx", "gxz", "gyy", "gyz", "guv"])])]
    msp = [(lambda rx: magnetics.UniformBackgroundField(rx, amplitude=50000.0, inclination=63.0, declination=21.0),
            [lambda: magnetics.Point(X1, components=["tmi", "bx", "bxy"]), lambda: magnetics.Point(X2, components="bz"), lambda: magnetics.Point(X2 + 1, components=["by", "bxx", "bxz", "byy", "byz", "bzz", "tmi_x", "tmi_y", "tmi_z"])])]
    for eng in ("geoana", "choclo"):
        for st in ("ram", "forward_only"):
            caps = ("J", "JtJ", "getJ") if not (eng == "geoana" and st == "forward_only") else ()
            kwm = dict(engine=eng, store_sensitivities=st, active_cells=act, sensitivity_dtype=np.float64)
            if eng == "choclo":
                kwm["numba_parallel"] = False
            else:
                kwm["n_processes"] = 1
            reg(Entry("grav/%s/%s" % (eng, st), lambda s, kwm=kwm, **kw: gravity.Simulation3DIntegral(mesh, survey=s, **{**dict(rhoMap=maps.IdentityMap(nP=na)), **kwm, **kw}),
                      gsp, lambda ss: gravity.Survey(ss[0]), _mods(na, 0.0, 1.0), caps=caps, fdtol=1e-6))
            reg(Entry("mag/%s/%s" % (eng, st), lambda s, kwm=kwm, **kw: magnetics.Simulation3DIntegral(mesh, survey=s, **{**dict(chiMap=maps.IdentityMap(nP=na)), **kwm, **kw}),
                      msp, lambda ss: magnetics.Survey(ss[0]), _mods(na, 0.0, 0.1), caps=caps, fdtol=1e-6))
            reg(Entry("mvi/%s/%s" % (eng, st), lambda s, kwm=kwm, **kw: magnetics.Simulation3DIntegral(mesh, survey=s, **{**dict(chiMap=maps.IdentityMap(nP=3 * na), model_type="vector"), **kwm, **kw}),
                      msp, lambda ss: magnetics.Survey(ss[0]), _mods(3 * na, 0.0, 0.1), caps=caps, fdtol=1e-6))
        kwm = dict(kwm)
        kwm["store_sensitivities"] = "ram"
        asp = [(msp[0][0], [lambda: magnetics.Point(X1, components=["bx", "by", "bz"]), lambda: magnetics.Point(X2, components=["bx", "by", "bz"])])]
        reg(Entry("magamp/%s" % eng, lambda s, kwm=kwm, **kw: magnetics.Simulation3DIntegral(mesh, survey=s, **{**dict(chiMap=maps.IdentityMap(nP=na), is_amplitude_data=True), **kwm, **kw}),
                  asp, lambda ss: magnetics.Survey(ss[0]), lambda k: 0.02 + 0.05 * rnd(k, na), caps=("J", "JtJ"), fdtol=1e-3, composable=False))
    for nm, dtp in (("grav", gravity), ("mag", magnetics)):
        mk = {"grav": lambda s, **kw: gravity.Simulation3DIntegral(mesh, survey=s, **{**dict(rhoMap=maps.InjectActiveCells(mesh, act, 0.0)[act, :] if False else maps.ExpMap(nP=na), active_cells=act, engine="choclo", numba_parallel=False, sensitivity_dtype=np.float64), **kw}),
              "mag": lambda s, **kw: magnetics.Simulation3DIntegral(mesh, survey=s, **{**dict(chiMap=maps.ExpMap(nP=na), active_cells=act, engine="choclo", numba_parallel=False, sensitivity_dtype=np.float64), **kw})}[nm]
        reg(Entry("%s/expmap" % nm, mk, gsp if nm == "grav" else msp, (lambda ss: gravity.Survey(ss[0])) if nm == "grav" else (lambda ss: magnetics.Survey(ss[0])),
                  _mods(na, -2.0, 1.0), caps=("J", "JtJ", "getJ"), fdtol=1e-3))
    # PDE magnetics
    from scipy.constants import mu_0
    m3 = discretize.TensorMesh([[(10.0, 2, -1.4), (10.0, 2), (10.0, 2, 1.4)]] * 3, "CCC")
    dsp = [(lambda rx: magnetics.UniformBackgroundField(rx, amplitude=50000.0, inclination=63.0, declination=21.0), [lambda: magnetics.Point(X1, components=["tmi", "bx", "by", "bz"])])]
    reg(Entry("magpde/mu", lambda s, **kw: magnetics.Simulation3DDifferential(m3, survey=s, **{**dict(muMap=maps.ChiMap(m3)), **kw}),
              dsp, lambda ss: magnetics.Survey(ss[0]), lambda k: 0.01 + 0.1 * rnd(k, m3.nC), caps=("J", "getJ"), fdtol=5e-3, composable=False))
    wr = maps.Wires(("mu", m3.nC), ("rem", 3 * m3.nC))
    reg(Entry("magpde/J", lambda s, **kw: magnetics.Simulation3DDifferential(m3, survey=s, **{**dict(muMap=maps.ChiMap(m3), storeJ=True), **kw}),
              dsp, lambda ss: magnetics.Survey(ss[0]), lambda k: 0.01 + 0.1 * rnd(k, m3.nC), caps=("J", "getJ"), fdtol=5e-3, composable=False))
    reg(Entry("magpde/rem", lambda s, **kw: magnetics.Simulation3DDifferential(m3, survey=s, **{**dict(mu=mu_0 * (1 + rnd(3, m3.nC)), remMap=maps.IdentityMap(nP=3 * m3.nC)), **kw}),
              dsp, lambda ss: magnetics.Survey(ss[0]), lambda k: 5000.0 * (rnd(k, 3 * m3.nC) - 0.3), caps=("J", "getJ"), fdtol=5e-3, composable=False,
              setprops=dict(mu=lambda k: mu_0 * (1 + rnd(33 + k, m3.nC)))))
    reg(Entry("magpde/mu-rem", lambda s, **kw: magnetics.Simulation3DDifferential(m3, survey=s, **{**dict(muMap=maps.ChiMap(m3) * wr.mu, remMap=wr.rem), **kw}),
              dsp, lambda ss: magnetics.Survey(ss[0]), lambda k: np.r_[0.01 + 0.1 * rnd(k, m3.nC), 5000.0 * (rnd(k, 3 * m3.nC) - 0.3)], caps=("J", "getJ"), fdtol=5e-3, composable=False, wires=[m3.nC, 3 * m3.nC]))
    # equivalent source layers
    m2 = discretize.TensorMesh([[(10.0, 4)], [(10.0, 3)]], "CC")
    for eng in ("geoana", "choclo"):
        ek = dict(engine=eng, sensitivity_dtype=np.float64)
        if eng == "choclo":
            ek["numba_parallel"] = False
        reg(Entry("grav-eql/%s" % eng, lambda s, ek=ek, **kw: gravity.SimulationEquivalentSourceLayer(m2, -2.0, -9.0, survey=s, **{**dict(rhoMap=maps.IdentityMap(nP=m2.nC)), **ek, **kw}),
                  gsp, lambda ss: gravity.Survey(ss[0]), _mods(m2.nC, 0.0, 1.0), caps=("J", "JtJ", "getJ"), fdtol=1e-6))
        reg(Entry("mag-eql/%s" % eng, lambda s, ek=ek, **kw: magnetics.SimulationEquivalentSourceLayer(m2, -2.0, -9.0, survey=s, **{**dict(chiMap=maps.IdentityMap(nP=m2.nC)), **ek, **kw}),
                  msp, lambda ss: magnetics.Survey(ss[0]), _mods(m2.nC, 0.0, 1.0), caps=("J", "JtJ", "getJ"), fdtol=1e-6))


# ----------------------------------------------------------------------------- others
def build_misc():
    import discretize
    from simpeg import maps, simulation, survey
    from simpeg.flow import richards
    from simpeg.seismic import straight_ray_tomography as tomo
    from simpeg.electromagnetics import viscous_remanent_magnetization as vrm
    # tomography
    m2 = discretize.TensorMesh([5, 6])
    r1 = np.array([[0.95, 0.1], [0.93, 0.5], [0.7, 0.9]])
    r2 = np.array([[0.8, 0.3], [0.55, 0.85]])
    tsp = [(lambda rx: tomo.Src(rx, location=np.r_[0.05, 0.22]), [lambda: tomo.Rx(r1), lambda: tomo.Rx(r2)]),
           (lambda rx: tomo.Src(rx, location=np.r_[0.03, 0.71]), [lambda: tomo.Rx(r2), lambda: tomo.Rx(r1[:2])])]
    reg(Entry("tomo/id", lambda s, **kw: tomo.Simulation(m2, survey=s, **{**dict(slownessMap=maps.IdentityMap(m2)), **kw}), tsp, tomo.Survey,
              lambda k: 1 + rnd(k, m2.nC), caps=("J", "getJ"), fdtol=1e-6))
    reg(Entry("tomo/exp", lambda s, **kw: tomo.Simulation(m2, survey=s, **{**dict(slownessMap=maps.ExpMap(m2)), **kw}), tsp, tomo.Survey,
              lambda k: rnd(k, m2.nC), caps=("J", "getJ"), fdtol=1e-3))
    # linear
    m1 = discretize.TensorMesh([20])
    lsp = [(lambda rx: survey.BaseSrc(rx), [lambda: survey.BaseRx(np.zeros((7, 1)))])]
    for mn, mpf in (("id", lambda: maps.IdentityMap(nP=20)), ("exp", lambda: maps.ExpMap(nP=20))):
        reg(Entry("linear/expsin-%s" % mn, lambda s, mpf=mpf, **kw: simulation.ExponentialSinusoidSimulation(mesh=m1, survey=s, **{**dict(model_map=mpf(), n_kernels=7, p=-0.25, q=0.25, j0=0, jn=60), **kw}),
                  lsp, survey.BaseSurvey, _mods(20, 0.0, 1.0), caps=("J", "getJ"), fdtol=1e-3, composable=False))
        G = np.random.RandomState(3).randn(7, 20)
        reg(Entry("linear/G-%s" % mn, lambda s, mpf=mpf, G=G, **kw: simulation.LinearSimulation(survey=s, **{**dict(model_map=mpf(), G=G), **kw}),
                  lsp, survey.BaseSurvey, _mods(20, 0.0, 1.0), caps=("J", "getJ"), fdtol=1e-3, composable=False))
    # richards
    m1r = discretize.TensorMesh([[(40.0 / 12, 12)]], "N")
    params = richards.empirical.HaverkampParams().celia1990

    def rich(meth, newton, which):
        def mk(s, **kw):
            if which == "Ks":
                k, th = richards.empirical.haverkamp(m1r, **params)
                k.KsMap = maps.ExpMap(nP=m1r.nC)
            else:
                k, th = richards.empirical.haverkamp(m1r, **params)
                w = maps.Wires(("Ks", m1r.nC), ("A", m1r.nC), ("ts", m1r.nC))
                k.KsMap = maps.ExpMap(nP=m1r.nC) * w.Ks
                k.AMap = w.A
                th.theta_sMap = w.ts
            sim = richards.SimulationNDCellCentered(m1r, survey=s, hydraulic_conductivity=k, water_retention=th, root_finder_tol=1e-12, root_finder_max_iter=300,
                                                    boundary_conditions=np.array([-61.5, -20.7]), initial_conditions=np.zeros(m1r.nC) - 61.5, do_newton=newton, method=meth)
            sim.time_steps = [(40, 3), (60, 3)]
            return sim
        return mk
    tt = np.r_[50.0, 130.0, 260.0]
    loc = np.array([[-20.0], [-33.0]])
    rsp = [(lambda rx: rx, [lambda: richards.receivers.Pressure(loc, times=tt), lambda: richards.receivers.Saturation(loc[:1], times=tt[1:])])]
    for meth in ("mixed", "head"):
        for newton in (False, True):
            if meth == "head" and newton:
                continue
            reg(Entry("richards/%s/%s/Ks" % (meth, "newton" if newton else "picard"), rich(meth, newton, "Ks"), rsp, lambda ss: richards.Survey(ss[0]),
                      lambda k: np.log(params["Ks"]) + 0.3 * rnd(k, m1r.nC), caps=("J",), fdtol=1e-4, fdstep=1e-3, composable=False))
    reg(Entry("richards/mixed/picard/full", rich("mixed", False, "full"), rsp, lambda ss: richards.Survey(ss[0]),
              lambda k: np.r_[np.log(params["Ks"]) + 0.3 * rnd(k, m1r.nC), params["A"] * (1 + 0.05 * rnd(k + 3, m1r.nC)), params["theta_s"] * (1 + 0.05 * rnd(k + 5, m1r.nC))], caps=("J",), fdtol=1e-4, fdstep=1e-3, wires=[m1r.nC] * 3, composable=False))
    # VRM
    mv = discretize.TensorMesh([[(4.0, 4)], [(4.0, 3)], [(4.0, 2)]], "CCN")
    av = np.ones(mv.nC, bool)
    av[5] = False
    tv = np.logspace(-4, -2, 3)
    L1 = np.array([[3.0, 1.0, 1.0], [-5.0, 2.0, 1.5]])
    vsp = [(lambda rx: vrm.Src.MagDipole(rx, np.r_[0.0, 0.0, 2.0], [1.0, 0.0, 1.0], vrm.waveforms.StepOff(t0=0.0)),
            [lambda: vrm.Rx.Point(L1, times=tv, field_type="dbdt", orientation="z"), lambda: vrm.Rx.Point(L1[:1], times=tv[:2], field_type="dhdt", orientation="x")]),
           (lambda rx: vrm.Src.CircLoop(rx, np.r_[1.0, 0.0, 2.0], 5.0, np.r_[30.0, 10.0], 1.0, vrm.waveforms.SquarePulse(delt=0.02, t0=0.0)),
            [lambda: vrm.Rx.SquareLoop(L1, times=tv, field_type="dhdt", orientation="y", width=1.0, n_turns=2, quadrature_order=3)]),
           (lambda rx: vrm.Src.LineCurrent(rx, np.array([[-8.0, -8.0, 0.1], [8.0, -8.0, 0.1], [8.0, 8.0, 0.1], [-8.0, 8.0, 0.1], [-8.0, -8.0, 0.1]]), 1.0, vrm.waveforms.StepOff(t0=0.0)),
            [lambda: vrm.Rx.Point(L1, times=tv[:1], field_type="dhdt", orientation="z")])]

    def vs(ss):
        s = vrm.Survey(ss)
        s.set_active_interval(-1e6, 1e6)
        return s
    reg(Entry("vrm/lin", lambda s, **kw: vrm.Simulation3DLinear(mv, survey=s, **{**dict(refinement_factor=0, active_cells=av, xiMap=maps.IdentityMap(nP=int(av.sum()))), **kw}),
              vsp, vs, lambda k: 1e-3 * rnd(k, int(av.sum())), caps=("J",), fdtol=1e-5))


def load(groups=None):
    ZOO.clear()
    for f in (build_static, build_fdem, build_tdem, build_nsem, build_pf, build_misc):
        f()
    return ZOO
