"""C03 - survey / data layout: TLC behaviours replayed into the real survey and data
classes, plus every survey family, judged by TraceSurvey.tla."""
import random
import numpy as np
from vf.core import exc_event, q


def cfg(maxsrc, maxrx, maxn, extra=""):
    return ("CONSTANTS MaxSrc=%d\n MaxRx=%d\n MaxN=%d\n" % (maxsrc, maxrx, maxn)) + extra + "CHECK_DEADLOCK FALSE\n"


def layout_event(case, srv, srcs, pf=False):
    slices = srv.get_all_slices()
    sl, sl1 = [], []
    for s in srcs:
        for r in s.receiver_list:
            a = slices[s, r]
            sl.append([a.start, a.stop])
            b = srv.get_slice(s, r)
            sl1.append([b.start, b.stop])
    vnd = [int(sum(srv.vnD))] if pf else [int(x) for x in srv.vnD]
    rxidx = []
    for s in srcs:
        rxidx.append([s.get_receiver_indices(r)[0] for r in s.receiver_list])
    cols = [list(srv.get_source_indices(s)) for s in srcs]
    if len(srcs) > 1:
        both = list(srv.get_source_indices(list(reversed(srcs))))
        if both != sum(reversed(cols), []):
            cols = [[-1]]
    return dict(op="layout", case=case, slices=sl, slices1=sl1, vnD=vnd, srcnD=[int(s.nD) for s in srcs],
                nD=int(srv.nD), cols=cols, rxidx=rxidx, nSrc=int(srv.nSrc))


def state_event(case, data):
    try:
        std = data.standard_deviation
        ok, var = True, [int(round(16 * x * x)) if np.isfinite(x) else 2000000000 for x in std]
    except TypeError:
        ok, var = False, []
    d = np.asarray(data.dobs)
    vec = [int(round(x)) for x in (d.imag if np.iscomplexobj(d) else d)]
    d2 = np.asarray(data.tovec())
    vec2 = [int(round(x)) for x in (d2.imag if np.iscomplexobj(d2) else d2)]
    rel4 = [] if data.relative_error is None else [int(round(4 * x)) for x in data.relative_error]
    nf = [] if data.noise_floor is None else [int(round(x)) for x in data.noise_floor]
    return dict(op="state", case=case, vec=vec, vec2=vec2, abs=[int(round(abs(x))) for x in d], stdok=ok, var16=var, rel4=rel4,
                nf=nf, nD=int(data.nD))


def err_value(v, ncur):
    if v == []:
        return None
    if len(v) == 1:
        return float(v[0])
    return np.array(v, float)


def replay(case, beh, cplx=False):
    from simpeg import survey, data
    out = []

    class Src(survey.BaseSrc):
        pass

    srv = dat = None
    srcs = []
    unit = 1j if cplx else 1.0
    for step in beh:
        op = step["op"]
        if op == "new":
            srcs = []
            for sh, f in zip(step["shape"], step["fps"]):
                rxs = [survey.BaseRx(np.zeros((n, 3))) for n in sh]
                s = Src(rxs)
                s._fields_per_source = f
                srcs.append(s)
            if srv is not None and step.get("reuse"):
                srv.source_list = srcs
            else:
                srv = survey.BaseSurvey(srcs)
            n = sum(sum(x) for x in step["shape"])
            out.append(dict(op="new", case=case, shape=step["shape"], fps=step["fps"]))
            out.append(layout_event(case, srv, srcs))
            if n == 0:
                dat = None
                continue
            # an attempt with the wrong length must be refused
            try:
                data.Data(srv, dobs=np.zeros(n + 1))
                acc = True
            except ValueError:
                acc = False
            out.append(dict(op="data", case=case, v=[0] * (n + 1), rel4=[], nf=[], accepted=acc))
            dat = data.Data(srv, dobs=np.zeros(n) * unit)
            out.append(dict(op="data", case=case, v=[0] * n, rel4=[0] * n, nf=[0] * n, accepted=True))
        elif dat is None:
            continue
        elif op == "setitem":
            s = srcs[step["s"] - 1]
            dat[s, s.receiver_list[step["r"] - 1]] = np.array(step["v"], float) * unit
            out.append(dict(op="setitem", case=case, s=step["s"], r=step["r"], v=step["v"]))
        elif op == "setvec":
            try:
                v = np.array(step["v"], float) * unit
                dat.fromvec(v)
                acc = True
            except ValueError:
                acc = False
            out.append(dict(op="setvec", case=case, v=step["v"], accepted=acc))
        elif op in ("setrel", "setnoise"):
            v = err_value(step["v"], None)
            if op == "setrel" and v is not None:
                v = v / 4.0
            try:
                setattr(dat, "relative_error" if op == "setrel" else "noise_floor", v)
                acc = True
            except (ValueError, TypeError):
                acc = False
            out.append(dict(op=op, case=case, v=step["v"], accepted=acc))
        elif op == "setstd":
            dat.standard_deviation = err_value(step["v"], None)
            out.append(dict(op="setstd", case=case, v=step["v"]))
        if dat is not None:
            out.append(state_event(case, dat))
            for i, s in enumerate(srcs):
                for j, r in enumerate(s.receiver_list):
                    g = np.asarray(dat[s, r])
                    out.append(dict(op="getitem", case=case, s=i + 1, r=j + 1,
                                    v=[int(round(x)) for x in (g.imag if cplx else g)]))
        if srcs and srcs[0].receiver_list:
            other = survey.BaseSrc([survey.BaseRx(np.zeros((1, 3)))])
            try:
                srv.get_slice(other, srcs[0].receiver_list[0])
                rej = False
            except KeyError:
                rej = True
            try:
                srv.get_source_indices(other)
                rej = False
            except KeyError:
                pass
            try:
                srcs[0].get_receiver_indices(other.receiver_list[0])
                rej = False
            except KeyError:
                pass
            out.append(dict(op="badpair", case=case, rejected=rej))
    return out


# ------------------------------------------------------------------ survey families
def fam_events(item):
    kind, seed = item["kind"], item["seed"]
    rng = random.Random("%s-%s" % (kind, seed))
    case = "family/%s/%d" % (kind, seed)
    out = []
    nsrc = 1 if kind in ("gravity", "magnetics") else rng.randint(1, 4)
    shapes, srcs, freqs = [], [], []
    counts = []

    def L(s, r, n):
        return np.array([[1000.0 * (s + 1) + 100.0 * (r + 1) + i, 0.5 * i, 0.0] for i in range(n)])

    for s in range(nsrc):
        rxs, sh = [], []
        for r in range(rng.randint(1, 3)):
            n = rng.randint(1, 4)
            if kind in ("dc", "ip", "dc_mixed"):
                from simpeg.electromagnetics.static import resistivity as dc
                if kind == "dc_mixed" and rng.random() < .5:
                    rx = dc.receivers.Pole(L(s, r, n))
                else:
                    rx = dc.receivers.Dipole(L(s, r, n), L(s, r, n) + np.r_[0, 7.0, 0])
                mult = 1
            elif kind == "fdem":
                import simpeg.electromagnetics.frequency_domain as fdem
                cls = rng.choice([fdem.receivers.PointElectricField, fdem.receivers.PointMagneticFluxDensity,
                                  fdem.receivers.PointMagneticFluxDensitySecondary, fdem.receivers.PointMagneticField,
                                  fdem.receivers.PointMagneticFieldSecondary, fdem.receivers.PointCurrentDensity])
                comp = rng.choice(["real", "imag", "both"])
                rx = cls(L(s, r, n), orientation=rng.choice("xyz"), component=comp)
                mult = 2 if comp == "both" else 1
            elif kind == "tdem":
                import simpeg.electromagnetics.time_domain as tdem
                cls = rng.choice([tdem.receivers.PointElectricField, tdem.receivers.PointMagneticFluxDensity,
                                  tdem.receivers.PointMagneticFluxTimeDerivative, tdem.receivers.PointMagneticField,
                                  tdem.receivers.PointCurrentDensity, tdem.receivers.PointMagneticFieldTimeDerivative])
                nt = rng.randint(1, 3)
                rx = cls(L(s, r, n), times=1e-4 * (1 + np.arange(nt)), orientation=rng.choice("xyz"))
                mult = nt
            elif kind == "vrm":
                from simpeg.electromagnetics import viscous_remanent_magnetization as vrm
                nt = rng.randint(1, 3)
                rx = vrm.Rx.Point(L(s, r, n), times=1e-4 * (1 + np.arange(nt)), field_type="b", orientation="z")
                mult = nt
            elif kind == "nsem":
                import simpeg.electromagnetics.natural_source as ns
                k = rng.randint(0, 3)
                if k == 0:
                    rx = ns.Rx.Impedance(L(s, r, n), orientation="xy", component="real")
                elif k == 1:
                    rx = ns.Rx.Tipper(L(s, r, n), orientation="zx", component="imag")
                elif k == 2:
                    rx = ns.Rx.Admittance(L(s, r, n), orientation="xy", component="real")
                else:
                    rx = ns.Rx.ApparentConductivity(L(s, r, n))
                mult = 1
            elif kind == "gravity":
                from simpeg.potential_fields import gravity
                comps = rng.sample(["gx", "gy", "gz", "gxx", "gxy", "gxz", "gyy", "gyz", "gzz", "guv"], rng.randint(1, 4))
                rx = gravity.Point(L(s, r, n), components=comps if len(comps) > 1 else comps[0])
                mult = len(comps)
            elif kind == "magnetics":
                from simpeg.potential_fields import magnetics
                comps = rng.sample(["tmi", "bx", "by", "bz", "bxx", "bxy", "bxz", "byy", "byz", "bzz", "tmi_x", "tmi_y", "tmi_z"], rng.randint(1, 4))
                rx = magnetics.Point(L(s, r, n), components=comps if len(comps) > 1 else comps[0])
                mult = len(comps)
            elif kind == "ray":
                from simpeg import survey
                rx = survey.BaseRx(L(s, r, n)[:, :2])
                mult = 1
            rxs.append(rx)
            sh.append(n * mult)
            counts.append(dict(op="count", case=case, kind=type(rx).__name__, nloc=n, mult=mult, nD=int(rx.nD)))
        f = rng.choice([1.0, 10.0, 100.0])
        loc = np.r_[1000.0 * (s + 1), 3.0, 0.0]
        fps = 1
        if kind in ("dc", "ip", "dc_mixed"):
            from simpeg.electromagnetics.static import resistivity as dc
            if kind == "dc_mixed" and rng.random() < .5:
                src = dc.sources.Pole(rxs, loc)
            else:
                src = dc.sources.Dipole(rxs, loc, loc + np.r_[9.0, 0, 0])
        elif kind == "fdem":
            src = rng.choice([fdem.sources.MagDipole, fdem.sources.CircularLoop])(rxs, frequency=f, location=loc)
        elif kind == "tdem":
            src = tdem.sources.MagDipole(rxs, location=loc)
        elif kind == "vrm":
            src = vrm.Src.MagDipole(rxs, loc, [1.0, 0.0, 1.0], vrm.waveforms.StepOff(t0=0.0))
        elif kind == "nsem":
            if rng.random() < .5:
                src = ns.Src.PlanewaveXYPrimary(rxs, frequency=f)
                fps = 2
            else:
                src = ns.Src.Planewave(rxs, frequency=f)
        elif kind == "gravity":
            src = gravity.SourceField(rxs)
        elif kind == "magnetics":
            src = magnetics.UniformBackgroundField(rxs, amplitude=50000.0, inclination=60, declination=10)
        elif kind == "ray":
            from simpeg import survey
            src = survey.BaseSrc(rxs, location=loc[:2])
        srcs.append(src)
        shapes.append(sh)
        freqs.append((f, fps))
    fps = [x[1] for x in freqs]
    fr = [int(x[0]) for x in freqs]

    if kind in ("dc", "ip", "dc_mixed"):
        mk = lambda S: dc.Survey(S)
    elif kind == "fdem":
        mk = lambda S: fdem.Survey(S)
    elif kind == "tdem":
        mk = lambda S: tdem.Survey(S)
    elif kind == "vrm":
        mk = lambda S: vrm.Survey(S)
    elif kind == "nsem":
        mk = lambda S: ns.Survey(S)
    elif kind == "gravity":
        mk = lambda S: gravity.Survey(S[0])
    elif kind == "magnetics":
        mk = lambda S: magnetics.Survey(S[0])
    else:
        from simpeg.seismic.straight_ray_tomography import Survey as RS
        mk = lambda S: RS(S)
    srv = mk(srcs)
    pf = kind in ("gravity", "magnetics")

    def look(srv, srcs, shapes, fps, fr):
        out.append(dict(op="new", case=case, shape=shapes, fps=fps))
        out.append(layout_event(case, srv, srcs, pf))
        if kind in ("dc", "ip", "dc_mixed"):
            sid = lambda v: int(round(v[0] // 1000)) if np.all(np.isfinite(v)) else -9
            rid = lambda v: int(round((v[0] % 1000) // 100)) if np.all(np.isfinite(v)) else -9
            for nm, a, m in (("a-m", srv.locations_a, srv.locations_m), ("b-n", srv.locations_b, srv.locations_n)):
                out.append(dict(op="owners", case=case, attr=nm, own=[[sid(x), rid(y)] for x, y in zip(a, m)]))
                out.append(dict(op="owners", case=case, attr=nm + "-rx", own=[[sid(y), rid(y)] for x, y in zip(a, m)]))
        if kind in ("fdem", "nsem"):
            keys = [int(k) for k in srv.frequencies]
            groups = [[srcs.index(s) + 1 for s in srv.get_sources_by_frequency(k)] for k in srv.frequencies]
            out.append(dict(op="groups", case=case, keyof=fr, keys=keys, groups=groups,
                            counts=[int(srv.num_sources_by_frequency[k]) for k in srv.frequencies]))
        if pf:
            own = []
            its = list(srv._location_component_iterator()) if hasattr(srv, "_location_component_iterator") else None
            if its is not None:
                for loc, comps in its:
                    own += [[int(loc[0] // 1000), int((loc[0] % 1000) // 100)]] * len(comps)
                out.append(dict(op="owners", case=case, attr="location-components", own=own))

    look(srv, srcs, shapes, fps, fr)
    out.extend(counts)
    # the same survey given another list of sources: nothing of the old list may survive
    if len(srcs) > 1:
        perm = list(range(len(srcs)))
        rng.shuffle(perm)
        perm = perm[: rng.randint(1, len(perm))]
        srv.source_list = [srcs[p] for p in perm]
        sub = [srcs[p] for p in perm]
        if kind not in ("dc", "ip", "dc_mixed", "vrm"):
            look(srv, sub, [shapes[p] for p in perm], [fps[p] for p in perm], [fr[p] for p in perm])
        elif kind != "vrm":
            out.append(dict(op="new", case=case, shape=[shapes[p] for p in perm], fps=[fps[p] for p in perm]))
            out.append(layout_event(case, srv, sub))
            for nm in "abmn":
                a = getattr(srv, "locations_" + nm)
                want = np.vstack([getattr(mk(sub), "locations_" + nm)])
                out.append(dict(op="same", case=case, attr="locations_" + nm, got=q(a, 8), want=q(want, 8)))
    return out


def run(ctx):
    ctx.model("Survey", "SPECIFICATION Spec\nINVARIANTS Partition Lengths ErrLegal ColumnsPartition\nPROPERTY OnlySlice\n"
              + cfg(2, 2, 1 if ctx.quick else 2), workers=8,
              need_actions=["ASetItem", "SetRel", "SetNoise", "SetStd"])
    n = 120 if ctx.quick else 3000
    behs = ctx.behaviours("SurveyGen", "SPECIFICATION GSpec\n" + cfg(3, 2, 3, " Depth=10\n"), simulate=n, depth=12)
    events = []
    for i, b in enumerate(behs):
        case = "beh/%d" % i
        try:
            events += replay(case, b, cplx=(i % 4 == 3))
        except Exception as exc:
            events.append(exc_event(case, exc))
    fams = ["dc", "dc_mixed", "ip", "fdem", "tdem", "vrm", "nsem", "gravity", "magnetics", "ray"]
    items = [dict(kind=k, seed=ctx.seed * 100 + j, case="family/%s" % k) for k in fams for j in range(4 if ctx.quick else 40)]
    events += ctx.pmap(fam_events, items)
    ctx.validate("TraceSurvey", events, constants="CONSTANTS MaxSrc=1\n MaxRx=1\n MaxN=1\n")
