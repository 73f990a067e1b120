"""Writes spec/domains.json: for every setting of the catalogue of harness/c17.py the kind of values it
takes (validator and parameters, whether None is a value), found by watching which validator a setter
consults.  Run by hand after the settings change; the result is reviewed and committed.  The checks only
read it."""
import collections, contextlib, inspect, io, json, os, sys, tempfile, warnings
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, "harness"), here]
warnings.filterwarnings("ignore")
import numpy as np
import c17
import simpeg.utils.code_utils as cu

LOG, DEPTH, ON = [], [0], [False]


def watch(f):
    sig = inspect.signature(f)

    def g(*a, **k):
        if ON[0] and DEPTH[0] == 0:
            b = sig.bind(*a, **k)
            b.apply_defaults()
            LOG.append((f.__name__, dict(b.arguments)))
        DEPTH[0] += 1
        try:
            return f(*a, **k)
        finally:
            DEPTH[0] -= 1
    return g


def patch():
    fs = {f: watch(f) for n, f in vars(cu).items() if n.startswith("validate_")}
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("simpeg"):
            for n, v in list(vars(m).items()):
                if inspect.isfunction(v) and v in fs:
                    setattr(m, n, fs[v])


def names(c):
    return sorted(x.__name__ for x in (c if isinstance(c, tuple) else (c,)))


def number(x):
    return 2000000000 if x == np.inf else -2000000000 if x == -np.inf else int(round(float(x) * 1000))


def describe(f, p):
    if f == "validate_float":
        return dict(kind="float", lo=number(p["min_val"]), hi=number(p["max_val"]), loin=bool(p["inclusive_min"]), hiin=bool(p["inclusive_max"]))
    if f == "validate_integer":
        return dict(kind="integer", lo=number(p["min_val"]), hi=number(p["max_val"]))
    if f == "validate_string":
        sl = p["string_list"]
        return dict(kind="string", words=[list(w) if isinstance(w, (list, tuple)) else [w] for w in sl] if sl is not None else [], free=sl is None, cased=bool(p["case_sensitive"]))
    if f == "validate_type":
        t = names(p["obj_type"])
        if p["cast"]:
            return dict(kind="cast", to=t[0]) if len(t) == 1 and t[0] in ("bool", "float", "int", "list", "dict", "str", "Path", "tuple") else None
        return dict(kind="type", types=t)
    if f == "validate_callable":
        return dict(kind="callable")
    if f == "validate_direction":
        return dict(kind="direction", dim=int(p["dim"]))
    if f == "validate_location_property":
        return dict(kind="location", dim=int(p["dim"] or 0))
    if f == "validate_ndarray_with_shape":
        sh, dt = p["shape"], p["dtype"]
        sh = [] if sh is None else [sh] if isinstance(sh, tuple) else list(sh)
        dts = dt if isinstance(dt, tuple) else (dt,)
        if not all(d in (float, int, complex, bool) for d in dts):
            return None
        return dict(kind="array", shapes=[[-1 if i == "*" else int(i) for i in s] for s in sh], free=p["shape"] is None, dtypes=[d.__name__ for d in dts])
    if f == "validate_active_indices":
        return dict(kind="cells", n=int(p["n_cells"]))
    if f == "validate_list_of_types":
        return dict(kind="list", types=names(p["class_type"]), unique=bool(p["ensure_unique"]), lo=int(p["min_n"]), hi=int(p["max_n"] if p["max_n"] is not None else -1))
    return None


# settings that are judged elsewhere (uncertainties: C03) or take more than their validator says
DROP = ("data:Data.", "data:SyntheticData.", ".mappings", "MetaSimulation.simulations", "natural_source.receivers:", ".reference_model", ".norm", "ProjectedGradient.", "SparseSmallness.active_cells", "ProjectedGNCG.")
DROP_ONLY = {"natural_source.receivers:": ".locations", "ProjectedGradient.": "er", "ProjectedGNCG.": "er"}


def known(k, d):
    """what a setter asks for beyond its validator"""
    for s in DROP:
        if s in k and k.endswith(DROP_ONLY.get(s, "")):
            return None
    if k.endswith(".current") and d["kind"] == "float":
        d["nonzero"] = True
    if k.endswith(".mu") and "sources:" in k:
        d["loin"] = False
    if "resistivity.sources:" in k and k.endswith(".current"):
        d["shapes"] = [[1]] + [[n] for s, n in (("Dipole", 2), ("Multipole", 3)) if s + "." in k]
    d["dynamic"] = "Waveform." in k     # bounds that are other settings
    return d


def main():
    c17.CAT.update(c17.catalogue())
    patch()
    os.chdir(tempfile.mkdtemp(prefix="vf_dom_"))
    out, left = {}, {}
    for key, attrs in c17.plan(c17.CAT, int(sys.argv[1]) if len(sys.argv) > 1 else 2):
        for a in attrs:
            seen, none = [], None
            for p in list(c17.VALUES) + ["w:volt"]:
                with contextlib.redirect_stdout(io.StringIO()):
                    o = c17.CAT[key]()
                    v = c17.value(p, c17.read(o, a))
                    LOG.clear()
                    ON[0] = True
                    try:
                        setattr(o, a, v)
                        ok = True
                    except Exception:
                        ok = False
                    ON[0] = False
                calls = [c for c in LOG]
                if p == "none":
                    none = "value" if ok and not calls else "" if not ok else "cast"
                    continue
                seen.append([json.dumps(describe(*c), sort_keys=True) for c in calls[:1]])
            ds = {s for x in seen for s in x}
            k = key + "." + a
            if len(ds) == 1 and all(seen) and "null" not in ds:
                d = out[k] = dict(json.loads(ds.pop()), none=none == "value", read=True)
                d.setdefault("nonzero", False)
                if known(k, d) is None:
                    del out[k]
                if d["kind"] == "string":
                    d["folded"] = [[w.casefold() for w in ws] for ws in d["words"]]
            else:
                left[k] = (len(ds), sum(1 for x in seen if x), sorted(ds)[:3])
    json.dump(out, open(os.path.join(here, "spec", "domains.json"), "w"), indent=0, sort_keys=True)
    json.dump(left, open("/tmp/c17/left.json", "w"), indent=0)
    print(len(out), len(left), collections.Counter(d["kind"] for d in out.values()))


if __name__ == "__main__":
    main()
