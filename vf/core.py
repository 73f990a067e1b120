"""Common machinery of the checks: TLC driving, trace validation, verdicts, evidence.

A check is a python module /verif/harness/<id lower>.py with a function run(ctx).
It (1) model-checks the design specification with TLC, (2) takes behaviours from TLC or
makes histories from VERIF_SEED, (3) steps the real code of /repo through them and logs
one event per public call, (4) lets TLC judge the recorded trace against the
specification.  Exit 0: nothing bad.  Exit 1 + VIOLATION line: TLC's verdict named bad
events that the known-findings file does not list.  Any other exit: machinery error.
"""
import os, sys, json, time, shutil, subprocess, tempfile, traceback, re, fnmatch, glob
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BIG = 2000000000          # stands for nan / inf / out of range
NCPU = min(8, len(os.sched_getaffinity(0)))


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ encoding helpers
def q1(x, scale=1.0):
    """one float -> int (total: nan/inf/huge -> +-BIG)"""
    import numpy as np
    try:
        x = float(np.real(x)) * scale
    except Exception:
        return BIG
    if x != x:
        return BIG
    if x > 1.9e9:
        return BIG - 1
    if x < -1.9e9:
        return -BIG
    return int(round(x))


def q(v, scale=1.0):
    """array -> flat list of ints in Fortran-free (C) order"""
    import numpy as np
    a = np.asarray(v)
    if a.dtype == object:
        try:
            a = a.astype(float)
        except Exception:
            return [BIG]
    if np.iscomplexobj(a):
        a = np.c_[a.ravel().real, a.ravel().imag]
    return [q1(x, scale) for x in a.ravel()]


def pair(a, b, bits=20, floor=0.0):
    """Encode two arrays on one common power-of-two scale (max |b| -> about 2**bits).
    Returns (ints of a, ints of b).  The scale is set by the reference b."""
    import numpy as np
    aa = np.asarray(a)
    bb = np.asarray(b)
    m = 0.0
    try:
        if bb.size:
            m = float(np.nanmax(np.abs(bb)))
    except Exception:
        m = 0.0
    m = max(m, floor)
    if not np.isfinite(m) or m == 0.0:
        try:
            m = float(np.nanmax(np.abs(aa)))
        except Exception:
            m = 1.0
        if not np.isfinite(m) or m == 0.0:
            m = 1.0
    e = bits - int(np.ceil(np.log2(m)))
    s = float(2.0 ** e)
    if not np.isfinite(s) or s == 0:
        s = 1.0
    return q(aa, s), q(bb, s)


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        i = int(o)
        return i if -BIG <= i <= BIG else (BIG if i > 0 else -BIG)
    if isinstance(o, (float, np.floating)):
        return q1(o)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if o is None:
        return "none"
    return str(o)


def exc_event(case, exc, **kw):
    tb = traceback.format_exc()
    ev = dict(op="exception", case=case, type=type(exc).__name__, msg=str(exc)[:300], tb=tb[-1500:])
    ev.update(kw)
    return ev


def _guarded(args):
    fn, item = args
    try:
        return fn(item)
    except Exception as exc:
        name = item.get("case") if isinstance(item, dict) else str(item)
        return [exc_event(str(name), exc)]


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.bad = []            # dicts: trace, line, clause, event
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.distinct = set()
        self.opcount = {}
        self.level = "model_checking"
        self.known = load_known(pid)

    # --------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, name, workers=1, args=(), env=None, timeout=600, heap="2g"):
        wd = os.path.join(self.work, name)
        os.makedirs(wd, exist_ok=True)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, wd)
        with open(os.path.join(wd, name + ".cfg"), "w") as fh:
            fh.write(cfg_text)
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m",
               "-cp", JAR, "tlc2.TLC", "-metadir", os.path.join(wd, "states"), "-workers", str(workers),
               "-config", name + ".cfg", *args, module + ".tla"]
        t1 = time.time()
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % name)
        if os.environ.get("VF_TIME"):
            print("  [tlc %s %.1fs at %.1f]" % (name, time.time() - t1, time.time() - self.t0), flush=True)
        return p.returncode, p.stdout

    def model(self, module, cfg_text, name=None, workers=4, need_actions=(), timeout=600, args=(), light=None):
        """exhaustive model check of a design specification; must pass.  Action coverage slows
        TLC down a lot for some specifications: light names invariants to leave out of the run
        that measures it (the run that decides is made without coverage)."""
        name = name or module
        if light:
            cfg2 = re.sub(r"\b(%s)\b" % "|".join(light), "", cfg_text)
            rc, out2 = self.tlc(module, cfg2, name + "_cov", workers=workers, args=["-coverage", "60", *args], timeout=timeout)
        rc, out = self.tlc(module, cfg_text, name, workers=workers, args=[*(() if light else ("-coverage", "60")), *args], timeout=timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if rc != 0 or not m or int(m.group(3)) != 0:
            i = max(out.find("Error:"), 0)
            raise MachineryError("design model %s failed (rc %s):\n%s" % (name, rc, out[i:i + 3000]))
        gen, dist = int(m.group(1)), int(m.group(2))
        # vacuity: every named action must have been taken
        for a in need_actions:
            mm = re.findall(r"<%s[ (][^>]*>: (\d+):(\d+)" % re.escape(a), out2 if light else out)
            if not mm or all(int(g) == 0 for _, g in mm):
                raise MachineryError("action %s never taken in %s" % (a, name))
        self.states += dist
        self.transitions += gen
        self.models.append(dict(model=name, states=dist, transitions=gen))
        return out

    def behaviours(self, module, cfg_text, name=None, simulate=None, depth=None, workers=1, timeout=600, limit=None):
        """behaviours printed by the specification as  BEH "<json>"  lines"""
        name = name or (module + "_gen")
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed + 7)]
        rc, out = self.tlc(module, cfg_text, name, workers=workers, args=args, timeout=timeout)
        res, seen = [], set()
        for m in re.finditer(r'<<"BEH", "(.*?)">>\s*$', out, re.M):
            s = m.group(1).encode().decode("unicode_escape")
            if s in seen:
                continue
            seen.add(s)
            res.append(json.loads(s))
        if "Error:" in out or not res:
            raise MachineryError("behaviour generation %s failed:\n%s" % (name, out[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        return res[:limit] if limit else res

    def validate(self, module, events, name=None, constants="", timeout=600, chunk=4000):
        """TLC judges the recorded events.  Cases (field 'case') are kept whole; big traces
        are split between cases and judged in parallel."""
        name = name or module
        events = [jsonable(e) for e in events]
        for e in events:
            e.setdefault("case", "-")
            k = "%s" % e.get("op")
            self.opcount[k] = self.opcount.get(k, 0) + 1
        self.events += len(events)
        # exceptions raised by the code under test are judged outside the state walk
        parts, cur = [], []
        for e in events:
            if len(cur) >= chunk and e.get("op") in ("new", "case") :
                parts.append(cur)
                cur = []
            cur.append(e)
        if cur:
            parts.append(cur)
        jobs = []
        for i, p in enumerate(parts):
            jobs.append((self, module, p, "%s_%d" % (name, i), constants, timeout))
        if len(jobs) == 1:
            results = [_validate_one(jobs[0])]
        else:
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(min(NCPU, len(jobs))) as ex:
                results = list(ex.map(_validate_one, jobs))
        off = 0
        for p, (verdict, st) in zip(parts, results):
            self.states += st
            self.transitions += len(p)
            cases = set(e["case"] for e in p)
            self.traces += len(cases)
            for line, clause in verdict:
                ev = p[line - 1]
                self.bad.append(dict(module=module, line=off + line, clause=clause, case=ev["case"], event=ev))
            off += len(p)
        for e in events:
            key = (e["case"], e.get("op"))
            self.distinct.add(json.dumps(e, sort_keys=True) if len(self.distinct) < 200000 else key)
        if len(self.samples) < 6 and events:
            for i in (0, len(events) // 2, len(events) - 1):
                s = json.dumps(events[i])
                self.samples.append(s if len(s) < 1500 else s[:1500] + "...")

    # --------------------------------------------------------------- running cases
    def pmap(self, fn, items, procs=None, timeout=600):
        """run cases in forked processes; each returns a list of events"""
        items = list(items)
        procs = procs or NCPU
        out = []
        if procs <= 1 or len(items) <= 1:
            for it in items:
                out.extend(_guarded((fn, it)))
            return out
        mpc = mp.get_context("fork")
        with mpc.Pool(min(procs, len(items)), maxtasksperchild=None) as pool:
            res = [pool.apply_async(_guarded, ((fn, it),)) for it in items]
            end = time.time() + timeout
            for it, r in zip(items, res):
                nm = it.get("case") if isinstance(it, dict) else str(it)
                try:
                    out.extend(r.get(max(1.0, end - time.time())))
                except mp.TimeoutError:
                    out.append(dict(op="exception", case=str(nm), type="Timeout",
                                    msg="case did not finish in %ss" % timeout))
            pool.terminate()
        return out

    # --------------------------------------------------------------- verdict
    def finish(self):
        new, hit = [], {}
        for b in self.bad:
            k = match_known(self.known, b)
            if k is None:
                new.append(b)
            else:
                hit.setdefault(k["id"], (k, b))
        for k, b in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   events_judged=self.events, distinct_events=len(self.distinct),
                   event_kinds=self.opcount, models=self.models, samples=self.samples[:8] or ["none"])
        if self.level in ("exploration", "fault_enumeration"):
            cov.update(evaluations=self.events, distinct_nontrivial=len(self.distinct),
                       rule="events recorded from the real code; distinct by content")
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions or ["TLC and the event encoders in /verif/harness are trusted"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if new:
            rp = os.path.join(VERIF, "evidence", "replay_%s.json" % self.pid)
            with open(rp, "w") as fh:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, bad=new[:200]), fh, indent=1)
            seen = set()
            for b in new:
                k = (b["case"], b["clause"])
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) > 12:
                    break
                print("  bad: case=%s op=%s clause=%s %s" % (b["case"], b["event"].get("op"), b["clause"],
                      str(b["event"].get("msg", ""))[:200]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s events=%d traces=%d states=%d wall=%.1fs" % (
            self.pid, self.events, self.traces, self.states, time.time() - self.t0))
        return 0


def _validate_one(job):
    ctx, module, evs, name, constants, timeout = job
    wd = os.path.join(ctx.work, name)
    os.makedirs(wd, exist_ok=True)
    tf = os.path.join(wd, "trace.ndjson")
    vf = os.path.join(wd, "verdict.json")
    with open(tf, "w") as fh:
        for e in evs:
            fh.write(json.dumps(e) + "\n")
    cfg = "SPECIFICATION TraceSpec\nINVARIANT TraceReport\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + constants
    rc, out = ctx.tlc(module, cfg, name, workers=1, env=dict(TRACE_FILE=tf, VERDICT_FILE=vf), timeout=timeout)
    if not os.path.exists(vf) or rc != 0:
        raise MachineryError("trace validation %s failed (rc %s):\n%s" % (name, rc, out[-4000:]))
    with open(vf) as fh:
        v = json.load(fh)
    m = re.search(r"(\d+) distinct states found", out)
    return [(b["l"], b["c"]) for b in v], int(m.group(1)) if m else 0


# ---------------------------------------------------------------------- known findings
def load_known(pid):
    f = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                res.append(d)
    return res


def match_known(known, b):
    for k in known:
        if fnmatch.fnmatchcase(b["case"], k["case"]) and fnmatch.fnmatchcase(b["clause"], k["clause"]) \
                and ("op" not in k or k["op"] == b["event"].get("op")):
            return k
    return None


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import logging
    logging.disable(logging.INFO)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    ctx = Ctx(pid, tier, seed)
    try:
        os.chdir(ctx.work)
        try:
            mod = __import__(pid.lower())
            mod.run(ctx)
        except MachineryError as exc:
            print("MACHINERY ERROR:", exc)
            return 2
        except Exception as exc:
            tb = traceback.format_exc()
            print(tb)
            if "/simpeg/" in tb:
                # the code under test raised where the specification has a normal return
                ctx.bad.append(dict(module="-", line=0, clause="unexpected-exception", case="driver",
                                    event=exc_event("driver", exc)))
            else:
                return 2
        return ctx.finish()
    finally:
        os.chdir("/")
        shutil.rmtree(ctx.work, ignore_errors=True)
