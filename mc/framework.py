"""Runs the checks: elaborates the real design, compiles it with a harness, explores, replays
explored traces in nmigen's simulator, writes evidence, reports violations."""
import json, os, subprocess, sys, tempfile, time, threading, shutil, hashlib, re
from concurrent.futures import ThreadPoolExecutor

MC = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(MC)
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = "/opt/pypyvenv/bin/python"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = 8
sys.path.insert(0, MC)
import gen


class Violation(Exception):
    pass


class CheckError(Exception):
    pass


def known_findings(prop):
    """key -> description, from the committed list"""
    r = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"KNOWN: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            r[m.group(2)] = m.group(3)
    return r


class Run:
    """One exploration: a design of designs.py, a harness and its bounds."""
    def __init__(self, name, design, cfg, harness, defs=None, args=None, threads=1, traces=2,
                 conform=True, max_s=None, what="", kind="states", extra_src=(), pysim_max=700, cxx="clang++",
                 flags=(), expect=None, c_src=(), c_flags=(), c_objcopy=(), fn=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", VERIF_REPO=REPO)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e, cwd=cwd,
                           errors="replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"
    return r.returncode, r.stdout, r.stderr


class _Cpus:
    def __init__(self, c, n):
        self.c, self.n = c, n

    def __enter__(self):
        with self.c.big:
            for _ in range(self.n):
                self.c.sem.acquire()

    def __exit__(self, *a):
        for _ in range(self.n):
            self.c.sem.release()


class Check:
    def __init__(self, prop, level="model_checking", assumptions=()):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.assumptions = list(assumptions)
        self.results, self.violations, self.known = [], [], []
        self.conf, self.conf_bad = 0, []
        self.conf_cycles = 0
        self.elab_cache, self.lock = {}, threading.Lock()
        self.notes = []
        self.extra = {}

    # ---- building
    def elaborate(self, design, cfg):
        key = hashlib.sha1(json.dumps([design, cfg], sort_keys=True).encode()).hexdigest()[:16]
        with self.lock:
            ev = self.elab_cache.get(key)
            mine = ev is None
            if mine:
                ev = self.elab_cache[key] = {"ev": threading.Event()}
        if not mine:
            ev["ev"].wait()
            if "err" in ev:
                raise ev["err"]
            return ev
        try:
            b = os.path.join(self.tmp, key)
            json.dump({"design": design, "cfg": cfg}, open(b + ".spec", "w"))
            rc, out, err = sh([PYPY, os.path.join(MC, "elab.py"), "rtlil", b + ".spec", b + ".il"], timeout=300)
            if rc:
                raise Violation("the design does not elaborate: " + err.strip()[-1500:])
            try:
                stats, meta = gen.compile_design(b + ".il", b + ".h", forget=cfg.get("_forget"))
            except Exception as x:
                if "combinational loop" in str(x):
                    raise Violation("the design has a " + str(x))
                raise CheckError("cannot compile design %s: %s" % (design, x))
            ev.update(hdr=b + ".h", spec=b + ".spec", stats=stats, meta=meta)
            return ev
        except Exception as x:
            ev["err"] = x
            raise
        finally:
            ev["ev"].set()

    def build(self, r):
        h = os.path.join(MC, "h", r.harness)
        d = dict(r.defs or {})
        cmd = [r.cxx, "-O2", "-std=c++20", "-pthread", "-Wno-everything", "-I", MC, "-I", os.path.join(MC, "h")]
        e = None
        if r.design:
            e = self.elaborate(r.design, r.cfg)
            cmd += ["-include", e["hdr"]]
        exe = os.path.join(self.tmp, "x_" + re.sub(r"\W", "_", r.name))
        objs = []
        for n, src in enumerate(r.c_src):
            objs.append("%s_%d.o" % (exe, n))
            rc, out, err = sh(["clang", "-g", "-O2", "-w", *r.c_flags, "-c", src, "-o", objs[-1]], timeout=300)
            if rc:
                raise CheckError("%s does not compile: %s" % (src, err[-3000:]))
            if r.c_objcopy:
                rc, out, err = sh(["objcopy", *r.c_objcopy, objs[-1]], timeout=60)
                if rc:
                    raise CheckError("objcopy %s: %s" % (src, err[-3000:]))
        cmd += ["-D%s=%s" % kv for kv in d.items()] + list(r.flags) + [h] + list(r.extra_src) + objs + ["-o", exe]
        rc, out, err = sh(cmd, timeout=600)
        if rc:
            raise CheckError("harness %s does not compile: %s" % (r.name, err[-3000:]))
        return exe, e

    # ---- running
    def one(self, r):
        if r.fn:        # an enumeration done here: fn yields (name of the case, None or what is wrong)
            t, n, bad = time.time(), 0, None
            with self.cpus(r.threads):
                for case, wrong in r.fn():
                    n += 1
                    bad = bad or (wrong and "%s: %s" % (case, wrong))
            res = dict(name=r.name, states=n, transitions=n, pruned=0, terminals=n, depth=1, executions=n, outcomes=n, complete=True, why_incomplete="",
                       violation=bool(bad), message=bad or "", wall=time.time() - t, samples=[], what=r.what, run_s=round(time.time() - t, 2))
            with self.lock:
                self.results.append(res)
            if bad:
                self.report(r, bad, None)
            return res
        try:
            with self.cpus(1):
                exe, e = self.build(r)
        except Violation as v:
            self.report(r, str(v), None)
            return None
        tf = exe + ".traces"
        cmd = [exe, "--name", r.name, "--threads", str(r.threads), "--trace-file", tf, "--traces", str(r.traces)]
        cmd += ["--mem", str(max(2048, 18000 * min(r.threads, NCPU) // NCPU))]
        cmd += [str(a) for a in (r.args or [])]
        t = time.time()
        with self.cpus(r.threads):
            t = time.time()
            # a run never outlives the check's time limit: what it could not cover is reported as incomplete
            left = max(20, (640 if TIER != "thorough" else 3 * 3600) - (t - self.t0))
            left = min(left, r.max_s or left)
            rc, out, err = sh(cmd + ["--max-s", str(int(left))], timeout=left + 150)
        res = None
        for l in out.splitlines():
            if l.startswith("RESULT "):
                res = json.loads(l[7:])
        if res is None:
            raise CheckError("harness %s gave no result (rc %s): %s" % (r.name, rc, (err or out)[-2000:]))
        res["what"] = r.what
        if e:
            res["design"] = {"name": r.design, "cfg": r.cfg, **e["stats"]}
        res["run_s"] = round(time.time() - t, 2)
        traces = []
        if os.path.exists(tf):
            traces = json.load(open(tf))
        with self.lock:
            self.results.append(res)
        if res["violation"]:
            self.report(r, res["message"], traces, e)
        elif r.conform and r.design and traces:
            with self.cpus(1):
                self.conformance(r, e, traces)
        if os.path.exists(tf):
            os.unlink(tf)
        os.unlink(exe)
        return res

    def conformance(self, r, e, traces):
        tr = [{"in": [s["i"] for s in t["steps"][:r.pysim_max]], "out": [s["o"] for s in t["steps"][:r.pysim_max]]} for t in traces if t["steps"]]
        if not tr:
            return
        b = os.path.join(self.tmp, "t_" + re.sub(r"\W", "_", r.name))
        json.dump(tr, open(b + ".in", "w"))
        rc, out, err = sh([PYPY, os.path.join(MC, "elab.py"), "pysim", e["spec"], b + ".in", b + ".out"], timeout=600)
        if rc:
            raise CheckError("nmigen simulation of %s failed: %s" % (r.name, err[-1500:]))
        for t, x in zip(tr, json.load(open(b + ".out"))):
            with self.lock:
                if x["mismatch"]:
                    self.conf_bad.append({"run": r.name, **x["mismatch"]})
                else:
                    self.conf += 1
                    self.conf_cycles += x["cycles"]
        os.unlink(b + ".in")

    def report(self, r, message, traces, e=None):
        if r.expect:
            for k in r.expect:
                what = known_findings(self.prop).get(k["key"])
                if what and re.search(k["match"], message, re.S):
                    with self.lock:
                        self.known.append("KNOWN-FINDING: property=%s %s" % (self.prop, what))
                    return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        p = os.path.join(VERIF, "replays", "%s_%s.json" % (self.prop, re.sub(r"\W", "_", r.name)))
        doc = {"property": self.prop, "run": r.name, "message": message,
               "spec": {"design": r.design, "cfg": r.cfg}, "harness": r.harness, "defs": r.defs, "args": r.args, "steps": []}
        for t in traces or []:
            if t["kind"] == "violation":
                doc["steps"] = t["steps"]
        json.dump(doc, open(p, "w"), indent=0)
        with self.lock:
            self.violations.append((p, message))

    def run_all(self, runs):
        """Builds and conformance replays take one CPU each; explorations as many as they use threads."""
        self.sem, self.big, errs = threading.Semaphore(NCPU), threading.Lock(), []

        def job(r):
            if errs or self.violations:
                return
            try:
                self.one(r)
            except CheckError as x:
                errs.append(x)
            except Exception as x:
                import traceback
                errs.append(CheckError(traceback.format_exc()))
        with ThreadPoolExecutor(len(runs) or 1) as ex:
            list(ex.map(job, runs))
        if errs and not self.violations:
            raise errs[0]

    def cpus(self, n):
        return _Cpus(self, min(n, NCPU))

    # ---- finishing
    def finish(self):
        if self.conf_bad and not self.violations:
            raise CheckError("explorer and nmigen simulator disagree: %s" % json.dumps(self.conf_bad[:3]))
        cov = {}
        R = self.results
        samples = []
        for x in R:
            for s in x["samples"]:
                samples.append("%s: %s" % (x["name"], s))
        cov["states"] = sum(x["states"] for x in R)
        cov["transitions"] = sum(x["transitions"] for x in R)
        cov["executions"] = sum(x["executions"] for x in R)
        cov["evaluations"] = cov["transitions"]
        cov["traces_validated_against_impl"] = self.conf
        cov["cycles_validated_against_impl"] = self.conf_cycles
        cov["exhaustive"] = all(x["complete"] for x in R)
        cov["samples"] = samples[:12] or ["none"]
        cov["runs"] = [{k: x[k] for k in ("name", "what", "states", "transitions", "pruned", "terminals", "depth", "executions", "outcomes",
                                          "complete", "why_incomplete", "run_s") if k in x} | ({"design": x["design"]} if "design" in x else {}) for x in R]
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in sorted(set(self.known)):
            print(k)
        for p, m in self.violations:
            print("  " + m[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if not self.violations:
            print("OK property=%s states=%d transitions=%d executions=%d conformance_traces=%d wall=%.1fs"
                  % (self.prop, cov["states"], cov["transitions"], cov["executions"], self.conf, time.time() - self.t0))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def main(prop):
    import props
    fn = getattr(props, prop)
    c = Check(prop)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as x:
        print("ERROR property=%s %s" % (prop, x))
        rc = 2
        if c.violations:
            rc = c.finish()
    finally:
        if not os.environ.get("VERIF_KEEP"):
            c.cleanup()
    sys.stdout.flush()
    sys.exit(rc)
