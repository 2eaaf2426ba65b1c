"""Driver: seeded search over simulated runs, minimisation, replay, evidence.

usage: python -m sim.engine <PROPERTY> [quick|thorough]
       python -m sim.engine replay <file>
       python -m sim.engine determinism <PROPERTY> [n]
"""
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known-findings.txt")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Worker:
    def __init__(self, prop, hashseed="0"):
        env = dict(os.environ, PYTHONHASHSEED=hashseed)
        env["PYTHONPATH"] = VERIF + ":" + env.get("PYTHONPATH", "")
        self.err = open(os.path.join(scratch(), "worker-%d-%d.err" % (os.getpid(), id(self))), "w+")
        self.p = subprocess.Popen(
            [sys.executable, "-m", "sim.worker", prop],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.err,
            cwd=VERIF,
            env=env,
            text=True,
            start_new_session=True,
        )
        self.q = queue.Queue()
        threading.Thread(target=self._pump, daemon=True).start()
        self.history = []
        m = self.get(300)
        if not m or "ready" not in m:
            tail = self.tail()
            self.kill()
            raise RuntimeError("worker did not start: " + tail)

    def _pump(self):
        for line in self.p.stdout:
            try:
                self.q.put(json.loads(line))
            except ValueError:
                pass
        self.q.put(None)

    def get(self, timeout):
        try:
            return self.q.get(timeout=timeout)
        except queue.Empty:
            return "timeout"

    def tail(self):
        try:
            self.err.flush()
            self.err.seek(0)
            return self.err.read()[-2500:]
        except Exception:
            return ""

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except Exception:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass
        try:
            self.err.close()
            os.unlink(self.err.name)
        except Exception:
            pass

    def run(self, job, timeout):
        """-> (spec, res).  A crash or a hang of the process is a result too."""
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
        except Exception:
            return job.get("spec"), {"violation": "process died", "sig": "crash", "dead": True}
        end = time.time() + timeout
        while True:
            m = self.get(max(0.1, end - time.time()))
            if m == "timeout":
                self.kill()
                return job.get("spec"), {
                    "violation": "no result within %d s (hang)" % timeout,
                    "sig": "hang",
                    "dead": True,
                }
            if m is None:
                self.p.wait()
                t = self.tail()
                self.kill()
                return job.get("spec"), {
                    "violation": "process crashed, exit status %s" % self.p.returncode,
                    "sig": "crash",
                    "tb": t[-1200:],
                    "dead": True,
                }
            if "res" in m:
                self.history.append(m["spec"])
                return m["spec"], m["res"]


_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        import atexit
        import shutil
        import tempfile

        _SCRATCH = tempfile.mkdtemp(prefix="tfesim-")
        os.environ["TFESIM_SCRATCH"] = _SCRATCH
        atexit.register(shutil.rmtree, _SCRATCH, True)
    return _SCRATCH


def findings(prop):
    known = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:") and ("property=%s " % prop) in line:
                sig = line.split("sig=", 1)[1].split(" ", 1)[0]
                known[sig] = line.split("sig=", 1)[1].split(" ", 1)[1]
    return known


class NeedSpec(Exception):
    pass


def load(prop):
    """The check module's constants, without importing TensorFlow here."""
    meta = json.loads(
        subprocess.run(
            [sys.executable, "-c",
             "import ast,sys,json\n"
             "src=open(sys.argv[1]).read()\n"
             "for n in ast.parse(src).body:\n"
             "    if isinstance(n,ast.Assign) and n.targets[0].id=='META':\n"
             "        print(json.dumps(ast.literal_eval(n.value)))\n",
             os.path.join(VERIF, "checks", prop.lower() + ".py")],
            capture_output=True, text=True, check=True).stdout)
    return meta


def same(a, b):
    return a.get("violation") is not None and a.get("sig") == b.get("sig")


def minimise(prop, spec, res, timeout, budget):
    """Greedy minimisation; candidates come from the check module, in a worker."""
    end = time.time() + budget
    w = None
    tries = 0
    try:
        improved = True
        while improved and time.time() < end:
            improved = False
            cands = json.loads(
                subprocess.run(
                    [sys.executable, "-m", "sim.shrink", prop],
                    input=json.dumps(spec), capture_output=True, text=True, cwd=VERIF,
                    env=dict(os.environ, PYTHONPATH=VERIF + ":" + os.environ.get("PYTHONPATH", "")),
                    timeout=120,
                ).stdout or "[]"
            )
            for c in cands:
                if time.time() > end:
                    break
                if w is None:
                    w = Worker(prop)
                tries += 1
                _, r = w.run({"index": -1, "spec": c}, timeout)
                if r.get("dead"):
                    w.kill()
                    w = None
                if same(r, res):
                    spec, res, improved = c, r, True
                    break
    except Exception as e:  # minimisation is best effort
        log("minimiser stopped:", e)
    finally:
        if w:
            w.kill()
    return spec, res, tries


def confirm(prop, chain, res, timeout):
    """Run a chain of specs in a fresh process; -> result of the last one."""
    w = Worker(prop)
    try:
        r = None
        for s in chain:
            _, r = w.run({"index": -1, "spec": s}, timeout)
            if r.get("dead"):
                break
        return r
    finally:
        w.kill()


def write_replay(prop, chain, res, note):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, res.get("sig", "x").replace("/", "_").replace(":", "_").replace(" ", "_")[:60]))
    json.dump(
        {"property": prop, "chain": chain, "violation": res["violation"], "sig": res.get("sig"),
         "trace": res.get("trace"), "detail": res.get("detail"), "tb": res.get("tb"), "note": note},
        open(path, "w"), indent=1,
    )
    return path


def check(prop, tier):
    t0 = time.time()
    base = int(os.environ.get("VERIF_SEED", "1"))
    meta = load(prop)
    n = meta["runs"][tier]
    timeout = meta.get("run_timeout", 120)
    recycle = meta.get("recycle", 60)
    nw = min(meta.get("workers", 8), n, os.cpu_count() or 8)
    known = findings(prop)
    jobs = queue.Queue()
    for i in range(n):
        jobs.put(i)
    lock = threading.Lock()
    agg = {"runs": 0, "ops": 0, "messages": 0, "faults": {}, "probes": {}, "cov": set(), "sched": set(),
           "nontrivial": set(), "samples": [], "known": {}, "walls": [], "ticks": 0}
    failures = []
    harness = []
    stop = threading.Event()
    deadline = t0 + meta.get("deadline", {}).get(tier, 780 if tier == "quick" else 6 * 3600)

    def loop():
        w = None
        done = 0
        while not stop.is_set():
            try:
                i = jobs.get_nowait()
            except queue.Empty:
                break
            if time.time() > deadline:
                with lock:
                    agg["probes"]["skipped_past_deadline"] = agg["probes"].get("skipped_past_deadline", 0) + 1
                continue
            try:
                if w is None:
                    w = Worker(prop)
                    done = 0
                hist = list(w.history)
                spec, res = w.run({"index": i, "base": base, "tier": tier}, timeout)
            except Exception as e:
                with lock:
                    harness.append(str(e))
                    stop.set()
                break
            done += 1
            with lock:
                agg["runs"] += 1
                agg["walls"].append(res.get("wall", 0))
                for k in ("ops", "messages", "ticks"):
                    agg[k] += res.get(k, 0) or 0
                for k in ("faults", "probes"):
                    for a, b in (res.get(k) or {}).items():
                        agg[k][a] = agg[k].get(a, 0) + b
                agg["cov"].update(res.get("cov") or [])
                if res.get("sched"):
                    agg["sched"].add(res["sched"])
                if res.get("nontrivial", True):
                    agg["nontrivial"].add(json.dumps(spec, sort_keys=True)[:4000])
                if spec is not None and len(agg["samples"]) < 3 and i % 7 == 0:
                    agg["samples"].append({"spec": spec, "result": {k: res.get(k) for k in ("ops", "messages", "trace", "detail")}})
                for sig in res.get("known") or []:
                    agg["known"][sig] = agg["known"].get(sig, 0) + 1
                if res["violation"] and res.get("sig") == "hang" and meta.get("hang") == "inconclusive":
                    agg["probes"]["inconclusive_timeouts"] = agg["probes"].get("inconclusive_timeouts", 0) + 1
                elif res["violation"]:
                    if res.get("sig") in known:
                        agg["known"][res["sig"]] = agg["known"].get(res["sig"], 0) + 1
                    else:
                        failures.append((i, spec, res, hist))
                        if len(failures) >= 3:
                            stop.set()
                        if meta.get("stop_first", True):
                            stop.set()
            if res.get("dead") or done >= recycle:
                w.kill()
                w = None
        if w:
            w.kill()

    ths = [threading.Thread(target=loop) for _ in range(nw)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    search_wall = time.time() - t0
    reported = []
    if failures:
        failures.sort(key=lambda f: f[0])
        for i, spec, res, hist in failures[:2]:
            if spec is None:  # died before reporting its spec: regenerate it
                spec = json.loads(subprocess.run(
                    [sys.executable, "-m", "sim.shrink", prop, "gen", str(base), str(i), tier],
                    capture_output=True, text=True, cwd=VERIF,
                    env=dict(os.environ, PYTHONPATH=VERIF + ":" + os.environ.get("PYTHONPATH", "")),
                ).stdout)
            r = confirm(prop, [spec], res, timeout * 1.5)
            if r.get("violation") and r.get("sig") in known:
                agg["known"][r["sig"]] = agg["known"].get(r["sig"], 0) + 1
                continue
            if r.get("violation"):
                budget = 60 if tier == "quick" else 600
                spec2, res2, tries = minimise(prop, spec, r, timeout, budget)
                r3 = confirm(prop, [spec2], res2, timeout * 1.5)
                if not same(r3, res2):
                    spec2, r3, tries = spec, r, 0
                path = write_replay(prop, [spec2], r3, "seed %s index %s, minimised in %d tries" % (base, i, tries))
                reported.append((path, r3))
                break
            # not reproducible alone: replay with the runs that came before it in its process
            chain = hist + [spec]
            r = confirm(prop, chain, res, timeout * 2)
            if r.get("violation"):
                lo = 0
                # drop as long a prefix as possible
                step = max(1, len(hist) // 2)
                while step >= 1 and len(chain) > 1:
                    cand = chain[step:]
                    if len(cand) >= 1 and step < len(chain):
                        rr = confirm(prop, cand, res, timeout * 2)
                        if rr.get("violation"):
                            chain, r = cand, rr
                            continue
                    step //= 2
                path = write_replay(prop, chain, r, "seed %s index %s; needs the %d preceding runs" % (base, i, len(chain) - 1))
                reported.append((path, r))
                break
            log("run %d failed once (%s) but did not reproduce in a fresh process" % (i, res["violation"]))
            agg["probes"]["not_reproduced"] = agg["probes"].get("not_reproduced", 0) + 1
            if res.get("sig") in ("hang",):
                continue
            path = write_replay(prop, chain, res, "did not reproduce in a fresh process: uncontrolled nondeterminism")
            if meta.get("strict", False):
                reported.append((path, res))
                break
    wall = time.time() - t0
    zero = [f for f in meta.get("faults", []) if not agg["faults"].get(f)]
    probes_zero = [p for p in meta.get("probes", []) if not agg["probes"].get(p)]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": meta["rule"],
            "samples": agg["samples"],
            "runs_per_hour_one_seed_each": int(agg["runs"] / max(search_wall, 1e-3) * 3600),
            "simulated_operations": agg["ops"],
            "simulated_messages": agg["messages"],
            "simulated_time": "%d ticks of the scheduler in traced executions; eagerly executed operations have no clock of their own and are counted above" % agg["ticks"],
            "faults_injected": agg["faults"],
            "fault_kinds_never_injected": zero,
            "probes": agg["probes"],
            "probes_at_zero": probes_zero,
            "distinct_states_or_interleavings": {
                "measure": meta.get("measure", "distinct coverage keys (operation, operand kinds, configuration)"),
                "coverage_keys": len(agg["cov"]),
                "distinct_schedules": len(agg["sched"]),
            },
            "real_code": meta.get("real", []),
            "stubs": meta.get("stubs", []),
            "known_findings_seen": agg["known"],
            "workers": nw,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for sig, text in known.items():
        if agg["known"].get(sig):
            print("KNOWN-FINDING: property=%s %s" % (prop, text), flush=True)
    log("%s %s: %d runs, %d ops, %d keys, %.0f s, faults %s, known %s" % (
        prop, tier, agg["runs"], agg["ops"], len(agg["cov"]), wall, agg["faults"], agg["known"]))
    if zero or probes_zero:
        log("WARNING never injected:", zero, "probes at zero:", probes_zero)
    if reported:
        for path, r in reported:
            log(r["violation"])
            if r.get("detail"):
                log(json.dumps(r["detail"])[:2000])
            if r.get("tb"):
                log(r["tb"])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if harness:
        log("HARNESS ERROR:", harness[0])
        # the code under test cannot even be loaded, or the harness is broken
        path = write_replay(prop, [], {"violation": "the system could not be started: " + harness[0][-1500:], "sig": "startup"}, "")
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if agg["runs"] < n:
        log("HARNESS: only %d of %d runs before the deadline" % (agg["runs"], n))
    return 0


def replay(path):
    d = json.load(open(path))
    r = confirm(d["property"], d["chain"], d, 600)
    print(json.dumps({k: r.get(k) for k in ("violation", "sig", "trace", "detail", "tb")}, indent=1))
    if r.get("violation"):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0


def determinism(prop, n):
    """Every seed twice: other process, other hash seed, other position in its process."""
    base = int(os.environ.get("VERIF_SEED", "1"))
    out = {}
    bad = 0
    for rnd, hs in ((0, "0"), (1, "4711")):
        w = Worker(prop, hs)
        order = range(n) if rnd == 0 else reversed(range(n))
        for i in order:
            _, r = w.run({"index": i, "base": base, "tier": "quick"}, 600)
            out.setdefault(i, []).append((r.get("trace"), r.get("violation"), r.get("ops")))
        w.kill()
    for i, v in out.items():
        if len(set(v)) != 1:
            bad += 1
            print("NONDETERMINISTIC", i, v)
    print("%s: %d seeds twice, %d differ" % (prop, n, bad))
    return 1 if bad else 0


def main():
    scratch()
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "determinism":
        return determinism(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 20)
    return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main())
