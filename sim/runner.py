"""Runs seeds on all cores, shrinks failures, writes replay files and evidence."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import loader
from .core import CALLS, Hang, Malformed, Stats, Violation, stable_hash
from .tape import Tape, shrink

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_GUARD_S = 40  # guard of one simulated run
WALL_CAP_S = {"quick": 420, "thorough": 3300}


def run_seed(master, prop, index):
    return stable_hash("%s/%s/%s" % (master, prop, index))


class Outcome:
    def __init__(self):
        self.violation = None
        self.error = None
        self.log = []
        self.record = []
        self.stats = Stats()
        self.judged = 0

    def digest(self):
        return stable_hash("\n".join(self.log))


class Guard:
    """ends a run which makes no progress (no call and no draw) for the given time, most
    of which this process really had a processor (a busy machine is no hang), or which
    has used three times as much processor time"""

    def __init__(self, tape, seconds):
        self.tape, self.seconds = tape, seconds
        self.mark()
        self.late = 0
        self.rounds = 0
        self.cpu0 = self.cpu

    def mark(self):
        self.seen = (CALLS[0], len(self.tape.record))
        self.cpu = time.process_time()

    def alarm(self, signum, frame):
        self.rounds += 1
        if (CALLS[0], len(self.tape.record)) != self.seen:
            if self.rounds < 20 and time.process_time() - self.cpu0 < 3 * self.seconds:
                self.late = 0
                self.mark()
                return
        elif time.process_time() - self.cpu < self.seconds * 0.6:
            self.late += 1
            if self.late < 5:
                return
        raise Hang()

    def start(self):
        signal.signal(signal.SIGALRM, self.alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, self.seconds)

    @staticmethod
    def stop():
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_once(scn, tape, guard=RUN_GUARD_S):
    """one simulated run -> Outcome"""
    out = Outcome()
    watch = Guard(tape, guard)
    try:
        try:
            watch.start()
            scn.run(tape, out)
        finally:
            watch.stop()
    except Violation as v:
        out.violation = (v.prop, v.cls, v.msg)
    except Malformed as m:
        out.violation = (scn.prop, "malformed", str(m))
    except Hang as h:
        if loader.in_sut(h):
            out.violation = (scn.prop, "hang", "a call did not return within %d s" % guard)
        else:
            out.error = "run exceeded %d s outside the code under test\n%s" % (
                guard, traceback.format_exc())
    except Exception as e:  # noqa
        if loader.in_sut(e):
            out.violation = (scn.prop, "failure " + type(e).__name__,
                             "unexpected %s: %s\n%s" % (
                                 type(e).__name__, e, traceback.format_exc()))
        else:
            out.error = traceback.format_exc()
    out.record = tape.record
    return out


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k.get("status") == "known"]


def is_known(viol, known):
    for k in known:
        if k["property"] == viol[0] and re.search(k["match"], "[%s] %s" % (viol[1], viol[2])):
            return k
    return None


def worker(prop, tier, master, first, step, count, path, deadline):
    from . import props
    scn = props.scenario(prop, tier)
    loader.load(instrument=scn.instrument, web=scn.web)
    scn.prepare()
    known = load_known()
    agg = {"runs": 0, "judged": 0, "faults": {}, "probes": {}, "ops": {},
           "sim_time": 0.0, "states": [], "digests": [], "nontrivial": 0,
           "samples": [], "violation": None, "error": None, "known": {},
           "stopped": None, "digest": 0, "slowest": 0.0}
    states = set()
    digs = set()
    for k in range(count):
        if time.time() > deadline:
            agg["stopped"] = "wall cap"
            break
        index = first + k * step
        seed = run_seed(master, prop, index)
        began = time.time()
        out = run_once(scn, Tape(seed))
        agg["slowest"] = max(agg["slowest"], time.time() - began)
        if out.violation and out.violation[1] == "hang":
            # confirm with a longer guard before believing it
            again = run_once(scn, Tape(record=out.record), guard=90)
            out.violation = again.violation
            out.error = again.error
            if not out.violation and not out.error:
                out = again
        agg["runs"] += 1
        agg["judged"] += out.judged
        merge(agg["faults"], out.stats.faults)
        merge(agg["probes"], out.stats.probes)
        merge(agg["ops"], out.stats.ops)
        agg["sim_time"] += out.stats.sim_time
        states |= out.stats.states
        d = out.digest()
        agg["digest"] ^= stable_hash("%d:%d" % (index, d))
        if out.judged and (out.stats.faults or not scn.needs_faults) and d not in digs:
            digs.add(d)
        if len(agg["samples"]) < 1 and out.judged and len(out.log) > 8:
            agg["samples"].append({"index": index, "seed": str(seed), "log": out.log[:60]})
        if out.violation:
            kn = is_known(out.violation, known)
            if kn:
                agg["known"][kn["id"]] = agg["known"].get(kn["id"], 0) + 1
                continue
            agg["violation"] = {
                "index": index, "seed": str(seed), "record": out.record,
                "violation": out.violation, "log": out.log}
            break
        if out.error:
            agg["error"] = {"index": index, "seed": str(seed), "trace": out.error,
                            "log": out.log[-20:]}
            break
    agg["states"] = sorted(str(stable_hash(repr(s))) for s in states)
    agg["digests"] = sorted(str(d) for d in digs)
    with open(path, "w") as f:
        json.dump(agg, f)


def replay_file(path, quiet=False):
    from . import props
    with open(path) as f:
        data = json.load(f)
    scn = props.scenario(data["property"], data.get("tier", "quick"))
    loader.load(instrument=scn.instrument, web=scn.web)
    scn.prepare()
    out = run_once(scn, Tape(record=data["tape"]), guard=90)
    if not quiet:
        for line in out.log:
            print(line)
        if out.violation:
            print("%s [%s] %s" % tuple(out.violation))
    if out.error:
        print(out.error)
        return 2
    if out.violation:
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
        return 1
    print("replay: no violation")
    return 0


def shrink_file(src, dst, budget):
    """minimise the failing tape in src, write the replay file dst"""
    from . import props
    with open(src) as f:
        data = json.load(f)
    prop, tier = data["property"], data["tier"]
    scn = props.scenario(prop, tier)
    loader.load(instrument=scn.instrument, web=scn.web)
    scn.prepare()
    want = tuple(data["violation"][:2])
    guard = 15 if want[1] == "hang" else RUN_GUARD_S

    def fails(record):
        out = run_once(scn, Tape(record=record), guard=guard)
        if out.violation and tuple(out.violation[:2]) == want:
            return out.record
        return None

    best, tries = shrink(data["record"], fails, budget, time.time)
    out = run_once(scn, Tape(record=best), guard=guard)
    if not out.violation:
        best = data["record"]
        out = run_once(scn, Tape(record=best), guard=90)
    doc = {
        "property": prop, "tier": tier, "index": data["index"], "seed": data["seed"],
        "violation": out.violation or data["violation"],
        "tape": best, "original_tape_length": len(data["record"]),
        "shrink_runs": tries, "log": out.log,
    }
    with open(dst, "w") as f:
        json.dump(doc, f, indent=1)


def check(prop, tier, master, workers=None, runs=None, out_dir=None):
    from . import props
    t0 = time.time()
    scn = props.scenario(prop, tier)
    total = runs or scn.runs[tier]
    cores = os.cpu_count() or 8
    workers = workers or min(8, max(1, cores))
    workers = min(workers, total)
    deadline = t0 + WALL_CAP_S[tier]
    tmp = tempfile.mkdtemp(prefix="clubs-sim-")
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.setdefault("PYTHONHASHSEED", "0")
    try:
        procs = []
        for w in range(workers):
            cnt = len(range(w, total, workers))
            path = os.path.join(tmp, "w%d.json" % w)
            log = open(os.path.join(tmp, "w%d.err" % w), "w")
            p = subprocess.Popen(
                [sys.executable, os.path.join(VERIF, "run.py"), "--worker", prop, tier,
                 str(master), str(w), str(workers), str(cnt), path, str(deadline)],
                env=env, stdout=log, stderr=subprocess.STDOUT,
                start_new_session=True)
            procs.append((p, path, log))
        res = []
        errors = []
        for p, path, log in procs:
            try:
                p.wait(max(5, deadline + 240 - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                errors.append("worker did not finish")
            log.close()
            if os.path.exists(path):
                with open(path) as f:
                    res.append(json.load(f))
            else:
                with open(log.name) as f:
                    errors.append("worker died (exit %s): %s" % (p.returncode, f.read()[-2000:]))
        agg = {"runs": 0, "judged": 0, "faults": {}, "probes": {}, "ops": {},
               "sim_time": 0.0, "known": {}}
        states, digs, samples, viols = set(), set(), [], []
        stopped = 0
        digest = 0
        slowest = 0.0
        for r in res:
            agg["runs"] += r["runs"]
            agg["judged"] += r["judged"]
            agg["sim_time"] += r["sim_time"]
            for k in ("faults", "probes", "ops", "known"):
                merge(agg[k], r[k])
            states |= set(r["states"])
            digs |= set(r["digests"])
            samples += r["samples"]
            digest ^= r["digest"]
            slowest = max(slowest, r["slowest"])
            if r["violation"]:
                viols.append(r["violation"])
            if r["error"]:
                errors.append("run %s: %s" % (r["error"]["index"], r["error"]["trace"]))
            if r["stopped"]:
                stopped += 1
        extra = scn.extra(tier, master) if not viols and not errors else None
        if extra and extra.get("violation"):
            viols.append(extra["violation"])
        wall = time.time() - t0
        cov = {
            "evaluations": agg["judged"],
            "distinct_nontrivial": len(digs),
            "rule": scn.rule,
            "simulated_runs": agg["runs"],
            "runs_requested": total,
            "runs_and_seeds_per_hour": int(agg["runs"] * 3600 / max(wall, 0.001)),
            "simulated_time_s": round(agg["sim_time"], 1),
            "faults_injected": dict(sorted(agg["faults"].items())),
            "calls": dict(sorted(agg["ops"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "distinct_states": len(states),
            "state_measure": scn.state_measure,
            "real_components": scn.real,
            "stub_components": scn.stub,
            "workers": workers,
            "slowest_run_s": round(slowest, 1),
            "history_digest": "%016x" % digest,
            "samples": sorted(samples, key=lambda s: s["index"])[:2],
        }
        if stopped:
            cov["stopped_by_wall_cap"] = stopped
        if extra and extra.get("coverage"):
            cov.update(extra["coverage"])
        ev = {
            "property": prop, "tier": tier, "seed": master, "level": scn.level,
            "coverage": cov, "assumptions": scn.assumptions, "wall_s": round(wall, 2),
            "violations": len(viols),
        }
        out_dir = out_dir or os.path.join(VERIF, "evidence")
        os.makedirs(out_dir, exist_ok=True)
        code = 0
        if viols:
            v = min(viols, key=lambda x: x["index"])
            src = os.path.join(tmp, "fail.json")
            v.update({"property": prop, "tier": tier})
            with open(src, "w") as f:
                json.dump(v, f)
            rdir = os.path.join(out_dir, "replay")
            os.makedirs(rdir, exist_ok=True)
            dst = os.path.join(rdir, "%s-%s.json" % (prop, v["index"]))
            if os.path.exists(dst):
                os.remove(dst)
            try:
                subprocess.run(
                    [sys.executable, os.path.join(VERIF, "run.py"), "--shrink", src, dst,
                     str(scn.shrink_s)], env=env, timeout=scn.shrink_s + 200,
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                pass
            if not os.path.exists(dst):
                with open(dst, "w") as f:
                    json.dump({"property": prop, "tier": tier, "index": v["index"],
                               "seed": v["seed"], "violation": v["violation"],
                               "tape": v["record"], "log": v["log"]}, f, indent=1)
            with open(dst) as f:
                doc = json.load(f)
            print("property %s: %s" % (prop, doc["violation"][2]))
            print("class: %s; seed %s (run %s of VERIF_SEED=%s); minimised to %d choices"
                  % (doc["violation"][1], v["seed"], v["index"], master, len(doc["tape"])))
            for line in doc["log"][-40:]:
                print("  " + line)
            rep = None
            try:
                rep = subprocess.run(
                    [sys.executable, os.path.join(VERIF, "run.py"), "--replay", dst],
                    env=env, timeout=200, stdout=subprocess.DEVNULL,
                    stderr=subprocess.DEVNULL).returncode
            except subprocess.TimeoutExpired:
                pass
            print("replay in a fresh process: %s" % (
                "reproduced" if rep == 1 else "exit %s" % rep))
            ev["coverage"]["violation"] = doc["violation"]
            ev["coverage"]["replay_reproduced"] = rep == 1
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            code = 1
        elif errors:
            for e in errors[:3]:
                print("ERROR: " + e)
            ev["coverage"]["errors"] = len(errors)
            code = 2
        with open(os.path.join(out_dir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in load_known():
            if k["property"] == prop:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if code == 0:
            print("property %s held: %d runs, %d judged events, %d distinct histories, "
                  "%d distinct states, %.1f s" % (
                      prop, agg["runs"], agg["judged"], len(digs), len(states), wall))
        return code
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
