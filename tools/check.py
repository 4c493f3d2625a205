#!/usr/bin/env python3
"""Decides one property: check.py <property id>.  Tier from VERIF_TIER.

Builds the harnesses of the property against the current sources of /repo,
executes them symbolically (engine symx: all inputs, schedules and choices
within the stated bounds), replays every counterexample and a sample of the
explored paths on the natively compiled code, and writes the evidence file."""
import json, os, re, select, subprocess, sys, tempfile, time, shutil, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from concurrent.futures import ThreadPoolExecutor

PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
import specs
SPEC = specs.PROPS[PID]
BUDGET = SPEC.get("budget_" + TIER, 280 if TIER == "quick" else 700)
NCPU = vlib.JOBS
EVID = os.path.join(vlib.VERIF, "evidence")
KNOWN = os.path.join(vlib.VERIF, "known_findings.txt")


def known_ids():
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m:
                r[m.group(2)] = (m.group(1), m.group(3).strip())
    return r


def jobs_for_tier():
    out = []
    for j in SPEC["jobs"]:
        if TIER not in j.get("tiers", ("quick", "thorough")):
            continue
        cases = j.get("cases_" + TIER, j.get("cases", 1))
        if isinstance(cases, int):
            cases = range(cases)
        for c in cases:
            d = dict(j)
            d["case"] = c
            defs = ["-D%s=%s" % kv for kv in sorted(dict(SPEC.get("defs", {}), **j.get("defs", {})).items())]
            if TIER == "thorough":
                defs.append("-DTHOROUGH=1")
            d["defs"] = tuple(defs)
            out.append(d)
    return out


class Native:
    """Native executables, built on demand."""
    def __init__(self):
        self.cache = {}

    def exe(self, job, san):
        k = (job["harness"], job["defs"], san)
        if k not in self.cache:
            self.cache[k] = vlib.native_exe(job["harness"], san, job["defs"])
        return self.cache[k]

    def run(self, exe, runs, san, timeout=60, per=10):
        """runs: list of trace dicts -> list of results"""
        fd, p = tempfile.mkstemp(prefix="sxreplay")
        with os.fdopen(fd, "w") as f:
            for r in runs:
                f.write("R %s %d %d %d\n" % (r["entry"], r["case"], len(r["replay"]), len(r.get("sched", []))))
                for n, v in r["replay"]:
                    f.write("%d %s\n" % (v, n))
                f.write(" ".join(str(x) for x in r.get("sched", [])) + "\n")
        env = dict(os.environ, SX_TIMEOUT=str(per), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1", TSAN_OPTIONS="die_after_fork=0:halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0")
        cmd = [exe, p]
        if san == "tsan":
            cmd = ["setarch", "-R"] + cmd if shutil.which("setarch") else cmd
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=timeout)
            out = r.stdout
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        os.unlink(p)
        res = []
        for l in out.splitlines():
            try:
                res.append(json.loads(l))
            except ValueError:
                res.append({"status": "error", "msg": l[:200], "obs": []})
        while len(res) < len(runs):
            res.append({"status": "error", "kind": "timeout", "msg": "no result", "obs": []})
        return res


NAT = Native()


def confirm(job, v):
    """Replay a counterexample on the real code.  Returns (confirmed, text)."""
    sans = ["asan"]
    if v["kind"] == "data-race" or any(x >= 16 for x in v.get("sched") or []):
        sans = ["tsan"]
    elif v.get("sched"):
        sans = ["asan", "tsan"]
    last = ""
    for san in sans:
        per = 10
        for attempt in range(3 if v.get("sched") else 1):
            r = NAT.run(NAT.exe(job, san), [v], san, timeout=60, per=per)[0]
            last = "%s build: %s %s %s" % (san, r.get("status"), r.get("kind"), r.get("msg"))
            if r.get("status") == "violation" and (r.get("kind") != "leak" or v["kind"] == "leak"):
                return True, last
    return False, last


def build(jobs):
    vlib.ensure_base(native=True)
    keys = sorted({(j["harness"], j["defs"]) for j in jobs})
    with ThreadPoolExecutor(NCPU) as ex:
        vlib.ensure_repo_bc()
        nat = [ex.submit(vlib.native_exe, h, "asan", d) for h, d in keys]
        bc = {k: ex.submit(vlib.harness_bc, k[0], k[1]) for k in keys}
        bc = {k: f.result() for k, f in bc.items()}
        for f in nat:
            f.result()
    return bc


def explore(jobs, bc, deadline):
    rfd, wfd = os.pipe()
    os.write(wfd, b"t" * NCPU)
    tmp = tempfile.mkdtemp(prefix="symx")
    queue = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("weight", 1))
    running = {}
    results = [None] * len(jobs)
    confirmed = None
    unconfirmed = []
    known_hit = {}
    known = known_ids()

    def finish(i):
        path = os.path.join(tmp, "o%d" % i)
        recs = []
        if os.path.exists(path):
            for l in open(path, errors="replace"):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        results[i] = recs
        return recs

    while (queue or running) and not confirmed:
        # start what there is a token for
        while queue and select.select([rfd], [], [], 0)[0]:
            if time.time() > deadline - 1:
                break
            os.set_blocking(rfd, False)
            try:
                tok = os.read(rfd, 1)
            except BlockingIOError:
                break
            if not tok:
                break
            i = queue.pop(0)
            j = jobs[i]
            cmd = [vlib.ENGINE, bc[(j["harness"], j["defs"])], "--entry", j["entry"], "--case", str(j["case"]), "--out", os.path.join(tmp, "o%d" % i),
                   "--timeout", "%.1f" % max(1, min(deadline - time.time(), j.get("timeout", 1e9))), "--tokens", "%d,%d" % (rfd, wfd),
                   "--preempt", str(j.get("preempt_" + TIER, j.get("preempt", 0))), "--max-traces", str(j.get("max_traces", 24)), "--trace-every", str(j.get("trace_every", 17)),
                   "--solver-timeout", str(j.get("solver_timeout", 60000 if TIER == "quick" else 180000))] + j.get("args", [])
            running[i] = subprocess.Popen(cmd, pass_fds=(rfd, wfd), start_new_session=True, stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "e%d" % i), "w"))
        done = [i for i, p in running.items() if p.poll() is not None]
        if not done:
            if time.time() > deadline + 20:
                for p in running.values():
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
            if queue and not running and time.time() > deadline - 1:
                break
            time.sleep(0.02)
            continue
        for i in done:
            p = running.pop(i)
            recs = finish(i)
            if p.returncode not in (0, 1) or not any(r["type"] == "summary" for r in recs):
                err = open(os.path.join(tmp, "e%d" % i)).read()[-500:]
                results[i].append({"type": "crash", "msg": "engine ended with %s: %s" % (p.returncode, err)})
            seen = set()
            nconf = 0
            for v in recs:
                if v["type"] != "violation" or confirmed:
                    continue
                m = re.search(r"\[KF:(\S+)\]", v["msg"])
                kf = m.group(1) if m else None
                if kf and kf in known and kf in known_hit:
                    continue
                if nconf >= 4:
                    break
                nconf += 1
                ok, text = confirm(jobs[i], v)
                v["native"] = text
                if ok and kf and kf in known:
                    known_hit[kf] = v
                elif ok:
                    confirmed = (jobs[i], v)
                else:
                    unconfirmed.append((jobs[i], v))
    for p in running.values():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    for i in list(running):
        running[i].wait()
        finish(i)
    os.close(rfd)
    os.close(wfd)
    shutil.rmtree(tmp, ignore_errors=True)
    return results, confirmed, unconfirmed, known_hit, len(queue)


def validate(jobs, results, limit):
    """Run sampled completed paths natively and compare the observations."""
    batches = []
    for j, recs in zip(jobs, results):
        tr = [r for r in (recs or []) if r["type"] == "trace"]
        if j.get("validate", True) and tr:
            batches.append((j, tr[:j.get("max_traces", 24)]))
    total = sum(len(t) for _, t in batches)
    if total > limit:
        keep = max(1, limit // max(1, len(batches)))
        batches = [(j, t[:keep]) for j, t in batches]
    ok, bad, viol = 0, [], []

    def one(b):
        j, tr = b
        res = NAT.run(NAT.exe(j, "asan"), tr, "asan", timeout=120, per=20)
        return j, tr, res
    with ThreadPoolExecutor(NCPU) as ex:
        for j, tr, res in ex.map(one, batches):
            for t, r in zip(tr, res):
                if r.get("status") == "ok" and r.get("obs") == t["obs"]:
                    ok += 1
                elif r.get("status") == "violation" and r.get("kind") in ("assert", "crash", "fail"):
                    viol.append((j, t, r))
                else:
                    bad.append((j, t, r))
    return ok, bad, viol


def write_replay(job, v, text):
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    p = os.path.join(EVID, "replays", "%s-%s.json" % (PID, TIER))
    json.dump({"property": PID, "harness": job["harness"], "defs": list(job["defs"]), "entry": v["entry"], "case": v["case"], "kind": v["kind"], "message": v["msg"],
               "where": v.get("where", ""), "values": v["replay"], "schedule": v.get("sched", []), "native": text,
               "how": "python3 /verif/tools/replay.py <this file> runs these values against the current tree"}, open(p, "w"), indent=1)
    return p


def main():
    jobs = jobs_for_tier()
    try:
        bc = build(jobs)
    except RuntimeError as e:
        print("ERROR: the current tree does not build: %s" % str(e)[:300])
        print(str(e)[-3000:])
        return 2
    t1 = time.time()
    deadline = T0 + BUDGET
    results, confirmed, unconfirmed, known_hit, notrun = explore(jobs, bc, deadline)
    t2 = time.time()
    S = {k: 0 for k in "paths infeasible forks insts asserts assert_queries unsupported unexplored switches queries sat unsat unknown cache_hits guess_hits".split()}
    solver_s = 0.0
    covers, funcs, problems, samples = set(), set(), [], []
    for j, recs in zip(jobs, results):
        for r in recs or []:
            if r["type"] == "summary":
                for k in S:
                    S[k] += r.get(k, 0)
                solver_s += r.get("solver_s", 0)
                covers |= set(r["covers"])
                funcs |= set(r["functions"])
            elif r["type"] in ("unsupported", "crash", "initfail"):
                problems.append("%s/%s: %s %s" % (j["entry"], j["case"], r["type"], r.get("msg", "")) + (" at " + r["where"][:300] if r.get("where") else ""))
            elif r["type"] == "trace" and len(samples) < 3 and (not samples or samples[-1]["entry"] != r["entry"]):
                samples.append({"entry": r["entry"], "case": r["case"], "values": r["replay"][:60], "observed": r["obs"][:60], "schedule": r["sched"][:60]})
    need = set(SPEC.get("covers", []))
    if TIER == "thorough":
        need |= set(SPEC.get("covers_thorough", []))
    missing = sorted(need - covers)
    viol = []
    nval, bad = 0, []
    if not confirmed:
        nval, bad, nviol = validate(jobs, results, SPEC.get("validate_" + TIER, 160 if TIER == "quick" else 600))
        for j, t, r in nviol[:1]:
            v = dict(t, kind="native-" + r.get("kind", ""), msg=r.get("msg", ""))
            confirmed = (j, v)
            v["native"] = "asan build: %s" % r.get("msg")
    for j, v in unconfirmed:
        problems.append("counterexample not reproduced natively (%s: %s) %s" % (v["kind"], v["msg"], v.get("native")))
    for j, t, r in bad:
        problems.append("path of %s/%s behaves differently natively: %s %s obs %s expected %s" % (j["entry"], j["case"], r.get("status"), r.get("msg"), str(r.get("obs"))[:200], str(t["obs"])[:200]))
    complete = not (S["unsupported"] or S["unexplored"] or S["unknown"] or notrun or problems or confirmed)
    ev = {"property": PID, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": S["paths"] + S["infeasible"] + S["forks"], "transitions": S["insts"], "traces_validated_against_impl": nval,
                       "samples": samples or [{"note": "no completed path"}], "exhaustive": bool(complete),
                       "paths_completed": S["paths"], "forks": S["forks"], "context_switches": S["switches"], "assertions_checked": S["asserts"], "assertion_queries": S["assert_queries"],
                       "solver_queries": S["queries"], "solver_sat": S["sat"], "solver_unsat": S["unsat"], "solver_unknown": S["unknown"], "query_cache_hits": S["cache_hits"], "model_guess_hits": S["guess_hits"],
                       "solver_time_s": round(solver_s, 3), "functions_encoded": sorted(funcs), "reachability_witnesses": sorted(covers), "witnesses_missing": missing,
                       "runs": len(jobs), "runs_not_started": notrun, "paths_unsupported": S["unsupported"], "states_unexplored": S["unexplored"], "problems": problems[:20],
                       "bounds": SPEC["bounds"] if isinstance(SPEC["bounds"], str) else SPEC["bounds"][TIER], "outside": SPEC.get("outside", ""), "engine": "symx (LLVM bitcode symbolic execution, Z3)",
                       "build_s": round(t1 - T0, 1), "explore_s": round(t2 - t1, 1), "known_findings_seen": sorted(known_hit)},
          "assumptions": specs.COMMON_ASSUMPTIONS + SPEC.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": 1 if confirmed else 0}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.%d" % (PID, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(EVID, PID + ".json"))
    known = known_ids()
    for k in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s (%s)" % (PID, known[k][1], k))
    print("%s %s: %d runs, %d paths, %d assertions, %d solver queries (%.1f s), %d paths validated natively, %s, %.0f s" %
          (PID, TIER, len(jobs), S["paths"], S["asserts"], S["queries"], solver_s, nval, "exhaustive within the bounds" if complete else "NOT exhaustive", time.time() - T0))
    for p in problems[:10]:
        print("NOTE:", p)
    if confirmed:
        j, v = confirmed
        rp = write_replay(j, v, v.get("native"))
        print("%s in %s/%s: %s [%s] %s" % (v["kind"], v["entry"], v["case"], v["msg"], v.get("where", "")[:300], v.get("native")))
        print("VIOLATION property=%s replay=%s" % (PID, rp))
        return 1
    if bad:
        print("ERROR: the symbolic model and the real code disagree on sampled paths")
        return 2
    if missing:
        print("ERROR: not reached: %s" % ", ".join(missing))
        return 2
    if not complete:
        print("INCOMPLETE: %d unsupported paths, %d unexplored states, %d undecided queries, %d runs not started" % (S["unsupported"], S["unexplored"], S["unknown"], notrun))
        if os.environ.get("VERIF_STRICT"):
            return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
