"""Runs harness shards, turns what the monitors recorded into verdicts and evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B
VERIF = B.VERIF
STALL, RERUN, ASLEEP = 60, 60, 20
MAX_KEYS, MAX_CRASH = 12, 6

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=97:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_odr_violation=0:handle_abort=1:max_allocation_size_mb=2048:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=96",
    "TSAN_OPTIONS": "exitcode=95:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0",
    "LSAN_OPTIONS": "exitcode=94:print_suppressions=0",
}

def crash_key(err, rc):
    def frame():
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", err):
            fn, path = m.group(1), m.group(2)
            if path.startswith(B.REPO + "/"):
                return re.sub(r"\(.*", "", fn)[:80].replace(" ", "_")
        return "?"
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    if m:
        return "%s.%s@%s" % (m.group(1), m.group(2), frame()), m.group(0)
    m = re.search(r"(\S+?):\d+:\d+: runtime error: (.*)", err)
    if m:
        txt = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))
        return "UBSan.%s@%s" % (txt[:60].replace(" ", "_"), os.path.basename(m.group(1))), m.group(0)
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
    if m:
        return "TSan.%s@%s" % (m.group(1).strip().replace(" ", "_"), frame()), m.group(0)
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m:
        return "uncaught.%s" % m.group(1), m.group(0)
    if "terminate called" in err:
        return "terminate", "terminate called"
    if rc is not None and rc < 0:
        return "signal.%d" % -rc, "killed by signal %d" % -rc
    return "exit.%s" % rc, "exit status %s" % rc

class Result:
    def __init__(self):
        self.viol = []          # (key, msg, replay dict)
        self.counts = {}
        self.hashes = set()
        self.samples = []
        self.errors = []
        self.lock = threading.Lock()
        self.stop = False
        self.hangs = 0
        self.known = set()
    def add_viol(self, key, msg, replay):
        with self.lock:
            if key in self.known:
                if not any(v[0] == key for v in self.viol):
                    self.viol.insert(0, (key, msg, replay))
                return
            self.viol.append((key, msg, replay))
            if len({v[0] for v in self.viol} - self.known) >= MAX_KEYS or len(self.viol) > 60:
                self.stop = True

def _spawn(exe, job, start, n, scratch, seed, thorough, env):
    out, cur, err = (os.path.join(scratch, x) for x in ("out", "cur", "err"))
    for f in (out, cur, err):
        if os.path.exists(f):
            os.unlink(f)
    d = os.path.join(scratch, "d"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    cmd = [exe, job["sub"], "--seed", str(seed), "--start", str(start), "--count", str(n), "--out", out, "--cur", cur, "--dir", d]
    if thorough:
        cmd.append("--thorough")
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
    return p, cmd, out, cur, err

def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()

def _curcase(cur):
    try:
        return int(open(cur).read().split()[0])
    except Exception:
        return None

def _cpu(pid):
    """CPU ticks used by all threads of the process so far, or None unless every one of them sleeps"""
    tot = 0
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            f = open("/proc/%d/task/%s/stat" % (pid, t)).read().rsplit(")", 1)[1].split()
            if f[0] != "S":
                return None
            tot += int(f[11]) + int(f[12])
    except (OSError, IndexError, ValueError):
        return None
    return tot

def _wait(p, cur, stall, res=None):
    """returns rc; None when the case did not move for `stall` seconds; "asleep" when in addition all its threads slept
    through ASLEEP seconds of observation without using the CPU (nobody is left to wake them); "stopped" when the run is over"""
    last, t = _curcase(cur), time.monotonic()
    quiet, cpu0 = 0, None
    while True:
        try:
            return p.wait(0.2 if time.monotonic() - t < 1 else 0.5)
        except subprocess.TimeoutExpired:
            if res is not None and res.stop:
                return "stopped"
            c = _curcase(cur)
            if c != last:
                last, t, quiet, cpu0 = c, time.monotonic(), 0, None
                continue
            k = _cpu(p.pid)
            if k is None or cpu0 is None or k - cpu0 > ASLEEP * 2:   # 2% of the time is for the sanitizers' own threads
                quiet, cpu0 = 0, k
            else:
                quiet += 1
            if quiet >= ASLEEP * 2 and time.monotonic() - t > ASLEEP:
                return "asleep"
            if time.monotonic() - t > stall:
                return None

def run_shard(exe, job, start, n, res, seed, thorough):
    scratch = tempfile.mkdtemp(prefix="verif-")
    env = dict(os.environ); env.update(SAN_ENV)
    for k, v in job.get("env", {}).items():
        env[k] = env[k] + ":" + v if k.endswith("_OPTIONS") and k in env else v
    crashes = 0
    try:
        pos, end = start, start + n
        while pos < end and not res.stop:
            p, cmd, out, cur, err = _spawn(exe, job, pos, end - pos, scratch, seed, thorough, env)
            try:
                rc = _wait(p, cur, job.get("stall", STALL), res)
            finally:
                if p.poll() is None:
                    _kill(p)
            if rc == "stopped":
                return
            done = False
            if os.path.exists(out):
                for line in open(out, errors="replace"):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if r["t"] == "viol":
                        rep = dict(case=r["case"], cmd=replay_cmd(cmd, r["case"]), env=job.get("env", {}))
                        res.add_viol(r["key"], r["msg"], rep)
                    elif r["t"] == "h":
                        with res.lock:
                            res.hashes.update(job["sub"] + ":" + x for x in r["v"])
                    elif r["t"] == "c":
                        with res.lock:
                            for k, v in r["v"].items():
                                res.counts[k] = res.counts.get(k, 0) + v
                    elif r["t"] == "sample":
                        with res.lock:
                            if sum(1 for s in res.samples if s["sub"] == job["sub"]) < 2:
                                res.samples.append(dict(sub=job["sub"], case=r["case"], what=r["s"]))
                    elif r["t"] == "done":
                        done = True
            case = _curcase(cur)
            errtxt = ""
            if os.path.exists(err):
                with open(err, "rb") as f:
                    f.seek(0, 2); sz = f.tell(); f.seek(max(0, sz - 60000)); errtxt = f.read().decode("utf8", "replace")
            if rc == 0 and done:
                return
            if case is None:
                with res.lock:
                    res.errors.append("harness %s did not start: rc=%s %s" % (job["sub"], rc, errtxt[-800:]))
                return
            if "LeakSanitizer has encountered a fatal error" in errtxt:
                with res.lock:
                    res.errors.append("LeakSanitizer unusable here")
                return
            if rc == 2 and "unknown sub" in errtxt:
                with res.lock:
                    res.errors.append(errtxt[-500:])
                return
            if rc == "asleep":
                res.add_viol("hang." + job["sub"], "case %d: all threads asleep for %d s without any progress" % (case, ASLEEP),
                             dict(case=case, cmd=replay_cmd(cmd, case), env=job.get("env", {})))
                res.stop = True
            elif rc is None:      # stalled: run that case alone again
                p, cmd2, out2, cur2, err2 = _spawn(exe, job, case, 1, scratch, seed, thorough, env)
                try:
                    rc2 = _wait(p, cur2, job.get("rerun", RERUN), res)
                finally:
                    if p.poll() is None:
                        _kill(p)
                if rc2 == "stopped":
                    return
                if rc2 in (None, "asleep"):
                    res.add_viol("hang." + job["sub"], "case %d made no progress, twice (%ds, %ds)" % (case, job.get("stall", STALL), job.get("rerun", RERUN)),
                                 dict(case=case, cmd=replay_cmd(cmd, case), env=job.get("env", {})))
                    res.stop = True
                else:
                    with res.lock:
                        res.counts["inconclusive.stall"] = res.counts.get("inconclusive.stall", 0) + 1
            else:
                key, msg = crash_key(errtxt, rc)
                res.add_viol("crash." + job["sub"] + "." + key, msg + "\n" + errtxt[-3500:],
                             dict(case=case, cmd=replay_cmd(cmd, case), env=job.get("env", {})))
            crashes += 1
            if crashes >= MAX_CRASH:
                return
            pos = case + 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def replay_cmd(cmd, case):
    out = [cmd[0], cmd[1], "--seed", cmd[cmd.index("--seed") + 1], "--start", str(case), "--count", "1", "--verbose"]
    if "--thorough" in cmd:
        out.append("--thorough")
    return " ".join(out)

def run_jobs(jobs, seed, thorough, res, workers=8):
    targets = sorted({("h", j["harness"], j.get("variant", "asan")) for j in jobs})
    exes = B.build(targets)
    tasks = []
    for j in jobs:
        n = j["thorough"] if thorough else j["quick"]
        shard = max(1, min(j.get("shard", 10 ** 9), -(-n // (workers * j.get("split", 2)))))
        s = 0
        while s < n:
            tasks.append((j, s, min(shard, n - s))); s += shard
    # interleave long jobs first
    with ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(run_shard, exes[("h", j["harness"], j.get("variant", "asan"))], j, s, k, res, seed, thorough) for j, s, k in tasks]
        for f in fs:
            f.result()
    return res

# ------------------------------------------------------------------ known findings and reporting
def load_known(prop):
    out = []
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS"), errors="replace"):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out

def report(prop, level, res, rule, assumptions, t0, seed, thorough, min_obs=()):
    known = load_known(prop)
    reported, knownhit = {}, {}
    for key, msg, rep in res.viol:
        k = next((d for pat, d in known if pat == key), None)
        if k is not None:
            knownhit[key] = k
        else:
            reported.setdefault(key, (msg, rep))
    cov = dict(evaluations=int(res.counts.get("cases", 0)), distinct_nontrivial=len(res.hashes), rule=rule,
               samples=res.samples[:10], observed={k: v for k, v in sorted(res.counts.items())})
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(reported))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, d in knownhit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    if reported:
        rd = os.path.join(VERIF, "build", "replay"); os.makedirs(rd, exist_ok=True)
        for key, (msg, rep) in reported.items():
            path = os.path.join(rd, "%s-%s.json" % (prop, re.sub(r"[^\w.@-]", "_", key)[:100]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, key=key, message=msg, seed=seed, replay=rep), f, indent=1)
            print("%s: %s: %s" % (prop, key, msg.replace("\n", "\n    ")[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if res.errors:
        print("harness error: " + "\n".join(res.errors[:3])); return 2
    missing = [m for m in min_obs if res.counts.get(m, 0) <= 0]
    if missing:
        print("observed nothing for: %s" % ", ".join(missing)); return 2
    print("%s held: %d evaluations, %d distinct non-trivial, %.1fs; %s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0,
          ", ".join("%s=%d" % kv for kv in sorted(res.counts.items()) if kv[0] != "cases")[:900]))
    return 0
