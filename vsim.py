#!/usr/bin/env python3
"""Supervisor for the deterministic simulations.

  vsim.py check C01 [--tier quick|thorough]   run a property's check (exit 0 / 1, evidence file)
  vsim.py replay FILE [--verbose]             re-execute a replay file (exit 1 if it violates)
  vsim.py build [SCENARIO ...]                build simulation programs
  vsim.py gen SCENARIO INDEX --focus C01      print a generated trace
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
TRACES = os.path.join(VERIF, "traces")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")
JOBS = max(1, min(8, os.cpu_count() or 1))

sys.path.insert(0, VERIF)
from scenarios import SCENARIOS, CHECKS   # noqa: E402

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=1048576:"
                       "malloc_fill_byte=205:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:"
                       "handle_abort=1:symbolize=1:quarantine_size_mb=16:print_legend=0:alloc_dealloc_mismatch=0")
ENV["LC_ALL"] = "C"
ENV.pop("SIM_ASLR_TRIED", None)


class CheckError(Exception):
    pass


# ------------------------------------------------------------------------------------ build

def injected(total):
    """Faults delivered: failures the fault engine fired, and misbehaviour the environment models count as fault:NAME."""
    d = {k: v for k, v in total["faults_fired"].items() if v}
    d.update({k[6:]: v for k, v in total["counters"].items() if k.startswith("fault:") and v})
    return d


def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_one(job):
    src, flags = job
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    pre = run_cmd(["clang++", *flags, "-E", src])
    if pre.returncode:
        raise CheckError("preprocessing %s failed:\n%s" % (src, pre.stderr.decode()[-4000:]))
    key = hashlib.sha256(pre.stdout + b"\0" + " ".join(flags).encode()).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.%s" % (obj, os.getpid(), hashlib.md5((src + str(flags)).encode()).hexdigest()[:6])
        r = run_cmd(["clang++", *flags, "-c", src, "-o", tmp])
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stderr.decode()[-6000:]))
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def build(names):
    """Build the simulation programs from REPO's current working tree; returns name -> binary."""
    os.makedirs(BUILD, exist_ok=True)
    jobs, per = [], {}
    for n in names:
        sc = SCENARIOS[n]
        per[n] = []
        for src, extra in sc["sources"]:
            path = src.replace("@REPO@", REPO) if src.startswith("@REPO@") else os.path.join(SIM, src)
            flags = ["-I" + REPO if f == "@REPOINC@" else f for f in sc["flags"]] + ["-I" + SIM] + list(extra)
            job = (path, tuple(flags))
            per[n].append(job)
            if job not in jobs:
                jobs.append(job)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = dict(zip(jobs, ex.map(compile_one, jobs)))
    out = {}
    for n in names:
        ol = [objs[j] for j in per[n]]
        key = hashlib.sha256(("\n".join(ol) + str(SCENARIOS[n]["link"])).encode()).hexdigest()[:24]
        binp = os.path.join(BUILD, n + "-" + key)
        if not os.path.exists(binp):
            for old in glob.glob(os.path.join(BUILD, n + "-*")):
                if time.time() - os.path.getmtime(old) > 3600:
                    os.unlink(old)
            tmp = binp + ".%d" % os.getpid()
            r = run_cmd(["clang++", *SCENARIOS[n]["link_flags"], *ol, "-o", tmp, *SCENARIOS[n]["link"]])
            if r.returncode:
                raise CheckError("linking %s failed:\n%s" % (n, r.stderr.decode()[-4000:]))
            os.rename(tmp, binp)
        out[n] = binp
    # bound the object cache
    os_ = sorted(glob.glob(os.path.join(BUILD, "obj", "*.o")), key=os.path.getmtime)
    for o in os_[:-120]:
        if time.time() - os.path.getmtime(o) > 3600:
            os.unlink(o)
    return out


# ------------------------------------------------------------------------------------ runs

def crash_class(rc, err):
    if rc == 78:
        return "hang", "the run did not finish within its step and CPU budget"
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m:
        fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)", err) if "/repo/" in f[1] or REPO in f[1]]
        where = " at " + fr[0][1].replace(REPO + "/", "") if fr else ""
        return "crash-" + m.group(1), "memory error: " + m.group(1) + where
    if "hard rss limit" in err:
        return "memory-blowup", "memory use grew without bound"
    m = re.search(r"Assertion .*failed|terminate called.*|runtime error: .*", err)
    if m:
        return "abort", m.group(0)[:200]
    return "crash", "process ended with status %d" % rc


def symbolise(binp, msg):
    """Replace {pc+0xOFF} with the source line it belongs to."""
    def one(m):
        r = subprocess.run(["addr2line", "-i", "-s", "-f", "-C", "-e", binp, hex(int(m.group(1), 16) - 1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        l = r.stdout.decode(errors="replace").split("\n")
        best = None
        for f, w in zip(l[0::2], l[1::2]):
            if "?" not in w:
                best = best or (f, w)
                if "geom::" in f:
                    best = (f, w)
                    break
        return "%s (%s)" % (best[0].split("(")[0], re.sub(r" \(disc.*", "", best[1])) if best else "pc+0x" + m.group(1)
    return re.sub(r"\{pc\+0x([0-9a-f]+)\}", one, msg)


class Violation:
    def __init__(self, scenario, index, cls, msg, trace=None, step=None):
        self.scenario, self.index, self.cls, self.msg, self.trace, self.step = scenario, index, cls, msg, trace, step


def execute(binp, trace_text, focus, tmpdir, verbose=False, timeout=90):
    """Run a trace in a fresh process. Returns (hash or None, class or None, message, step, stdout)."""
    fd, path = tempfile.mkstemp(dir=tmpdir, suffix=".trace")
    with os.fdopen(fd, "w") as f:
        f.write(trace_text)
    cmd = [binp, "replay", "--trace", path, "--focus", focus] + (["--verbose", "1"] if verbose else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        rc, out, err = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, out, err = 78, (e.stdout or b"").decode(errors="replace"), ""
    os.unlink(path)
    h = re.search(r"^HASH ([0-9a-f]+)", out, re.M)
    if rc == 0:
        return h.group(1) if h else None, None, "", None, out
    m = re.search(r"^VIOLATED prop=(\S+) class=(\S+) step=(-?\d+) msg=(.*)$", out, re.M)
    if rc == 1 and m:
        return h.group(1), m.group(2), symbolise(binp, m.group(4)), int(m.group(3)), out
    if rc == 3:
        raise CheckError("replay refused: " + err[-500:])
    c, msg = crash_class(rc, err)
    return None, c, msg, None, out + "\n" + err


def gen(binp, base, index, focus, tier):
    r = run_cmd([binp, "gen", "--base", str(base), "--index", str(index), "--focus", focus, "--tier", tier], env=ENV)
    if r.returncode:
        raise CheckError("gen failed: " + r.stderr.decode()[-500:])
    return r.stdout.decode()


class Batch:
    """A range of run indices executed in worker processes (restarted after a crash)."""
    def __init__(self, binp, base, focus, tier, tmpdir):
        self.binp, self.base, self.focus, self.tier, self.tmpdir = binp, base, focus, tier, tmpdir

    def run(self, first, count, deadline, max_viol=3):
        res = {"runs": 0, "steps": 0, "max_steps": 0, "faulty_runs": 0, "fired_runs": 0, "events": 0,
               "other_violations": 0, "counters": {}, "faults_fired": {}, "faults_armed": {}, "hashes": {},
               "states": set(), "violations": [], "crashed": 0}
        i, end = first, first + count
        while i < end and time.time() < deadline and len(res["violations"]) < max_viol:
            out = os.path.join(self.tmpdir, "b%d_%d" % (first, i))
            cmd = [self.binp, "batch", "--base", str(self.base), "--first", str(i), "--count", str(end - i),
                   "--focus", self.focus, "--tier", self.tier, "--out", out,
                   "--max-seconds", "%.1f" % max(1.0, deadline - time.time())]
            try:
                p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV,
                                   timeout=max(60.0, deadline - time.time() + 60))
                rc, err = p.returncode, p.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired as e:
                rc, err = 78, ""
            if rc == 3:
                raise CheckError("batch refused: " + err[-500:])
            if rc == 0:
                j = json.load(open(out + ".json"))
                for k in ("runs", "steps", "faulty_runs", "fired_runs", "events", "other_violations"):
                    res[k] += j[k]
                res["max_steps"] = max(res["max_steps"], j["max_steps"])
                for k in ("counters", "faults_fired", "faults_armed"):
                    for a, b in j[k].items():
                        res[k][a] = res[k].get(a, 0) + b
                for v in j["violations"]:
                    res["violations"].append((v["index"], v["class"], v["msg"]))
                done = j["runs"]
                hs = open(out + ".hashes", "rb").read()
                for q in range(len(hs) // 8):
                    res["hashes"][i + q] = struct.unpack_from("<Q", hs, q * 8)[0]
                st = open(out + ".states", "rb").read()
                res["states"].update(struct.unpack("<%dQ" % (len(st) // 8), st))
                i = end
            else:
                try:
                    at = struct.unpack("<QQ", open(out + ".progress", "rb").read(16))
                except (OSError, struct.error):
                    raise CheckError("worker failed to start: rc=%s %s" % (rc, err[-800:]))
                if at[1] != 1:
                    raise CheckError("worker failed: rc=%s %s" % (rc, err[-800:]))
                c, msg = crash_class(rc, err)
                res["violations"].append((at[0], c, msg))
                res["crashed"] += 1
                res["runs"] += at[0] - i + 1
                i = at[0] + 1
            for suf in (".json", ".hashes", ".states", ".progress"):
                if os.path.exists(out + suf):
                    os.unlink(out + suf)
        return res


def merge(a, b):
    for k in ("runs", "steps", "faulty_runs", "fired_runs", "events", "other_violations", "crashed"):
        a[k] += b[k]
    a["max_steps"] = max(a["max_steps"], b["max_steps"])
    for k in ("counters", "faults_fired", "faults_armed"):
        for x, y in b[k].items():
            a[k][x] = a[k].get(x, 0) + y
    a["hashes"].update(b["hashes"])
    a["states"] |= b["states"]
    a["violations"] += b["violations"]


# ------------------------------------------------------------------------------------ traces, minimisation

def parse(text):
    head, steps = [], []
    for l in text.splitlines():
        if l.startswith("step "):
            steps.append(l.split())
        elif l.strip() and not l.startswith("#"):
            head.append(l)
    return head, steps


def unparse(head, steps):
    return "\n".join(head + [" ".join(s) for s in steps]) + "\n"


def minimise(binp, text, focus, cls, tmpdir, budget=45.0):
    t0 = time.time()
    tried = [0]

    def bad(head, steps):
        if time.time() - t0 > budget:
            return False
        tried[0] += 1
        return execute(binp, unparse(head, steps), focus, tmpdir, timeout=40)[1] == cls

    head, steps = parse(text)
    # steps (ddmin)
    n = 2
    while len(steps) >= 2 and time.time() - t0 < budget:
        size = max(1, len(steps) // n)
        hit = False
        k = 0
        while k < len(steps):
            cand = steps[:k] + steps[k + size:]
            if cand and bad(head, cand):
                steps, hit = cand, True
            else:
                k += size
        if hit:
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(steps), n * 2)
    # faults, then arguments
    for si in range(len(steps)):
        for wi in range(len(steps[si]) - 1, 1, -1):
            if steps[si][wi].startswith("!"):
                cand = [list(s) for s in steps]
                del cand[si][wi]
                if bad(head, cand):
                    steps = cand
    for si in range(len(steps)):
        for wi in range(2, len(steps[si])):
            if wi >= len(steps[si]):
                break
            w = steps[si][wi]
            m = re.match(r"(![a-z]+:)?(-?\d+)$", w)
            if not m:
                continue
            pre, v = m.group(1) or "", int(m.group(2))
            lo = 1 if pre else 0
            for nv in sorted({lo, v // 2, v - 1, 1}, key=abs):
                if lo <= nv < v:
                    cand = [list(s) for s in steps]
                    cand[si][wi] = pre + str(nv)
                    if bad(head, cand):
                        steps = cand
                        break
    return unparse(head, steps), tried[0]


# ------------------------------------------------------------------------------------ known findings

def known_findings(prop):
    """Lines 'known: property=ID scenario=S class=C step=OP msg=REGEX -- text'; 'fixed:' lines suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) last=(\S+) msg=(\S+) -- (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"scenario": m.group(2), "cls": m.group(3), "last": m.group(4), "msg": m.group(5), "text": m.group(6)})
    return out


def match_known(kf, scenario, cls, msg, text):
    _, steps = parse(text)
    last = steps[-1][1] if steps else "-"
    for k in kf:
        if k["scenario"] == scenario and k["cls"] == cls and k["last"] in (last, "*") and re.search(k["msg"], msg):
            return k
    return None


# ------------------------------------------------------------------------------------ check

def report(prop, scen, text, cls, msg, origin, tried):
    os.makedirs(REPLAYS, exist_ok=True)
    name = "%s-%s-%s.trace" % (prop, scen, hashlib.sha256(text.encode()).hexdigest()[:10])
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        f.write("# property %s violated: [%s] %s\n# %s; minimised with %d re-executions\n# re-run: python3 vsim.py replay %s\n"
                % (prop, cls, msg, origin, tried, os.path.relpath(path, VERIF)))
        f.write(text)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    print("  [%s] %s" % (cls, msg))
    for l in text.splitlines():
        print("  " + l)
    sys.stdout.flush()
    return path


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = CHECKS[prop]
    names = [p["scenario"] for p in plan["parts"]]
    bins = build(list(dict.fromkeys(names)))
    t_build = time.time() - t0
    kf = known_findings(prop)
    kf_seen = {}
    total = {"runs": 0, "steps": 0, "max_steps": 0, "faulty_runs": 0, "fired_runs": 0, "events": 0,
             "other_violations": 0, "counters": {}, "faults_fired": {}, "faults_armed": {}, "hashes": {},
             "states": set(), "violations": [], "crashed": 0}
    viol = None
    per = []
    samples = []
    regress = 0
    det = {"rerun": 0, "mismatch": 0}
    tmpdir = tempfile.mkdtemp(prefix="vsim-")
    t_sim = 0.0
    try:
        # committed regression traces first
        for path in sorted(glob.glob(os.path.join(TRACES, prop, "*.trace"))):
            text = open(path).read()
            m = re.search(r"^scenario (\S+)", text, re.M)
            if not m or m.group(1) not in bins:
                continue
            regress += 1
            h, cls, msg, st, _ = execute(bins[m.group(1)], text, prop, tmpdir)
            if cls and not match_known(kf, m.group(1), cls, msg, text):
                body = "\n".join(l for l in text.splitlines() if not l.startswith("#")) + "\n"
                report(prop, m.group(1), body, cls, msg, "committed regression trace " + os.path.basename(path), 0)
                viol = cls
                break
        for part in plan["parts"]:
            if viol:
                break
            sc = part["scenario"]
            binp = bins[sc]
            runs = part[tier]
            wall = part.get(tier + "_wall", 240 if tier == "quick" else 3000)
            base = seed * 1000003 + int(hashlib.md5((prop + sc).encode()).hexdigest()[:6], 16)
            ts = time.time()
            deadline = ts + wall
            b = Batch(binp, base, prop, tier, tmpdir)
            chunk = max(1, min(part.get("chunk", 4000), (runs + JOBS * 3 - 1) // (JOBS * 3)))
            acc = None
            pend = []
            with cf.ThreadPoolExecutor(JOBS) as ex:
                futs = [ex.submit(b.run, f, min(chunk, runs - f), deadline) for f in range(0, runs, chunk)]
                try:
                    for fu in cf.as_completed(futs):
                        r = fu.result()
                        if acc is None:
                            acc = r
                        else:
                            merge(acc, r)
                        if not kf and acc["violations"]:
                            deadline_hit = True
                            for g in futs:
                                g.cancel()
                except cf.CancelledError:
                    pass
            t_part = time.time() - ts
            t_sim += t_part
            if acc is None:
                raise CheckError("no run of %s finished" % sc)
            pend = sorted(acc["violations"])
            per.append({"scenario": sc, "runs": acc["runs"], "planned_runs": runs, "seconds": round(t_part, 1),
                        "runs_per_hour": int(acc["runs"] / max(t_part, 0.01) * 3600),
                        "steps": acc["steps"], "distinct_runs": len(set(acc["hashes"].values()) - {0}),
                        "distinct_states": len(acc["states"])})
            # gate, classify, minimise
            unstable = []
            for (idx, cls0, msg0) in pend:
                text = gen(binp, base, idx, prop, tier)
                e1 = execute(binp, text, prop, tmpdir)
                e2 = execute(binp, text, prop, tmpdir)
                if e1[1] is None or e1[1] != e2[1]:
                    unstable.append((idx, cls0, msg0))
                    continue
                small, tried = minimise(binp, text, prop, e1[1], tmpdir)
                f = execute(binp, small, prop, tmpdir)
                if f[1] != e1[1]:
                    small, f, tried = text, e1, 0
                k = match_known(kf, sc, f[1], f[2], small)
                if k:
                    kf_seen[k["text"]] = kf_seen.get(k["text"], 0) + 1
                    continue
                report(prop, sc, small, f[1], f[2], "scenario %s, base seed %d, run %d" % (sc, base, idx), tried)
                viol = f[1]
                break
            if not viol and unstable:
                # only seen inside a batch process: replay the batch prefix
                for (idx, cls0, msg0) in unstable:
                    first = idx - idx % chunk
                    again = [b.run(first, idx - first + 1, time.time() + 120)["violations"] for _ in range(2)]
                    if all(any(v[0] == idx and v[1] == cls0 for v in a) for a in again):
                        text = "batch %s base %d first %d count %d focus %s tier %s\n" % (sc, base, first, idx - first + 1, prop, tier)
                        report(prop, sc, text, cls0, msg0, "scenario %s, seen only after earlier runs in one process" % sc, 0)
                        viol = cls0
                        break
                if not viol:
                    print("note: %d unreproducible failure(s), e.g. run %d of %s: [%s] %s" % (len(unstable), unstable[0][0], sc, unstable[0][1], unstable[0][2]))
                    det["mismatch"] += len(unstable)
            # determinism self-check: a sample of runs again, partitioned differently
            if not viol:
                hs = [i for i in sorted(acc["hashes"]) if acc["hashes"][i]]
                want = min(len(hs), part.get("recheck", 64))
                if want:
                    stride = max(1, len(hs) // want)
                    pick = hs[::stride][:want]
                    def again(i):
                        r = Batch(binp, base, prop, tier, tempfile.mkdtemp(dir=tmpdir)).run(i, 1, time.time() + 120)
                        return i, r["hashes"].get(i)
                    with cf.ThreadPoolExecutor(JOBS) as ex:
                        for i, h in ex.map(again, pick):
                            det["rerun"] += 1
                            if h != acc["hashes"][i]:
                                det["mismatch"] += 1
                                print("note: run %d of %s did not repeat exactly" % (i, sc))
                for q in range(2):
                    if q < runs:
                        samples.append(gen(binp, base, q, prop, tier))
            tag = int(hashlib.md5(sc.encode()).hexdigest()[:8], 16)
            acc["hashes"] = {(sc, i): (h ^ tag if h else 0) for i, h in acc["hashes"].items()}
            acc["states"] = {s ^ tag for s in acc["states"]}
            merge(total, acc)
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k["text"], " (%d run(s) here)" % kf_seen[k["text"]] if k["text"] in kf_seen else ""))
    wall = time.time() - t0
    ops = {k: v for k, v in sorted(total["counters"].items())}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(set(total["hashes"].values()) - {0}),
            "rule": plan["rule"] + " One evaluation is one simulated run. A run counts as distinct and non-trivial when it has two or more steps and its execution hash (every operation, outcome and observed content) differs from every other run's.",
            "samples": samples[:4],
            "simulated_runs_per_hour": int(total["runs"] / max(t_sim, 0.01) * 3600),
            "seeds_per_hour": int(total["runs"] / max(t_sim, 0.01) * 3600),
            "simulated_time": {"unit": "simulated steps (operations executed; the library has no wall-clock behaviour except generator seeding)",
                               "steps": total["steps"], "logged_events": total["events"], "longest_run_steps": total["max_steps"]},
            "faults_armed": {k: v for k, v in total["faults_armed"].items() if v},
            "faults_injected": injected(total),
            "runs_with_faults_armed": total["faulty_runs"],
            "runs_with_faults_fired": total["fired_runs"],
            "distinct_states": len(total["states"]),
            "distinct_states_measure": plan["states"],
            "operations": ops,
            "parts": per,
            "real_components": plan["real"],
            "stub_components": plan["stub"],
            "regression_traces_replayed": regress,
            "determinism_selfcheck": det,
            "build_seconds": round(t_build, 1),
            "known_findings_seen": kf_seen,
        },
        "assumptions": plan["assumptions"],
        "wall_s": round(wall, 1),
        "violations": 1 if viol else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if viol:
        return 1
    print("property %s: held on %d simulated runs (%d distinct), %d steps, faults fired %s, %.1f s (build %.1f s)"
          % (prop, total["runs"], ev["coverage"]["distinct_nontrivial"], total["steps"], ev["coverage"]["faults_injected"], wall, t_build))
    return 0


def replay(path, verbose):
    text = open(path).read()
    m = re.search(r"^batch (\S+) base (\d+) first (\d+) count (\d+) focus (\S+) tier (\S+)", text, re.M)
    tmpdir = tempfile.mkdtemp(prefix="vsim-")
    try:
        if m:
            binp = build([m.group(1)])[m.group(1)]
            r = Batch(binp, int(m.group(2)), m.group(5), m.group(6), tmpdir).run(int(m.group(3)), int(m.group(4)), time.time() + 600)
            for v in r["violations"]:
                print("VIOLATED run %d [%s] %s" % v)
            return 1 if r["violations"] else 0
        sc = re.search(r"^scenario (\S+)", text, re.M).group(1)
        focus = re.search(r"^focus (\S+)", text, re.M).group(1)
        binp = build([sc])[sc]
        h, cls, msg, st, out = execute(binp, text, focus, tmpdir, verbose=verbose)
        if verbose:
            print(out)
        if cls:
            print("VIOLATED property=%s [%s] %s (step %s)" % (focus, cls, msg, st))
            return 1
        print("OK hash %s" % h)
        return 0
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "build":
        build(a[1:] or list(SCENARIOS))
        return 0
    if a[0] == "check":
        return check(a[1], tier)
    if a[0] == "replay":
        return replay(a[1], "--verbose" in a)
    if a[0] == "gen":
        focus = a[a.index("--focus") + 1] if "--focus" in a else ""
        b = build([a[1]])[a[1]]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        base = seed * 1000003 + int(hashlib.md5((focus + a[1]).encode()).hexdigest()[:6], 16)
        print(gen(b, base, int(a[2]), focus, tier))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        sys.exit(2)
