#!/usr/bin/env python3
"""Driver of the checks.

  run.py check Cxx [--tier quick|thorough]   run one check
  run.py setup                               build everything once
  run.py replay FILE                         run one recorded case again, with its trace

Every check builds the monitors from the current working tree of /repo.
"""
import sys, os, json, subprocess, hashlib, time, glob, re, shutil, random, collections, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(V, "build")
JOBS = min(8, os.cpu_count() or 8)
sys.path.insert(0, os.path.join(V, "tools"))
import plan


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for pat in ("src/*", "include/wsrep/*", "wsrep-API/v26/*", "dbsim/*"):
        fs += glob.glob(os.path.join(REPO, pat))
    fs += glob.glob(os.path.join(V, "sim/*")) + glob.glob(os.path.join(V, "unit/*")) + [os.path.join(V, "Makefile")]
    for f in sorted(fs):
        if not os.path.isfile(f): continue
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def build(variant, target=None):
    """returns the directory with the binaries"""
    os.makedirs(OUT, exist_ok=True)
    out = os.path.join(OUT, tree_hash())
    for d in sorted(glob.glob(os.path.join(OUT, "*")), key=os.path.getmtime)[:-4]:
        if os.path.isdir(d) and d != out and re.fullmatch(r"[0-9a-f]{16}", os.path.basename(d)):
            shutil.rmtree(d, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ["make", "-s", "-j%d" % JOBS, "-C", V, "VARIANT=" + variant, "REPO=" + REPO, "OUT=" + out]
        if target: cmd.append(target)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print("BUILD FAILED (%s)" % variant)
        sys.exit(2)
    return os.path.join(out, variant)


def known(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def is_known(kn, d):
    for k in kn:
        if k["monitor"] == d["viol"] and re.search(k["match"], d.get("msg", "")): return k
    return None


class Result:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = collections.Counter()
        self.cases = 0
        self.hashes = set()
        self.nontrivial = set()
        self.steps = self.switches = 0
        self.states = set()
        self.viol = []
        self.known = collections.Counter()
        self.samples = []
        self.engines = []
        self.by_profile = collections.Counter()
        self.extra = {}


def run_sim(res, cases, variant, cap, conf, env=None):
    """runs cases on the simulator; stops at the first violation"""
    exe = os.path.join(build(variant), "sim")
    lst = os.path.join(os.path.dirname(exe), "list.%s.%d" % (res.prop, os.getpid()))
    open(lst, "w").write("".join(" ".join(map(str, c)) + "\n" for c in cases))
    kn = known(res.prop)
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:handle_abort=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e.update(env or {})
    races = [k for k in kn if k["monitor"] == "race"]
    p = subprocess.Popen([exe, "--list", lst, "--jobs", str(JOBS), "--secs", str(cap)] + sum([["--known-race", k["match"]] for k in races], []), stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, text=True, env=e, errors="replace")
    n0 = res.cases
    for line in p.stdout:
        try: d = json.loads(line)
        except ValueError:
            d = {"viol": "crash", "msg": "unreadable result " + line[:200], "profile": "?", "seed": 0, "cov": {}}
        res.cases += 1
        res.by_profile[d.get("profile", "?")] += 1
        h = d.get("hash")
        res.hashes.add(h)
        res.steps += d.get("steps", 0)
        res.switches += d.get("switches", 0)
        for k, v in d.get("cov", {}).items(): res.cov[k] += v
        for i, k in enumerate(races):
            if "known_race.%d" % i in d.get("cov", {}): res.known[k["what"]] += 1
        hit = [t for t in conf["tags"] if any(k.startswith(t) for k in d.get("cov", {}))]
        if hit:
            if h not in res.nontrivial and len(res.samples) < 5 and len(hit) >= min(3, len(conf["tags"])):
                res.samples.append({"profile": d["profile"], "seed": d["seed"], "inject": d.get("inject", ""), "schedule_hash": h,
                                    "steps": d.get("steps"), "context_switches": d.get("switches"),
                                    "observed": {k: v for k, v in sorted(d["cov"].items()) if any(k.startswith(t) for t in conf["tags"])}})
            res.nontrivial.add(h)
        if "viol" in d:
            d["variant"] = variant
            k = is_known(kn, d)
            if k:
                res.known[k["what"]] += 1
                continue
            if d["viol"].startswith("hang.timeout") and not confirm(exe, d, e): continue
            res.viol.append(d)
            break
    if res.viol:
        p.terminate()
        try: p.wait(20)
        except subprocess.TimeoutExpired: p.kill()
    else:
        p.wait()
        if p.returncode not in (0, None):
            print("simulator failed with %s" % p.returncode)
            sys.exit(2)
        if res.cases == n0:
            print("simulator ran no case")
            sys.exit(2)
    try: os.remove(lst)
    except OSError: pass
    res.engines.append({"engine": "simulator/" + variant, "cases": res.cases - n0})


def run_unit(res, engine, n, variant, cap, conf, seed, monitors=None):
    """runs cases of a unit level monitor in several processes; stops at the first violation"""
    exe = os.path.join(build(variant), "unit")
    tmp = os.path.join(OUT, "tmp.%s.%d" % (res.prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=66"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:die_after_fork=0"
    e["TMPDIR"] = tmp
    kn = known(res.prop)
    per = (n + JOBS - 1) // JOBS
    base = 1 + (seed - 1) * 10000000
    procs = []
    for j in range(JOBS):
        out, err = open(os.path.join(tmp, "o%d" % j), "w"), open(os.path.join(tmp, "e%d" % j), "w")
        procs.append((subprocess.Popen([exe, engine, "--seed", str(base + j * per), "--n", str(per), "--secs", str(cap)],
                                       stdout=out, stderr=subprocess.PIPE, env=e), out, err, j))
    import threading
    tails = {}

    def drain(p, j):
        # standard error through a pipe: file size limits are one of the faults; the tail is enough
        tail = collections.deque(maxlen=400)
        for l in p.stderr: tail.append(l.decode("utf-8", "replace"))
        tails[j] = list(tail)
    ths = [threading.Thread(target=drain, args=(p, j)) for p, _, _, j in procs]
    for t in ths: t.start()
    hung = set()
    end = time.time() + cap + 100
    for p, o, er, j in procs:
        try: p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            hung.add(j)
        o.close()
        er.close()
    for t in ths: t.join()
    n0 = res.cases
    for p, _, _, j in procs:
        bad = None
        for line in open(os.path.join(tmp, "o%d" % j), errors="replace"):
            try: d = json.loads(line)
            except ValueError: continue
            res.cases += 1
            res.by_profile[d["profile"]] += 1
            res.hashes.add(d["hash"])
            res.steps += d.get("steps", 0)
            for k, v in d["cov"].items(): res.cov[k] += v
            hit = [t for t in conf["tags"] if any(k.startswith(t) for k in d["cov"])]
            if hit:
                if d["hash"] not in res.nontrivial and len(res.samples) < 5:
                    res.samples.append({"profile": d["profile"], "seed": d["seed"], "observed": {k: v for k, v in sorted(d["cov"].items())}})
                res.nontrivial.add(d["hash"])
            if "viol" in d: bad = d
        if p.returncode != 0 and bad is None:
            tail = tails.get(j, [])
            cs = [l for l in tail if l.startswith("CASE ")]
            text = "".join(l for l in tail if not l.startswith("CASE "))
            bad = {"profile": engine, "seed": int(cs[-1].split()[1]) if cs else base + j * per,
                   "viol": "hang.timeout" if j in hung else "crash", "msg": (text[-1500:] if j not in hung else "no end") or "exit %s" % p.returncode,
                   "stderr": text[-6000:]}
        if bad is not None:
            bad["variant"] = variant
            bad["exe"] = "unit"
            bad["args"] = [engine, "--seed", str(bad["seed"]), "--n", "1", "--trace"]
            k = is_known(kn, bad)
            if k: res.known[k["what"]] += 1
            else: res.viol.append(bad)
    shutil.rmtree(tmp, ignore_errors=True)
    if res.cases == n0 and not res.viol:
        print("unit monitor %s ran no case" % engine)
        sys.exit(2)
    res.engines.append({"engine": "unit %s/%s" % (engine, variant), "cases": res.cases - n0})


def confirm(exe, d, env):
    """a wall clock time out may be an overloaded machine: run it again alone"""
    cmd = [exe, "--profile", d["profile"], "--seed", str(d["seed"]), "--n", "1", "--jobs", "2"]
    for i in d.get("inject", "").split(): cmd += ["--inject", i]
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, timeout=200)
    except subprocess.TimeoutExpired: return True
    return '"viol"' in r.stdout


def write_evidence(res, conf):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    evals = sum(v for k, v in res.cov.items() if any(k.startswith(t) for t in conf["evals"]))
    missing = [t for t in conf.get("expect", []) if not any(k.startswith(t) for k in res.cov)]
    ev = {
        "property": res.prop, "tier": res.tier, "seed": res.seed, "level": conf["level"],
        "coverage": {
            "evaluations": res.cases, "monitor_evaluations": evals, "distinct_nontrivial": len(res.nontrivial),
            "rule": conf["rule"], "samples": res.samples[:5],
            "distinct_schedules": len(res.hashes), "scheduler_steps": res.steps, "context_switches": res.switches,
            "cases_by_profile": dict(res.by_profile), "engines": res.engines,
            "observed_events": {k: v for k, v in sorted(res.cov.items())},
            "expected_but_not_seen": missing,
        },
        "assumptions": conf["assumptions"],
        "wall_s": round(time.time() - res.t0, 1),
        "violations": len(res.viol),
        "violation_details": [{"monitor": d["viol"], "what": d.get("msg", "")[:500], "profile": d.get("profile"), "seed": d.get("seed"),
                        "inject": d.get("inject", ""), "variant": d.get("variant")} for d in res.viol],
        "known_findings": dict(res.known),
    }
    ev["coverage"].update(res.extra)
    tmp = os.path.join(V, "evidence", res.prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(V, "evidence", res.prop + ".json"))
    return ev, missing


def check(prop, tier):
    conf = plan.PLAN[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    res = Result(prop, tier, seed)
    for eng in conf["engines"]:
        if res.viol: break
        eng(sys.modules[__name__], res, conf, tier, seed)
    ev, missing = write_evidence(res, conf)
    print("%s %s: %d cases, %d distinct schedules, %d monitor evaluations, %d non-trivial, %.1f s" %
          (prop, tier, res.cases, len(res.hashes), ev["coverage"]["monitor_evaluations"], len(res.nontrivial), ev["wall_s"]))
    if missing: print("note: expected events not seen: " + ", ".join(missing))
    for w, n in res.known.items(): print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, w, n))
    if res.viol:
        d = res.viol[0]
        rp = os.path.join(V, "evidence", "replay_%s.json" % prop)
        json.dump(d, open(rp, "w"), indent=1)
        print("monitor %s: %s" % (d["viol"], d.get("msg", "")[:600]))
        print("case: profile %s seed %s %s" % (d.get("profile"), d.get("seed"), d.get("inject", "")))
        if d.get("stderr"): print(d["stderr"][:2500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    exe = os.path.join(build(d.get("variant", "asan")), d.get("exe", "sim"))
    cmd = [exe] + (d["args"] if "args" in d else ["--profile", d["profile"], "--seed", str(d["seed"]), "--trace"])
    for i in d.get("inject", "").split(): cmd += ["--inject", i]
    print(" ".join(cmd))
    return subprocess.call(cmd)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "setup":
        for v, t in plan.BUILDS: build(v, t)
        sys.exit(0)
    if a and a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
        sys.exit(check(a[1], tier))
    if a and a[0] == "replay": sys.exit(replay(a[1]))
    print(__doc__)
    sys.exit(2)
