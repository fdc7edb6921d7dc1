#!/usr/bin/env python3
"""run_check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--keep]

Builds the property's harnesses from /repo's working tree, replays the committed regression cases, searches for a failing
case with sharded generators, shrinks a failure to a minimal case, replays it, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself could not be run.
"""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, glob, struct, signal, threading
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "checks"))
from config import CHECKS  # noqa

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
ENV["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:report_signal_unsafe=0"
NPROC = 8


def log(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(HERE, "harness"), os.path.join(HERE, "compat")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def build_all(builds, work):
    """builds: {name: {"src":..., "cxx":..., "flags":[...], "link":[...]}}; returns {name: path}, {name: error text}"""
    out, err, procs, todo = {}, {}, [], list(builds.items())
    cache = os.environ.get("VERIF_CACHE")
    th = tree_hash() if cache else ""
    def cmd_of(b, target):
        src = b["src"] if isinstance(b["src"], list) else [b["src"]]
        inc = ["-I" + os.path.join(REPO, "include"), "-idirafter", os.path.join(HERE, "compat"), "-I" + os.path.join(HERE, "harness")]
        if b.get("script"):
            return ["bash", os.path.join(HERE, "harness", b["script"]), target, os.path.join(REPO, "include")] + b["flags"]
        return [b["cxx"]] + b["flags"] + inc + [os.path.join(HERE, "harness", s) for s in src] + ["-o", target] + b.get("link", [])
    while todo or procs:
        while todo and len(procs) < NPROC:
            name, b = todo.pop(0)
            target = os.path.join(work, name)
            c = cmd_of(b, target)
            ck = None
            if cache:
                ck = os.path.join(cache, hashlib.sha256((th + " ".join(map(str, c[1:])).replace(work, "")).encode()).hexdigest()[:24])
                if os.path.exists(ck):
                    shutil.copy(ck, target); os.chmod(target, 0o755); out[name] = target; continue
            lf = open(target + ".log", "wb")
            procs.append((name, target, ck, subprocess.Popen(c, stdout=lf, stderr=lf, env=dict(ENV, TMPDIR=work))))
        still = []
        for name, target, ck, p in procs:
            rc = p.poll()
            if rc is None:
                still.append((name, target, ck, p)); continue
            if rc == 0 and os.path.exists(target):
                out[name] = target
                if ck:
                    os.makedirs(cache, exist_ok=True); shutil.copy(target, ck + ".tmp%d" % os.getpid()); os.rename(ck + ".tmp%d" % os.getpid(), ck)
            else:
                err[name] = open(target + ".log", errors="replace").read()
        procs = still
        if procs: time.sleep(0.05)
    return out, err


def run_case(binary, text, work, timeout, extra=()):
    """replay one case; returns (kind, message): kind in pass fail crash hang"""
    f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".case", delete=False)
    f.write(text); f.close()
    try:
        p = subprocess.run([binary, "--replay", f.name] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return "hang", "no answer within %d s" % timeout
    finally:
        os.unlink(f.name)
    o = p.stdout.decode(errors="replace")
    if p.returncode == 0: return "pass", ""
    if p.returncode == 3:
        m = [l for l in o.splitlines() if l.startswith("FAIL")]
        return "fail", m[0] if m else "FAIL"
    keep = [l for l in o.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l or "terminate called" in l or "Assertion" in l or "what():" in l or "ssert" in l or "SUMMARY" in l]
    return "crash", "exit %d: %s" % (p.returncode, " | ".join(keep[:4]) or o[-300:].replace("\n", " | "))


def shrink(binary, text, work, timeout, limit):
    """delta debugging over the case's lines (header lines starting with ! stay), then over its numbers"""
    t_end = time.time() + limit
    def fails(lines):
        k, m = run_case(binary, "\n".join(lines) + "\n", work, timeout)
        return k != "pass"
    def par(cands):
        """index of the first failing candidate, tried NPROC at a time"""
        for i in range(0, len(cands), NPROC):
            if time.time() > t_end: return None
            res = [None] * len(cands[i:i + NPROC])
            def go(j): res[j] = fails(cands[i + j])
            ts = [threading.Thread(target=go, args=(j,)) for j in range(len(res))]
            [t.start() for t in ts]; [t.join() for t in ts]
            for j, r in enumerate(res):
                if r: return i + j
        return None
    lines = [l for l in text.splitlines() if l.strip() and not l.startswith("#")]
    n = 2
    while time.time() < t_end:
        body = [i for i, l in enumerate(lines) if not l.startswith("!")]
        if not body: break
        n = min(n, len(body)); size = max(1, (len(body) + n - 1) // n)
        cands = []
        for k in range(0, len(body), size):
            drop = set(body[k:k + size]); cands.append([l for i, l in enumerate(lines) if i not in drop])
        j = par(cands)
        if j is not None: lines = cands[j]; n = max(2, n - 1)
        elif size == 1: break
        else: n = min(len(body), n * 2)
    changed = True
    while changed and time.time() < t_end:
        changed = False
        for i, l in enumerate(lines):
            if l.startswith("!"): continue
            w = l.split()
            cands = []
            for k in range(1, len(w)):
                if w[k].lstrip("-").isdigit() and int(w[k]) != 0:
                    for v in (0, int(w[k]) // 2):
                        if str(v) != w[k]: cands.append(lines[:i] + [" ".join(w[:k] + [str(v)] + w[k + 1:])] + lines[i + 1:])
            if cands:
                j = par(cands)
                if j is not None: lines = cands[j]; changed = True
    return "\n".join(lines) + "\n"


class Worker:
    def __init__(self, job, binary, shard, nshards, seed, secs, work):
        self.job, self.binary, self.build = job, binary, job["build"]
        Worker.count = getattr(Worker, "count", 0) + 1
        self.base = os.path.join(work, "w%d-%d-%s" % (Worker.count, shard, job["build"]))
        self.progress, self.stats, self.out = self.base + ".prog", self.base + ".json", self.base + ".out"
        self.seed = seed + job.get("seed_offset", 0)
        self.args = ["--seed", str(self.seed), "--from", str(shard), "--stride", str(nshards), "--time", str(secs), "--profile", job.get("profile", "default")] + job.get("args", [])
        if job.get("guided"): self.args.append("--guided")
        if job.get("count"): self.args += ["--count", str(max(1, job["count"] // nshards))]
        self.lf = open(self.out, "wb")
        self.t0 = time.time(); self.secs = secs
        self.p = subprocess.Popen([binary] + self.args + ["--progress", self.progress, "--stats", self.stats], stdout=self.lf, stderr=self.lf, env=ENV)
        self.last = (None, time.time()); self.hung = False
        self.stall = job.get("stall", 40)

    def prog(self):
        try:
            return struct.unpack("<QQQ", open(self.progress, "rb").read(24))
        except Exception:
            return None

    def poll(self):
        if self.p.poll() is not None: return True
        pr = self.prog()
        if pr != self.last[0]: self.last = (pr, time.time())
        elif time.time() - self.last[1] > self.stall:
            self.p.kill(); self.p.wait(); self.hung = True; return True
        return False

    def result(self):
        """returns (stats or None, failure or None); failure = {case, msg, kind}"""
        self.lf.close()
        rc = self.p.returncode
        st = None
        if os.path.exists(self.stats):
            try: st = json.load(open(self.stats))
            except Exception: st = None
        if rc == 0 and st is not None and not self.hung: return st, None
        if rc == 3 and st is not None and "fail_case" in st: return st, {"case": st["fail_case"], "msg": st["fail_msg"], "kind": "fail"}
        pr = self.prog(); tail = open(self.out, errors="replace").read()
        if pr is None: return None, {"case": None, "msg": "worker ended with %s before its first case: %s" % (rc, tail[-400:]), "kind": "broken"}
        if self.job.get("guided"): # the case is not a function of the seed
            text = open(self.progress + ".case", "rb").read().split(b"\0")[0].decode(errors="replace")
        else:
            text = subprocess.run([self.binary, "--seed", str(self.seed), "--from", str(pr[0]), "--profile", self.job.get("profile", "default"), "--dump"] + self.job.get("args", []), stdout=subprocess.PIPE, env=ENV).stdout.decode(errors="replace")
        keep = [l for l in tail.splitlines() if l.startswith("FAIL") or "ERROR: AddressSanitizer" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l or "terminate called" in l or "ssert" in l]
        st2 = {"evaluations": int(pr[2]) + 1, "nontrivial": 0, "counters": {}, "samples": [], "hashes": []}
        return st2, {"case": text, "msg": " | ".join(keep[:3]) or ("no progress" if self.hung else "exit %s" % rc), "kind": "hang" if self.hung else "crash"}


def known_findings(prop):
    """[(case text hash or substring, description)] - lines 'known: property=<id> match=<text> :: <what fails>'"""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                a, b = l.split(" :: ", 1); res.append((a.split("match=", 1)[1], b))
    return res


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick"); replay = None; keep = False
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]; i += 1
        elif args[i] == "--replay": replay = args[i + 1]; i += 1
        elif args[i] == "--keep": keep = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 2
    try:
        rc = check(prop, cfg, tier, seed, work, t0, replay)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def write_replay(prop, build, text, msg, kind):
    d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
    name = os.path.join(d, "%s-%s.case" % (prop, hashlib.sha256((build + text).encode()).hexdigest()[:10]))
    with open(name, "w") as f:
        f.write("# property=%s build=%s kind=%s\n# %s\n# replay: python3 run_check.py %s --replay %s\n%s" % (prop, build, kind, msg.replace("\n", " ")[:500], prop, os.path.relpath(name, HERE), text))
    return name


def case_build(path):
    for l in open(path, errors="replace"):
        if l.startswith("#") and "build=" in l: return l.split("build=", 1)[1].split()[0]
    return None


def check(prop, cfg, tier, seed, work, t0, replay):
    tc = cfg[tier] if tier in cfg else cfg["quick"]
    jobs = [dict(j) for j in tc["jobs"]]
    names = []
    for j in jobs:
        if j["build"] not in names: names.append(j["build"])
    if replay: names = [case_build(replay) or names[0]]
    builds = {n: cfg["builds"][n] for n in names}
    bins, errs = build_all(builds, work)
    t_build = time.time() - t0
    viol = []       # (build, case text, msg, kind)
    if errs:
        n = sorted(errs)[0]; e = "\n".join([l for l in errs[n].splitlines() if "error" in l][:4]) or errs[n][-500:]
        if cfg.get("compile_failure_is_violation", True):
            path = write_replay(prop, n, errs[n][-20000:], "a program using only the documented interface no longer compiles", "compile")
            finish(prop, cfg, tier, seed, t0, t_build, {}, [("compile", path)], 0, {})
            log(e); log("VIOLATION property=%s replay=%s" % (prop, path)); return 1
        log("the harness does not compile:", n); log(e); return 2
    if replay:
        k, m = run_case(bins[names[0]], open(replay).read(), work, cfg.get("case_timeout", 60))
        log("replay of %s with %s: %s %s" % (replay, names[0], k, m)); return 0 if k == "pass" else 1
    # 1. regression cases
    regress = sorted(glob.glob(os.path.join(HERE, "regress", "*", "*.case")))
    nreg = 0
    for path in regress:
        base = os.path.basename(os.path.dirname(path))
        if base != prop and base not in cfg.get("regress", []): continue
        b = case_build(path)
        if b not in bins: continue
        nreg += 1
        k, m = run_case(bins[b], open(path).read(), work, cfg.get("case_timeout", 60))
        if k != "pass": viol.append((b, open(path).read(), m, k)); break
    # 2. search
    stats = {}
    if not viol:
        weight = sum(j.get("shards", 1) for j in jobs)
        secs = tc["secs"] * (1.0 if weight <= NPROC else 1.0)
        pending = []
        for j in jobs:
            for s in range(j.get("shards", 1)): pending.append((j, s))
        running = []; stop = False
        while pending or running:
            while pending and len(running) < NPROC and not stop:
                j, s = pending.pop(0)
                running.append(Worker(j, bins[j["build"]], s, j.get("shards", 1), seed, j.get("secs", secs), work))
            if stop:
                pending = []
            still = []
            for w in running:
                if not w.poll(): still.append(w); continue
                st, fail = w.result()
                if st: stats.setdefault(w.build + ":" + w.job.get("profile", "default"), []).append(st)
                if fail:
                    if fail["kind"] == "broken" or not fail["case"]:
                        log("worker broke:", fail["msg"]); stop = True; viol.append((w.build, fail["case"] or "", fail["msg"], "broken")); continue
                    viol.append((w.build, fail["case"], fail["msg"], fail["kind"])); stop = True
            if stop:
                for w in still: w.p.kill(); w.p.wait()
                still = []
            running = still
            if running: time.sleep(0.1)
    # 3. shrink and confirm
    reported, unconfirmed, kf = [], 0, known_findings(prop)
    for b, text, msg, kind in viol[:3]:
        if kind == "broken":
            # the harness could not even start with this library: confirm by running it again
            p = subprocess.run([bins[b], "--count", "1", "--time", "5"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            if p.returncode == 0: unconfirmed += 1; continue
            path = write_replay(prop, b, p.stdout.decode(errors="replace")[-3000:], msg, kind); reported.append((kind, path)); break
        to = 60 if kind == "hang" else 20
        oks = [run_case(bins[b], text, work, to) for _ in range(3)]
        bad = [x for x in oks if x[0] != "pass"]
        if not bad and (kind == "hang" or cfg.get("must_reproduce", True)):
            log("not reproduced (%s, %s), not reported: %s" % (b, kind, msg)); 
            unconfirmed += 1; continue
        if bad:
            small = shrink(bins[b], text, work, 10 if kind != "hang" else 15, tc.get("shrink_s", 60 if tier == "quick" else 240))
            k, m = run_case(bins[b], small, work, to)
            if k != "pass": text, msg, kind = small, m, k
        known = [d for mt, d in kf if mt in msg or mt in text]
        if known:
            log("KNOWN-FINDING: property=%s %s" % (prop, known[0])); continue
        path = write_replay(prop, b, text, msg, kind); reported.append((msg, path))
        log("failing case (%s): %s" % (b, msg)); log(text); break
    finish(prop, cfg, tier, seed, t0, t_build, stats, reported, nreg, {"unconfirmed": unconfirmed})
    if reported:
        log("VIOLATION property=%s replay=%s" % (prop, reported[0][1])); return 1
    if unconfirmed and not stats: return 2
    log("%s held: %s" % (prop, json.load(open(os.path.join(HERE, "evidence", prop + ".json")))["coverage"]["evaluations"]))
    return 0


def finish(prop, cfg, tier, seed, t0, t_build, stats, reported, nreg, extra):
    ev = sum(s["evaluations"] for l in stats.values() for s in l)
    hashes = set(); big = 0
    per = {}
    counters = {}
    samples = []
    for name, l in sorted(stats.items()):
        hs = set()
        for s in l:
            hs.update(s["hashes"]); 
            for k, v in s["counters"].items(): counters[k] = counters.get(k, 0) + v
        for s in l[:1]:
            for x in s["samples"][:1]: samples.append({"build": name, "case": x})
        per[name] = {"evaluations": sum(s["evaluations"] for s in l), "distinct_nontrivial": len(hs)}
        hashes.update((name, h) for h in hs)
    samples = samples[:3] + samples[-1:] if len(samples) > 4 else samples
    e = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
         "coverage": {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": cfg["rule"], "samples": samples or ["none: stopped before a sample was taken"],
                      "per_build": per, "counters": counters, "regression_cases": nreg, "build_s": round(t_build, 1)},
         "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(reported)}
    e["coverage"].update(extra)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(e, f, indent=1)


if __name__ == "__main__":
    main()
