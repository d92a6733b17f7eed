"""Orchestration only: builds the harness from /repo's working tree, runs cases
through it, runs TLC on the specifications and turns TLC's verdict into an exit
code. Nothing here decides a property."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LAYOUT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
LV = os.path.join(TARGET, "debug", "lv")
PLAIN = os.path.join(HARNESS, "target-plain", "plain", "lv")
WORK = os.path.join(VERIF, "work")
REPLAYS = os.path.join(VERIF, "replays")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


def env_cargo():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cfg layout_verif"
    e.pop("CARGO_TARGET_DIR", None)
    return e


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode() + b"\0" + open(root, "rb").read())
            continue
        for d, sub, files in os.walk(root):
            sub[:] = sorted(s for s in sub if s not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def build_harness(cli=False, plain=False):
    """Build the harness (and the command line tool, and the harness without
    optimizations) from the working tree of
    /repo. Cargo trusts modification times, this does not: when the content of
    the sources differs from what was built last, the crate is rebuilt."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, ".build.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        want = tree_hash(os.path.join(REPO, "layout"), os.path.join(REPO, "src"),
                         os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "src"))
        jobs = [("lv", HARNESS, TARGET, [])]
        if cli:
            jobs.append(("cli", REPO, os.path.join(HARNESS, "target-cli"), ["--bin", "layout"]))
        if plain:
            jobs.append(("plain", HARNESS, os.path.join(HARNESS, "target-plain"), ["--profile", "plain"]))
        for name, cwd, target, extra in jobs:
            stamp = os.path.join(target, ".verif-stamp")
            old = open(stamp).read() if os.path.exists(stamp) else ""
            if old == want:
                continue
            fp = os.path.join(target, "plain" if name == "plain" else "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(("layout", "lv-")):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            cmd = ["cargo", "build", "--offline", "--target-dir", target] + extra
            if name == "cli":
                cmd += ["--manifest-path", os.path.join(REPO, "Cargo.toml")]
            # Never write a lock file into the repository.
            lockf = os.path.join(REPO, "Cargo.lock")
            had = os.path.exists(lockf)
            before = open(lockf, "rb").read() if had else None
            p = subprocess.run(cmd, cwd=WORK if name == "cli" else cwd, env=env_cargo(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
            if name == "cli":
                if had and open(lockf, "rb").read() != before:
                    open(lockf, "wb").write(before)
                elif not had and os.path.exists(lockf):
                    os.remove(lockf)
            if p.returncode != 0:
                raise ToolError("build of %s failed:\n%s" % (name, p.stdout.decode(errors="replace")[-4000:]))
            open(stamp, "w").write(want)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def run_cases(cases, wdir, name, timeout=20.0, workers=NCPU, lv=None, env=None):
    """Run the cases in worker processes. A worker that dies or makes no
    progress for `timeout` seconds is data: the case it was on is recorded with
    outcome 'abort' or 'hang', and a new worker goes on with the next case."""
    os.makedirs(wdir, exist_ok=True)
    src = os.path.join(wdir, name + ".cases.ndjson")
    with open(src, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    n = len(cases)
    if n == 0:
        raise ToolError("no cases for " + name)
    workers = max(1, min(workers, (n + 15) // 16))
    cuts = [n * w // workers for w in range(workers + 1)]
    jobs = []
    for w in range(workers):
        out = os.path.join(wdir, "%s.out.%d" % (name, w))
        if os.path.exists(out):
            os.remove(out)
        jobs.append({"out": out, "next": cuts[w], "last": cuts[w + 1], "p": None, "size": 0,
                     "t": time.time(), "bad": 0})

    def start(j):
        j["p"] = subprocess.Popen([lv or LV, "run", src, j["out"], str(j["next"]), str(j["last"])],
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, cwd=wdir,
                                  env=None if env is None else dict(os.environ, **env))
        j["t"] = time.time()
        j["size"] = os.path.getsize(j["out"]) if os.path.exists(j["out"]) else 0

    def reached(j):
        last = j["next"] - 1
        if os.path.exists(j["out"]):
            data = open(j["out"], "rb").read()
            if data and not data.endswith(b"\n"):
                data = data[: data.rfind(b"\n") + 1]
                open(j["out"], "wb").write(data)
            lines = data.rstrip(b"\n").split(b"\n")
            if lines and lines[-1]:
                last = json.loads(lines[-1])["k"]
        return last

    def casualty(j, kind):
        k = max(reached(j), j["next"] - 1) + 1
        if k < j["last"]:
            r = dict(cases[k])
            r.update({"k": k, "outcome": kind, "msg": "", "out": {}})
            with open(j["out"], "a") as f:
                f.write(json.dumps(r) + "\n")
        j["next"] = k + 1
        j["bad"] += 1
        j["p"] = None

    for j in jobs:
        if j["next"] < j["last"]:
            start(j)
    while any(j["p"] is not None for j in jobs):
        time.sleep(0.02)
        for j in jobs:
            p = j["p"]
            if p is None:
                continue
            rc = p.poll()
            if rc is not None:
                if rc == 0:
                    j["p"] = None
                    continue
                casualty(j, "abort")
            else:
                sz = os.path.getsize(j["out"]) if os.path.exists(j["out"]) else 0
                if sz != j["size"]:
                    j["size"], j["t"] = sz, time.time()
                    continue
                if time.time() - j["t"] <= timeout:
                    continue
                p.kill()
                p.wait()
                casualty(j, "hang")
            if j["next"] < j["last"] and j["bad"] < 4:
                start(j)
            else:
                # Enough casualties to judge. The rest was not explored.
                j["p"] = None
    dst = os.path.join(wdir, name + ".ndjson")
    cnt = 0
    bad = sum(j["bad"] for j in jobs)
    with open(dst, "wb") as f:
        for j in jobs:
            if os.path.exists(j["out"]):
                data = open(j["out"], "rb").read()
                cnt += data.count(b"\n")
                f.write(data)
                os.remove(j["out"])
    if cnt != n and bad == 0:
        raise ToolError("harness returned %d of %d results" % (cnt, n))
    return dst


class Tlc:
    """The outcome of one TLC run."""
    def __init__(self, rc, out, secs):
        self.rc, self.out, self.secs = rc, out, secs
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, (\d[\d,]*) states left", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.left = int(m[-1][2].replace(",", "")) if m else -1
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out
        self.ok_sim = rc == 0
        # 10: assumption, 11: deadlock, 12: safety, 13: liveness, 75-77: evaluation
        self.rejected = rc in (10, 11, 12, 13)
        # (a recorded value outside of the numbers or types of the specification)
        self.evalerr = rc in (75, 76, 77) or (rc == 255 and "TLC was evaluating the nested" in out)


def tlc(module, cfg=None, env=None, wdir=None, workers=NCPU, timeout=840, heap="10g", extra=()):
    os.makedirs(wdir or WORK, exist_ok=True)
    meta = os.path.join(wdir or WORK, "meta-" + module)
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Xss256m", "-Xmx" + heap,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.returncode, p.stdout.decode("utf-8", errors="replace"), time.time() - t)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.t0 = time.time()
        self.wdir = os.path.join(WORK, "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.wdir, ignore_errors=True)
        os.makedirs(self.wdir)
        self.states = self.transitions = self.traces = 0
        self.legs, self.samples = [], []
        self.viol = []
        self.assumptions = []
        self.level = "model_checking"
        self.known = load_known(pid)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # Leg 1: the specification itself, exhaustively on small constants.
    def model(self, module, cfg=None, timeout=840, extra=(), expect_min=1):
        r = tlc(module, cfg, wdir=self.wdir, timeout=timeout, extra=extra)
        if not r.ok:
            raise ToolError("model %s does not check (rc %d):\n%s" % (module, r.rc, r.out[-3000:]))
        if r.distinct < expect_min:
            raise ToolError("model %s is vacuous: %d states" % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.legs.append({"leg": "model", "module": cfg or module, "distinct": r.distinct,
                          "generated": r.generated, "secs": round(r.secs, 1)})
        return r

    # Leg 2: behaviours generated from the specification.
    def generate(self, module, cfg=None, timeout=840, extra=(), limit=None):
        r = tlc(module, cfg, wdir=self.wdir, timeout=timeout, extra=extra)
        if r.rc != 0:
            raise ToolError("generator %s failed (rc %d):\n%s" % (module, r.rc, r.out[-3000:]))
        out = []
        for line in r.out.split("\n"):
            if line.startswith('"@@'):
                out.append(json.loads(json.loads(line)[2:]))
        if not out:
            raise ToolError("generator %s made nothing" % module)
        self.states += r.distinct
        self.transitions += r.generated
        total = len(out)
        out.sort(key=lambda x: json.dumps(x, sort_keys=True))
        if limit and total > limit:
            out = [out[j] for j in sorted(self.rng.sample(range(total), limit))]
        self.legs.append({"leg": "generate", "module": cfg or module, "behaviours": total,
                          "used": len(out), "secs": round(r.secs, 1)})
        return out

    # Leg 3: the real code's behaviour against the specification.
    def trace(self, module, cases, cfg=None, name=None, timeout=20.0, tlc_timeout=840, env=None,
              post=None, hint=None, lv=None):
        if self.viol:
            return None
        name = name or module
        for j, c in enumerate(cases):
            c.setdefault("id", j)
        t = time.time()
        res = run_cases(cases, self.wdir, name, timeout=timeout, lv=lv)
        if post:
            lines = [json.loads(x) for x in open(res)]
            lines = [post(x) for x in lines]
            with open(res, "w") as f:
                for x in lines:
                    f.write(json.dumps(x) + "\n")
        return self.trace_file(module, res, cfg, name, tlc_timeout, env, hint, time.time() - t)

    def record(self, cases, name, timeout=20.0, env=None, lv=None):
        """Runs the cases and returns the recorded results, to be joined."""
        res = run_cases(cases, self.wdir, name, timeout=timeout, env=env, lv=lv)
        lines = [json.loads(x) for x in open(res)]
        os.remove(res)
        return lines

    def observe(self, module, lines, cfg=None, name=None, tlc_timeout=840):
        """Judges observations that were put together from several runs."""
        res = os.path.join(self.wdir, (name or module) + ".ndjson")
        with open(res, "w") as f:
            for x in lines:
                f.write(json.dumps(x) + "\n")
        return self.trace_file(module, res, cfg, name, tlc_timeout)

    def trace_file(self, module, res, cfg=None, name=None, tlc_timeout=840, env=None, hint=None,
                   exec_secs=0.0):
        if self.viol:
            return None
        cnt = sum(1 for _ in open(res, "rb"))
        e = {"CASES": res}
        if env:
            e.update(env)
        r = tlc(module, cfg, env=e, wdir=self.wdir, timeout=tlc_timeout)
        self.states += r.distinct
        self.transitions += r.generated
        leg = {"leg": "trace", "module": cfg or module, "name": name, "traces": cnt,
               "distinct": r.distinct, "generated": r.generated, "exec_secs": round(exec_secs, 1),
               "tlc_secs": round(r.secs, 1)}
        self.legs.append(leg)
        if r.ok:
            # Every trace contributes at least its start and its final state.
            if r.distinct < 2 * cnt:
                raise ToolError("trace spec %s explored %d states for %d traces" % (module, r.distinct, cnt))
            self.traces += cnt
            self.sample(res)
            return r
        idx = re.findall(r"/\\ i = (\d+)", r.out)
        idx = [int(x) for x in idx if int(x) > 0]
        if (r.rejected or r.evalerr) and idx:
            k = idx[-1]
            lines = open(res).read().rstrip("\n").split("\n")
            case = json.loads(lines[k - 1])
            key = known_key(self.known, case)
            if key is not None:
                # A recorded finding: report it and go on without that case.
                print("KNOWN-FINDING: property=%s %s" % (self.pid, key))
                with open(res, "w") as f:
                    for q, x in enumerate(lines):
                        if q != k - 1:
                            f.write(x + "\n")
                return self.trace_file(module, res, cfg, name, tlc_timeout, env, hint, exec_secs)
            self.violation(name, case, r.out[-6000:], hint)
            return None
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, r.rc, r.out[-3000:]))

    def violation(self, leg, case, tail, hint=None):
        os.makedirs(REPLAYS, exist_ok=True)
        body = {"property": self.pid, "leg": leg, "seed": self.seed, "tier": self.tier,
                "case": case, "tlc": tail, "hint": hint or ""}
        txt = json.dumps(body, indent=1)
        p = os.path.join(REPLAYS, "%s-%s.json" % (self.pid, hashlib.sha256(txt.encode()).hexdigest()[:12]))
        open(p, "w").write(txt)
        self.viol.append(p)

    def sample(self, res, k=1):
        if len(self.samples) >= 4:
            return
        lines = open(res).read().rstrip("\n").split("\n")
        pick = self.rng.sample(range(len(lines)), min(k, len(lines)))
        for q in pick:
            s = lines[q]
            self.samples.append(s if len(s) < 1500 else s[:1500] + "...")

    def finish(self):
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:4] or ["(none)"], "legs": self.legs},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.wdir, ignore_errors=True)
        for v in self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, v))
        if not self.viol:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 1 if self.viol else 0


def load_known(pid):
    """Lines 'KNOWN-FINDING: property=<id> key=<json> <text>'. 'fixed:' lines
    are a record and suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def case_key(case):
    c = {k: v for k, v in case.items() if k not in ("id", "k", "out", "outcome", "msg")}
    return hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]


def known_key(known, case):
    if not known:
        return None
    k = case_key(case)
    for key, text in known:
        if key == k:
            return text
    return None
