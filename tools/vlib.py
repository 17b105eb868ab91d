"""Common machinery of the checks: build, TLC, replay, verdict, evidence."""
import atexit, concurrent.futures as cf, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = max(2, min(8, os.cpu_count() or 4))
CACHE = os.path.join(VERIF, "build", "cache")
DEFS = ["-DNDEBUG", "-std=gnu++17", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=0", "-DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1",
        "-DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1", "-DFASTGLTF_USE_64BIT_FLOAT=0", "-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=0"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all"]
CXX = "g++"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


def tier(quick, thorough):
    return thorough if TIER == "thorough" else quick


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def _compile(src, flags, key):
    """Object file for src, cached by content of /repo, of the harness and of the flags."""
    out = os.path.join(CACHE, _sha(key, src, " ".join(flags)) + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = run([CXX, "-c", src, "-o", tmp, "-w"] + flags)
        if r.returncode != 0:
            raise CheckError("compile failed: %s\n%s" % (src, r.stderr[-4000:]))
        os.rename(tmp, out)
    return out


def build(harness, lib=True, flags=(), san=ASAN, opt="-O0", libs=()):
    """Build /verif/harness/<harness>.cpp against the current /repo sources."""
    os.makedirs(CACHE, exist_ok=True)
    tree = _tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "src"))
    fl = [opt, "-g1", "-ftrivial-auto-var-init=pattern", "-I" + os.path.join(REPO, "include"), "-I" + HARN] + DEFS + list(san) + list(flags)
    hdrs = _sha(*[open(os.path.join(HARN, f)).read() for f in sorted(os.listdir(HARN)) if f.endswith(".hpp")])
    jobs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        hs = [harness] if isinstance(harness, str) else list(harness)
        for h in hs:
            p = os.path.join(HARN, h + ".cpp")
            jobs.append(ex.submit(_compile, p, fl, tree + hdrs + _sha(open(p).read())))
        if lib:
            for s in ("src/fastgltf.cpp", "src/base64.cpp", "src/io.cpp"):
                jobs.append(ex.submit(_compile, os.path.join(REPO, s), fl, tree))
        objs = [j.result() for j in jobs]
    exe = os.path.join(CACHE, _sha(*objs, " ".join(fl), *libs) + ".exe")
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = run([CXX, "-o", tmp] + objs + list(san) + (["-lsimdjson"] if lib else []) + list(libs) + ["-lpthread"])
        if r.returncode != 0:
            raise CheckError("link failed\n" + r.stderr[-4000:])
        os.rename(tmp, exe)
    return exe


class Tlc:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.emitted = []
        self.coverage = {}
        self.output = ""


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.notes, self.assumptions = [], [], []
        self.actions = {}
        self.violations = []      # (key, info)
        self.modules = []
        self.extra = {}
        base = os.path.join(VERIF, "build", "run")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + ".", dir=base)
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(shutil.rmtree, self.dir, True)
        self.known = {}
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line and not line.startswith("#") and line.startswith("{"):
                    d = json.loads(line)
                    if d.get("property") == pid and d.get("status") == "known":
                        self.known[d["key"]] = d
        self.known_hit = set()

    # ---- TLC -----------------------------------------------------------------------------------
    def tlc(self, module, cfg, consts=None, simulate=None, depth=None, workers=None, files=None, timeout=600,
            coverage=False, expect_ok=True, xmx="3g", count=True):
        """Run TLC on spec/<module>.tla with the configuration text `cfg` (or a file name in spec/)."""
        d = tempfile.mkdtemp(prefix="tlc.", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, data in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(data)
        if os.path.exists(os.path.join(SPEC, cfg)):
            cfg = open(os.path.join(SPEC, cfg)).read()
        for k, v in (consts or {}).items():
            cfg, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), cfg)
            if not n:
                cfg += "\nCONSTANT %s = %s\n" % (k, v)
        with open(os.path.join(d, "MC.cfg"), "w") as fh:
            fh.write(cfg)
        w = workers or NCPU
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-XX:ParallelGCThreads=4", "-cp", JAR, "tlc2.TLC", "-config", "MC.cfg", "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-workers", str(w), "-nowarning"]
        if coverage:
            cmd += ["-coverage", "60"]
        if simulate:
            cmd += ["-simulate", "num=%d" % -(-simulate // w), "-depth", str(depth or 20), "-seed", str(SEED)]
        cmd += [module + ".tla"]
        t = Tlc()
        out_path = os.path.join(d, "out")
        try:
            with open(out_path, "w") as fh:
                rc = subprocess.run(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        rest = []
        with open(out_path, errors="replace") as fh:
            for line in fh:
                if line.startswith('"@@'):
                    t.emitted.append(json.loads(json.loads(line)[2:]))
                else:
                    rest.append(line)
        t.output = "".join(rest)
        t.rc = rc
        for m in re.finditer(r"([\d,]+) states generated,? (?:\([^)]*\) )?([\d,]+) distinct states found", t.output):
            t.generated, t.distinct = (int(x.replace(",", "")) for x in m.groups())
        if simulate:
            m = re.findall(r"number of states generated: ([\d,]+)", t.output) or re.findall(r"Progress: ([\d,]+) states checked", t.output)
            if m:
                t.generated = t.distinct = int(m[-1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", t.output)
        if m:
            t.depth = int(m[-1])
        for m in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: ([\d,]+):([\d,]+)", t.output):
            t.coverage[m.group(1)] = int(m.group(4).replace(",", ""))
        ok = rc == 0
        if expect_ok and not ok:
            raise CheckError("TLC failed (rc %d) on %s:\n%s" % (rc, module, t.output[-6000:]))
        if count:
            self.states += t.distinct
            self.transitions += t.generated
            self.modules.append({"module": module, "mode": "simulate" if simulate else "exhaustive", "generated": t.generated,
                                 "distinct": t.distinct, "depth": t.depth, "behaviours": len(t.emitted)})
            for k, v in t.coverage.items():
                self.actions[k] = self.actions.get(k, 0) + v
        shutil.rmtree(d, True)
        return t

    # ---- replay --------------------------------------------------------------------------------
    def replay(self, exe, scenarios, args=(), shards=None, per_timeout=20, env=None, max_crashes=200):
        """Run the driver on scenarios (dicts); returns a list of result dicts in order.
        A scenario in which the driver died gives {"crash": text}."""
        n = len(scenarios)
        if n == 0:
            return []
        shards = min(shards or NCPU, max(1, n))
        res = [None] * n
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1048576:malloc_fill_byte=190:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=4096"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        e["VH_TIMEOUT"] = str(per_timeout)
        e.update(env or {})

        def work(k):
            idx = list(range(k, n, shards))
            pos, crashes = 0, 0
            d = tempfile.mkdtemp(prefix="rp.", dir=self.dir)
            while pos < len(idx):
                inp, outp = os.path.join(d, "in"), os.path.join(d, "out")
                with open(inp, "w") as fh:
                    for i in idx[pos:]:
                        fh.write(json.dumps(lean(scenarios[i])) + "\n")
                scratch = os.path.join(d, "scratch")
                os.makedirs(scratch, exist_ok=True)
                with open(os.path.join(d, "err"), "w") as eh:
                    p = subprocess.Popen([exe, inp, outp, scratch] + list(args), stdout=eh, stderr=eh, env=e, cwd=scratch)
                    rc = watch(p, outp, per_timeout + 10)
                got = 0
                if os.path.exists(outp):
                    with open(outp, errors="replace") as fh:
                        for line in fh:
                            if not line.endswith("\n"):
                                break
                            res[idx[pos + got]] = json.loads(line)
                            got += 1
                    os.unlink(outp)
                shutil.rmtree(scratch, True)
                pos += got
                if pos < len(idx):
                    err = open(os.path.join(d, "err"), errors="replace").read()
                    if rc == 0:
                        raise CheckError("driver stopped early without error: " + err[-2000:])
                    if rc == 77:
                        raise CheckError("driver reports an internal error: " + err[-3000:])
                    res[idx[pos]] = {"crash": crash_summary(rc, err), "stderr": err[:3000]}
                    pos += 1
                    crashes += 12 if "hang (" in res[idx[pos - 1]]["crash"] else 1
                    if crashes * shards > max_crashes:
                        for i in idx[pos:]:
                            res[i] = {"skipped": True}
                        break
                elif rc != 0:
                    # all results were written but the process died at exit
                    err = open(os.path.join(d, "err"), errors="replace").read()
                    res[idx[-1]] = {"crash": "at exit: " + crash_summary(rc, err), "stderr": err[:3000]}
            shutil.rmtree(d, True)

        with cf.ThreadPoolExecutor(shards) as ex:
            for f in [ex.submit(work, k) for k in range(shards)]:
                f.result()
        return res

    def conform(self, exe, scenarios, judge, args=(), describe=None, key=None, **kw):
        """Replay scenarios, judge(scenario, result) -> None | text.  A scenario counts as a violation only if a second
        run of it alone in a fresh process is rejected as well."""
        if self.violations and time.time() - self.t0 > 300:
            return []      # the verdict is settled
        res = self.replay(exe, scenarios, args, **kw)
        bad = []
        done = 0
        for s, r in zip(scenarios, res):
            if r.get("skipped"):
                continue
            done += 1
            why = ("crash: " + r["crash"]) if "crash" in r else judge(s, r)
            if why:
                bad.append((s, r, why))
        self.traces += done
        if scenarios and len(self.samples) < 4:
            rnd = random.Random(SEED)
            for i in rnd.sample(range(len(scenarios)), min(2, len(scenarios))):
                self.samples.append(trim({"scenario": scenarios[i], "observed": res[i]}))
        bykey = {}
        for s, r, why in bad:
            k = key(s, r, why) if key else why
            bykey.setdefault(k, []).append((s, r, why))
        for k, items in bykey.items():
            if len(self.violations) >= 10 or self.violations and time.time() - self.t0 > 400:
                break
            items = sorted(items, key=lambda x: len(json.dumps(x[0])))
            confirmed = None
            for s, r, why in items[:3]:
                kw2 = dict(kw)
                kw2["per_timeout"] = 2 * kw.get("per_timeout", 20)
                r2 = self.replay(exe, [s], args, shards=1, **{x: y for x, y in kw2.items() if x != "shards"})[0]
                why2 = ("crash: " + r2["crash"]) if "crash" in r2 else judge(s, r2)
                if why2:
                    confirmed = (s, r2, why2)
                    break
            if confirmed is None:
                self.notes.append("not reproducible, ignored: %s" % str(k)[:300])
                continue
            self.violation(k, {"scenario": confirmed[0], "observed": confirmed[1], "why": confirmed[2], "count": len(items)})
        return res

    def violation(self, key, info):
        self.violations.append((str(key), info))

    # ---- verdict -------------------------------------------------------------------------------
    def finish(self):
        new = []
        for k, info in self.violations:
            hit = None
            for kk in self.known:
                if k == kk or (self.known[kk].get("prefix") and k.startswith(kk)):
                    hit = kk
            if hit:
                self.known_hit.add(hit)
            else:
                new.append((k, info))
        for kk in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[kk]["what"]))
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "tlc_runs": self.modules, "action_counts": self.actions, "samples": self.samples[:6] or ["none"], **self.extra},
              "assumptions": self.assumptions + self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if new:
            rd = os.path.join(VERIF, "build", "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (k, info) in enumerate(new[:10]):
                p = os.path.join(rd, "%s.%d.json" % (self.pid, i))
                with open(p, "w") as fh:
                    json.dump({"property": self.pid, "key": k, **info}, fh, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  " + str(k)[:400].replace("\n", " "))
            if len(new) > 10:
                print("  ... and %d more" % (len(new) - 10))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0


def lean(s):
    """what the driver gets to see: the scenario without the specification's expectations"""
    if "ops" in s:
        return {**{k: v for k, v in s.items() if k != "exp"}, "ops": [{k: v for k, v in o.items() if k != "exp"} for o in s["ops"]]}
    return {k: v for k, v in s.items() if k != "exp"}


def watch(p, path, limit):
    """wait for a driver; one whose own alarm does not end it is killed"""
    size, since = -1, time.time()
    while True:
        try:
            return p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            now = os.path.getsize(path) if os.path.exists(path) else -1
            if now != size:
                size, since = now, time.time()
            elif time.time() - since > limit:
                p.kill()
                return p.wait()


def trim(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def crash_summary(rc, err):
    m = re.search(r"SUMMARY: (\w+Sanitizer: [^\n]*)", err)
    if m:
        s = re.sub(r"\([^()]*(0x|BuildId)[^()]*\) ?", "", re.sub(r"/\S*/", "", m.group(1)))
        return re.sub(r":\d+(:\d+)?", "", s)[:140]
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "UBSan: " + m.group(1)
    m = re.search(r"terminate called[^\n]*(\n\s*what\(\):[^\n]*)?", err)
    if m:
        return m.group(0).replace("\n", " ")
    if rc in (-signal.SIGALRM, -signal.SIGKILL):
        return "hang (no result within the time limit)"
    return "exit code %d" % rc


def main(fn, pid, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        sys.exit(c.finish())
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        sys.exit(2)
