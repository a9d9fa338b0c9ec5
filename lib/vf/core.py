"""Shared machinery: build drivers from /repo's working tree, run them, run TLC, report."""
import functools, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VF_NPROC", "8"))


class CheckError(Exception):
    """The check itself could not do its work (exit 2): never a verdict on the code."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


@functools.lru_cache(None)
def gxx_version():
    return subprocess.run(["g++", "-v"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout


def known_ids(prop):
    """{identity: description} of the findings listed for a property: lines `finding: property=<id> id=<identity> <text>`."""
    res = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m and m[1] == prop:
                res[m[2]] = m[3].strip()
    return res


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{self.seed}/{prop}")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"vf-{prop}-")
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.known = set()       # listed findings that were met
        self.models = []
        self.assumptions = []
        self.notes = {}
        self.exhaustive = None
        self.violations = []
        self._objs = {}
        self._built = {}
        self._tsan = {}
        self._locales = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- build
    CXX = ["g++", "-std=gnu++20", "-w", "-g1", "-fno-omit-frame-pointer",
           "-include", os.path.join(ROOT, "harness", "prelude.hpp")]
    # a variable read before it was set has a conspicuous value
    SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined", "-ftrivial-auto-var-init=pattern"]
    TSAN = ["-fsanitize=thread"]

    # Objects are kept by content: the key is the preprocessed text of the unit (all of the tree's current
    # code that goes into it) and the compiler command, so a cached object is exactly what compiling now would give.
    OBJCACHE = os.environ.get("VF_OBJCACHE", os.path.join(ROOT, ".objcache"))

    def _compile(self, src, obj, opt, extra=(), san=None):
        san = san or self.SAN
        flags = [*san, opt, "-I" + os.path.join(ROOT, "harness", "craftpp"), "-I" + os.path.join(ROOT, "harness", "craftnapi"),
                 "-I" + os.path.join(ROOT, "harness"), "-I" + SRC, "-I" + REPO, *extra]
        cached = None
        if self.OBJCACHE:
            r = subprocess.run([*self.CXX, *flags, "-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if r.returncode == 0:
                text = r.stdout.replace(REPO.encode() + b"/", b"@REPO/")
                key = hashlib.sha256(b"\0".join([gxx_version(), " ".join([*self.CXX[:5], *san, opt, *extra]).encode(), text])).hexdigest()
                cached = os.path.join(self.OBJCACHE, key + ".o")
                if os.path.exists(cached):
                    shutil.copyfile(cached, obj)
                    return 0, ""
        r = sh([*self.CXX, *flags, "-c", src, "-o", obj])
        if r.returncode == 0 and cached:
            try:
                os.makedirs(self.OBJCACHE, exist_ok=True)
                tmp = f"{cached}.{os.getpid()}.{os.path.basename(obj)}"
                shutil.copyfile(obj, tmp)
                os.replace(tmp, cached)
            except OSError:
                pass
        return r.returncode, r.stdout

    def build(self, driver, lib=True, opt="-O1", extra=(), more=(), san=None):
        """Compile harness/<driver>, the files `more` of the repository and, when lib, all of /repo/src; returns the executable's path."""
        san = san or self.SAN
        kind = san[0].split("=")[1].split(",")[0]
        bdir = os.path.join(self.work, "build-" + kind)
        os.makedirs(bdir, exist_ok=True)
        jobs = []
        dobj = os.path.join(bdir, driver.replace("/", "_") + ".o")
        jobs.append((os.path.join(ROOT, "harness", driver), dobj))
        mobjs = [os.path.join(bdir, "more_" + m.replace("/", "_") + ".o") for m in more]
        jobs += [(os.path.join(REPO, m), o) for m, o in zip(more, mobjs)]
        if lib and kind not in self._objs:
            for d, _, fs in sorted(os.walk(SRC)):
                if "node" in os.path.relpath(d, SRC).split(os.sep):
                    continue
                for f in sorted(fs):
                    if f.endswith((".cpp", ".cc", ".cxx")):
                        s = os.path.join(d, f)
                        jobs.append((s, os.path.join(bdir, os.path.relpath(s, SRC).replace("/", "_") + ".o")))
        t = time.time()
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda j: self._compile(j[0], j[1], opt, extra if j is jobs[0] else (), san), jobs))
        if res[0][0] != 0:
            raise CheckError(f"driver {driver} does not compile against {REPO}:\n{res[0][1][-4000:]}")
        failed = [(j[0], r[1]) for j, r in zip(jobs[1:], res[1:]) if r[0] != 0]
        mobjs = [o for o in mobjs if os.path.exists(o)]
        if lib and kind not in self._objs:
            self._objs[kind] = [j[1] for j, r in zip(jobs[1 + len(more):], res[1 + len(more):]) if r[0] == 0]
            ar = os.path.join(bdir, "libsrc.a")
            r = sh(["ar", "rcs", ar] + self._objs[kind])
            if r.returncode:
                raise CheckError("ar failed:\n" + r.stdout)
        exe = dobj[:-2] + ".exe"
        libs = [os.path.join(bdir, "libsrc.a")] if lib else []
        r = sh(["g++", *san, dobj, *mobjs, *libs, "-lcrypto", "-lpthread", "-o", exe])
        if r.returncode:
            why = "\n".join(f"{s}:\n{o[-1500:]}" for s, o in failed)
            raise CheckError(f"link of {driver} failed:\n{r.stdout[-3000:]}\nunits that did not compile:\n{why}")
        self._built[exe] = dict(driver=driver, lib=lib, opt=opt, extra=extra, more=more)
        self.log(f"built {driver}{' for threads' if san is self.TSAN else ''} ({len(jobs)} units, {time.time() - t:.1f}s)")
        return exe

    def threaded(self, exe):
        """The same driver built to detect data races; exe itself when such a program does not run here."""
        if exe not in self._tsan:
            t = exe
            try:
                t = self.build(**self._built[exe], san=self.TSAN)
                if subprocess.run([t, "threads"], input=b"%%\n", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode != 0:
                    t = exe
            except (CheckError, subprocess.TimeoutExpired, OSError):
                t = exe
            self._tsan[exe] = t
            self.notes["data_races"] = "looked for" if t != exe else "not looked for: the race detector does not run here"
        return self._tsan[exe]

    # ---------------------------------------------------------------- drivers
    ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=6000:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98", "TSAN_OPTIONS": "exitcode=97:second_deadlock_stack=1", "LC_ALL": "C"}

    def run_driver(self, exe, script, timeout=120, what="driver", args=(), env=None):
        """Run one driver on one script (text); returns the list of output lines.
        A crash, sanitizer report or hang of the driver is the code's: raises Violation."""
        for attempt in (1, 2):
            if not self.thorough:
                timeout = min(timeout, 200 // attempt)
            try:
                r = subprocess.run([exe, *args], input=script.encode() if isinstance(script, str) else script, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=timeout, env={**os.environ, **self.ENV, **(env or {})})
                rc, out, err = r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired as e:
                rc, out, err = "timeout", (e.stdout or b"").decode("utf-8", "replace"), f"no result within {timeout} s"
            if rc == 0:
                return out.splitlines()
            if rc == 3:
                raise CheckError(f"{what}: driver rejected its script: {err[-2000:]}")
        done = len([l for l in out.splitlines() if l.startswith("{")])
        rep = self.write_replay("crash", {"what": f"{what} crashed: rc={rc}", "stderr": err[-6000:],
                                          "events_logged_before": done, "last_events": out.splitlines()[-5:],
                                          "script": script if isinstance(script, str) else script.decode("latin1")})
        first = next((l for l in err.splitlines() if "ERROR" in l or "ThreadSanitizer" in l or "runtime error" in l or "terminate" in l), err.strip().splitlines()[-1] if err.strip() else "")
        raise Violation(f"{what}: real code crashed/hung (rc={rc}) {first[:300]}", rep)

    def run_many(self, exe, scripts, timeout=120, what="driver", args=(), modes=None):
        """Scripts in parallel; returns list of line lists (first violation wins).
        modes: for each script, arguments and environment of its own."""
        modes = modes or [(args, None)] * len(scripts)
        if any("threads" in a for a, _ in modes):
            race = self.threaded(exe)
        with ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(self.run_driver, race if "threads" in a else exe, s, timeout, what, a, e) for s, (a, e) in zip(scripts, modes)]
            return [f.result() for f in futs]

    def locales(self):
        """Environments of 8-bit locales, made for this run: letters beyond ASCII, other case rules, other number formats."""
        if self._locales is None:
            self._locales = []
            d = os.path.join(self.work, "locale")
            os.makedirs(d, exist_ok=True)
            for lang, cs in (("tr_TR", "ISO-8859-9"), ("de_DE", "ISO-8859-1")):
                n = f"{lang}.{cs}"
                r = sh(["localedef", "-i", lang, "-f", cs, "--no-archive", os.path.join(d, n)]) if shutil.which("localedef") else None
                if r is not None and os.path.exists(os.path.join(d, n, "LC_CTYPE")):
                    self._locales.append({"LOCPATH": d, "LC_ALL": n, "VF_LOCALE": n})
            self.notes["locales"] = [e["VF_LOCALE"] for e in self._locales] or "none could be made here: the C locale only"
        return self._locales

    def write_replay(self, kind, obj):
        d = os.path.join(ROOT, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        n = len(os.listdir(d))
        p = os.path.join(d, f"{kind}-{self.tier}-{self.seed}-{n}.json")
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return os.path.relpath(p, ROOT)

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env=None, workers=1, args=(), timeout=800, heap="3g", deque=False):
        mdir = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        spec = os.path.join(ROOT, "spec", module)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               f"-Djava.io.tmpdir={mdir}", f"-DTLA-Library={os.pathsep.join(os.path.join(ROOT, 'spec', d) for d in ('lib', 'client', 'stun', 'text'))}"]
        if deque:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", mdir,
                "-config", cfg, *args, os.path.basename(spec)]
        e = {**os.environ, **(env or {})}
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            r = subprocess.run(cmd, cwd=os.path.dirname(spec), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, env=e)
            out = r.stdout.decode("utf-8", "replace")
            return r.returncode, out
        except subprocess.TimeoutExpired as x:
            return "timeout", (x.stdout or b"").decode("utf-8", "replace")
        finally:
            shutil.rmtree(mdir, ignore_errors=True)

    STAT = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)

    def model_check(self, module, cfg=None, workers=NPROC, timeout=600, env=None, args=(), heap="8g", label=None):
        """Exhaustive check of a small configuration of the specification itself."""
        cfg = cfg or os.path.basename(module)[:-4] + ".cfg"
        if os.environ.get("VF_SKIPMODEL"):  # mutation campaigns only: the model does not depend on the code
            return ""
        t = time.time()
        rc, out = self._tlc(module, cfg, env=env, workers=workers, args=args, timeout=timeout, heap=heap)
        m = self.STAT.findall(out)
        if rc != 0 or not m or "No error has been found" not in out:
            raise CheckError(f"model {module} {cfg}: rc={rc}\n{out[-5000:]}")
        gen, dist = map(int, m[-1])
        self.states += dist
        self.transitions += gen
        self.models.append({"model": f"{module}:{cfg}", "distinct": dist, "generated": gen, "wall_s": round(time.time() - t, 1)})
        self.log(f"model {label or cfg}: {dist} distinct, {gen} generated, {time.time() - t:.1f}s")
        return out

    def model_emit(self, module, cfg=None, workers=1, timeout=600, env=None, args=(), tag="EMIT", heap="8g", expect_ok=True):
        """Run TLC and collect the JSON strings the model prints as <<"EMIT", "...">>."""
        cfg = cfg or os.path.basename(module)[:-4] + ".cfg"
        t = time.time()
        memo = None
        if os.environ.get("VF_EMITCACHE"):  # mutation campaigns only: what a model emits does not depend on the code
            h = hashlib.sha256(repr((module, cfg, env, list(args), tag)).encode())
            for d, _, fs in sorted(os.walk(os.path.join(ROOT, "spec"))):
                for f in sorted(fs):
                    h.update(open(os.path.join(d, f), "rb").read())
            memo = os.path.join(os.environ["VF_EMITCACHE"], h.hexdigest() + ".json")
            if os.path.exists(memo):
                return json.load(open(memo))
        rc, out = self._tlc(module, cfg, env=env, workers=workers, args=args, timeout=timeout, heap=heap)
        m = self.STAT.findall(out)
        sim = "-simulate" in args
        if rc != 0 or (not sim and "No error has been found" not in out):
            raise CheckError(f"model {module} {cfg}: rc={rc}\n{out[-5000:]}")
        res = []
        # TLC's pretty printer breaks long tuples over lines, never inside a string
        for m1 in re.finditer(r'^<<\s*"' + tag + r'",\s*("(?:[^"\\\n]|\\.)*")\s*>>$', out, re.M):
            res.append(json.loads(json.loads(m1.group(1))))
        if m:
            gen, dist = map(int, m[-1])
        else:
            g = re.findall(r"(\d+) states checked|The number of states generated: (\d+)", out)
            gen = max([int(a or b) for a, b in g] or [0])
            dist = gen
        self.states += dist
        self.transitions += gen
        self.models.append({"model": f"{module}:{cfg}", "distinct": dist, "generated": gen, "emitted": len(res), "simulation": sim, "wall_s": round(time.time() - t, 1)})
        self.log(f"model {cfg}: {dist} distinct, {gen} generated, {len(res)} behaviours/cases emitted, {time.time() - t:.1f}s")
        if memo:
            os.makedirs(os.path.dirname(memo), exist_ok=True)
            json.dump(res, open(memo + f".{os.getpid()}", "w"))
            os.replace(memo + f".{os.getpid()}", memo)
        return res

    def apalache(self, module, inv, init, next_, cinit=None, length=0, timeout=300):
        if os.environ.get("VF_SKIPMODEL"):
            return
        """Symbolic check with Apalache (unbounded integers); returns nothing, fails as CheckError."""
        out = tempfile.mkdtemp(prefix="apa-", dir=self.work)
        t = time.time()
        cmd = ["apalache-mc", "check", f"--out-dir={out}", f"--run-dir={out}/run", f"--init={init}", f"--next={next_}", f"--inv={inv}", f"--length={length}"]
        if cinit:
            cmd.append(f"--cinit={cinit}")
        src = os.path.join(ROOT, "spec", module)
        env = {**os.environ, "JVM_ARGS": f"-Xmx4g -Djava.io.tmpdir={out}", "HOME": out}
        try:
            r = subprocess.run(cmd + [src], cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise CheckError(f"apalache {module}: no answer within {timeout} s")
        o = r.stdout.decode("utf-8", "replace")
        shutil.rmtree(out, ignore_errors=True)
        if r.returncode != 0 or "The outcome is: NoError" not in o:
            raise CheckError(f"apalache {module} {inv}: rc={r.returncode}\n{o[-3000:]}")
        self.models.append({"model": f"{module}:{init}/{next_} |= {inv} (Apalache, unbounded integers, length {length})", "wall_s": round(time.time() - t, 1)})
        self.log(f"apalache {module}: {inv} from {init}, length {length}: holds, {time.time() - t:.1f}s")

    def _validate_file(self, module, cfg, path, n, timeout, deque):
        rc, out = self._tlc(module, cfg, env={"TRACE": path, "KNOWN": ",".join(known_ids(self.prop))}, workers=1, timeout=timeout, deque=deque)
        m = re.findall(r'<<"MATCHED", (\d+), (\d+)>>', out)
        if not m or int(m[-1][1]) != n:
            raise CheckError(f"trace validation {module}: rc={rc}\n{out[-5000:]}")
        self.known.update(re.findall(r'<<"KNOWN", "(.*?)">>', out))
        s = self.STAT.findall(out)
        gen, dist = map(int, s[-1]) if s else (0, 0)
        bad = "Error:" in out and "ostcondition" not in out and "POSTCONDITION" not in out
        if bad and rc not in (0,):
            raise CheckError(f"trace validation {module}: rc={rc}\n{out[-5000:]}")
        expl = [" ".join(x.split()) for x in re.findall(r'^<<\s*"EXPECTED",\s*(".*?")\s*>>$', out, re.M | re.S)]
        return int(m[-1][0]), gen, dist, expl

    def validate(self, module, behaviours, cfg=None, what="trace", timeout=800, deque=False, chunks=NPROC, scripts=None, max_report=1):
        """behaviours: list of lists of events (dicts), each starting with a 'reset' event.
        All of them are checked against the trace specification `module`; a rejected one is
        re-validated alone, and if it is rejected again a Violation is raised."""
        cfg = cfg or os.path.basename(module)[:-4] + ".cfg"
        t = time.time()
        n = max(1, min(chunks, len(behaviours)))
        order = sorted(range(len(behaviours)), key=lambda i: -len(behaviours[i]))
        groups = [[] for _ in range(n)]
        loads = [0] * n
        for i in order:
            k = loads.index(min(loads))
            groups[k].append(i)
            loads[k] += len(behaviours[i])
        files = []
        for k, g in enumerate(groups):
            p = os.path.join(self.work, f"trace-{os.path.basename(module)}-{len(self.models)}-{k}-{time.time_ns()}.ndjson")
            with open(p, "w") as f:
                for i in g:
                    for e in behaviours[i]:
                        f.write(json.dumps(e) + "\n")
            files.append(p)
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda kp: self._validate_file(module, cfg, kp[1], loads[kp[0]], timeout, deque), enumerate(files)))
        rej = []
        for (matched, gen, dist, expl), g in zip(res, groups):
            self.transitions += gen
            self.states += dist
            acc = 0
            for i in g:
                if acc + len(behaviours[i]) <= matched:
                    acc += len(behaviours[i])
                    self.traces += 1
                    self.events += len(behaviours[i])
                else:
                    rej.append(i)
                    break
        self.log(f"{what}: {len(behaviours)} behaviours, {sum(loads)} events, {len(rej)} rejected, {time.time() - t:.1f}s")
        for p in files:
            os.unlink(p)
        if not rej:
            if behaviours and len(self.samples) < 6:
                b = behaviours[self.rng.randrange(len(behaviours))]
                self.samples.append({"what": what, "events": b[:6], "of": len(b)})
            return
        i = min(rej, key=lambda j: len(behaviours[j]))
        p = os.path.join(self.work, "reject.ndjson")
        with open(p, "w") as f:
            for e in behaviours[i]:
                f.write(json.dumps(e) + "\n")
        matched, _, _, expl = self._validate_file(module, cfg, p, len(behaviours[i]), timeout, deque)
        if matched >= len(behaviours[i]):
            raise CheckError(f"{what}: behaviour {i} rejected in a batch but accepted alone")
        bad = behaviours[i][matched]
        obj = {"property": self.prop, "what": f"{what}: the recorded behaviour is not allowed by {module}", "first_rejected_event": matched,
               "event": bad, "expected": expl[:3], "spec": module, "cfg": cfg, "behaviour": behaviours[i]}
        if scripts is not None:
            obj["script"] = scripts[i]
        rep = self.write_replay("rejected", obj)
        raise Violation(f"{what}: event {matched} not allowed by {module}: {json.dumps(bad)[:600]}" + (f"\n   specification: {expl[0][:600]}" if expl else ""), rep)

    # ---------------------------------------------------------------- end
    def evidence(self, violations=0):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "models": self.models, "samples": self.samples[:8] or ["none"]}
        cov.update(self.notes)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
                       "violations": violations}, f, indent=1)


def main(argv):
    if len(argv) < 2:
        print("usage: bin/check <property> ...")
        return 2
    from . import registry
    import importlib
    rc = 0
    for prop in argv[1:]:
        c = registry.CHECKS.get(prop)
        if c is None:
            print(f"no check for {prop}")
            return 2
        ctx = Ctx(prop)
        try:
            mod = importlib.import_module("vf." + c["module"])
            getattr(mod, c.get("func", "run"))(ctx)
            ctx.evidence(0)
            for k in sorted(ctx.known):
                print(f"KNOWN-FINDING: property={prop} {known_ids(prop).get(k, k)}", flush=True)
            ctx.log(f"held: {ctx.traces} behaviours / {ctx.events} events of the real code accepted, {ctx.states} states")
        except Violation as v:
            ctx.evidence(1)
            print(v.what)
            print(f"VIOLATION property={prop} replay={v.replay}", flush=True)
            rc = max(rc, 1)
        except CheckError as e:
            print(f"CHECK-ERROR property={prop}: {e}", flush=True)
            rc = 2
        finally:
            if not os.environ.get("VF_KEEP"):
                shutil.rmtree(ctx.work, ignore_errors=True)
    return rc
