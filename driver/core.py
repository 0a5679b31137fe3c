"""Driver: builds the harness against /repo's working tree in a scratch directory, runs jobs in parallel,
confirms violations by re-running them, writes evidence and replay files."""
import atexit, concurrent.futures, glob, hashlib, json, mmap, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/pjbgf/sha1cd"
GOROOT = "/opt/veriftools/go1.26.10"
NCPU = max(2, min(8, os.cpu_count() or 2))


class HarnessError(Exception):
    pass


class BuildError(Exception):
    pass


# name -> (environment, tags, command prefix, emulated)
AARCH = ["qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu"]
ARM = ["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"]
VARIANTS = {
    "amd64": ({}, "", [], False),
    "noasm": ({}, "noasm", [], False),
    "nocgo": ({"CGO_ENABLED": "0"}, "", [], False),
    "race": ({"_flags": "-race"}, "", [], False),
    "asan": ({"_flags": "-asan"}, "", [], False),
    "msan": ({"_flags": "-msan", "CC": "clang"}, "", [], False),
    "ubsan": ({"CGO_CFLAGS": "-O1 -g -fsanitize=undefined -fno-sanitize=alignment -fno-sanitize-recover=all", "CGO_LDFLAGS": "-fsanitize=undefined"}, "", [], False),
    "c-O0": ({"CGO_CFLAGS": "-O0 -g"}, "", [], False),
    "c-O3": ({"CGO_CFLAGS": "-O3 -g"}, "", [], False),
    "c-clang": ({"CC": "clang", "CGO_CFLAGS": "-O2 -g"}, "", [], False),
    "c-auto0": ({"CGO_CFLAGS": "-O2 -g -ftrivial-auto-var-init=pattern"}, "", [], False),
    "checkptr": ({"_flags": "-gcflags=all=-d=checkptr"}, "", [], False),
    "noopt": ({"_flags": "-gcflags=all=-N -l"}, "", [], False),
    "asmx": ({}, "vasm", [], False),
    "asmx-arm64": ({"GOARCH": "arm64", "CC": "aarch64-linux-gnu-gcc"}, "vasm", AARCH, True),
    "asmx-qmax": ({}, "vasm", ["qemu-x86_64", "-cpu", "max"], True),
    "vsched": ({"_h": "instr"}, "vsched", [], False),
    "vsched-arm64": ({"_h": "instr", "GOARCH": "arm64", "CC": "aarch64-linux-gnu-gcc"}, "vsched", AARCH, True),
    "386": ({"CGO_ENABLED": "0", "GOARCH": "386"}, "", [], False),
    "386sf": ({"CGO_ENABLED": "0", "GOARCH": "386", "GO386": "softfloat"}, "", [], False),
    "amd64v3": ({"GOAMD64": "v3"}, "", ["qemu-x86_64", "-cpu", "max"], True),
    "qmax": ({}, "", ["qemu-x86_64", "-cpu", "max"], True),
    "arm64": ({"GOARCH": "arm64", "CC": "aarch64-linux-gnu-gcc"}, "", AARCH, True),
    "arm64noasm": ({"GOARCH": "arm64", "CC": "aarch64-linux-gnu-gcc"}, "noasm", AARCH, True),
    "arm64nocgo": ({"GOARCH": "arm64", "CGO_ENABLED": "0"}, "", AARCH, True),
    "arm": ({"GOARCH": "arm", "CC": "arm-linux-gnueabihf-gcc"}, "", ARM, True),
    "arm5": ({"GOARCH": "arm", "GOARM": "5", "CGO_ENABLED": "0"}, "", ["qemu-arm"], True),
    "s390x": ({"GOARCH": "s390x", "CGO_ENABLED": "0"}, "", ["qemu-s390x"], True),
    "riscv64": ({"GOARCH": "riscv64", "CGO_ENABLED": "0"}, "", ["qemu-riscv64"], True),
    "ppc64": ({"GOARCH": "ppc64", "CGO_ENABLED": "0"}, "", ["qemu-ppc64"], True),
    "ppc64le": ({"GOARCH": "ppc64le", "CGO_ENABLED": "0"}, "", ["qemu-ppc64le"], True),
    "mips": ({"GOARCH": "mips", "CGO_ENABLED": "0"}, "", ["qemu-mips"], True),
    "mipsle": ({"GOARCH": "mipsle", "CGO_ENABLED": "0"}, "", ["qemu-mipsel"], True),
    "mips64": ({"GOARCH": "mips64", "CGO_ENABLED": "0"}, "", ["qemu-mips64"], True),
    "mips64le": ({"GOARCH": "mips64le", "CGO_ENABLED": "0"}, "", ["qemu-mips64el"], True),
    "loong64": ({"GOARCH": "loong64", "CGO_ENABLED": "0"}, "", ["qemu-loongarch64"], True),
}


class Run:
    """One invocation of the check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="sha1cd-verif-")
        atexit.register(self.cleanup)
        self.notes, self.bins, self.lock = [], {}, threading.Lock()
        self.procs = set()
        self.ilock, self.ih = threading.Lock(), None
        self.violations = []      # dicts {where, case, msg, replay: {...}}
        self.results = []
        self.extra = {}           # additional evidence fields
        self.unconfirmed = []
        self.stop_at, self.rlock = None, threading.Lock()
        self.known = load_known(prop)
        self.known_hit = []
        budget = 720 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "5400"))
        self.deadline = self.t0 + budget
        self._toolchain()

    def cleanup(self):
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        if self.dir.startswith(tempfile.gettempdir()) and "sha1cd-verif-" in self.dir:
            subprocess.run(["chmod", "-R", "u+w", self.dir], stderr=subprocess.DEVNULL)
            shutil.rmtree(self.dir, ignore_errors=True)

    def note(self, s):
        with self.lock:
            if s not in self.notes:
                self.notes.append(s)

    def left(self):
        return self.deadline - time.time()

    # ---- build -------------------------------------------------------------------------------
    def _toolchain(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith("GO") and k not in ("CGO_CFLAGS", "CGO_LDFLAGS", "CC")}
        env.update({
            "PATH": GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "GOTOOLCHAIN": "local", "GOSUMDB": "off", "GOPROXY": "off", "GOFLAGS": "-mod=mod -buildvcs=false", "GOWORK": "off", "GOENV": "off",
            "GOPATH": "/opt/vp/go", "GOMODCACHE": "/opt/vp/go/pkg/mod", "GOCACHE": self.dir + "/gocache",
            "GOTMPDIR": self.dir, "CGO_ENABLED": "1", "CC": "gcc", "GOTELEMETRY": "off", "HOME": self.dir,
        })
        self.env = env
        if os.path.isdir("/opt/vp/go/cache"):
            subprocess.run(["cp", "-a", "/opt/vp/go/cache", self.dir + "/gocache"], check=False, stderr=subprocess.DEVNULL)
        os.makedirs(self.dir + "/gocache", exist_ok=True)
        self.h = self.dir + "/h"
        shutil.copytree(VERIF + "/harness", self.h)
        self.set_repo(self.h, REPO)

    def set_repo(self, h, repo):
        tmpl = open(h + "/go.mod.tmpl").read().replace("=> /repo", "=> " + repo)
        open(h + "/go.mod", "w").write(tmpl)
        if os.path.exists(REPO + "/go.sum"):
            shutil.copy(REPO + "/go.sum", h + "/go.sum")

    def sh(self, cmd, cwd=None, env=None, timeout=600):
        e = dict(self.env)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=cwd or self.h, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout

    def go_build(self, variant, pkg="./cmd/vh", h=None, out=None, extra=()):
        venv, tags, _, _ = VARIANTS[variant]
        if venv.get("_h") == "instr" and h is None:
            h = self.instrumented()
        out = out or "%s/bin-%s-%s" % (self.dir, variant, os.path.basename(pkg))
        cmd = ["go", "build", "-o", out]
        if tags:
            cmd += ["-tags", tags]
        if venv.get("_flags"):
            cmd += [venv["_flags"]]
        cmd += list(extra) + [pkg]
        rc, o = self.sh(cmd, cwd=h, env={k: v for k, v in venv.items() if not k.startswith("_")})
        if rc != 0:
            raise BuildError("%s: %s\n%s" % (variant, " ".join(cmd), o[-4000:]))
        return out

    def instrumented(self):
        """A scratch copy of the repository with a scheduling point before every Go statement, and a harness bound to it."""
        with self.ilock:
            if self.ih is None:
                try:
                    self.ih = self._instrument()
                except BuildError as e:
                    self.ih = e
            if isinstance(self.ih, BuildError):
                raise self.ih
            return self.ih

    def _instrument(self):
        ri, hi = self.dir + "/ri", self.dir + "/hi"
        shutil.copytree(REPO, ri, ignore=shutil.ignore_patterns(".git"), symlinks=True)
        rc, o = self.sh(["go", "run", "./cmd/instr", ri, MODULE])
        if rc != 0:
            raise BuildError("instrumentation: " + o[-1500:])
        self.extra["instrumented_statements"] = int(o.split()[-1])
        shutil.copytree(self.h + "/vsched", ri + "/vsched")
        shutil.copytree(self.h, hi)
        self.set_repo(hi, ri)
        return hi

    def binary(self, variant, required=False):
        with self.lock:
            fut = self.bins.get(variant)
            mine = fut is None
            if mine:
                fut = self.bins[variant] = concurrent.futures.Future()
        if mine:
            try:
                fut.set_result(self.go_build(variant))
            except BaseException as e:
                fut.set_exception(e)
        return fut.result()

    # ---- process execution ------------------------------------------------------------------
    def execute(self, cmd, env=None, prog=None, stall=180, maxs=None, cwd=None, stdin=None):
        """Run a process; kill it when the progress file stops ticking for `stall` s. Returns (rc, out, err, hung, case)."""
        e = dict(self.env)
        e.update(env or {})
        tag = "%s/p%s" % (self.dir, hashlib.md5(repr((cmd, time.time(), threading.get_ident())).encode()).hexdigest()[:12])
        fo, fe = open(tag + ".o", "w+b"), open(tag + ".e", "w+b")
        p = subprocess.Popen(cmd, env=e, cwd=cwd or self.dir, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, start_new_session=True)
        self.procs.add(p)
        last, lastt, t0, hung, capped = None, time.time(), time.time(), False, False
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if prog:
                try:
                    with open(prog, "rb") as f:
                        b = f.read(8)
                    if b != last:
                        last, lastt = b, now
                except OSError:
                    pass
            if now - lastt > stall:
                hung = True
            if maxs and now - t0 > maxs:
                capped = True
            if now > self.deadline + 60 or (self.stop_at and now > self.stop_at):
                capped = True
            if hung or capped:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        self.procs.discard(p)
        fo.seek(0); fe.seek(0)
        out, err = fo.read(), fe.read()
        fo.close(); fe.close()
        os.unlink(tag + ".o"); os.unlink(tag + ".e")
        case = ""
        if prog:
            try:
                with open(prog, "rb") as f:
                    b = f.read()
                n = int.from_bytes(b[8:12], "little")
                case = b[16:16 + n].decode("utf8", "replace")
            except OSError:
                pass
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), hung, case, capped

    def vh(self, job):
        """Run one explorer job {variant, engine, run, args, shard}. Returns a result dict or None (skipped)."""
        try:
            b = self.binary(job["variant"])
        except BuildError as e:
            if job["variant"] == "amd64":
                raise HarnessError("base build failed: %s" % e)
            self.note("configuration %s does not build here; its jobs were skipped (%s)" % (job["variant"], str(e).strip().splitlines()[-1][:200]))
            return None
        prefix = job.get("prefix", VARIANTS[job["variant"]][2])
        emu = VARIANTS[job["variant"]][3] or bool(job.get("prefix"))
        if prefix and not shutil.which(prefix[0]):
            self.note("no %s here; %s jobs skipped" % (prefix[0], job["variant"]))
            return None
        uid = "%s/%s" % (self.dir, hashlib.md5(repr((job, time.time(), threading.get_ident())).encode()).hexdigest()[:16])
        prog, out = uid + ".prog", uid + ".json"
        cmd = list(prefix) + [b, "-engine", job["engine"], "-run", job["run"], "-tier", self.tier, "-shard", job.get("shard", "0/1"),
                              "-data", self.h + "/data", "-progress", prog, "-out", out, "-seed", str(self.seed), "-max", "%.0f" % max(5, min(self.left() - 20, job.get("max", 1e9)))]
        if job.get("lite"):
            cmd.append("-lite")
        cmd += job.get("args", [])
        env = {"GODEBUG": "asyncpreemptoff=1"} if emu else {}
        env["GOMAXPROCS"] = str(job.get("procs", 2))
        env.update(job.get("env", {}))
        rc, so, se, hung, case, capped = self.execute(cmd, env=env, prog=prog, stall=job.get("stall", 200 if not emu else 300))
        r = None
        if rc == 0 and os.path.exists(out):
            r = json.load(open(out))
        for f in (prog, out):
            if os.path.exists(f):
                os.unlink(f)
        where = "%s/%s/%s" % (job["variant"], job["engine"], job["run"])
        if r is not None:
            return {"job": job, "where": where, "res": r}
        if hung:
            return {"job": job, "where": where, "crash": "hang", "case": case, "msg": "no progress for %d s at case %s" % (job.get("stall", 200), case)}
        if capped or rc in (-9, 137):
            if capped:
                self.note("%s stopped at the time limit" % where)
                return {"job": job, "where": where, "capped": True}
            raise HarnessError("%s was killed (%s)\n%s" % (where, rc, se[-2000:]))
        if rc == 3:
            raise HarnessError("%s: %s" % (where, se[-3000:]))
        # died: the case it was on is known from the progress file
        return {"job": job, "where": where, "crash": "died", "case": case, "msg": "process died (status %s) at case %s: %s" % (rc, case, (se or so)[-2500:])}

    # ---- judging ----------------------------------------------------------------------------
    def run_jobs(self, jobs):
        """Run explorer jobs; confirm every violation by re-running the job."""
        def one(job):
            if self.stop_at:
                return None
            if self.left() < 15:
                self.note("time limit reached before %s" % job["run"])
                return {"job": job, "where": job["run"], "capped": True}
            r = self.vh(job)
            if r is not None and self.is_bad(r) and not self.stop_at:
                again = self.confirm(r)
                if again is not None:
                    with self.rlock:
                        self.record(again)
                        if self.violations and not self.stop_at:  # one confirmed violation decides: let the rest go
                            self.stop_at = time.time() + 20
                    r["recorded"] = True
                elif not self.stop_at:
                    self.unconfirmed.append(r)
                    self.note("unconfirmed, not counted (did not reproduce in 4 re-runs): %s %s" % (r["where"], json.dumps(r.get("res", {}).get("violations") or r.get("msg"))[:800]))
            return r
        first = []
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for v in sorted({j["variant"] for j in jobs}):
                ex.submit(lambda v=v: None if self.stop_at else self._try(v))
            for r in ex.map(one, jobs):
                if r is not None:
                    first.append(r)
        for r in first:
            if "res" in r and not self.is_bad(r):
                self.results.append(r)
        return first

    def _try(self, v):
        try:
            self.binary(v)
        except BaseException:
            pass

    @staticmethod
    def is_bad(r):
        return "crash" in r or ("res" in r and r["res"]["nviolations"] > 0)

    def confirm(self, r):
        for _ in range(4 if r.get("crash") != "hang" else 1):
            if self.stop_at:
                return None
            a = self.vh(dict(r["job"]))
            if a is not None and self.is_bad(a):
                return a
        return None

    def record(self, r):
        vs = r["res"]["violations"] if "res" in r else [{"case": r["case"], "msg": r["msg"]}]
        for v in vs:
            self.violation(r["where"], v["case"], v["msg"], {"job": r["job"]})
        if "res" in r:
            self.results.append(r)

    def violation(self, where, case, msg, replay=None):
        for k in self.known:
            if k and k in case:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.violations.append({"where": where, "case": case, "msg": msg, "replay": replay or {}})

    # ---- reporting --------------------------------------------------------------------------
    def finish(self, level, rule, assumptions, bounds):
        tot = {"evals": 0, "transitions": 0, "states": 0, "traces": 0}
        samples, per, skips, capped = [], {}, set(), False
        for r in self.results:
            x = r["res"]
            for k in tot:
                tot[k] += x.get(k) or 0
            per.setdefault(x["explorer"], {"runs": 0, "evaluations": 0, "states": 0, "engines": set()})
            p = per[x["explorer"]]
            p["runs"] += 1; p["evaluations"] += x["evals"]; p["states"] += x["states"]
            p["engines"].add(r["where"].rsplit("/", 1)[0])
            capped |= bool(x.get("capped")) or bool(x.get("states_capped") and False)
            for s in x.get("skips") or []:
                skips.add("%s: %s" % (r["where"], s))
        byx = {}
        for r in self.results:
            for s in r["res"].get("samples") or []:
                byx.setdefault(r["res"]["explorer"], []).append("%s: %s" % (r["where"], s))
        for k in sorted(byx):
            samples += byx[k][:2]
        for p in per.values():
            p["engines"] = sorted(p["engines"])
        capped |= any("time limit" in n for n in self.notes)
        cov = {
            "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
            "evaluations": tot["evals"], "samples": samples[:40] or ["-"], "rule": rule, "exhaustive": not capped,
            "bounds": bounds, "explorers": per, "skipped": sorted(skips) + self.notes,
        }
        cov.update(self.extra)
        for k in ("states", "transitions", "traces_validated_against_impl", "evaluations"):
            if k in self.extra.get("add", {}):
                cov[k] += self.extra["add"][k]
        cov.pop("add", None)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = VERIF + "/evidence/.%s.tmp" % self.prop
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, VERIF + "/evidence/%s.json" % self.prop)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        print("%s %s: %d states, %d transitions, %d traces on the implementation, %d violations, %.1f s%s" % (
            self.prop, self.tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], len(self.violations), ev["wall_s"], " (capped)" if capped else ""))
        if tot["evals"] == 0 and not self.extra.get("add") and not self.violations:
            raise HarnessError("nothing was explored")
        if self.violations:
            os.makedirs(VERIF + "/replay", exist_ok=True)
            path = VERIF + "/replay/%s.json" % self.prop
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "how": "python3 check.py %s --replay %s re-runs the jobs below on /repo" % (self.prop, path),
                           "violations": self.violations[:20]}, f, indent=1)
            for v in self.violations[:3]:
                print("  %s\n    case: %s\n    %s" % (v["where"], v["case"][:600], v["msg"][:1200]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        return 0


def load_known(prop):
    """Known findings: lines 'known: property=<id> <substring of the failing case>'. 'fixed:' lines suppress nothing."""
    out = []
    try:
        for l in open(VERIF + "/KNOWN_FINDINGS.txt"):
            m = re.match(r"known: property=(\S+) (.+)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def main(argv, props):
    replay = None
    if "--replay" in argv:
        i = argv.index("--replay")
        replay = argv[i + 1]
        argv = argv[:i] + argv[i + 2:]
    if not argv or argv[0] not in props or argv[0][0] == "_":
        print("usage: check.py {%s} [quick|thorough]" % "|".join(p for p in sorted(props) if p[0] != "_"), file=sys.stderr)
        return 2
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(4))
    run = Run(prop, tier, seed)
    run.compare = props.get("_compare")
    try:
        if replay:
            vs = [v["replay"] for v in json.load(open(replay))["violations"]]
            if not all("job" in v or "jobs" in v for v in vs):  # builds, C schedules, freestanding targets: the whole check is the replay
                return props[prop](run)
            jobs = []
            for v in vs:
                for j in ([v["job"]] if "job" in v else v["jobs"]):
                    if j not in jobs:
                        jobs.append(j)
            first = run.run_jobs(jobs)
            if not run.stop_at:
                run.compare(run, first)
            return run.finish("model_checking", "replay", [], "replay of " + replay)
        return props[prop](run)
    except HarnessError as e:
        if run.violations:  # something else went wrong after a confirmed violation
            run.note("the check was cut short: %s" % str(e)[:300])
            return run.finish("model_checking", "cut short after a confirmed violation", [], "-")
        print("ERROR of the check itself: %s" % e, file=sys.stderr)
        return 2
    finally:
        run.cleanup()
