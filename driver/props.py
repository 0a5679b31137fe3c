"""What each check runs."""
import core

HOST_SHANI = " sha_ni" in open("/proc/cpuinfo").read()

GO3 = [("amd64", "go"), ("amd64", "generic"), ("amd64", "cgo")]
SIDE = [("noasm", "go"), ("nocgo", "cgo"), ("386", "go"), ("arm64", "go"), ("arm64", "generic"), ("arm64", "cgo"), ("arm", "go"), ("arm", "cgo"), ("s390x", "go")]
SIDE_GO = [s for s in SIDE if s[1] != "cgo"]
if not HOST_SHANI:
    SIDE = SIDE + [("qmax", "go")]
    SIDE_GO = SIDE_GO + [("qmax", "go")]

COMMON = [
    "the reference model (harness/ref: FIPS 180-4 SHA-1, the published vectors and bit conditions) is right; it is cross-checked against crypto/sha1, the published collision files and the repository's own frozen digests",
    "emulated CPUs (qemu-user) execute the tested instructions as the architecture prescribes",
]


def jobs(names, full=GO3, side=SIDE, shards=None):
    """names: explorer list. Full bounds on `full`, reduced bounds on `side`."""
    out = []
    for n in names:
        k = (shards or {}).get(n, 1)
        for v, e in full:
            for i in range(k):
                out.append({"variant": v, "engine": e, "run": n, "shard": "%d/%d" % (i, k)})
        for v, e in side:
            if n.endswith(".cold") and core.VARIANTS[v][2]:  # starts processes of its own: natively only
                continue
            j = {"variant": v, "engine": e, "run": n, "lite": True}
            if v in ("noasm", "nocgo"):  # native: the full bounds
                j.pop("lite")
            out.append(j)
    return out


def simple(names, rule, bounds, full=GO3, side=SIDE, shards=None, assumptions=(), c_targets=(), huge=()):
    def f(run):
        sh = dict(shards or {})
        if run.tier == "thorough":
            sh = {n: max(8, sh.get(n, 1)) for n in names}
        js = [{"variant": v, "engine": e, "run": x, "shard": "%d/%d" % (i, k), "stall": 500} for x, engs, k in huge for v, e in engs for i in range(k)]
        run.run_jobs(js + jobs(names, full, side, sh))
        if c_targets:
            bare(run, c_targets)
        return run.finish("model_checking", rule, COMMON + list(assumptions), bounds)
    return f


TAB = "planted attacks: a vector's difference words in the live table are replaced so that a chosen block becomes an attack block for it; the detection code under test is unchanged and the model is given the same differences"

PROPS = {
    "C01": simple(["c01.lengths", "c01.bits", "c01.words", "c01.splits", "c01.big", "c01.ubc", "c01.states", "c01.half", "c13.preset"],
                  "every listed message is hashed by every entry point of every engine and compared with FIPS SHA-1 and verdict false",
                  "all lengths 0..N on five fills, all single and paired bit patterns of one block, every special word at every position, all states reachable by one block", c_targets=("clean",), huge=[("c01.huge", GO3, 2)]),
    "C02": simple(["c02.split2", "c02.split3", "c02.ops", "c02.multi", "c02.prefix", "c02.big", "c02.reset", "c02.loaded", "c02.many", "c02.gc", "c02.clients", "c02.hmac"],
                  "all operation sequences up to the bound over {write sizes, digest queries, reset, other hasher} against the incremental reference model",
                  "all 2- and 3-way splits, all op sequences to depth d, messages with and without attack blocks", assumptions=[TAB], shards={"c02.ops": 4}),
    "C03": simple(["c03.real", "c03.each", "c03.pos", "c03.pad", "c03.pairs", "c03.seq", "c03.shape", "c03.ihv", "c03.sticky", "c03.mask", "c03.far", "c03.relate", "c03.content", "c03.sets", "c03.many", "c03.stay", "c03.cold"],
                  "every planted and every published attack block, at every position, delivery and engine, must be flagged",
                  "32 vectors x positions x deliveries x padding offsets x pairs", assumptions=[TAB], c_targets=("attack", "real")),
    "C04": simple(["c04.real", "c04.each", "c04.pos", "c04.pad", "c04.pairs", "c04.seq", "c04.shape", "c04.ihv", "c04.pairs2", "c04.far", "c04.relate", "c04.content", "c04.sets", "c04.many", "c04.cold"],
                  "digest of every attack scenario equals the 240-step safe hash of the model",
                  "32 vectors x positions x deliveries x padding offsets x pairs", assumptions=[TAB], c_targets=("attack", "real")),
    "C06": simple(["c06.mask", "c06.msg", "c06.wbits", "c06.nil"],
                  "mask compared with the published conditions on every enumerated expanded message",
                  "all assignments of each vector's conditions with up to k failing, all single W bits", c_targets=("mask",)),
    "C07": simple(["c07.table", "c07.use", "c07.copies"], "every field of every table entry compared with the formula-generated published table, before and after use",
                  "all 32 entries x all fields x 80 difference words"),
    "C08": simple(["c08.ubc", "c08.bits", "c08.words", "c08.cancel", "c08.sameinput", "c08.dmflip", "c08.leak", "c08.realmut", "c08.ordinary", "c08.pad", "c08.relate", "c08.after", "c08.cold"],
                  "near-attack blocks (bit conditions met, output differing in one bit or word, ...) must not be flagged",
                  "32 vectors x 160 output bits and word patterns, every bit mutation of the published attack blocks", assumptions=[TAB], c_targets=("clean",)),
    "C09": simple(["c09.points", "c09.ops", "c09.receiver", "c09.canon", "c09.alias", "c09.format", "c09.cross", "c09.count", "c09.many", "c09.clients"],
                  "all histories up to the bound are snapshotted at every point, resumed in every kind of receiver and continued",
                  "all snapshot points x receivers x continuations", full=GO3[:2], side=SIDE_GO, assumptions=[TAB], huge=[("c09.huge", GO3[:2], 2)]),
    "C10": simple(["c10.sizes", "c10.magic", "c10.atomic", "c10.fields", "c10.trunc", "c10.many"],
                  "all sizes, all identifier byte substitutions, all field values at boundaries", "sizes 0..N, 6x255 identifier bytes and pairs",
                  full=GO3[:2], side=SIDE_GO, assumptions=[TAB]),
}


# ------------------------------------------------------------------------------------------- freestanding C engine
BARE = [  # target, emulator, flags; big-endian ones first
    ("s390x-linux-gnu", "qemu-s390x", []),
    ("powerpc64-linux-gnu", "qemu-ppc64", ["-mabi=elfv2"]),
    ("powerpc-linux-gnu", "qemu-ppc", []),
    ("mips-linux-gnu", "qemu-mips", ["-mno-abicalls", "-G0"]),
    ("mips64-linux-gnuabi64", "qemu-mips64", ["-mno-abicalls", "-G0"]),
    ("sparc64-linux-gnu", "qemu-sparc64", []),
    ("aarch64_be-linux-gnu", "qemu-aarch64_be", []),
    ("armebv7-linux-gnueabi", "qemu-armeb", []),
    ("i386-linux-gnu", "qemu-i386", []),
    ("riscv32-linux-gnu", "qemu-riscv32", []),
    ("riscv64-linux-gnu", "qemu-riscv64", []),
    ("mipsel-linux-gnu", "qemu-mipsel", ["-mno-abicalls", "-G0"]),
    ("powerpc64le-linux-gnu", "qemu-ppc64le", []),
    ("loongarch64-linux-gnu", "qemu-loongarch64", []),
]


def bare(run, kinds, opts=("-O2",)):
    """The C engine compiled for targets without a C library here, run under qemu on a command file; answers compared with the model's."""
    import os, shutil, concurrent.futures
    if run.stop_at:
        return
    if run.left() < 90:
        run.note("time limit reached before the freestanding C engine")
        return
    d, src, here = run.dir + "/cb", core.REPO + "/cgo/", run.h + "/cbare/"
    os.makedirs(d, exist_ok=True)
    files = sorted(src + f for f in os.listdir(src) if f.endswith(".c"))
    r = run.vh({"variant": "nocgo", "engine": "go", "run": "c05.baregen", "args": ["-arg", d + "/cmds"]})
    if r is None or "res" not in r:
        run.note("no command file for the freestanding C engine; skipped")
        return
    exp = [l.rstrip("\n").split(" ", 2) for l in open(d + "/cmds.exp")]
    table, ok = [], 0

    def build(name, tgt, flags, opt):
        last = ""
        for defs in (["-DTABLE", "-DTOTAL"], ["-DTOTAL"], ["-DTABLE"], []):
            objs = []
            for f in files + [here + "cbare.c"]:
                o = "%s/%s-%s.o" % (d, name, os.path.basename(f))
                rc, last = run.sh(["clang", "--target=" + tgt, opt, "-w", "-ffreestanding", "-fno-pic", "-fno-stack-protector", "-I" + src, "-I" + here + "inc"] + flags + defs + ["-c", f, "-o", o], cwd=d)
                if rc != 0:
                    break
                objs.append(o)
            else:
                rc, last = run.sh(["lld-18", "-flavor", "gnu", "-N", "-e", "_start", "-static", "--no-relax", "-o", d + "/" + name] + objs, cwd=d)
                if rc == 0:
                    return defs
        run.note("the C engine does not build freestanding for %s; skipped (%s)" % (tgt, last.strip()[-200:]))
        return None

    def execute(name, emu):
        r = run.execute(["sh", "-c", "exec %s %s/%s < %s/cmds > %s/%s.out" % (emu, d, name, d, d, name)], stall=1e9, maxs=300)
        return r[0], r[5], open("%s/%s.out" % (d, name), "rb").read(), r[2]

    def diffs(out, defs):
        at, bad, n, flagged, planted = 0, [], 0, 0, 0
        for h, kind, desc in exp:
            w = bytes.fromhex(h)
            got = out[at:at + len(w)]
            at += len(w)
            if kind == "count" and "-DTOTAL" not in defs:
                continue
            if kind == "attack":
                planted += 1
                flagged += len(got) == 21 and got[20]
            n += 1
            if got != w:
                bad.append((kind, desc, got.hex(), h))
        if "-DTABLE" not in defs or (planted and not flagged):  # the table is not consulted: nothing can be planted
            run.note("freestanding C engine: no vector table to plant in; planted cases left out")
            bad = [b for b in bad if b[0] != "attack" and not b[1].startswith("near")]
        return [b for b in bad if b[0] in kinds], n

    def one(t):
        tgt, emu, flags, opt = t
        if not shutil.which(emu) or not shutil.which("clang") or not shutil.which("lld-18"):
            run.note("no %s, clang or lld here; %s skipped" % (emu, tgt))
            return None
        name = tgt + opt
        defs = build(name, tgt, flags, opt)
        if defs is None or run.left() < 60:
            return None
        # the emulator and our start-up code work at all?
        rc, o = run.sh(["sh", "-c", "printf E | %s %s/%s" % (emu, d, name)], cwd=d, timeout=60)
        if rc != 0:
            run.note("the freestanding program does not start under %s; skipped" % emu)
            return None
        for att in range(2):
            rc, capped, out, err = execute(name, emu)
            if capped:
                run.note("%s stopped at the time limit" % name)
                return None
            bad, n = diffs(out, defs)
            if rc == 0 and not bad:
                return (t, n, [])
        if rc != 0:
            done = len(out) // 21
            bad = [("", "about answer %d of %d" % (done, len(exp)), "", "the program died with status %s: %s" % (rc, err[-300:]))] + bad[:3]
        return (t, n, bad)

    todo = [t + (o,) for t in BARE for o in opts]
    with concurrent.futures.ThreadPoolExecutor(core.NCPU) as ex:
        rs = [r for r in ex.map(one, todo) if r]
    add = run.extra.setdefault("add", {})
    for (tgt, emu, _, opt), n, bad in rs:
        for k in ("evaluations", "traces_validated_against_impl", "states"):
            add[k] = add.get(k, 0) + n
        add["transitions"] = add.get("transitions", 0) + 3 * n
        for kind, desc, got, want in bad[:2]:
            run.violation("%s%s/C/%s" % (tgt, opt, kind), desc, "C engine on %s answers %s, model says %s (%d of %d cases differ)" % (tgt, got, want, len(bad), n), {"bare": tgt})
    run.extra["freestanding_c_targets"] = ["%s %s: %d cases" % (t[0], t[3], n) for t, n, _ in rs]


# ------------------------------------------------------------------------------------------- C05
def compare_groups(run, first):
    """Compare outcome groups across engines/builds; a disagreement is confirmed by listing both sides."""
    table = {}
    for r in first:
        if r and "res" in r and not r["res"].get("capped"):
            for g, v in (r["res"].get("groups") or {}).items():
                table.setdefault((r["res"]["explorer"], g), {}).setdefault(v, []).append(r)
    n, tried, found, rest = 0, 0, 0, 0
    for (x, g), vals in sorted(table.items()):
        n += 1
        if len(vals) < 2:
            continue
        if found >= 2 or tried >= 6:  # enough confirmed (or nothing confirmable): the others are only counted
            rest += 1
            continue
        tried += 1
        order = sorted(vals.values(), key=len, reverse=True)
        a = order[0][0]
        for side in order[1:]:
            b = side[0]
            la, lb = listing(run, a, g), listing(run, b, g)
            diff = [(p, q) for p, q in zip(la, lb) if p != q]
            if not diff and len(la) == len(lb):
                run.note("unconfirmed disagreement in group %s between %s and %s" % (g, a["where"], b["where"]))
                continue
            found += 1
            p, q = diff[0] if diff else ("%d cases" % len(la), "%d cases" % len(lb))
            run.violation(b["where"], "group=%s %s" % (g, q), "%s reports: %s\n    %s reports: %s\n    (%d of %d cases differ)" % (a["where"], p, b["where"], q, len(diff), len(la)),
                          {"jobs": [a["job"], b["job"]], "group": g})
    if rest:
        run.note("%d further groups disagree" % rest)
    return n


def listing(run, r, g):
    job = dict(r["job"])
    job["args"] = ["-verbose", g]
    b = run.binary(job["variant"])
    pre = core.VARIANTS[job["variant"]][2]
    cmd = list(pre) + [b, "-engine", job["engine"], "-run", job["run"], "-tier", run.tier, "-data", run.h + "/data", "-seed", str(run.seed), "-verbose", g, "-out", "/dev/null"]
    if job.get("lite"):
        cmd.append("-lite")
    rc, so, se, hung, _, _ = run.execute(cmd, env={"GODEBUG": "asyncpreemptoff=1"}, stall=300)
    return so.splitlines()


C05X = ["c05.msgs", "c05.bits", "c05.ops", "c05.attack", "c05.pairs", "c05.near", "c05.real", "c05.mask", "c05.count", "c05.big"]


def c05(run):
    eng = [("amd64", "go"), ("amd64", "generic"), ("amd64", "cgo"), ("noasm", "go"), ("nocgo", "cgo"), ("nocgo", "go"), ("386", "go"), ("386", "cgo"),
           ("arm64", "go"), ("arm64", "generic"), ("arm64", "cgo"), ("arm", "go"), ("arm", "cgo"), ("s390x", "go")]
    if not HOST_SHANI:
        eng.append(("qmax", "go"))
    if run.tier == "thorough":
        eng += [("arm64nocgo", "cgo"), ("arm64noasm", "go"), ("arm5", "go"), ("386sf", "go")] + [(v, "go") for v in ("riscv64", "ppc64", "ppc64le", "mips", "mipsle", "mips64", "mips64le", "loong64")]
    js = [{"variant": v, "engine": e, "run": x} for x in C05X for v, e in eng]
    js += [{"variant": v, "engine": e, "run": "c05.huge", "stall": 500} for v, e in GO3]
    js.sort(key=lambda j: not core.VARIANTS[j["variant"]][3])  # slow (emulated) ones first
    first = run.run_jobs(js)
    n = 0 if run.stop_at else compare_groups(run, first)
    bare(run, ("clean", "attack", "real", "mask", "count"), ("-O2",) if run.tier == "quick" else ("-O0", "-O2", "-O3"))
    run.extra["groups_compared"] = n
    run.extra["engines"] = ["%s/%s" % e for e in eng]
    return run.finish("model_checking", "the outcome (digest, verdict) of every enumerated history is folded into a group per explorer; the groups of all engines and builds must be identical", COMMON + [TAB],
                      "all lengths to N x 11 deliveries x 5 fills, all single and paired bit flips of a block, all operation sequences to depth d, all 32 vectors' attacks, near misses and padding attacks, all truncations of the published collisions")


PROPS["C05"] = c05
PROPS["_compare"] = compare_groups


# ------------------------------------------------------------------------------------------- C11
PROPS["C11"] = simple(["c11.write", "c11.sum", "c11.alias", "c11.ops", "c11.oneshot", "c11.big", "c11.consts"],
                      "every enumerated call is made with canaried, write-protected or later scribbled caller memory; return values, caller memory and later digests are monitored at every step",
                      "all write lengths to N after 5 prefix residues, all Sum prefixes to M x 7 spare capacities, all operation sequences to depth d through one reused buffer", assumptions=[TAB])


# ------------------------------------------------------------------------------------------- C12
COLD = ["oneshot||oneshot", "stream||stream", "mask||mask", "mask||oneshot", "three", "collision||clean", "collision||collision"]


def c12c(run):
    """Controlled scheduling of the C engine: TSan-instrumented objects linked with our own hooks; and the real TSan."""
    import concurrent.futures, os, re
    d, src = run.dir + "/cs", core.REPO + "/cgo/"
    os.makedirs(d, exist_ok=True)
    main = run.h + "/csched/csched.c"
    names = sorted(f for f in os.listdir(src) if f.endswith(".c"))
    objs = []

    def cc(cmd, what):
        rc, o = run.sh(cmd, cwd=d)
        if rc != 0:
            run.note("%s does not build; skipped (%s)" % (what, o.strip()[-300:]))
        return rc == 0
    ok = True
    for f in names:
        ok = ok and cc(["clang", "-O0", "-g", "-w", "-fsanitize=thread", "-I" + src, "-c", src + f, "-o", f + ".o"], "the C engine under TSan instrumentation")
        objs.append(f + ".o")
    ok = ok and cc(["clang", "-O1", "-g", "-w", "-I" + src, "-c", main, "-o", "main.o"], "the C scheduler")
    ok = ok and cc(["clang", "-no-pie", "-o", "csched", "main.o"] + objs + ["-lpthread", "-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_once"], "the C scheduler")
    tot = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0}
    if ok:
        n = core.NCPU
        cap = 150 if run.tier == "quick" else max(60, run.left() / 2)

        def go(i):
            return run.execute([d + "/csched", run.h + "/data", "%d/%d" % (i, n), "%d" % cap], maxs=cap + 120, stall=1e9)

        def parse(i, r):
            m = re.search(r"DONE schedules (\d+) transitions (\d+) points (\d+) bad (\d+) capped (\d+)", r[1])
            if r[0] == 3 or not m:
                run.note("C schedule exploration gave no result (status %s): %s" % (r[0], (r[1] + r[2])[-300:]))
                return []
            if m.group(5) != "0":
                run.note("C schedule exploration stopped at its time limit")
            k = int(m.group(1))
            tot["states"] += k
            tot["evaluations"] += k
            tot["traces_validated_against_impl"] += k
            tot["transitions"] += int(m.group(2))
            return re.findall(r"(?m)^BAD (.*)$", r[1])
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(go, range(n)))
        for i, r in enumerate(rs):
            bad = parse(i, r)
            if bad:
                again = parse(i, go(i))
                for b in [x for x in bad if x in again][:2]:
                    run.violation("amd64/cgo/c12.csched", "C engine, " + b.split(" : ")[0], b, {"csched": "%d/%d" % (i, n)})
                if not [x for x in bad if x in again]:
                    run.note("unconfirmed, not counted: " + bad[0])
    if cc(["clang", "-O0", "-g", "-w", "-fsanitize=thread", "-DFREE", "-I" + src, "-o", "cfree", main] + [src + f for f in names] + ["-lpthread"], "the C engine under TSan"):
        env = {"TSAN_OPTIONS": "exitcode=66 halt_on_error=0"}
        rs = [run.execute([d + "/cfree", run.h + "/data"], env=env, maxs=200, stall=1e9) for _ in range(2)]
        races = ["WARNING: ThreadSanitizer: data race" in r[2] for r in rs]
        bad = [re.findall(r"(?m)^BAD (.*)$", r[1]) for r in rs]
        if any(races) or any(bad):
            more = [run.execute([d + "/cfree", run.h + "/data"], env=env, maxs=200, stall=1e9) for _ in range(3)]
            if any("WARNING: ThreadSanitizer: data race" in r[2] or "\nBAD" in r[1] for r in more):
                r = [r for r in rs if "WARNING: ThreadSanitizer: data race" in r[2] or "BAD " in r[1]][0]
                run.violation("amd64/cgo/c12.tsan", "C engine, free running threads", (r[1] + r[2])[:2500])
        m = re.search(r"DONE schedules (\d+)", rs[0][1])
        if m:
            tot["traces_validated_against_impl"] += int(m.group(1))
    run.extra["c_engine_schedules"] = tot["states"]
    run.extra["add"] = tot


def c12(run):
    js = []
    th = run.tier == "thorough"
    for e in ("go", "generic", "cgo"):
        js.append({"variant": "vsched", "engine": e, "run": "c12.pb1"})
        for i in range(2):
            js.append({"variant": "vsched", "engine": e, "run": "c12.cold", "shard": "%d/2" % i})
        k = {"go": 2, "generic": 7, "cgo": 1}[e]
        for i in range(k):
            js.append({"variant": "vsched", "engine": e, "run": "c12.pb2", "shard": "%d/%d" % (i, k)})
        if th or e != "generic":
            k = {"go": 8, "generic": 32, "cgo": 1}[e]
            for i in range(k):
                js.append({"variant": "vsched", "engine": e, "run": "c12.pb2full", "shard": "%d/%d" % (i, k)})
        js.append({"variant": "vsched-arm64", "engine": e, "run": "c12.pb1", "lite": not th})
        if th or e == "go":
            js.append({"variant": "vsched-arm64", "engine": e, "run": "c12.cold", "lite": True, "args": sum([["-wrap", w] for w in [" ".join(core.AARCH)]], [])})
    race = {"GORACE": "halt_on_error=1 exitcode=66"}
    for e in ("go", "generic", "cgo"):
        js.append({"variant": "race", "engine": e, "run": "c12.free", "env": race, "procs": 8})
        js.append({"variant": "race", "engine": e, "run": "c12.stress", "env": race, "procs": 8, "lite": not th})
        for s in COLD:
            js.append({"variant": "race", "engine": e, "run": "c12.free", "env": race, "procs": 8, "lite": True, "args": ["-arg", s]})
    for v, e in [("amd64", "go"), ("amd64", "generic"), ("amd64", "cgo"), ("arm64", "go"), ("arm64", "cgo"), ("noasm", "go")]:
        js.append({"variant": v, "engine": e, "run": "c12.stress", "procs": 8, "lite": v == "arm64"})
    run.run_jobs(js)
    if not run.stop_at:
        c12c(run)
    return run.finish("model_checking", "every schedule with at most one preemption at any statement of the Go code (and at most two at representative statements; all pairs for the assembly and C engines), every such schedule from a cold process, and for the C engine every schedule with at most two preemptions at accesses to shared memory, is executed on the real code; a wrong digest, verdict, mask or snapshot, a panic or a deadlock is a violation. The same bodies run freely under the race detectors of Go and clang",
                      COMMON + [TAB, "statements are the unit of interleaving in Go; smaller steps are covered by the race detector only", "one assembly block call is one step"],
                      "18 scenarios of 2 and 3 threads; preemption bound 2")


PROPS["C12"] = c12


# ------------------------------------------------------------------------------------------- C13
def c13(run):
    js = []
    for x in ["c13.single", "c13.oneshot", "c13.real32"]:
        k = {"c13.single": 6, "c13.oneshot": 3}.get(x, 1)
        if run.tier == "thorough" and k > 1:
            k = 14
        for v, e in GO3:
            for i in range(k):
                js.append({"variant": v, "engine": e, "run": x, "shard": "%d/%d" % (i, k), "stall": 400})
    js.append({"variant": "386", "engine": "go", "run": "c13.real32"})
    for x in ["c13.real29", "c13.real31"]:
        for v, e in GO3 + ([("386", "go")] if x == "c13.real29" or run.tier == "thorough" else []):
            js.append({"variant": v, "engine": e, "run": x})
    for v, e in [("arm64", "go"), ("arm64", "generic"), ("arm64", "cgo"), ("arm", "go"), ("arm", "cgo"), ("s390x", "go")]:
        js.append({"variant": v, "engine": e, "run": "c13.real29"})
    js += jobs(["c13.preset", "c13.drift", "c13.chunks"])
    run.run_jobs(js)
    bare(run, ("count",))
    return run.finish("model_checking", "states with every byte count near every power of two are built (saved state, or the C context's fields) and continued against the model; in addition 2^29, 2^31 and 2^32 bytes are really absorbed, in chunks, in one write and in one call",
                      COMMON, "counts 2^k-r..2^k+r for k=0..61 x 13 continuations; all block residues at 8 magnitudes continued byte by byte; really written: 2^29, 2^31, 2^32 queried at each of the 132 lengths around the boundary")


PROPS["C13"] = c13


# ------------------------------------------------------------------------------------------- C14
C14X = ["c14.ends", "c14.align", "c14.state", "c14.ops", "c14.mask", "c14.dirty", "c14.big"]
ASMDECL = {"sha1cdblock_amd64.go": r"func blockAMD64\(h \[\]uint32, p \[\]byte, m1 \[\]uint32, cs \[\]\[5\]uint32\)",
           "sha1cdblock_arm64.go": r"func blockARM64\(h \[\]uint32, p \[\]byte, m1 \[\]uint32, cs \[\]\[5\]uint32\)"}


def asm_decl(name, flagvar):
    import re
    try:
        src = open(core.REPO + "/" + name).read()
    except OSError:
        return False
    return bool(re.search(r"(?m)^" + ASMDECL[name] + r"\s*$", src)) and bool(re.search(r"(?m)^var %s\b" % flagvar, src))


def c14(run):
    js = jobs(C14X)
    inst = [("asan", "cgo"), ("asan", "go"), ("msan", "cgo"), ("ubsan", "cgo"), ("c-auto0", "cgo"), ("c-O0", "cgo"), ("c-O3", "cgo"), ("c-clang", "cgo"), ("checkptr", "go"), ("checkptr", "generic"), ("checkptr", "cgo"), ("noopt", "go"), ("noopt", "generic")]
    lite = run.tier != "thorough"
    for x in C14X + ["c02.gc", "c01.lengths", "c01.splits", "c03.real", "c03.each", "c03.pad", "c10.fields"]:
        for v, e in inst:
            if x.startswith("c10") and e == "cgo":
                continue
            js.append({"variant": v, "engine": e, "run": x, "lite": lite})
    if asm_decl("sha1cdblock_amd64.go", "hasSHANI"):
        js.append({"variant": "asmx" if HOST_SHANI else "asmx-qmax", "engine": "go", "run": "c14.asm"})
    else:
        run.note("the amd64 block function is declared differently; its direct fencing was skipped")
    if asm_decl("sha1cdblock_arm64.go", "hasSHA1"):
        js.append({"variant": "asmx-arm64", "engine": "go", "run": "c14.asm"})
    else:
        run.note("the arm64 block function is declared differently; its direct fencing was skipped")
    run.run_jobs(js)
    return run.finish("model_checking", "every input length, alignment, split and operation sequence of the bounded space runs with inputs and hasher structures flush against inaccessible pages, and again under AddressSanitizer, MemorySanitizer, UBSan, checkptr and several compilers; a fault, report, panic or digest difference is a violation",
                      COMMON + ["a stray access smaller than the alignment slack of a structure that stays inside the same page is only seen by the sanitizer builds"],
                      "lengths 0..N at both fences x 11 deliveries; 64 alignments x all splits; operation sequences to depth d")


PROPS["C14"] = c14


# ------------------------------------------------------------------------------------------- C15
X86_CHAIN = ["sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2"]


def x86_models(run):
    """All CPU models the emulator knows plus a monotone feature lattice (each SSE/AVX level implies those below)."""
    rc, out = run.sh(["qemu-x86_64", "-cpu", "help"])
    names, seen = [], set()
    for l in out.splitlines():
        f = l.split()
        if len(f) >= 2 and f[0] == "x86" and f[1] not in ("host", "base"):
            n = f[1]
            if "(alias" in l and run.tier != "thorough":
                pass
            names.append(n)
    # unversioned names only in the quick tier
    import re
    if run.tier != "thorough":
        names = [n for n in names if not re.search(r"-v\d+$", n) and "-IBRS" not in n and "-noTSX" not in n and "-IBPB" not in n]
    lat = []
    q = {"sse3": "pni", "ssse3": "ssse3", "sse4.1": "sse4.1", "sse4.2": "sse4.2", "avx": "avx", "avx2": "avx2"}
    deps = {"avx": ",-fma,-f16c,-vaes,-vpclmulqdq,-avx-vnni", "avx2": ",-avx-vnni"}
    for lvl in range(len(X86_CHAIN) + 1):
        off = X86_CHAIN[lvl:]
        f = "".join(",-%s%s" % (q[o], deps.get(o, "")) for o in off)
        for sha in ("", ",-sha-ni"):
            for x in ("", ",-xsave"):
                if x and lvl < 5:
                    continue
                lat.append("max" + f + sha + x)
    return names + lat


def sha1_insns(path):
    """Count AArch64 SHA-1 instructions in a qemu in_asm log."""
    n = 0
    with open(path, errors="replace") as f:
        for l in f:
            if not l.startswith("OBJD-T:"):
                continue
            h = l.split(":", 1)[1].strip()
            for i in range(0, len(h) - 7, 8):
                w = int.from_bytes(bytes.fromhex(h[i:i + 8]), "little")
                if (w & 0xFFE0FC00) in (0x5E000000, 0x5E001000, 0x5E002000, 0x5E003000) or (w & 0xFFFFFC00) in (0x5E280800, 0x5E281800):
                    n += 1
    return n


BUILDS = [  # GOOS, GOARCH, extra environment, tags
    ("linux", "amd64", {}, ""), ("linux", "amd64", {}, "noasm"), ("linux", "amd64", {"CGO_ENABLED": "0"}, ""), ("linux", "amd64", {"CGO_ENABLED": "0"}, "noasm"), ("linux", "amd64", {"GOAMD64": "v3", "CGO_ENABLED": "0"}, ""),
    ("linux", "arm64", {"CC": "aarch64-linux-gnu-gcc"}, ""), ("linux", "arm64", {"CGO_ENABLED": "0"}, ""), ("linux", "arm64", {"CGO_ENABLED": "0"}, "noasm"),
    ("linux", "arm", {"CC": "arm-linux-gnueabihf-gcc"}, ""), ("linux", "arm", {"CGO_ENABLED": "0", "GOARM": "5"}, ""),
    ("linux", "386", {"CGO_ENABLED": "0"}, ""), ("linux", "s390x", {"CGO_ENABLED": "0"}, ""), ("linux", "ppc64le", {"CGO_ENABLED": "0"}, ""), ("linux", "riscv64", {"CGO_ENABLED": "0"}, ""),
    ("darwin", "arm64", {"CGO_ENABLED": "0"}, ""), ("darwin", "amd64", {"CGO_ENABLED": "0"}, ""), ("windows", "amd64", {"CGO_ENABLED": "0"}, ""), ("windows", "arm64", {"CGO_ENABLED": "0"}, ""), ("windows", "386", {"CGO_ENABLED": "0"}, ""),
    ("freebsd", "amd64", {"CGO_ENABLED": "0"}, ""), ("js", "wasm", {"CGO_ENABLED": "0"}, ""), ("wasip1", "wasm", {"CGO_ENABLED": "0"}, ""),
]
BUILDS_MORE = [("linux", a, {"CGO_ENABLED": "0"}, "") for a in ("ppc64", "mips", "mipsle", "mips64", "mips64le", "loong64")] + \
    [("openbsd", "amd64", {"CGO_ENABLED": "0"}, ""), ("netbsd", "arm64", {"CGO_ENABLED": "0"}, ""), ("plan9", "amd64", {"CGO_ENABLED": "0"}, ""), ("android", "arm64", {"CGO_ENABLED": "0"}, ""), ("dragonfly", "amd64", {"CGO_ENABLED": "0"}, ""), ("solaris", "amd64", {"CGO_ENABLED": "0"}, ""), ("aix", "ppc64", {"CGO_ENABLED": "0"}, "")]


# real CPUs with features the emulator cannot offer: what they lack and what they report beyond the emulated CPU
BEYOND = [
    ("Skylake-SP", ["max,-sha-ni"], "AVX512F,AVX512BW,AVX512CD,AVX512DQ,AVX512VL,ADX,BMI1,BMI2,RTM,HLE,MPX,ERMS,AESNI,CLMUL"),
    ("Cascade Lake", ["max,-sha-ni"], "AVX512F,AVX512BW,AVX512CD,AVX512DQ,AVX512VL,AVX512VNNI,ADX,BMI1,BMI2,ERMS,AESNI,CLMUL"),
    ("Cooper Lake", ["max,-sha-ni"], "AVX512F,AVX512BW,AVX512CD,AVX512DQ,AVX512VL,AVX512VNNI,AVX512BF16,ADX,BMI1,BMI2,ERMS,AESNI,CLMUL"),
    ("Knights Landing", ["max,-sha-ni"], "AVX512F,AVX512CD,AVX512ER,AVX512PF,ERMS,AESNI,CLMUL"),
    ("Alder Lake without SHA", ["max,-sha-ni"], "AVXVNNI,GFNI,VAES,VPCLMULQDQ,ERMS,AESNI,CLMUL"),
    ("Bulldozer", ["max,-sha-ni,-avx2,-avx-vnni,-fma,-f16c,-vaes,-vpclmulqdq"], "XOP,FMA4,SSE4A"),
    ("Piledriver", ["max,-sha-ni,-avx2,-avx-vnni,-vaes,-vpclmulqdq"], "XOP,FMA4,TBM,SSE4A,BMI1"),
    ("Goldmont", ["max,-avx,-avx2,-avx-vnni,-fma,-f16c,-vaes,-vpclmulqdq"], "AESNI,CLMUL,ERMS,MPX,RDSEED"),
    ("Goldmont Plus", ["max,-avx,-avx2,-avx-vnni,-fma,-f16c,-vaes,-vpclmulqdq"], "AESNI,CLMUL,ERMS,MPX,RDSEED,SGX"),
]


def c15_beyond(run, stat, env):
    """Such a CPU: emulated without what it lacks, reporting also what the emulator cannot do. A run that fails there although the
    same reports work on the emulator's full CPU has used what the CPU lacks."""
    b = run.binary("amd64")

    def go(model, on):
        r = run.execute(["qemu-x86_64", "-cpu", model, b, "-engine", "go", "-run", "c15.cpu", "-lite", "-data", run.h + "/data", "-out", "%s/by-%s-%d.json" % (run.dir, model.replace(",", ""), hash(on) & 0xffffff)],
                        env=dict(env, VERIF_CPUON=on, GOMAXPROCS="2"), stall=1e9, maxs=300)
        return r[0] == 0, r[5], (r[2] or r[1])[-1200:]

    def one(x):
        name, models, on = x
        out = []
        for m in models:
            if not go(m, "")[0]:
                run.note("the plain CPU model for %s does not work here" % name)
                continue
            ok, capped, msg = go(m, on)
            if not ok and not capped and go("max", on)[0] and not go(m, on)[0]:
                out.append((name, m, on, msg))
            stat["beyond"] = stat.get("beyond", 0) + 1
        return out
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(core.NCPU) as ex:
        for bad in ex.map(one, BEYOND):
            for name, m, on, msg in bad:
                run.violation("amd64/go/cpu", "a CPU like %s (%s, reporting also %s)" % (name, m, on), "fails, although the same CPU with the missing features works: " + msg)


def c15_cpus(run, stat):
    import concurrent.futures, os
    # 2. every CPU model
    def control(prefix, ctl, env):
        rc, so, se, hung, _, _ = run.execute(prefix + [ctl], env=env, stall=120)
        return rc == 0 and "ok" in so
    env = {"GODEBUG": "asyncpreemptoff=1"}
    js = []
    plans = []
    ctl = run.go_build("amd64", "./cmd/ctl")
    for m in x86_models(run):
        plans.append(("amd64", ["qemu-x86_64", "-cpu", m], ctl, m))
    try:
        ctl64 = run.go_build("arm64", "./cmd/ctl")
        rc, out = run.sh(["qemu-aarch64", "-cpu", "help"])
        for m in out.split():
            if m.startswith(("cortex-a", "neoverse", "a64fx", "max")):
                plans.append(("arm64", ["qemu-aarch64", "-cpu", m, "-L", "/usr/aarch64-linux-gnu"], ctl64, m))
    except core.BuildError as e:
        run.note("arm64 control does not build")
    with concurrent.futures.ThreadPoolExecutor(core.NCPU) as ex:
        oks = list(ex.map(lambda p: control(p[1], p[2], env), plans))
    for (v, pre, _, m), ok in zip(plans, oks):
        if not ok:
            stat["skipped_models"] += 1
            continue
        stat["models"] += 1
        js.append({"variant": v, "engine": "go", "run": "c15.cpu", "prefix": pre})
        if v == "arm64" or run.tier == "thorough":
            js.append({"variant": v, "engine": "generic", "run": "c15.cpu", "prefix": pre})
            js.append({"variant": v, "engine": "cgo", "run": "c15.cpu", "prefix": pre})
    # natively: this host's CPU, with features reported absent
    for off in ("", "SHA", "AVX", "SSE3", "SSE4", "SHA,AVX", "SSE4,SSE42", "SHA,SSE4,SSE3,AVX"):
        js.append({"variant": "amd64", "engine": "go", "run": "c15.cpu", "env": {"VERIF_CPUOFF": off}})
    # the other architectures' default CPU
    for v, e in [("noasm", "go"), ("nocgo", "go"), ("nocgo", "cgo"), ("386", "go"), ("386sf", "go"), ("arm", "go"), ("arm", "cgo"), ("arm5", "go"), ("s390x", "go"), ("riscv64", "go"), ("ppc64le", "go"), ("mips", "go"), ("loong64", "go"), ("arm64noasm", "go"), ("arm64nocgo", "cgo"), ("amd64v3", "go")]:
        js.append({"variant": v, "engine": e, "run": "c15.cpu"})
    if run.tier == "thorough":
        for v in ("ppc64", "mipsle", "mips64", "mips64le"):
            js.append({"variant": v, "engine": "go", "run": "c15.cpu"})
    run.run_jobs(js)

    if not run.violations:
        c15_beyond(run, stat, env)

    # 3. arm64 without the SHA-1 instructions: none of them may be executed
    probe = None
    try:
        b = run.binary("arm64")
        cnt = {}
        for off in ("", "SHA1", "SHA1,AESARM", "SHA2"):
            log = run.dir + "/inasm-%s.log" % (off or "on")
            rc, so, se, hung, _, _ = run.execute(["qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu", "-d", "in_asm", "-D", log, b, "-engine", "go", "-run", "c15.cpu", "-lite", "-data", run.h + "/data"],
                                                 env=dict(env, VERIF_CPUOFF=off), stall=300)
            if rc != 0:
                run.note("instruction probe failed to run (%s)" % off)
                continue
            cnt[off] = sha1_insns(log)
            os.unlink(log)
        probe = cnt
        if cnt.get("", 0) > 0:
            for off in ("SHA1", "SHA1,AESARM"):
                if cnt.get(off, 0) > 0:
                    run.violation("arm64/go/instructions", "CPU without %s" % off, "%d SHA-1 instruction sites were executed although the CPU reports no SHA-1 support" % cnt[off])
    except core.BuildError:
        run.note("arm64 does not build; instruction probe skipped")
    return probe


def c15(run):
    import concurrent.futures, glob, os, re
    stat = {"builds": 0, "models": 0, "skipped_models": 0}

    # 1. every configuration builds (a control package with the same dependency must build there)
    def build(b):
        goos, arch, env, tags = b
        e = dict(env, GOOS=goos, GOARCH=arch)
        t = ["-tags", tags] if tags else []
        rc, out = run.sh(["go", "build"] + t + [core.MODULE, core.MODULE + "/ubc", core.MODULE + "/cgo"], env=e)
        if rc == 0:
            return None
        rcc, _ = run.sh(["go", "build", "-o", os.devnull] + t + ["./cmd/ctl"], env=e)
        if rcc != 0:
            run.note("the toolchain cannot build for %s/%s here" % (goos, arch))
            return None
        rc2, out2 = run.sh(["go", "build"] + t + [core.MODULE, core.MODULE + "/ubc", core.MODULE + "/cgo"], env=e)
        return (b, out2) if rc2 != 0 else None
    blds = BUILDS + (BUILDS_MORE if run.tier == "thorough" else [])
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for r in ex.map(build, blds):
            stat["builds"] += 1
            if r:
                run.violation("build", "GOOS=%s GOARCH=%s %s tags=%s" % (r[0][0], r[0][1], r[0][2], r[0][3]), "does not build:\n" + r[1][-1500:])

    # every platform the toolchain knows (without C), and every compiler tag: type-checked at least
    rc, out = run.sh(["go", "tool", "dist", "list"])
    pairs = [tuple(l.split("/")) for l in out.split()] if rc == 0 else []
    built = {(b[0], b[1]) for b in blds if b[2].get("CGO_ENABLED") == "0" and not b[3]}
    try:
        tc = run.go_build("amd64", "./cmd/tc", out=run.dir + "/tc")
    except core.BuildError as e:
        tc = None
        run.note("type checker does not build: %s" % e)

    def check(c):
        goos, arch, comp, tags = c
        rc, o = run.sh([tc, core.REPO, core.MODULE, goos, arch, comp, tags], cwd=run.dir)
        return (c, rc, o)
    if tc and pairs:
        todo = [(o, a, "gccgo", t) for o, a in pairs for t in ("", "noasm")] + [(o, a, "gc", t) for o, a in pairs for t in ("noasm", "appengine", "purego", "safe")] + [(o, a, "gc", "") for o, a in pairs if (o, a) not in built]
        with concurrent.futures.ThreadPoolExecutor(core.NCPU) as ex:
            for c, rc, o in ex.map(check, todo):
                if rc == 3:
                    stat["unresolved"] = stat.get("unresolved", 0) + 1
                else:
                    stat["typechecked"] = stat.get("typechecked", 0) + 1
                if rc == 1 and len([v for v in run.violations if v["where"] == "typecheck"]) < 4:
                    run.violation("typecheck", "GOOS=%s GOARCH=%s compiler=%s tags=%s" % c, "does not compile:\n" + o[-1200:])
    # every toolchain from the go directive on
    def toolchain(d):
        e = {"PATH": d + "/bin:" + run.env["PATH"], "GOROOT": d, "GOCACHE": run.dir + "/gocache-" + os.path.basename(d)}
        cmd = ["go", "build", core.MODULE, core.MODULE + "/ubc", core.MODULE + "/cgo"]
        rc, out = run.sh(cmd, env=e)
        if rc == 0:
            return None
        rcc, _ = run.sh(["go", "build", "-o", os.devnull, "./cmd/ctl"], env=e)
        return (d, out) if rcc == 0 else None
    m = re.search(r"(?m)^go (\d+)\.(\d+)", open(core.REPO + "/go.mod").read())
    tcs = []
    if m:
        for d in sorted(glob.glob("/opt/veriftools/go1.*")):
            v = re.search(r"go(\d+)\.(\d+)", d)
            if d != core.GOROOT and os.path.exists(d + "/bin/go") and tuple(map(int, v.groups())) >= tuple(map(int, m.groups())):
                tcs.append(d)
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for r in ex.map(toolchain, tcs):
                if r:
                    run.violation("toolchain", os.path.basename(r[0]), "does not build with this toolchain:\n" + r[1][-1200:])
    stat["toolchains"] = [os.path.basename(d) for d in tcs]

    probe = None
    if not run.violations:
        probe = c15_cpus(run, stat)
    run.extra["configurations_built"] = stat["builds"]
    run.extra["configurations_typechecked"] = stat.get("typechecked", 0)
    run.extra["configurations_not_typecheckable_here"] = stat.get("unresolved", 0)
    run.extra["toolchains"] = stat["toolchains"]
    run.extra["cpu_models"] = stat["models"]
    run.extra["cpu_models_beyond_the_emulator"] = stat.get("beyond", 0)
    run.extra["cpu_models_the_go_runtime_itself_cannot_run_on"] = stat["skipped_models"]
    run.extra["arm64_sha1_instruction_sites_by_disabled_feature"] = probe
    return run.finish("model_checking", "every CPU model the emulators offer and every point of the (architecturally consistent) feature lattice runs the same exploration; an illegal instruction, crash or wrong answer is a violation unless a control program without the library fails there too; every build configuration must build",
                      COMMON + ["qemu-user raises an illegal-instruction trap for instructions whose CPUID bit is off (checked by hand for the SHA, SSSE3, SSE4.1 and AVX instructions used here)", "a CPU with an SSE/AVX level has all lower levels"],
                      "all CPU models of qemu-x86_64 and qemu-aarch64, SSE/AVX chain x SHA x XSAVE, %d build configurations" % stat["builds"])


PROPS["C15"] = c15


# ------------------------------------------------------------------------------------------- C16
PROPS["C16"] = simple(["c16.pair", "c16.each", "c16.ops", "c16.near", "c16.real", "c16.len"],
                      "every operation sequence on C contexts is executed through the linked C interface; digest, verdict and recorded callbacks are compared with the model at every step",
                      "all sequences to depth d over 5 switches x 2-3 values, 5 kinds of block and re-initialisation at 3 alignments of the stream; all 32 settings x 32 vectors x 6 kinds x 3 deliveries x 6 integer values; all pairs of settings of two contexts",
                      full=[("amd64", "cgo")], side=[("c-clang", "cgo"), ("c-O0", "cgo"), ("c-O3", "cgo"), ("arm64", "cgo"), ("arm", "cgo"), ("asan", "cgo"), ("ubsan", "cgo")],
                      shards={"c16.ops": 16, "c16.near": 4}, assumptions=[TAB])
