#!/usr/bin/env python3
"""check.py <PROPERTY> | setup -- run the monitored workloads that decide one property. See DESIGN.md."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
STABLE = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
CORES = max(2, os.cpu_count() or 2)
T0 = time.time()


class Inconclusive(Exception):
    pass


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI", "ASAN", "TSAN", "DV_"))}
    e["HOME"] = os.environ.get("HOME") if os.path.isdir(os.path.join(os.environ.get("HOME") or "/none", ".cargo")) else "/root"
    e["PATH"] = f"{e['HOME']}/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


# ---------------------------------------------------------------- building
def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


FLAVOURS = {
    # name: (extra env, cargo args, path of the binary)
    "mon": ({"RUSTC_WRAPPER": os.path.join(HARNESS, "wrap.sh")}, ["build", "--profile", "mon", "--features", "sancov,effects"], "mon/dvmon"),
    "rel": ({}, ["build", "--release", "--features", "effects"], "release/dvmon"),
    "asan": ({"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": "-Zsanitizer=address"}, ["build", "--profile", "asan", "--target", TRIPLE], f"{TRIPLE}/asan/dvmon"),
    "dbg": ({}, ["build", "--profile", "dbg"], "dbg/dvmon"),
    "tsan": ({"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": "-Zsanitizer=thread"}, ["build", "--profile", "asan", "--target", TRIPLE, "-Zbuild-std"], f"{TRIPLE}/asan/dvmon"),
}


def binary(fl):
    return os.path.join(TARGET, fl, FLAVOURS[fl][2])


def start_build(fl):
    """Start building one flavour; the returned function waits for it."""
    ex, args, _ = FLAVOURS[fl]
    td = os.path.join(TARGET, fl)
    os.makedirs(td, exist_ok=True)
    lock = open(os.path.join(TARGET, fl + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    # cargo decides by modification times; decide by content as well
    now = tree_hash(os.path.join(REPO, "src"), os.path.join(HARNESS, "src")) + tree_file(os.path.join(REPO, "Cargo.toml"))
    stamp = os.path.join(td, "content-stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        if old:
            os.unlink(stamp)
            tgt = ["--target", TRIPLE] if "--target" in args else []
            prof = ["--release"] if "--release" in args else ["--profile", args[args.index("--profile") + 1]]
            subprocess.run(["cargo", "clean", "-q", "-p", "diffy", "-p", "dvmon", "--target-dir", td] + prof + tgt, cwd=HARNESS, env=env(ex), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.Popen(["cargo"] + args + ["--offline", "--target-dir", td], cwd=HARNESS, env=env(ex), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

    def wait():
        out, _ = p.communicate(timeout=700)
        if p.returncode != 0:
            raise Inconclusive(f"cannot build flavour {fl}:\n{out[-3000:]}")
        with open(stamp, "w") as f:
            f.write(now)
        lock.close()
        log("built", fl)

    return wait


def tree_file(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def build(fls):
    for w in [start_build(f) for f in fls]:
        w()


# ---------------------------------------------------------------- literals of the code under test
def dictionary():
    """Numbers and strings the code mentions (outside comments and tests): inputs worth trying."""
    ints, strs = set(), set()
    for root, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith(".rs") or f.startswith("test"):
                continue
            t = open(os.path.join(root, f), errors="replace").read()
            i = t.find("#[cfg(test)]\nmod ")
            if i >= 0 and "{" in t[i:].split("\n")[1]:
                t = t[:i]
            t = re.sub(r"^\s*//.*$", "", t, flags=re.M)
            for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"|b?\'((?:[^\'\\\n]|\\.|\\x..|\\u\{\w+\}))\'|//.*|\b(0x[0-9a-fA-F_]+|[0-9][0-9_]*)', t):
                if m.group(3):
                    try:
                        ints.add(int(re.sub(r"_", "", m.group(3)), 0))
                    except ValueError:
                        try:
                            ints.add(int(m.group(3).replace("_", "")))
                        except ValueError:
                            pass
                else:
                    s = m.group(1) or m.group(2)
                    if s and len(s) < 80 and "{" not in s:
                        s = re.sub(r"\\x([0-9a-fA-F]{2})", lambda k: chr(int(k.group(1), 16)), s)
                        s = s.replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r").replace("\\0", "\0").replace('\\"', '"').replace("\\'", "'").replace("\\\\", "\\")
                        strs.add(s)
            # products and shifts of small literals, as in 64 * 1024 and 1 << 12
            for a, op, b in re.findall(r"\b(\d[\d_]*)(?:usize|u64|u32)?\s*(\*|<<)\s*(\d[\d_]*)", t):
                a, b = int(a.replace("_", "")), int(b.replace("_", ""))
                if op == "*":
                    ints.add(a * b)
                elif b < 40:
                    ints.add(a << b)
    return ints, strs


# ---------------------------------------------------------------- running
def sig_name(rc):
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            pass
    return f"status {rc}"


def describe_exit(rc):
    if rc == 77:
        return "did not end within its budget of control-flow edges"
    if rc == 78:
        return "used more than 1.5 GiB of memory"
    return f"the process ended with {sig_name(rc)}"


class Run:
    def __init__(self, prop, tier, seed, known):
        self.prop, self.tier, self.seed, self.known = prop, tier, seed, known
        os.makedirs(os.path.join(TARGET, "runs"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(TARGET, "runs"))
        self.results = []
        self.hash_files = []
        self.violations = []  # (message, replay path)
        self.inconclusive = []
        self.notes = []
        self.n = 0
        self.ir = {"calls": 0, "instructions": 0}
        ints, strs = dictionary()
        self.dict = os.path.join(self.dir, "dict")
        with open(self.dict, "w") as f:
            for i in sorted(ints):
                if i < 1 << 63:
                    f.write(f"i {i}\n")
            for s in sorted(strs):
                f.write("s " + s.encode("utf-8", "surrogatepass").hex() + "\n")
        self.consts = os.path.join(self.dir, "consts")
        open(self.consts, "w").close()

    def path(self, n):
        return os.path.join(self.dir, n)

    def keep(self, src, name):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, f"{self.prop}-{name}")
        shutil.copyfile(src, dst)
        return dst

    def phase(self, fl, secs, workers=None, extra=(), cmd=None, ex=None, grace=150):
        """Run workers of one flavour side by side and collect what their monitors saw."""
        workers = workers or CORES
        procs = []
        for k in range(workers):
            tag = f"{fl}{self.n}.{k}"
            scr = self.path("scr." + tag)
            os.makedirs(scr, exist_ok=True)
            a = (cmd or [binary(fl)]) + ["run", "--prop", self.prop, "--flavour", fl, "--seed", str(self.seed), "--shard", str(k), "--shards", str(workers),
                 "--secs", str(secs), "--tier", self.tier, "--out", self.path(tag), "--cur", self.path(tag + ".cur"), "--consts", self.consts, "--dict", self.dict]
            if self.known:
                a += ["--known", ",".join(self.known)]
            a += list(extra)
            e = env({"DV_SCRATCH": scr, **(ex or {})})
            errf = open(self.path(tag + ".err"), "wb")
            procs.append((tag, a, e, subprocess.Popen(a, env=e, cwd=HARNESS if cmd else self.dir, stdout=errf, stderr=subprocess.STDOUT)))
        self.n += 1
        end = time.time() + secs + grace
        for tag, a, e, p in procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
            self.collect(fl, tag, a, e, rc)
        cs = sorted({c for r in self.results for c in r["consts"]})
        with open(self.consts, "w") as f:
            f.writelines(f"{c}\n" for c in cs)
        log(f"{fl}: {workers} workers, {sum(sum(r['evals'].values()) for r in self.results if r['phase'] == self.n - 1)} cases")

    def collect(self, fl, tag, a, e, rc):
        out, err = self.path(tag), open(self.path(tag + ".err"), errors="replace").read()
        if rc in (0, 1) and os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            r["phase"] = self.n - 1
            self.results.append(r)
            self.hash_files.append(out + ".hashes")
            self.inconclusive += r["inconclusive"][:2]
            if r["violation"]:
                rep = self.keep(out + ".case", f"{fl}-{r['violation']['hash']}.case")
                with open(rep + ".json", "w") as f:
                    json.dump({"property": self.prop, "flavour": fl, **r["violation"]}, f, indent=1)
                self.violations.append((r["violation"]["message"], rep))
            return
        if rc == 1 and os.path.exists(out + ".case"):
            rc = 0  # cannot happen: the result is written last
        if os.path.exists(out + ".raw"):
            # died while reducing an input that had already failed
            rep = self.keep(out + ".case", f"{fl}-{self.seed}.case")
            self.violations.append((json.load(open(out + ".raw")), rep))
            return
        self.crashed(fl, tag, a, e, rc, err)

    def crashed(self, fl, tag, a, e, rc, err):
        """A worker died, was killed by its limits or hung: a violation only if that is repeatable."""
        cur = self.path(tag + ".cur")
        what = "the worker hung" if rc is None else describe_exit(rc)
        san = self.sanitizer(err)
        if rc in (64, 70):
            self.inconclusive.append(f"{tag}: internal error: {err[-400:]}")
            return
        if fl in ("miri", "tsan"):
            if san and rc is not None:
                rep = self.keep(self.path(tag + ".err"), f"{fl}-{self.seed}.txt")
                self.violations.append((f"{fl}: {san}", rep))
            else:
                self.inconclusive.append(f"{tag}: {what}: {err[-400:]}")
            return
        if not os.path.exists(cur):
            self.inconclusive.append(f"{tag}: {what} before the first case: {err[-400:]}")
            return
        kind = "mon" if rc is None else fl  # only control-flow edges tell a hang from a slow machine
        try:
            p = subprocess.run([binary(kind), "replay", cur, "--prop", self.prop], env=e, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=180)
            rrc, rout = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            self.inconclusive.append(f"{tag}: {what}, and so does its replay")
            return
        if rrc == 1 or rrc in (77, 78) or rrc < 0 or self.sanitizer(rout):
            rep = self.keep(cur, f"{fl}-{self.seed}.case")
            msg = rout.strip() if rrc == 1 else describe_exit(rrc)
            self.violations.append(((self.sanitizer(rout) or msg)[:3000], rep))
            return
        if rc is not None and (rc < 0 or rc in (77, 78)):
            # depends on what ran before: repeat the whole worker
            p = subprocess.run(a, env=e, cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
            if p.returncode == rc:
                with open(self.path("cmd"), "w") as f:
                    json.dump({"argv": a, "exit": rc, "note": "repeat this worker; the last case alone does not fail"}, f)
                self.violations.append((f"{what}, again when the same worker was repeated", self.keep(self.path("cmd"), f"{fl}-{self.seed}.json")))
                return
        self.inconclusive.append(f"{tag}: {what}, not repeatable")

    @staticmethod
    def sanitizer(t):
        for pat in (r"ERROR: AddressSanitizer: .*", r"WARNING: ThreadSanitizer: .*", r"error: Undefined Behavior: .*", r"error: .*[Dd]ata race.*", r"error: memory leaked.*"):
            m = re.search(pat, t)
            if m:
                loc = re.search(r"/repo/src/\S+|-->\s*\S+", t[m.start():])
                return m.group(0).strip() + (f" at {loc.group(0)}" if loc else "")
        return None


def miri_phase(run, secs, max_cases, size, workers, extra=()):
    """The same checks on small inputs under the undefined-behaviour and data-race interpreter."""
    sys_root = os.path.join(TARGET, "miri-sysroot")
    ex = {"RUSTUP_TOOLCHAIN": "nightly", "MIRI_SYSROOT": sys_root, "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks", "CARGO_TARGET_DIR": os.path.join(TARGET, "miri")}
    miri_setup()
    cases = run.path("small-cases")
    subprocess.run([binary("rel"), "emit", "--prop", run.prop, "--seed", str(run.seed), "--max", str(max_cases), "--max-size", str(size), "--dict", run.dict, "--out", cases], check=True, env=env(), timeout=120)
    tail = ["--no-special", "--no-enum", "--no-shrink", "--cases", cases] + list(extra)
    for k in range(workers):  # sequential start: let one invocation compile first
        if k == 0:
            p = subprocess.run(["cargo", "miri", "run", "-q", "--offline", "--", "list"], cwd=HARNESS, env=env(ex), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            if p.returncode != 0 or run.prop not in p.stdout.split():
                raise Inconclusive("cannot run under Miri:\n" + p.stdout[-3000:])
    run.phase("miri", secs, workers=workers, extra=tail, cmd=["cargo", "miri", "run", "-q", "--offline", "--"], ex=ex, grace=240)


IR_FACTOR = 8  # instructions allowed per allowed control-flow edge
IR_GROWTH = 3
IR_REFERENCE = 15  # instructions allowed per instruction counted when the reference was taken, and so many more
IR_SLACK = 20_000_000
IR_SIZES = [1000, 5000, 20000]
IR_FILE = os.path.join(VERIF, "tools", "instructions.json")


def ir_command(run, k, sizes, out):
    return [binary("rel"), "ir", "--shard", str(k), "--shards", str(CORES), "--sizes", ",".join(map(str, sizes)), "--out", out]


def ir_dumps(run, k):
    """(instructions of each completed call, instructions of a call that was cut short)"""
    irs, cut = {}, 0
    for f in os.listdir(run.dir):
        if f == f"cg.{k}" or f.startswith(f"cg.{k}."):
            t = open(run.path(f), errors="replace").read()
            m, c = re.search(r"Client Request: (\S+)", t), re.search(r"^totals: (\d+)", t, re.M)
            if m and c:
                irs[m.group(1)] = int(c.group(1))
            elif c:
                cut = max(cut, int(c.group(1)))
    return irs, cut


def ir_rows(path):
    return [l.rstrip("\n").split("\t") for l in open(path)] if os.path.exists(path) else []


def callgrind_phase(run, sizes, limit, learn=None):
    """Count all instructions of every measured call, those inside the standard library included, and check them offline."""
    n = CORES
    procs = []
    for k in range(n):
        a = ["valgrind", "--tool=callgrind", "--instr-atstart=no", f"--callgrind-out-file={run.path(f'cg.{k}')}"] + ir_command(run, k, sizes, run.path(f"ir.{k}"))
        procs.append((k, a, subprocess.Popen(a, env=env(), cwd=run.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    end = time.time() + limit
    late = []
    for k, a, p in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
            if rc != 0:
                run.inconclusive.append(f"callgrind worker {k} ended with {sig_name(rc)}")
        except subprocess.TimeoutExpired:
            late.append(k)
            p.terminate()  # makes callgrind write what it has counted so far
            try:
                p.wait(60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
    reference = json.load(open(IR_FILE)) if os.path.exists(IR_FILE) and learn is None else {}
    rows = {}
    worst = {}

    def judge(k, shape, size, call, count, allowed, complete):
        r = count / allowed
        run.ir["calls"] += 1
        run.ir["instructions"] += count
        worst[call] = max(worst.get(call, 0), round(r, 3))
        first = rows.setdefault((shape, call), r) if complete else rows.get((shape, call), r)
        limit = allowed * min(IR_FACTOR, IR_GROWTH * first + 1)
        at = f"{shape}/{size}/{call}"
        if learn is not None:
            learn[at] = max(learn.get(at, 0), count)
        if at in reference:
            run.ir["calls compared with the reference"] = run.ir.get("calls compared with the reference", 0) + 1
            limit = min(limit, reference[at] * IR_REFERENCE + IR_SLACK)
        if count > limit:
            case = run.path(f"ir.{k}.{shape}.{size}.case")
            run.violations.append((f"{call}: {count} instructions{'' if complete else ' before it was stopped'} for shape {shape} of size {size}; {int(limit)} allowed", run.keep(case, f"shape{shape}-{size}.case")))

    for k in range(n):
        irs, cut = ir_dumps(run, k)
        done = ir_rows(run.path(f"ir.{k}"))
        for name, allowed, what, shape, size in done:
            if name == "error":
                run.violations.append((what, run.keep(run.path(f"ir.{k}.{shape}.{size}.case"), f"shape{shape}-{size}.case")))
            elif irs.get(name, 0) >= 100:
                judge(k, shape, size, name.split("-", 1)[1], irs[name], int(allowed), True)
        if k in late and not run.violations:
            # the calls of the input that was not finished: what they are allowed is found without counting
            try:
                subprocess.run(ir_command(run, k, sizes, run.path(f"plan.{k}")), env=env(), cwd=run.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            except subprocess.TimeoutExpired:
                pass
            seen = {r[0] for r in done}
            for r in ir_rows(run.path(f"plan.{k}")):
                if r[0] == "error" or r[0] in seen:
                    continue
                name, allowed, _, shape, size = r
                shutil.copy(run.path(f"plan.{k}.{shape}.{size}.case"), run.path(f"ir.{k}.{shape}.{size}.case"))
                judge(k, shape, size, name.split("-", 1)[1], irs.get(name, cut), int(allowed), name in irs)
                if name not in irs:
                    break
    run.ir["worst instructions per allowed edge"] = worst
    if late and not run.violations:
        run.inconclusive.append(f"callgrind workers {late} did not finish")
    if not run.ir["calls"]:
        run.inconclusive.append("callgrind counted nothing")
    log(f"callgrind: {run.ir['calls']} calls, {run.ir['instructions']} instructions, worst {worst}")


def calibrate():
    """Take the reference of instruction counts from the current tree (done by hand, never by a check)."""
    build(["rel"])
    run = Run("S04", "quick", 1, [])
    learn = {}
    try:
        callgrind_phase(run, IR_SIZES + [60000], 1500, learn)
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
    json.dump({k: learn[k] for k in sorted(learn)}, open(IR_FILE, "w"), indent=0)
    print(len(learn), "calls", run.inconclusive)


def miri_setup():
    sys_root = os.path.join(TARGET, "miri-sysroot")
    if os.path.exists(os.path.join(sys_root, "ok")):
        return
    os.makedirs(sys_root, exist_ok=True)
    p = subprocess.run(["cargo", "miri", "setup"], cwd=HARNESS, env=env({"RUSTUP_TOOLCHAIN": "nightly", "MIRI_SYSROOT": sys_root}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise Inconclusive("cannot build the Miri sysroot:\n" + p.stdout[-3000:])
    open(os.path.join(sys_root, "ok"), "w").close()


# ---------------------------------------------------------------- the plan per property
#        seconds of the instrumented flavour, of the release flavour
QUICK = {"mon": 14, "rel": 9}
THOROUGH = {"mon": 260, "rel": 180}
LEVEL = {"F03": "fault_enumeration"}
# what a run must have observed; otherwise it decided nothing
NEED = {
    "D01": ["applied", "hunks"], "D02": ["hunks", "lines"], "D03": ["scripts"], "D04": ["hunk gaps", "changes sharing a hunk"],
    "D05": ["blocks of deletions", "blocks of insertions"],
    "R01": ["hunks reversed"], "F01": ["written and parsed again"], "F02": ["renderings compared", "escape sequences seen"],
    "F03": ["fault runs", "faults reached", "short writes", "interruptions"], "P01": ["hunks compared"],
    "P02": ["accepted", "rejected", "rejected as required"], "A01": ["successful applications", "failed applications"],
    "A02": ["successful applications", "failed applications"], "M01": ["merges"], "M02": ["clean merges explained"],
    "M03": ["conflicting merges explained", "conflict blocks"], "M04": ["clean merges compared", "conflicting merges compared"],
    "M05": ["option settings compared"], "M06": ["clean merges mirrored", "conflicting merges mirrored"],
    "S01": ["written forms compared", "merges compared", "parses compared", "applications compared"],
    "S02": ["applications", "merges", "patches exercised", "rejected texts"],
    "S03": ["results digested", "results compared across threads", "results compared with fresh processes", "results compared across memory layouts", "operations in the middle of a write", "writes cut short by a panic"],
    "S04": ["measured calls"],
    "O01": ["uses of options", "renderings compared"], "V01": ["pairs of equal patches", "pairs of unequal patches"],
    "H01": ["patches replayed", "patches undone"], "A03": ["with changes on both sides", "undone in the edited text", "compared with the merge"],
    "S06": ["inputs run under watch", "patches exercised", "rejected texts", "merges"],
    "S07": ["inputs of equal size run in a row", "inputs run repeatedly"],
    "S05": ["patches applied with GNU patch", "patches applied with git", "patches made by GNU diff", "patches made by git diff"],
}
ASSUME = [
    "the reference models and oracles of /verif/harness/src (refm.rs, props/) state the property",
    "held means: on every execution of this run; inputs not generated are not covered",
]


def decide(prop, run):
    th = run.tier == "thorough"
    t = THOROUGH if th else QUICK
    if prop == "S05":
        build(["rel"])
        run.phase("rel", 420 if th else 14)
        return
    if prop == "S04":
        build(["mon"])
        build(["mon", "rel", "dbg"])
        run.phase("mon", t["mon"] + t["rel"])
        if not run.violations:
            callgrind_phase(run, IR_SIZES + ([60000] if th else []), 600 if th else 150)
        if not run.violations:
            run.phase("dbg", 60 if th else 6)
        return
    fls = ["mon", "rel"]
    if prop == "S02":
        fls += ["asan", "dbg"]
    if prop == "S03" and th:
        fls.append("tsan")
    build(fls)
    run.phase("mon", t["mon"] * (2 if prop == "S02" else 1))
    if run.violations:
        return
    run.phase("rel", t["rel"])
    if run.violations:
        return
    if prop == "S02":
        run.phase("asan", 120 if th else 8, ex={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0"})
    if prop == "S02" and not run.violations:
        run.phase("dbg", 100 if th else 10)
    if prop == "S03" and th:
        run.phase("tsan", 90, workers=4, extra=["--no-shrink"], ex={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"})
    if prop in ("S02", "S03") and not run.violations:
        miri_phase(run, 200 if th else 20, 4000 if th else 400, 60 if prop == "S02" else 100, CORES)


def known_findings(prop):
    """lines `finding: property=<id> case=<hash> <text>`; `fixed:` lines suppress nothing"""
    k = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(rf"finding: property={prop} case=([0-9a-f]{{16}}) (.*)", l)
            if m:
                k[m.group(1)] = m.group(2)
    return k


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 64
    prop = sys.argv[1]
    if prop == "setup":
        build(["mon", "rel", "asan", "dbg"])
        miri_setup()
        log("ready")
        return 0
    if prop == "calibrate":
        calibrate()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop not in NEED:
        print("unknown property", prop)
        return 64
    known = known_findings(prop)
    run = Run(prop, tier, seed, list(known))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evf = os.path.join(VERIF, "evidence", prop + ".json")
    try:
        try:
            decide(prop, run)
        except Inconclusive as e:
            run.inconclusive.append(str(e))
        except subprocess.TimeoutExpired as e:
            run.inconclusive.append(f"timed out: {e}")
        return report(prop, tier, seed, run, known, evf)
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


def report(prop, tier, seed, run, known, evf):
    evals, counts, maxima, phases = {}, {}, {}, {}
    for r in run.results:
        for k, v in r["evals"].items():
            evals[k] = evals.get(k, 0) + v
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["maxima"].items():
            maxima[k] = max(maxima.get(k, 0), v)
        ph = phases.setdefault(r["flavour"], {"workers": 0, "cases": 0, "edges": set(), "guards": 0, "enumerated": 0, "enumeration size": r["enum_all"], "boundary": 0, "boundary size": r["special_all"], "edges executed": 0})
        ph["workers"] += 1
        ph["cases"] += sum(r["evals"].values())
        ph["edges"] |= set(r["edges"])
        ph["guards"] = r["guards"]
        ph["enumerated"] += r["enum_done"]
        ph["boundary"] += r["special_done"]
        ph["edges executed"] += r["steps"]
    for ph in phases.values():
        ph["distinct edges of diffy"] = len(ph.pop("edges"))
        ph["instrumented edges"] = ph.pop("guards")
        if not ph["instrumented edges"]:
            for k in ("distinct edges of diffy", "instrumented edges", "edges executed"):
                ph.pop(k)
        ph["enumeration complete"] = ph["enumerated"] >= ph["enumeration size"] > 0
        if ph["enumeration size"] == 0:
            for k in ("enumeration complete", "enumerated", "enumeration size"):
                ph.pop(k)
    distinct = 0
    if run.hash_files and any(os.path.exists(binary(f)) for f in ("mon", "rel")):
        b = binary("mon") if os.path.exists(binary("mon")) else binary("rel")
        distinct = int(subprocess.run([b, "tally"] + run.hash_files, stdout=subprocess.PIPE, env=env()).stdout.split()[0])
    total = sum(evals.values())
    samples = []
    for r in run.results:
        samples += [dict(s, flavour=r["flavour"]) for s in r["samples"]]
    samples = samples[:3] + samples[len(samples) // 2:][:3]
    if not run.violations and not run.inconclusive:
        missing = [k for k in NEED[prop] if not counts.get(k)]
        if missing or distinct < 2:
            run.inconclusive.append(f"nothing observed for {missing}; {distinct} distinct non-trivial cases")
        und = counts.get("undecided within budget", 0)
        if und * 20 > max(1, total):
            run.inconclusive.append(f"{und} of {total} cases undecided within the budget of the checker")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": total, "distinct_nontrivial": distinct, "rule": run.results[0]["rule"] if run.results else "nothing ran",
            "samples": samples, "cases by origin": evals, "observed": counts, "maxima": maxima, "flavours": phases,
            **({"counted by callgrind": run.ir} if run.ir["calls"] else {}),
            "inconclusive": run.inconclusive[:8], "known findings met": sorted({k for r in run.results for k in r["known"]}),
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - T0, 2), "violations": len(run.violations),
    }
    with open(evf + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(evf + ".tmp", evf)
    for k, text in known.items():
        print(f"KNOWN-FINDING: property={prop} {text}")
    log(f"{prop} {tier} seed {seed}: {total} cases, {distinct} distinct non-trivial; {counts}")
    if run.violations:
        for m, rep in run.violations:
            print("  " + m[:1500].replace("\n", "\n  "))
        print(f"VIOLATION property={prop} replay={run.violations[0][1]}")
        return 1
    if run.inconclusive:
        for m in run.inconclusive[:5]:
            print("INCONCLUSIVE:", m)
        return 2
    print(f"{prop}: held on everything explored")
    return 0


if __name__ == "__main__":
    sys.exit(main())
