#!/usr/bin/env python3
"""Decides one property: builds the monitors from /repo's working tree, runs them, reports.

    check.py <property>          VERIF_TIER=quick|thorough  VERIF_SEED=n
    check.py replay <file>       repeats a recorded violation
    check.py setup               builds everything once

Exit status 0: held; 1: violated (and a VIOLATION line); 2: the check itself failed.
"""
import collections, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
HARNESS = os.path.join(HERE, "harness")
WIN = os.path.join(HERE, "win")
EVID = os.path.join(HERE, "evidence")
CPUS = max(1, min(8, os.cpu_count() or 1))
TRIPLE = "x86_64-unknown-linux-gnu"


class CheckError(Exception):
    pass


def sh(cmd, env=None, timeout=None, cwd=None):
    """Runs a command in its own process group, which is ended on a timeout"""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


# ---------------------------------------------------------------------------------------- builds

def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/src", REPO + "/Cargo.toml", REPO + "/build.rs", HARNESS + "/src", HARNESS + "/Cargo.toml", HARNESS + "/Cargo.lock",
                 WIN + "/src", WIN + "/Cargo.toml", WIN + "/Cargo.lock"):
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


class Build:
    """One build of the harness: how, and where the executable is"""

    def __init__(self, name, profile, strict=False, kind="native", crate=HARNESS):
        self.name, self.profile, self.strict, self.kind, self.crate = name, profile, strict, kind, crate
        self.dir = os.path.join(TARGET, name)
        self.client_hook = None

    def command(self):
        base = ["cargo"] if self.kind == "native" else ["cargo", "+nightly"]
        args = ["--offline", "--bin", "monitor"] + (["--features", "strict"] if self.strict else [])
        if self.kind == "miri":
            return base + ["miri", "run"] + args
        cmd = base + ["build"] + args + ["--profile", self.profile]
        if self.kind in ("tsan", "msan"):
            cmd += ["-Zbuild-std"]
        if self.kind in ("asan", "tsan", "msan"):
            cmd += ["--target", TRIPLE]
        return cmd

    def env(self, client_hook=True):
        e = dict(os.environ)
        for k in ("RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "CARGO_INCREMENTAL"):
            e.pop(k, None)
        flags = "--cfg http_ntlm_verif" + ("" if client_hook else " --cfg http_ntlm_verif_no_client")
        if self.crate == WIN:
            flags += " --cfg http_ntlm_verif_win"
        san = {"asan": "address", "tsan": "thread", "msan": "memory"}.get(self.kind)
        if san:
            flags += f" -Zsanitizer={san} --cfg no_interpose"
        e.update(RUSTFLAGS=flags, CARGO_TARGET_DIR=self.dir, CARGO_TERM_COLOR="never", RUST_BACKTRACE="0",
                 MIRIFLAGS="-Zmiri-disable-isolation")
        return e

    def binary(self):
        sub = (TRIPLE + "/" if self.kind in ("asan", "tsan", "msan") else "") + self.profile
        return os.path.join(self.dir, sub, "monitor")

    def ensure(self):
        """The client hook is left out when the code has changed so that it no longer compiles"""
        stamp_file = os.path.join(self.dir, "stamp")
        want = tree_hash()
        try:
            have, hook = open(stamp_file).read().split()
        except (OSError, ValueError):
            have, hook = "", "1"
        if have == want and (self.kind == "miri" or os.path.exists(self.binary())):
            self.client_hook = hook == "1"
            return self
        if os.path.isdir(self.dir):
            # do not trust time stamps
            sh((["cargo", "clean", "--offline", "-p", "http-ntlm-win"] if self.crate == WIN else
               ["cargo", "clean", "--offline", "-p", "http-ntlm", "-p", "ntlm-monitor"])
               + (["--target", TRIPLE] if self.kind in ("asan", "tsan", "msan") else [])
               + (["--profile", self.profile] if self.kind != "miri" else []),
               env=self.env(), cwd=self.crate, timeout=120)
            if self.kind == "miri":
                for d, ds, fs in os.walk(self.dir):
                    for f in fs:
                        if re.search(r"http[-_]ntlm|ntlm[-_]monitor|^monitor", f):
                            os.unlink(os.path.join(d, f))
        errors = ""
        for hook in (True, False):
            cmd = self.command()
            if self.kind == "miri":
                cmd = cmd + ["--", "run", "C25" if self.crate == WIN else "C01", "--cases", "0"]
            rc, out, err = sh(cmd, env=self.env(hook), cwd=self.crate, timeout=600)
            if rc == 0:
                self.client_hook = hook
                os.makedirs(self.dir, exist_ok=True)
                with open(stamp_file, "w") as f:
                    f.write(f"{want} {int(hook)}")
                return self
            errors += f"\n--- {self.name}, client hook {hook}:\n" + "\n".join(err.splitlines()[-40:])
        raise CheckError("the monitors do not build: " + errors)


CHECKED = Build("checked-default", "checked")
CHECKED_STRICT = Build("checked-strict", "checked", strict=True)
RELEASE = Build("release-default", "release")
RELEASE_STRICT = Build("release-strict", "release", strict=True)
ASAN = Build("asan", "checked", kind="asan")
ASAN_RELEASE = Build("asan-release", "release", kind="asan")
MSAN = Build("msan", "checked", kind="msan")
TSAN = Build("tsan", "checked", kind="tsan")
MIRI = Build("miri", "dev", kind="miri")
WIN_CHECKED = Build("win-checked", "checked", crate=WIN)
WIN_RELEASE = Build("win-release", "release", crate=WIN)
WIN_ASAN = Build("win-asan", "checked", kind="asan", crate=WIN)
WIN_MIRI = Build("win-miri", "dev", kind="miri", crate=WIN)
FOUR = [CHECKED, RELEASE_STRICT, RELEASE, CHECKED_STRICT]
TWO = [CHECKED, RELEASE]
ALL = [CHECKED, RELEASE_STRICT, RELEASE, CHECKED_STRICT, ASAN, MSAN, TSAN, MIRI, ASAN_RELEASE,
       WIN_CHECKED, WIN_RELEASE, WIN_ASAN, WIN_MIRI]


def build_all(builds):
    with cf.ThreadPoolExecutor(len(builds)) as ex:
        list(ex.map(lambda b: b.ensure(), builds))


def dictionary(path):
    """Literals of the sources under test, as words for the generators"""
    ints, strings = set(), set()
    for d, _, fs in os.walk(REPO + "/src"):
        for f in fs:
            if not f.endswith(".rs") or f == "verif.rs":
                continue
            t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?\b", t):
                try:
                    v = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    try:
                        v = int(m.group(1).replace("_", ""))
                    except ValueError:
                        continue
                if v < 1 << 64:
                    ints.add(v)
            for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', t):
                s = m.group(1)
                s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)), s)
                s = re.sub(r"\\x([0-7][0-9a-fA-F])", lambda k: chr(int(k.group(1), 16)), s)
                s = s.replace("\\n", "\n").replace("\\0", "\0").replace("\\t", "\t").replace('\\"', '"').replace("\\\\", "\\")
                if 0 < len(s) <= 64:
                    strings.add(s)
            for m in re.finditer(r"b?'([^'\\\n])'", t):
                ints.add(ord(m.group(1)))
                strings.add(m.group(1))
    with open(path, "w") as f:
        for i in sorted(ints):
            f.write(f"i {i}\n")
        for s in sorted(strings):
            try:
                f.write(f"s {s.encode().hex()}\n")
            except UnicodeEncodeError:
                pass


# ----------------------------------------------------------------------------------------- runs

SANITIZER = re.compile(r"ERROR: (Address|Thread|Memory|Leak)Sanitizer|WARNING: (Thread|Memory)Sanitizer|Undefined Behavior|"
                       r"(?m:^error: .*(deadlock|memory leaked|abnormal termination))|unsafe precondition\(s\) violated")


class Result:
    def __init__(self):
        self.cases = self.judgements = self.extra_distinct = 0
        self.distinct = set()
        self.counts, self.maxima = collections.Counter(), {}
        self.samples, self.violations, self.errors, self.runs = [], [], [], []


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.res = Result()
        os.makedirs(TARGET, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=f"{prop}-", dir=TARGET)
        self.dict = os.path.join(self.tmp, "dict")
        dictionary(self.dict)
        self.n = 0
        self.start = time.time()

    def env(self, b, extra=None):
        e = b.env(b.client_hook is not False)
        e.update(NTLM_DICT=self.dict, NTLM_SCRATCH=self.tmp,
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=1",
                 TSAN_OPTIONS="exitcode=86:halt_on_error=1", MSAN_OPTIONS="exitcode=86")
        e.update(extra or {})
        return e

    def argv(self, b, args):
        if b.kind == "miri":
            return b.command() + ["--"] + args
        if self.prop == "C01" and b.kind == "native":
            # half of what a thread has: decoding must not need more the longer the input is
            return ["prlimit", "--stack=1048576:", b.binary()] + args
        return [b.binary()] + args

    def one(self, b, args, env, limit):
        self.n += 1
        out = os.path.join(self.tmp, f"out{self.n}")
        rc, so, se = sh(self.argv(b, args + ["--out", out]), env=env, cwd=b.crate, timeout=limit)
        data, progress = None, None
        try:
            data = json.load(open(out))
        except (OSError, ValueError):
            pass
        try:
            progress = struct.unpack("<Q", open(out + ".progress", "rb").read(8))[0]
        except (OSError, struct.error):
            pass
        fp = b""
        try:
            fp = open(out + ".set", "rb").read()
        except OSError:
            pass
        for f in (out, out + ".set", out + ".progress"):
            if os.path.exists(f):
                os.unlink(f)
        return rc, so, se, data, progress, fp

    def run(self, b, cmd="run", cases=1000, secs=300, workers=CPUS, seed=None, extra=None, only_sanitizer=False,
            mono=False, args=()):
        """One campaign: `workers` processes of the same build (`mono`: one process)"""
        seed = self.seed * 1000 + FOURTH.get(b.name, 9) if seed is None else seed
        procs = 1 if mono else workers
        t0 = time.time()
        per = max(1, cases // procs)
        before = (self.res.cases, self.res.judgements)
        limit = secs + (400 if b.kind in ("miri", "tsan", "msan") else 240)

        def job(w):
            a = [cmd, self.prop, "--seed", str(seed), "--worker", str(w), "--workers", str(workers),
                 "--cases", str(per), "--secs", str(secs)] + list(args)
            if b.kind == "miri":
                env = self.env(b, dict(MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-seed={seed + w}", **(extra or {})))
            else:
                env = self.env(b, extra)
            return w, a, env, self.one(b, a, env, limit)

        with cf.ThreadPoolExecutor(procs) as ex:
            done = list(ex.map(job, range(procs)))
        for w, a, env, (rc, so, se, data, progress, fp) in done:
            self.take(b, cmd, seed, w, workers, a, rc, so, se, data, progress, fp, only_sanitizer, extra)
        self.res.runs.append(dict(build=b.name, campaign=cmd, processes=procs, seed=seed,
                                  cases=self.res.cases - before[0], judgements=self.res.judgements - before[1],
                                  client_hook=b.client_hook, seconds=round(time.time() - t0, 1)))

    def take(self, b, cmd, seed, w, workers, a, rc, so, se, data, progress, fp, only_sanitizer, extra):
        r = self.res
        if data:
            r.cases += data["cases"]
            r.judgements += data["judgements"]
            r.counts.update(data["counts"])
            for k, v in data["maxima"].items():
                r.maxima[k] = max(r.maxima.get(k, 0), v)
            if len(r.samples) < 12:
                r.samples += [f"{b.name}: {s[:600]}" for s in data["samples"][:2]]
            r.distinct.update(x[0] for x in struct.iter_unpack("<Q", fp))
        report = SANITIZER.search(se)
        if report:
            at = max(0, se.rfind("\n", 0, report.start()))
            self.violation(b, a, extra, f"{b.name}: {se[at:at + 3000].strip()}", progress)
        elif data and data["end"] == "violated":
            if only_sanitizer:
                r.counts["another property is violated"] += 1
            else:
                self.violation(b, a, extra, f"{b.name}: {data['text']}", data["index"])
        elif data and data["end"] == "broken":
            r.errors.append(f"{b.name}: {a}: {data['text']}")
        elif data and rc == 0:
            pass
        elif rc == 97 or (rc is None and "HANG" in se):
            if only_sanitizer:
                r.counts["time limit of a case exceeded"] += 1
            else:
                self.violation(b, a, extra, f"{b.name}: case {progress} does not end: {se[-300:].strip()}", progress)
        elif rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            # a crash only counts when it can be had again
            again = self.one(b, a, self.env(b, extra), 600)
            if again[0] == rc:
                self.violation(b, a, extra, f"{b.name}: case {progress} ends with {signal.Signals(-rc).name}: {se[-600:].strip()}", progress)
            else:
                r.errors.append(f"{b.name}: {a}: {signal.Signals(-rc).name}, not reproducible: {se[-600:]}")
        elif rc is None and b.kind != "native":
            r.counts[f"{b.name}: a process was stopped by the time limit"] += 1
        else:
            r.errors.append(f"{b.name}: {a}: exit status {rc}: {(so + se)[-1500:]}")

    def violation(self, b, a, extra, text, index):
        n = len(self.res.violations)
        path = os.path.join(EVID, f"{self.prop}-violation-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, build=b.name, args=a, index=index, extra=extra or {}, what=text,
                           dictionary=open(self.dict).read()), f, indent=1)
        self.res.violations.append((path, text))

    def finish(self, rule, level, assumptions, exhaustive=False):
        r = self.res
        shutil.rmtree(self.tmp, ignore_errors=True)
        cov = dict(evaluations=r.judgements, distinct_nontrivial=len(r.distinct) + r.extra_distinct, rule=rule,
                   samples=r.samples[:12], cases_generated=r.cases, observed=dict(sorted(r.counts.items())),
                   maxima=r.maxima, campaigns=r.runs)
        if exhaustive:
            cov["exhaustive"] = True
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=assumptions,
                  wall_s=round(time.time() - self.start, 1), violations=len(r.violations))
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for k in r.pinned if hasattr(r, "pinned") else []:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for path, text in r.violations[:3]:
            print(f"{self.prop}: {text[:3000]}")
        for path, text in r.violations[:1]:
            print(f"VIOLATION property={self.prop} replay={path}")
        if r.violations:
            return 1
        if r.errors:
            for e in r.errors[:5]:
                print(f"{self.prop}: the check failed: {e}", file=sys.stderr)
            return 2
        print(f"{self.prop} held: {r.cases} cases, {r.judgements} judged, {cov['distinct_nontrivial']} distinct, {ev['wall_s']} s")
        return 0


FOURTH = {b.name: i for i, b in enumerate(ALL)}


def known_findings(prop):
    """Entries of the known-findings file that are not repaired"""
    out = []
    for line in open(os.path.join(HERE, "known-findings"), encoding="utf-8"):
        m = re.match(r"known: property=(\S+) input=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append(dict(input=m.group(2), what=m.group(3)))
    return out


# ------------------------------------------------------------------------------------ properties

# property: (builds, cases per build quick, cases per build thorough)
PLAN = {
    "C01": (FOUR, 1_600_000, 60_000_000),
    "C02": (FOUR, 1_200_000, 40_000_000),
    "C03": (FOUR, 800_000, 30_000_000),
    "C04": (FOUR, 400_000, 16_000_000),
    "C05": (TWO, 800_000, 40_000_000),
    "C06": (TWO, 200_000, 4_000_000),
    "C07": (FOUR, 2_000_000, 80_000_000),
    "C08": (TWO, 160_000, 8_000_000),
    "C09": (TWO, 160_000, 8_000_000),
    "C10": (TWO, 160_000, 8_000_000),
    "C11": (TWO, 160_000, 8_000_000),
    "C12": (TWO, 60_000, 2_000_000),
    "C13": (TWO, 60_000, 2_000_000),
    "C14": (FOUR, 60_000, 4_000_000),
    "C15": (TWO, 160_000, 8_000_000),
    "C16": (TWO, 120_000, 4_000_000),
    "C17": (TWO, 60_000, 2_000_000),
    "C18": (TWO, 200_000, 8_000_000),
    "C19": (TWO, 160_000, 8_000_000),
    "C20": (TWO, 4_000_000, 200_000_000),
    "C21": ([], 0, 0),
    "C22": (TWO, 200_000, 8_000_000),
    "C23": (FOUR, 400_000, 16_000_000),
    "C24": (TWO, 160_000, 8_000_000),
    "C26": (TWO, 160_000, 8_000_000),
    "C27": (FOUR, 40_000, 2_000_000),
    "C28": (TWO, 600_000, 20_000_000),
    "C30": (TWO, 4_000_000, 200_000_000),
    "C31": (TWO, 400_000, 16_000_000),
    "C25": ([WIN_CHECKED, WIN_RELEASE], 200_000, 8_000_000),
}


def check(prop, tier, seed):
    c = Check(prop, tier, seed)
    thorough = tier == "thorough"
    builds, quick_n, thorough_n = PLAN[prop]
    n = thorough_n if thorough else quick_n
    secs = 600 if thorough else 60
    more = {"C17": [MIRI, TSAN], "C28": [MIRI, TSAN], "C21": [ASAN, MIRI, MSAN] + ([ASAN_RELEASE] if thorough else []), "C25": [WIN_ASAN, WIN_MIRI]}.get(prop, [])
    build_all(builds + more)
    exhaustive = False
    for b in builds:
        c.run(b, cases=n, secs=secs // len(builds))
    if prop == "C06":
        full = TWO if thorough else [RELEASE]
        for b in full:
            c.run(b, cmd="all-flags", workers=CPUS, secs=600)
        c.res.extra_distinct = c.res.counts.get("words (all)", 0) // len(full)
        exhaustive = not c.res.violations
    if prop == "C12":
        for b in TWO:
            c.run(b, cmd="os-random", cases=400_000 if thorough else 40_000, mono=True, secs=secs)
    if prop == "C17":
        for b in TWO:
            for k in range(6 if thorough else 2):
                for t in (2, 8, 24):
                    c.run(b, cmd="threads", cases=60_000 // t if thorough else 6_000 // t, workers=t, mono=True,
                          seed=seed * 1000 + 10 * k + t)
        for k in range(20 if thorough else 2):
            c.run(TSAN, cmd="threads", cases=1_500 if thorough else 200, workers=8, mono=True, seed=seed * 1000 + 100 + k)
        miri_threads(c, 60 if thorough else 8, secs=400 if thorough else 60)
    if prop == "C28":
        for b in TWO:
            for t in (2, 8, 24):
                c.run(b, cmd="threads", cases=8_000 if thorough else 600, workers=t, mono=True, seed=seed * 1000 + t)
        c.run(TSAN, cmd="threads", cases=4_000 if thorough else 250, workers=8, mono=True, seed=seed * 1000 + 100)
        miri_threads(c, 40 if thorough else 8, secs=300 if thorough else 40, cases=6)
    if prop == "C21":
        c.run(ASAN, cases=6_000_000 if thorough else 400_000, secs=300 if thorough else 25, only_sanitizer=True)
        c.run(MSAN, cases=6_000_000 if thorough else 400_000, secs=300 if thorough else 25, only_sanitizer=True)
        c.run(MIRI, cases=1_000_000, secs=1200 if thorough else 60, only_sanitizer=True)
        if thorough:
            c.run(ASAN_RELEASE, cases=6_000_000, secs=300, only_sanitizer=True)
        miri_threads(c, 24 if thorough else 8, secs=300 if thorough else 40)
    if prop == "C25":
        c.run(WIN_ASAN, cases=2_000_000 if thorough else 60_000, secs=300 if thorough else 30)
        c.run(WIN_MIRI, cases=1_000_000, secs=600 if thorough else 40)
    pinned(c, builds)
    return c.finish(RULES[prop], "exploration", ASSUMPTIONS + EXTRA.get(prop, []), exhaustive)


def miri_threads(c, seeds, secs, cases=1):
    """Small concurrent workloads under Miri, each with another schedule"""
    t0 = time.time()

    def job(k):
        if time.time() - t0 > secs:
            return None
        a = ["threads", c.prop, "--seed", str(c.seed * 1000 + k), "--workers", "3", "--cases", str(cases)]
        env = c.env(MIRI, dict(MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-seed={c.seed * 1000 + k} -Zmiri-preemption-rate=0.05"))
        return k, a, c.one(MIRI, a, env, secs + 300)

    before = c.res.cases
    with cf.ThreadPoolExecutor(CPUS) as ex:
        done = [d for d in ex.map(job, range(seeds)) if d]
    for k, a, (rc, so, se, data, progress, fp) in done:
        c.take(MIRI, "threads", c.seed, 0, 3, a, rc, so, se, data, progress, fp, True,
               dict(MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-seed={c.seed * 1000 + k} -Zmiri-preemption-rate=0.05"))
    c.res.runs.append(dict(build="miri", campaign="threads", processes=len(done), schedules=len(done),
                           cases=c.res.cases - before, seconds=round(time.time() - t0, 1)))


def pinned(c, builds):
    """The inputs of the known findings: reported as such while they still fail"""
    c.res.pinned = []
    for e in known_findings(c.prop):
        b = builds[0]
        rc, so, se, *_ = c.one(b, ["pinned", e["input"]], c.env(b), 300)
        if rc == 1:
            c.res.pinned.append(f"{e['input']}: {e['what']}")
        elif rc != 0:
            c.res.errors.append(f"pinned input {e['input']}: exit status {rc}: {(so + se)[-500:]}")


ASSUMPTIONS = [
    "x86_64 Linux with glibc; the code is built from /repo's working tree with --cfg http_ntlm_verif",
    "the reference models and cryptography in /verif/harness/src (written from MS-NLMP, RFC 1320/1321/2104; self-tested on the published vectors at every start)",
]
EXTRA = {
    "C12": ["the kernel's random number generator is good; statistical thresholds leave a false alarm probability below 1e-8"],
    "C21": ["undefined behaviour is what Miri (Stacked Borrows), AddressSanitizer and MemorySanitizer report on executions, and strings that are not UTF-8"],
    "C25": ["src/win.rs and the bindings it uses are compiled for Linux (cfg http_ntlm_verif_win) over a stand-in for SSPI written from Microsoft's documentation; Windows' own behaviour is not observed"],
    "C28": ["data races are what Miri's and ThreadSanitizer's happens-before detectors report on executions"],
    "C31": ["memory is what passes the global allocator in the calling thread"],
    "C17": ["data races are what Miri's and ThreadSanitizer's happens-before detectors report on executions"],
}
HS = ("Histories of send_negociate/recv_challenge/send_authenticate on one or more clients: credentials from many character classes, "
      "lengths and literals of the sources; challenges with hostile, boundary and realistic flags and target information, built or decoded; "
      "random numbers and clock supplied by the harness. One evaluation is one AUTHENTICATE message judged; distinct messages (by content) are counted once. ")
RULES = {
    "C01": "Byte strings for every message and structure: random, mutated well-formed, truncated, hostile lengths and offsets, up to 70 kB; each decoded under a panic guard, an allocation meter and a processor time limit. Distinct by content.",
    "C02": "Well-formed messages in permuted, gapped, overlapping and shared layouts and corruptions of them, decoded by the library and by an independent decoder; values and verdicts compared. Distinct by content.",
    "C03": "Random consistent messages and structures: encoded, decoded, compared; random bytes that decode: re-encoded, decoded, compared. Distinct by content.",
    "C04": "Random messages and structures, and the messages of handshakes, encoded and audited byte by byte against an independently computed layout. Distinct by bytes.",
    "C05": "Random sequences of setters on new and decoded messages; all getters and flags compared with a model after every call. Distinct by final message.",
    "C06": "All 2^32 flag words: every bit tested, set and cleared; every 8th encoded and decoded, every 512th rendered; plus random words. Every word is distinct.",
    "C07": "Flag words (all combinations of the bits the rule is about, the others random) and reserved fields in all three messages, decoded with and without the strict feature. Distinct by message.",
    "C08": HS + "Levels 0-2.", "C09": HS + "Levels 3-5.", "C10": HS, "C11": HS,
    "C12": HS + "The random values are traced to the generator's output; in addition values of unscripted handshakes in many threads, forked and separate processes are collected for repetition and bias.",
    "C13": HS + "All messages, log records and captured output are searched for the secrets in several encodings.",
    "C14": HS + "Names up to the 16-bit limit.", "C15": HS + "Also each identity in both ways of creating a client.",
    "C16": HS + "Calls in any order.", "C17": HS + "Several clients interleaved, in one thread and in up to 24; ThreadSanitizer and Miri on the concurrent ones.",
    "C18": HS + "NEGOTIATE messages judged; levels above 5 included.", "C19": HS + "Levels 1-5; responses compared with all weaker ones.",
    "C20": "FILETIMEs and instants: boundary values, powers of two, before and after 1970 and 1601, random; converted and compared with 128-bit arithmetic; clock readings against a set clock. Distinct by value.",
    "C21": "The workloads of the other monitors on a smaller scale, under AddressSanitizer, MemorySanitizer and Miri; one evaluation is one execution judged by a sanitizer to its end. Distinct by content.",
    "C22": "Contents of the environment variables and of /etc/hostname (replaced through interposed open calls): absent, empty, not text, unreadable, long, with dots and white space; the resulting messages compared. Distinct by environment.",
    "C23": "Random messages encoded to a writer that accepts short pieces, is interrupted, or fails at a random byte; stream and result compared. Distinct by message and fault.",
    "C24": HS,
    "C26": HS + "Each message is decoded by the library and verified with its own types; besides, compute_mic on arbitrary messages.",
    "C27": "Messages, structures and clients with names, pairs, lists and responses of sizes around multiples of 2^16 (exact sizes, characters of 1 to 4 bytes); everything that is encoded is decoded independently. Distinct by message, or by what was refused.",
    "C28": "A value or byte string is encoded or decoded, something unrelated happens (other messages, handshakes, refusals, other environment, log level, memory, thread), and it is encoded or decoded again: bytes, values and texts compared; values shared by up to 24 threads, under ThreadSanitizer and Miri. Distinct by content.",
    "C30": "Every type of byte array, text, version, time, response, flag word and default; pairs of decoded values that are equal or nearly so. Distinct by contents.",
    "C31": "Decodings, encodings, handshakes and long-lived clients, succeeding and refused, repeated with an allocation meter before and after; files and threads of the process counted. Distinct by what is done.",
    "C25": "Random sequences of new/negotiate/challenge/drop on up to four Windows clients over a scripted SSPI: every status class, failures at every call, tokens of any length, garbage in outputs of failed calls; every call checked against a handle-lifetime and token-transfer model. Distinct by history.",
}


def replay(path):
    v = json.load(open(path))
    b = next(b for b in ALL if b.name == v["build"])
    b.ensure()
    c = Check(v["property"], "quick", 0)
    open(c.dict, "w").write(v["dictionary"])
    rc = 0
    tries = [v["args"]]
    if v["args"][0] == "run" and v["index"] is not None:
        seed = v["args"][v["args"].index("--seed") + 1]
        tries.insert(0, ["case", v["property"], "--seed", seed, "--index", str(v["index"])])
    for a in tries:
        rc, so, se, data, *_ = c.one(b, a, c.env(b, v["extra"]), 900)
        if (data and data["end"] == "violated") or SANITIZER.search(se) or (rc or 0) < 0 or rc == 97:
            print((data or {}).get("text") or (so + se)[-3000:])
            print(f"VIOLATION property={v['property']} replay={path}")
            rc = 1
            break
        rc = 0
    shutil.rmtree(c.tmp, ignore_errors=True)
    if rc == 0:
        print("does not happen (any more)")
    return rc


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        build_all([CHECKED, RELEASE])
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    return check(sys.argv[1], tier, seed)


if __name__ == "__main__":
    try:
        code = main()
    except CheckError as e:
        print(e, file=sys.stderr)
        code = 2
    sys.exit(code)
