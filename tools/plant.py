#!/usr/bin/env python3
"""Plants a bug: makes /verif/seeded/<id> from edits, and confirms it in a scratch copy of /repo.

    plant.py bugs.py [ids..]     bugs.py: a module with BUGS = {id: dict(property, needs, breaks, edits, demo)}
    plant.py --try [ids..]       runs the property's check against planted bugs (applies to /repo and reverts)
"""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
BASE = "6c2811c"
DEMO_SH = """#!/bin/bash
# builds a small program against the crate in the current directory and runs it; all output in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/Cargo.lock" "$d/Cargo.lock" || exit 99
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
strict = ["http-ntlm/strict"]
[dependencies]
http-ntlm = { path = "$repo" }
log = "0.4"
hmac = "0.12"
md-5 = "0.10"
md4 = "0.10"
des = "0.8"
rc4 = "0.1"
EOF
cd "$d" || exit 99
export RUSTFLAGS="--cfg http_ntlm_verif" CARGO_TARGET_DIR="$d/target"
unset CARGO_BUILD_TARGET
cargo build --offline -q @FEAT@ 2>"$d/err" || { tail -30 "$d/err"; exit 98; }
@RUN@
"""
# the Windows client: with a scripted SSPI (sspi.rs) and the module compiled for this system
WIN_SH = DEMO_SH.replace("""[features]
strict = ["http-ntlm/strict"]
[dependencies]
http-ntlm = { path = "$repo" }
log = "0.4"
hmac = "0.12"
md-5 = "0.10"
md4 = "0.10"
des = "0.8"
rc4 = "0.1"
""", """[lib]
name = "http_ntlm"
path = "$repo/src/lib.rs"
[[bin]]
name = "demo"
path = "src/main.rs"
[features]
strict = []
[dependencies]
nom = "7"
log = "0.4"
env_logger = "0.9"
rand = { version = "0.8", features = ["getrandom"] }
des = "0.8"
md4 = "0.10"
md-5 = "0.10"
hmac = "0.12"
rc4 = "0.1"
anyhow = "1"
hex = "0.4"
windows = { version = "0.43", features = ["Win32_Security_Authentication_Identity", "Win32_Foundation", "Win32_Security_Credentials"] }
""").replace("--cfg http_ntlm_verif", "--cfg http_ntlm_verif_win -Awarnings").replace('cp "$here/Cargo.lock"', 'cp "$here/sspi.rs" "$d/src/" && cp "$here/Cargo.lock"')
def run(cmd, cwd=None, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, capture_output=True, text=True, errors="replace")

def original_lines(f):
    out = run(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", f], cwd="/repo").stdout.splitlines()
    return [l.lstrip("^").startswith(BASE) for l in out]

def plant(id, b):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    tree = d + "/repo"
    try:
        run(["git", "worktree", "prune"], cwd="/repo")
        shutil.copytree("/repo", tree, ignore=shutil.ignore_patterns("target"))
        touched = False
        for f, old, new in b["edits"]:
            p = os.path.join(tree, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], cwd=tree).stdout
        # at least one removed line must be the original author's
        for f in {e[0] for e in b["edits"]}:
            orig = original_lines(f)
            for h in re.finditer(r"^@@ -(\d+)", run(["git", "diff", "-U0", "--", f], cwd=tree).stdout, re.M):
                pass
            n = None
            for line in run(["git", "diff", "-U0", "--", f], cwd=tree).stdout.splitlines():
                m = re.match(r"@@ -(\d+)(?:,(\d+))?", line)
                if m:
                    n = int(m.group(1))
                elif line.startswith("-") and not line.startswith("---"):
                    touched |= orig[n - 1]
                    n += 1
        assert touched, id + ": changes no line of the original"
        t = run(["cargo", "test", "--offline", "--lib"], cwd=tree, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/w/plant-target"))
        stable = json.load(open("/opt/vp/BASELINE.json"))
        names = stable if isinstance(stable, list) else stable.get("stable") or stable.get("passed") or stable.get("stable_tests")
        passed = set(re.findall(r"^test (\S+) \.\.\. ok", t.stdout, re.M))
        missing = [n for n in names if not any(n.endswith(p) or p.endswith(n) for p in passed)]
        assert not missing, (id, "tests fail", missing, t.stdout[-500:], t.stderr[-1500:])
        out = os.path.join(SEEDED, id)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.rs", "w").write(b["demo"])
        win = b["property"] == "C25"
        if win:
            shutil.copy(os.path.join(HERE, "win/src/sspi.rs"), out + "/sspi.rs")
        sh = (WIN_SH if win else DEMO_SH).replace("@FEAT@", b.get("features", "")).replace("@RUN@", b.get("run", '"$d/target/debug/demo"'))
        open(out + "/demo.sh", "w").write(sh)
        os.chmod(out + "/demo.sh", 0o755)
        shutil.copy(os.path.join(HERE, "win/Cargo.lock" if win else "tools/demo.lock"), out + "/Cargo.lock")
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        clean = run([out + "/demo.sh"], cwd="/repo")
        bad = run([out + "/demo.sh"], cwd=tree)
        if clean.returncode != 0 or bad.returncode in (0, 98, 99):
            shutil.rmtree(out)
            return f"{id}: demo clean {clean.returncode} {clean.stdout[-800:]}{clean.stderr[-500:]} patched {bad.returncode} {bad.stdout[-800:]}{bad.stderr[-500:]}"
        return f"{id}: planted ({(bad.stdout + bad.stderr).strip()[-150:]!r})"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def attempt(id):
    prop = json.load(open(os.path.join(SEEDED, id, "meta.json")))["property"]
    if run(["git", "status", "--porcelain"], cwd="/repo").stdout.strip():
        sys.exit("/repo is not clean")
    a = run(["git", "apply", os.path.join(SEEDED, id, "patch.diff")], cwd="/repo")
    try:
        assert a.returncode == 0, a.stderr
        t = time.time()
        r = run([sys.executable, "check.py", prop], cwd=HERE, timeout=1500)
        text = next((l for l in r.stdout.splitlines() if l.startswith(prop + ":")), (r.stdout + r.stderr)[-300:])
        caught = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
        return f"{id}: {'caught' if caught else 'MISSED rc=%d' % r.returncode} in {time.time()-t:.0f} s: {text[:220]}"
    finally:
        run(["git", "checkout", "--", "."], cwd="/repo")

if __name__ == "__main__":
    if sys.argv[1] == "--try":
        for id in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            print(attempt(id), flush=True)
    else:
        spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for id in sys.argv[2:] or m.BUGS:
            try:
                print(plant(id, m.BUGS[id]), flush=True)
            except AssertionError as e:
                print("FAILED", str(e)[:1500], flush=True)
