#!/usr/bin/env python3
"""Runs checks against a changed /repo without touching it: overlays of /repo and /verif in a private mount namespace.

    trial.py [-j N] [-s SEED] [-t TIER] seeded/<id>..       the property's check against planted bugs
    trial.py --patch FILE C01 C02..  (or: all)              checks against a patch (refactorings: all must stay quiet)
    trial.py --bugs MODULE [ids..]                          checks against the edits of a module BUGS = {id: dict(property, edits)}
"""
import concurrent.futures, importlib.util, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def overlay(job, props, change, seed="1", tier="quick"):
    """change: shell commands run in /repo; yields (prop, rc, seconds, last lines)"""
    d = tempfile.mkdtemp(prefix="trial-", dir="/tmp")
    res = []
    try:
        for x in ("ru", "rw", "vu", "vw"):
            os.mkdir(f"{d}/{x}")
        script = f"""set -e
mount --make-rprivate /
mount -t overlay overlay -o lowerdir=/repo,upperdir={d}/ru,workdir={d}/rw /repo
mount -t overlay overlay -o lowerdir={HERE},upperdir={d}/vu,workdir={d}/vw {HERE}
cd /repo
{change}
cd {HERE}
export VERIF_SEED={seed} VERIF_TIER={tier}
set +e
for p in {' '.join(props)}; do
  s=$(date +%s); python3 check.py $p > {d}/$p.out 2>&1; echo $? $(( $(date +%s) - s )) > {d}/$p.rc
done
"""
        r = subprocess.run(["unshare", "-m", "bash", "-c", script], capture_output=True, text=True)
        if r.returncode:
            return [(p, -1, 0, r.stderr[-600:]) for p in props]
        for p in props:
            rc, s = open(f"{d}/{p}.rc").read().split()
            out = open(f"{d}/{p}.out", errors="replace").read()
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            res.append((p, int(rc), int(s), (v[0] if v else "") + "\n" + out[-1500:]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    a = sys.argv[1:]
    opt = {"-j": "2", "-s": "1", "-t": "quick"}
    while a and a[0] in opt:
        opt[a[0]] = a[1]
        a = a[2:]
    every = [c["property_id"] if "property_id" in c else c.get("property") for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
    jobs = []
    if a[0] == "--patch":
        props = every if a[2:] == ["all"] else a[2:]
        n = int(opt["-j"])
        for i in range(n):
            if props[i::n]:
                jobs.append((f"patch{i}", props[i::n], f"git apply {os.path.abspath(a[1])}"))
    elif a[0] == "--bugs":
        spec = importlib.util.spec_from_file_location("bugs", a[1])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for id, b in m.BUGS.items():
            if a[2:] and id not in a[2:]:
                continue
            e = tempfile.NamedTemporaryFile("w", suffix=".py", delete=False, dir="/tmp")
            e.write("edits = " + repr(b["edits"]) + "\nfor f, o, n in edits:\n s = open(f).read()\n assert s.count(o) == 1, (f, s.count(o), o)\n open(f, 'w').write(s.replace(o, n))\n")
            e.close()
            jobs.append((id, b["property"].split(), f"python3 {e.name}"))
    else:
        for x in a:
            x = x.rstrip("/").split("/")[-1]
            meta = json.load(open(f"{HERE}/seeded/{x}/meta.json"))
            jobs.append((x, [meta["property"]], f"git apply {HERE}/seeded/{x}/patch.diff"))
    with concurrent.futures.ThreadPoolExecutor(int(opt["-j"])) as ex:
        futs = {ex.submit(overlay, j, p, c, opt["-s"], opt["-t"]): j for j, p, c in jobs}
        for f in concurrent.futures.as_completed(futs):
            for p, rc, s, out in f.result():
                first, _, tail = out.partition("\n")
                print(f"{futs[f]} {p} rc={rc} {s}s {first[:200]}", flush=True)
                if rc not in (0, 1):
                    print("   " + tail[-1200:].replace("\n", "\n   "), flush=True)
main()
