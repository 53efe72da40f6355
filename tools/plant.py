#!/usr/bin/env python3
"""plant.py BUGS.py [ID...] : plants the bugs listed in BUGS.py into /repo one after another, keeps each under
seeded/<id>/ and reports whether it builds, passes the stable tests, is shown by its demo and is caught.
plant.py --again [ID...]    : the same for bugs already under seeded/.
A bug is dict(id, property, edits=[(file, old, new)], needs, breaks, demo)."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
DEMO_SH = '''#!/bin/bash
# Builds and runs demo.rs beside it against the crate as built from /repo.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" && cp /opt/vp/scope/Cargo.lock "$work/" || exit 2
cat > "$work/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
surfrs = { path = "/opt/vp/scope" }
chrono = { version = "0.4", features = ["serde"] }
serde_json = "1.0"
T
cd "$work" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}" timeout 280 cargo run -q --offline 2>&1 | grep -v -e '^warning' -e '^ *|' -e '^ *=' | tail -25
exit ${PIPESTATUS[0]}
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean():
    sh("git -C /repo checkout -- .")
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
def demo(d):
    e = dict(os.environ, DEMO_TARGET="/tmp/plant-target")
    return sh(f"bash {d}/demo.sh", cwd="/repo", env=e, timeout=400)
def write(b):
    d = os.path.join(SEEDED, b["id"]); os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        p = os.path.join("/repo", f); s = open(p).read()
        if s.count(old) != 1: raise SystemExit(f"{b['id']}: {s.count(old)} matches in {f} for {old!r}")
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    clean()
    open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(b["demo"].strip() + "\n")
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
def base_lines(d):
    """Whether a line taken away is one of the original repository."""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()[:7]
    cur, ok = None, False
    for l in open(d + "/patch.diff"):
        m = re.match(r"--- a/(.*)", l)
        if m: cur = m.group(1); continue
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-"):
            ok |= sh(f"git -C /repo blame -l -L{n},{n} HEAD -- {cur}").stdout.lstrip("^").startswith(base); n += 1
        elif l.startswith(" "): n += 1
    return ok
def evaluate(i):
    d = os.path.join(SEEDED, i); prop = json.load(open(d + "/meta.json"))["property"]; r = {}
    clean(); sh("bash /opt/vp/build.sh")
    x = demo(d); r["demo clean"] = x.returncode
    if x.returncode: print(x.stdout)
    r["original lines"] = base_lines(d)
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: return print(i, "DOES NOT APPLY", a.stdout)
    try:
        b = sh("bash /opt/vp/build.sh"); r["build"] = b.returncode
        if b.returncode: print(b.stdout[-3000:])
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        t = json.load(open("/tmp/plant.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        lost = [s for s in st if s not in t["passed"]]; r["tests lost"] = lost
        x = demo(d); r["demo planted"] = x.returncode; r["demo says"] = x.stdout.strip()[-300:]
        c = sh(f"./check {prop} quick", cwd=HERE, timeout=1000); r["check"] = c.returncode
        r["violation"] = "\n".join(l[:300] for l in c.stdout.splitlines() if "VIOLATION" in l or "ERROR" in l) or c.stdout[-300:]
    finally:
        clean()
    good = r["demo clean"] == 0 and r["build"] == 0 and not lost and r["demo planted"] not in (0, 2) and r["original lines"]
    print(f"{i}: {'valid' if good else 'INVALID'} {'CAUGHT' if r['check'] == 1 else 'MISSED'} by {prop}" + ("" if good and r["check"] == 1 else "\n  " + json.dumps(r)[:1500]), flush=True)
    if good and r["check"] == 1: print("    ", r["violation"].splitlines()[-1][:230], flush=True)
if sys.argv[1] == "--again":
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
else:
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    clean()
    for b in bugs: write(b)
    ids = [b["id"] for b in bugs]
for i in ids: evaluate(i)
clean(); sh("bash /opt/vp/build.sh")
