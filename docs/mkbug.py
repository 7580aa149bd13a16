"""Development tool: verify a planted bug (python3 mkbug.py ID...) defined in bugs.py, and write /verif/seeded/<ID>/."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc/repo"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits 0 when the property holds for this input, nonzero when it does not
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
blake2b_simd = { path = "$repo/blake2b" %(feat)s}
blake2s_simd = { path = "$repo/blake2s" %(feat)s}
%(deps)s
[profile.release]
debug-assertions = true
overflow-checks = true
EOT
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null || true
export PATH=/root/.cargo/bin:$PATH HOME=/root CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings %(rf)s"
cd "$d" && cargo build --release --offline --target-dir "$d/t" >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 3; }
%(run)s
'''


def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def setup():
    if os.path.exists(SC):
        return
    os.makedirs("/tmp/sc/vp", exist_ok=True)
    sh("cp -a /repo /tmp/sc/")
    for f in ("build.sh", "test.sh", "results.py", "BASELINE.json"):
        t = open("/opt/vp/" + f).read().replace("/repo", SC).replace("/opt/vp", "/tmp/sc/vp")
        open("/tmp/sc/vp/" + f, "w").write(t)


def main():
    import bugs
    setup()
    for b in bugs.BUGS:
        if len(sys.argv) > 1 and b["id"] not in sys.argv[1:]:
            continue
        out = os.path.join(ROOT, "seeded", b["id"])
        if len(sys.argv) == 1 and os.path.exists(out + "/meta.json"):
            continue
        sh("git checkout -q -- .", SC)
        tmp = "/tmp/sc/bug-" + b["id"]
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        ok = True
        for path, old, new in b["edits"]:
            p = os.path.join(SC, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), path)
                ok = False
            s = s.replace(old, new)
            open(p, "w").write(s)
        if not ok:
            continue
        diff = sh("git diff", SC).stdout
        open(tmp + "/patch.diff", "w").write(diff)
        if "demo_sh" in b:
            open(tmp + "/demo.sh", "w").write(b["demo_sh"])
        else:
            open(tmp + "/main.rs", "w").write(b["main"])
            open(tmp + "/demo.sh", "w").write(DEMO % {"feat": b.get("feat", ""), "deps": b.get("deps", ""), "rf": b.get("rf", ""), "run": b.get("run", '"$d/t/release/demo"')})
        for n, t in b.get("files", {}).items():
            open(tmp + "/" + n, "w").write(t)
        os.chmod(tmp + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        r = sh("bash /tmp/sc/vp/build.sh", timeout=900)
        if r.returncode:
            print(b["id"], "BUILD FAILS", r.stdout[-1500:])
            continue
        sh("bash /tmp/sc/vp/test.sh /tmp/sc/out.json")
        o = json.load(open("/tmp/sc/out.json"))
        passed = set(o.get("passed", []))
        miss = stable() - passed
        if miss:
            print(b["id"], "TESTS FAIL", len(miss), sorted(miss)[:3])
            continue
        r1 = sh("bash %s/demo.sh" % tmp, SC, timeout=600)
        sh("git checkout -q -- .", SC)
        r0 = sh("bash %s/demo.sh" % tmp, SC, timeout=600)
        if r1.returncode == 0 or r0.returncode != 0:
            print(b["id"], "DEMO bad: patched", r1.returncode, "clean", r0.returncode, r1.stdout[-300:], r0.stdout[-600:])
            continue
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(b["id"], "OK", r1.stdout[-150:].strip().replace("\n", " | "))
    sh("git checkout -q -- .", SC)


main()
