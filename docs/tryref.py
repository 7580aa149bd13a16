"""Apply an edit to a scratch copy of /repo, run the stable tests if asked, and run checks there (development only).
usage: tryref.py <module:id> [--test] [props...]"""
import os, shutil, subprocess, sys, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def scratch(id, edits):
    d = "/tmp/ref-%s" % id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call("cd / && tar cf - --exclude=target --exclude=.git repo | tar xf - -C %s" % d, shell=True)
    for f, a, b in edits:
        p = os.path.join(d, "repo", f)
        s = open(p).read()
        assert s.count(a) >= 1, (f, a)
        open(p, "w").write(s.replace(a, b))
    return d


def main():
    mod, id = sys.argv[1].split(":")
    test = "--test" in sys.argv
    props = [x for x in sys.argv[2:] if not x.startswith("--")]
    M = importlib.import_module(mod)
    e = next(x for x in (M.REFS if hasattr(M, "REFS") else M.BUGS) if x["id"] == id)
    d = scratch(id, e["edits"])
    if test:
        r = subprocess.run("cd %s/repo && cargo test --offline --all 2>&1 | grep -E 'test result|FAILED|failed|error' | sort | uniq -c | head -20" % d, shell=True, capture_output=True, text=True)
        print(r.stdout)
    for c in props:
        env = dict(os.environ, VX_REPO=d + "/repo", VX_EVID=d)
        r = subprocess.run(["timeout", "900", "python3", "check.py", c, "quick"], cwd="/verif", env=env, capture_output=True, text=True)
        out = [l for l in (r.stdout + r.stderr).splitlines() if not l.startswith("  undecided") or "already found" not in l]
        print(id, c, "exit", r.returncode)
        for l in out[-(14 if r.returncode else 6):]:
            print("   ", l[:330])
    shutil.rmtree(d, ignore_errors=True)


main()
