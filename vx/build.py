"""Builds the compiler wrapper and dumps the resolved program from /repo's current working tree."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from .load import Prog

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
TOOL = "+nightly"


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_sys = [None]


def sysroot():
    if _sys[0] is None:
        _sys[0] = run(["rustc", TOOL, "--print", "sysroot"]).stdout.strip()
    return _sys[0]


def builddir():
    d = os.path.join(ROOT, "build")
    os.makedirs(d, exist_ok=True)
    return d


_work = [None]


def workdir():
    """a directory of this run, removed at its end by cleanup()"""
    if _work[0] is None:
        _work[0] = (os.getpid(), tempfile.mkdtemp(prefix="run-", dir=builddir()))
    return _work[0][1]


def cleanup():
    if _work[0] is not None and _work[0][0] == os.getpid():
        shutil.rmtree(_work[0][1], ignore_errors=True)


def driver():
    src = os.path.join(ROOT, "driver", "dump.rs")
    ver = run(["rustc", TOOL, "-vV"]).stdout
    h = hashlib.sha256(open(src, "rb").read() + ver.encode()).hexdigest()[:16]
    out = os.path.join(builddir(), "vdump-" + h)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = run(["rustc", TOOL, "--edition", "2021", "-O", "-Awarnings", src, "-o", tmp])
        if r.returncode:
            raise BuildError("compiler wrapper: " + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def dump(crate="vharness", manifest=None, features=(), no_default=False, target=None, cfgs=(), rustflags="", keep=None, build_std=False, bodies=None):
    """-> path of the JSON dump of `crate` built from the tree as it is now"""
    drv = driver()
    d = tempfile.mkdtemp(prefix="dump-", dir=workdir())
    try:
        out = os.path.join(d, "dump.json")
        env = dict(os.environ)
        env.update(VDUMP_CRATE=crate, VDUMP_OUT=out, RUSTC_WRAPPER=drv, LD_LIBRARY_PATH=sysroot() + "/lib",
                   RUSTFLAGS=("-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings " + " ".join("--cfg " + c for c in cfgs) + " " + rustflags).strip(),
                   CARGO_NET_OFFLINE="true")
        if bodies:
            env["VDUMP_BODIES"] = bodies
        cmd = ["cargo", TOOL, "check", "--offline", "--target-dir", os.path.join(d, "t")]
        if manifest is None:
            # a copy, so that nothing is written next to the committed harness
            h = os.path.join(d, "harness")
            shutil.copytree(os.path.join(ROOT, "harness"), h, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
            manifest = os.path.join(h, "Cargo.toml")
            if REPO != "/repo":
                t = open(manifest).read().replace('"/repo/', '"%s/' % REPO)
                open(manifest, "w").write(t)
        elif os.path.isdir(manifest):
            # a package of the repository: a copy again, because cargo writes a lock file next to the manifest
            h = os.path.join(d, "pkg")
            shutil.copytree(manifest, h, ignore=shutil.ignore_patterns("target"))
            manifest = os.path.join(h, "Cargo.toml")
            t = open(manifest).read().replace('"../', '"%s/' % REPO)
            open(manifest, "w").write(t + "\n[workspace]\n")
        # cargo may not write a lock file next to a manifest inside the repository
        cmd += ["--manifest-path", manifest]
        if no_default:
            cmd.append("--no-default-features")
        if features:
            cmd += ["--features", ",".join(features)]
        if build_std:
            cmd.append("-Zbuild-std=core")
        if target:
            cmd += ["--target", target]
        r = run(cmd, env=env)
        if r.returncode or not os.path.exists(out):
            raise BuildError(r.stdout[-4000:])
        p = Prog(out)
        c = run(["rustc", TOOL, "--print", "cfg"] + rustflags.split() + (["--target", target] if target else [])).stdout
        p.features = frozenset(l.split('"')[1] for l in c.splitlines() if l.startswith("target_feature="))
        p.ptr = 4 if 'target_pointer_width="32"' in c else 8
        p.big = 'target_endian="big"' in c
        if keep:
            shutil.copy(out, keep)
        return p
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(name, cfgs=(), rustflags="", args=(), sysroot_dir=None):
    """compile a crate of /verif against the tree as it is now -> (ok, compiler output)"""
    d = tempfile.mkdtemp(prefix="check-", dir=workdir())
    try:
        h = os.path.join(d, "w")
        shutil.copytree(os.path.join(ROOT, name), h, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        m = os.path.join(h, "Cargo.toml")
        if REPO != "/repo":
            t = open(m).read().replace('"/repo/', '"%s/' % REPO)
            open(m, "w").write(t)
        fl = " ".join("--cfg " + c for c in cfgs) + " " + rustflags
        if sysroot_dir == "core":
            fl += " --sysroot " + core_sysroot(d)
        env = dict(os.environ, RUSTFLAGS=("-Awarnings " + fl).strip(), CARGO_NET_OFFLINE="true")
        env.pop("RUSTC_WRAPPER", None)
        r = run(["cargo", TOOL, "check", "--offline", "--target-dir", os.path.join(d, "t"), "--manifest-path", m] + list(args), env=env)
        return r.returncode == 0, r.stdout.replace(d, "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def core_sysroot(d):
    """a compiler library directory that holds core and nothing else"""
    host = [l.split()[1] for l in run(["rustc", TOOL, "-vV"]).stdout.splitlines() if l.startswith("host:")][0]
    src = os.path.join(sysroot(), "lib", "rustlib", host, "lib")
    dst = os.path.join(d, "sr", "lib", "rustlib", host, "lib")
    os.makedirs(dst)
    for f in os.listdir(src):
        if f.startswith(("libcore-", "libcompiler_builtins-")):
            os.symlink(os.path.join(src, f), os.path.join(dst, f))
    return os.path.join(d, "sr")
