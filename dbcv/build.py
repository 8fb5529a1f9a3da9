"""Scratch build: copies /repo's tracked and untracked source files, replaces the two git dependencies that are not
available offline by the signature-only crates in /verif/stubs, and lets rustc emit the MIR of the crate."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DBCV_REPO", "/repo")
BASE_TARGET = "/opt/vp/mirror/target"
PROGRAM = "programs/dynamic-bonding-curve"
SDK = "dynamic-bonding-curve-sdk"
SKIP = {".git", "target", "node_modules", ".anchor", "test-ledger", ".yarn"}
SKIP_TOP = {"tests", "scripts", ".github"}
STUBBED = ("protocol-zap", "unchecked_account")


class BuildError(Exception):
    pass


def env(target):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=target)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("CARGO_BUILD_TARGET", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "VIRTUAL_ENV"):
        e.pop(k, None)
    return e


def cut_lock(text):
    """drops packages that come from git and every mention of them (cargo then adds the stand-ins)"""
    head, *packages = re.split(r"(?m)^(?=\[\[package\]\]$)", text)
    gone, kept = set(), []
    for p in packages:
        name = re.search(r'^name = "(.*)"$', p, re.M)[1]
        if re.search(r'^source = "git\+', p, re.M):
            gone.add(name)
        else:
            kept.append(p)
    mention = re.compile(r'^ "(%s)(?: [^"]*)?",\n' % "|".join(map(re.escape, gone or {"-"})), re.M)
    return head + "".join(mention.sub("", p) for p in kept)


class Scratch:
    def __init__(self, keep=None):
        self.dir = keep or tempfile.mkdtemp(prefix="dbcv-")
        self.src = os.path.join(self.dir, "src")
        self.target = os.path.join(self.dir, "target")
        self.stubs = os.path.join(self.dir, "stubs")
        self.keep = keep is not None
        self.log = []

    def close(self):
        if not self.keep and os.path.isdir(self.dir) and os.path.basename(self.dir).startswith("dbcv-"):
            shutil.rmtree(self.dir, ignore_errors=True)

    def copy_sources(self):
        if os.path.isdir(self.src):
            shutil.rmtree(self.src)
        for top, dirs, files in os.walk(REPO):
            rel = os.path.relpath(top, REPO)
            dirs[:] = sorted(d for d in dirs if d not in SKIP and not (rel == "." and d in SKIP_TOP))
            for f in files:
                if not f.endswith((".rs", ".toml", ".lock", ".json", ".bin", ".so")) and not rel.startswith(("programs", "libs", SDK, "idls")):
                    continue
                d = os.path.join(self.src, rel)
                os.makedirs(d, exist_ok=True)
                shutil.copyfile(os.path.join(top, f), os.path.join(d, f))
        shutil.copytree(os.path.join(VERIF, "stubs"), self.stubs, dirs_exist_ok=True)
        for top, dirs, files in os.walk(self.src):
            if "Cargo.toml" in files:
                p = os.path.join(top, "Cargo.toml")
                t = open(p).read()
                n = re.sub(r"^(%s)[ \t]*=.*$" % "|".join(STUBBED), lambda m: '%s = { path = "%s/%s" }' % (m[1], self.stubs, m[1]), t, flags=re.M)
                if n != t:
                    open(p, "w").write(n)
        p = os.path.join(self.src, "Cargo.lock")
        t = open(p).read()
        open(p, "w").write(cut_lock(t))

    def cargo(self, args, cwd=None, timeout=600):
        t0 = time.time()
        r = subprocess.run(["cargo"] + args, cwd=cwd or self.src, env=env(self.target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        self.log.append({"cmd": "cargo " + " ".join(args), "rc": r.returncode, "secs": round(time.time() - t0, 1)})
        return r

    def prepare(self):
        self.copy_sources()
        if not os.path.isdir(self.target):
            if os.path.isdir(BASE_TARGET):
                subprocess.run(["cp", "-a", "--reflink=auto", BASE_TARGET, self.target], check=True)
            else:
                os.makedirs(self.target)

    def emit(self, package, stem):
        deps = os.path.join(self.target, "debug", "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.startswith(stem) and f.endswith(".mir"):
                    os.unlink(os.path.join(deps, f))
        # the source directory is new, so cargo always recompiles the crate
        r = self.cargo(["rustc", "-p", package, "--lib", "--offline", "--", "--emit=mir"])
        if r.returncode:
            raise BuildError("rustc failed on %s:\n%s" % (package, "\n".join(
                re.findall(r"^error.*(?:\n.*){0,6}", r.stdout, re.M))[-3000:] or r.stdout[-3000:]))
        for f in sorted(os.listdir(deps)):
            if re.fullmatch(stem + r"(-[0-9a-f]+)?\.mir", f):
                return os.path.join(deps, f)
        raise BuildError("no MIR emitted for %s" % package)


class Ctx:
    """Parsed program of the current tree."""

    def __init__(self, scratch, sdk=False):
        from .engine import Program
        from .mir import Mir
        from .src import Sources
        self.scratch = scratch
        t0 = time.time()
        scratch.prepare()
        path = scratch.emit("dynamic-bonding-curve", "dynamic_bonding_curve")
        mirs = []
        dirs = [PROGRAM] + ([SDK] if sdk else [])
        self.sources = Sources(scratch.src, [d for d in dirs])
        mirs.append(Mir(path, "dynamic_bonding_curve", self.sources.renames))
        self.mir_sha = hashlib.sha256(open(path, "rb").read()).hexdigest()
        if sdk:
            p2 = scratch.emit("dynamic-bonding-curve-sdk", "dynamic_bonding_curve_sdk")
            mirs.append(Mir(p2, "dynamic_bonding_curve_sdk", self.sources.renames))
        self.prog = Program(mirs, self.sources)
        self.checks = self.check_profile()
        self.build_secs = time.time() - t0

    def check_profile(self):
        """facts about the shipped build that the proofs rely on"""
        t = open(os.path.join(self.scratch.src, "Cargo.toml")).read()
        m = re.search(r"\[profile\.release\](.*?)(?=^\[|\Z)", t, re.S | re.M)
        return {"release overflow-checks": bool(m and re.search(r"^overflow-checks\s*=\s*true", m.group(1), re.M))}
