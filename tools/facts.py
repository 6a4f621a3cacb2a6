"""Builds the fact base: the type-checked program (MIR) of every crate in /repo, from its working tree.

The driver (driver/main.rs) is injected as RUSTC_WRAPPER under `cargo +nightly check`; nothing of /repo is run
(except its proc-macro crate, which the compiler itself loads to expand derives).
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CRATES = ["ink_analyzer_ir", "ink_analyzer", "ink_lsp_server", "ink_analyzer_macro"]
UNITS = ["ink_analyzer_ir.lib", "ink_analyzer.lib", "ink_lsp_server.lib", "ink_lsp_server.bin",
         "ink_analyzer_macro.lib"]


class BuildError(Exception):
    pass


def _h(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def _sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git", "node_modules")]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock", ".md", ".json")) or f == "rust-toolchain":
                out.append(os.path.join(root, f))
    return out


def _env():
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True)
    if sysroot.returncode:
        raise BuildError("nightly toolchain not available: " + sysroot.stderr)
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = sysroot.stdout.strip() + "/lib"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def _driver(env):
    src = os.path.join(VERIF, "driver", "main.rs")
    tag = _h([src])[:16]
    out = os.path.join(BUILD, "driver-" + tag)
    if not os.path.exists(out):
        r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", out + ".tmp"], env=env,
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("driver does not build:\n" + r.stderr)
        os.rename(out + ".tmp", out)
    return out


def _stdx():
    """ra_ap_stdx 0.0.199 casts `*mut dyn CloneAny` to `*mut dyn Any + Send`, which the nightly compiler rejects;
    read it from a copy in which that one cast is a transmute (third-party code, not analysed)."""
    c = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/ra_ap_stdx-0.0.199"))
    if not c:
        return None
    dst = os.path.join(BUILD, "stdx")
    if not os.path.exists(os.path.join(dst, "done")):
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(c[0], dst)
        p = os.path.join(dst, "src", "anymap.rs")
        s = open(p).read()
        s = s.replace("unsafe { Box::from_raw(raw as *mut $t) }",
                      "unsafe { Box::from_raw(std::mem::transmute::<*mut dyn CloneAny, *mut $t>(raw)) }")
        open(p, "w").write(s)
        open(os.path.join(dst, "done"), "w").close()
    return os.path.join(dst, "src", "lib.rs")


def ensure():
    """Returns the directory with the fact files of the current working tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = _h(_sources() + [os.path.join(VERIF, "driver", "main.rs")])[:24]
        out = os.path.join(BUILD, "facts", key)
        if all(os.path.exists(os.path.join(out, u + ".json")) for u in UNITS):
            os.utime(out)
            return out
        env = _env()
        drv = _driver(env)
        sub = _stdx()
        # keep the newest fact bases only
        old = sorted(glob.glob(os.path.join(BUILD, "facts", "*")), key=os.path.getmtime)
        for d in old[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        target = os.path.join(BUILD, "target")
        # cargo's freshness cache would skip the driver: forget every workspace unit (old and new target layouts)
        for pat in (".fingerprint/ink[-_]*", "build/ink[-_]*", "deps/*ink_*", "deps/*ink-*"):
            for d in glob.glob(os.path.join(target, "*", pat)):
                if os.path.isdir(d):
                    shutil.rmtree(d, ignore_errors=True)
                else:
                    os.unlink(d)
        env.update(CARGO_TARGET_DIR=target, FACTS_OUT=out, FACTS_CRATES=",".join(CRATES), RUSTC_WRAPPER=drv,
                   CARGO_INCREMENTAL="0")
        if sub:
            env["FACTS_SUBST"] = "ra_ap_stdx=" + sub
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--locked", "-p", "ink-analyzer-ir", "-p",
                            "ink-analyzer", "-p", "ink-lsp-server", "-p", "ink-analyzer-macro"], cwd=REPO, env=env,
                           capture_output=True, text=True)
        missing = [u for u in UNITS if not os.path.exists(os.path.join(out, u + ".json"))]
        if r.returncode or missing:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError("cannot extract the program of %s (missing: %s):\n%s" % (REPO, missing, r.stderr[-4000:]))
        return out


def load():
    d = ensure()
    crates = {}
    for u in UNITS:
        with open(os.path.join(d, u + ".json")) as f:
            crates[u] = json.load(f)
    return crates


if __name__ == "__main__":
    try:
        print(ensure())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
