"""Builds the rustc driver and extracts the facts of /repo's current tree."""
import fcntl
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HASTUR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(BUILD, "driver", "debug", "hastur-facts")
TARGET = os.path.join(BUILD, "facts-target")
FACTS = os.path.join(BUILD, "facts.json")


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                          env=e).stdout.strip()
    e["LD_LIBRARY_PATH"] = os.path.join(root, "lib")
    return e


def build_driver(env):
    e = dict(env)
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=os.path.join(VERIF, "driver"), env=e,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("driver: " + r.stderr[-2000:])


def _forget():
    for sub in (".fingerprint", "build", "incremental"):
        d = os.path.join(TARGET, "debug", sub)
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n == "hastur" or n.startswith("hastur-"):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def extract(env):
    e = dict(env)
    e["RUSTFLAGS"] = "-A semicolon_in_expressions_from_macros"
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    e["HASTUR_FACTS_OUT"] = FACTS
    last = ""
    for attempt in (0, 1):
        if os.path.exists(FACTS):
            os.remove(FACTS)
        if attempt:
            shutil.rmtree(TARGET, ignore_errors=True)
        _forget()
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=REPO, env=e,
                           capture_output=True, text=True)
        last = r.stderr
        if r.returncode == 0 and os.path.exists(FACTS) and os.path.getsize(FACTS) > 1000:
            return
    raise BuildError("facts: " + last[-3000:])


def prepare():
    """Rebuild driver and facts from the current trees; returns the loaded program."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lock_before = None
        lockfile = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lockfile):
            lock_before = open(lockfile, "rb").read()
        env = _env()
        build_driver(env)
        extract(env)
        if lock_before is not None and open(lockfile, "rb").read() != lock_before:
            open(lockfile, "wb").write(lock_before)
        from .mir import Prog
        return Prog(FACTS)


if __name__ == "__main__":
    t = time.time()
    p = prepare()
    print("driver and facts ready: %d functions (%d local), %d types, %.1f s" %
          (len(p.fns), len(p.local), len(p.types), time.time() - t))
