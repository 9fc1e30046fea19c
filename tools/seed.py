"""Development aid: python3 tools/seed.py DEF.py...  Plants a bug in a scratch copy of /repo, confirms that it builds, passes
the stable tests and fails its demonstration, and writes seeded/<id>/. DEF.py sets prop, edits=[(file, old, new)...],
demo (Rust, using the helpers below), needs, breaks."""
import json
import os
import re
import shutil
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = "/tmp/sr"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           CARGO_TARGET_DIR=SR + "/target", RUSTFLAGS="-A semicolon_in_expressions_from_macros")
HELP = r'''#![allow(unused)]
extern crate hastur;
use hastur::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Reads a makefile; what came of it.
struct Made { names: NameCache, engine: Engine, result: Result<(), MakefileError> }
fn read(text: &str) -> Made {
    let mut names = NameCache::default();
    let mut engine = Engine::default();
    let result = engine.read_makefile(&mut names, &mut text.as_bytes(), "M");
    Made { names, engine, result }
}
impl Made {
    fn rules(&self) -> Vec<String> {
        let mut v: Vec<String> = self.engine.database.rules().map(|r| format!("{}:{}#{}", r.target().into_string(),
            r.dependencies().iter().map(|d| d.into_string()).collect::<Vec<_>>().join(" "),
            r.recipe().commands().len())).collect();
        v.sort();
        v
    }
    fn var(&mut self, name: &str) -> Option<String> {
        let n = self.names.intern_variable_name(name.to_string());
        let db = self.engine.database.clone();
        db.get_variable(n).map(|v| v.expand(&mut self.names, &mut self.engine))
    }
}
'''
SH = r'''#!/bin/bash
# Run in the repository after its build.
here=$(cd "$(dirname "$0")" && pwd)
lib=$(ls -t target/debug/deps/libhastur-*.rlib 2>/dev/null | head -1)
[ -n "$lib" ] || { echo "library not built"; exit 2; }
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
%sRUSTUP_TOOLCHAIN=stable rustc --edition 2018 --crate-name demo -L target/debug/deps --extern "hastur=$lib" "$here/demo.rs" -o "$out/demo" || exit 2
cd "$out" && timeout 60 ./demo
'''


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd=SR, env=ENV, **kw)


def fresh():
    if not os.path.isdir(SR):
        subprocess.run(["cp", "-a", "/repo", SR], check=True)
    run("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target")


def build():
    r = run("cargo test --workspace --no-run --offline")
    return r.returncode == 0, r.stderr[-1500:]


def demo(d):
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=SR, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-1200:]


def main(paths):
    fresh()
    ok, err = build()
    assert ok, err
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    items = []
    for p in paths:
        g = {"pre": ""}
        exec(open(p).read(), g)
        sid = os.path.basename(p)[:-3]
        d = "/tmp/seeds/out/" + sid
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.rs", "w").write(HELP + g["demo"])
        open(d + "/demo.sh", "w").write(SH % g["pre"])
        rc, out = demo(d)
        if rc != 0:
            print(sid, "REJECTED: demo fails on the unchanged tree", rc, out)
            continue
        items.append((sid, d, g))
    for sid, d, g in items:
        fresh()
        for f, old, new in g["edits"]:
            s = open(os.path.join(SR, f)).read()
            if s.count(old) != 1:
                print(sid, "REJECTED: text found %d times in %s" % (s.count(old), f), old[:60])
                break
            open(os.path.join(SR, f), "w").write(s.replace(old, new))
        else:
            diff = run("git diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            ok, err = build()
            if not ok:
                print(sid, "REJECTED: does not build", err)
                continue
            r = run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/vp-test.log 2>&1; "
                    "python3 /opt/vp/results.py /tmp/seeds/res.json cargo:%s/target/vp-test.log" % SR)
            passed = set(json.load(open("/tmp/seeds/res.json"))["passed"])
            if stable - passed:
                print(sid, "REJECTED: tests fail", sorted(stable - passed)[:4])
                continue
            rc, out = demo(d)
            if rc == 0 or rc == 2:
                print(sid, "REJECTED: demo exits", rc, out)
                continue
            json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            dst = os.path.join(ROOT, "seeded", sid)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            e = dict(os.environ, HASTUR_REPO=SR)
            ids = "all" if "--all" in sys.argv else g["prop"]
            c = subprocess.run([sys.executable, "-m", "analysis.run", ids], cwd=ROOT, env=e, capture_output=True, text=True)
            hits = re.findall(r"VIOLATION property=(\S+)", c.stdout)
            print(sid, "KEPT;", "caught by " + ",".join(hits) if hits else "MISSED", "rc", c.returncode)
            if not hits:
                print("   ", c.stdout[-300:])
    fresh()


main([a for a in sys.argv[1:] if not a.startswith("--")])
