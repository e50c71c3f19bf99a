#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in tools/seeds.py.

    mkseed.py [ID ...]          (re)write the folders
    mkseed.py --confirm [ID ..] apply each to a scratch copy of /repo, then
                                build + stable tests + demo with and without
                                (what `vcheck` demands of a planted bug)
Nothing a registered check runs reads this file or /verif/seeded.
"""
import json, os, re, subprocess, sys, textwrap, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

RUST_SH = r'''#!/bin/bash
# exit 0: the behaviour the property promises; non-zero: it is broken
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/d/src"
cp "$here/main.rs" "$scratch/d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$scratch/d/Cargo.lock"
cat > "$scratch/d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sparseglm = { path = "$repo" }
ndarray = "0.15"
[workspace]
T
export CARGO_TARGET_DIR="$scratch/t" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable RUSTFLAGS="-Awarnings"
cd "$scratch/d" || exit 3
cargo build --offline -q 2> "$scratch/log" || { tail -30 "$scratch/log"; exit 3; }
timeout 120 "$scratch/t/debug/demo" > "$scratch/out" 2>&1
rc=$?
grep -v '^\(KKT\|Iteration\|epoch\|Early\|\[ACCEL\|----\)' "$scratch/out" | tail -5
exit $rc
'''

PY_SH = r'''#!/bin/bash
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo/python" exec timeout 120 /opt/vp/venv/bin/python "$here/demo.py"
'''

PRELUDE = r'''#![allow(non_snake_case, unused_imports, dead_code)]
use ndarray::*;
use sparseglm::datafits::multi_task::*;
use sparseglm::datafits::single_task::*;
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::*;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::param_guard::ParamGuard;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::*;
use sparseglm::penalties::separable::*;
use sparseglm::solvers::anderson_bcd::block_coordinate_descent;
use sparseglm::solvers::anderson_cd::coordinate_descent;
use sparseglm::solvers::*;
use sparseglm::utils::helpers::*;
use sparseglm::utils::prox_funcs::*;

fn near(a: f64, b: f64, tol: f64, what: &str) {
    assert!((a - b).abs() <= tol, "{}: {} instead of {}", what, a, b);
}
'''


def patch_for(edits):
    """unified diff of the edits against HEAD of /repo"""
    files = {}
    for e in edits:
        path, old, new = e[0], e[1], e[2]
        nth = e[3] if len(e) > 3 else None
        if path not in files:
            files[path] = subprocess.run(["git", "-C", REPO, "show", "HEAD:" + path],
                                         capture_output=True, text=True, check=True).stdout
        src = files[path]
        n = src.count(old)
        if nth is None:
            assert n == 1, f"{path}: {n} matches of {old!r}"
            files[path] = src.replace(old, new)
        else:
            assert n > nth, f"{path}: {n} matches of {old!r}"
            i = -1
            for _ in range(nth + 1):
                i = src.index(old, i + 1)
            files[path] = src[:i] + new + src[i + len(old):]
    out = []
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        for path, txt in files.items():
            for side, content in (("a", subprocess.run(["git", "-C", REPO, "show", "HEAD:" + path],
                                   capture_output=True, text=True).stdout), ("b", txt)):
                p = os.path.join(d, side, path)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(content)
            r = subprocess.run(["diff", "-u", "a/" + path, "b/" + path], cwd=d, capture_output=True, text=True)
            txt = re.sub(r"^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", r.stdout, flags=re.M)
            out.append(f"diff --git a/{path} b/{path}\n" + txt)
    return "".join(out)


def write(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch_for(s["edits"]))
    if "rust" in s:
        open(d + "/main.rs", "w").write(PRELUDE + "\n" + textwrap.dedent(s["rust"]).strip() + "\n")
        open(d + "/demo.sh", "w").write(RUST_SH)
    else:
        open(d + "/demo.py", "w").write(textwrap.dedent(s["py"]).strip() + "\n")
        open(d + "/demo.sh", "w").write(PY_SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def confirm(s):
    """in place in /repo, undone straight afterwards"""
    d = os.path.join(ROOT, "seeded", s["id"])
    if sh(f"git -C {REPO} status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    res = {}
    py = "py" in s
    r = sh(f"cd {REPO} && bash {d}/demo.sh"); res["clean"] = r.returncode
    if r.returncode: print(r.stdout[-800:], r.stderr[-800:])
    try:
        r = sh(f"git -C {REPO} apply {d}/patch.diff")
        if r.returncode: print(r.stderr); return {"apply": 1}
        r = sh("bash /verif/tools/tests.sh"); res["tests"] = r.stdout.strip().splitlines()[-1:] + [r.returncode]
        r = sh(f"cd {REPO} && bash {d}/demo.sh"); res["patched"] = r.returncode
        if r.returncode == 3: print("DEMO DOES NOT BUILD", r.stdout[-1500:])
        res["said"] = (r.stdout + r.stderr).strip().splitlines()[-3:]
        r = sh(f"timeout 900 /verif/bin/check {s['property']}")
        res["check"] = r.returncode
        res["vio"] = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:3]
        if r.returncode not in (0, 1): res["err"] = (r.stdout + r.stderr)[-600:]
    finally:
        sh(f"git -C {REPO} checkout -- .")
    return res


if __name__ == "__main__":
    args = sys.argv[1:]
    conf = "--confirm" in args
    ids = [a for a in args if not a.startswith("-")]
    for s in SEEDS:
        if ids and not any(s["id"].startswith(i) for i in ids):
            continue
        write(s)
        if conf:
            r = confirm(s)
            ok = r.get("clean") == 0 and r.get("patched") not in (0, 3, None)
            print(s["id"], "OK" if ok else "??", json.dumps(r), flush=True)
