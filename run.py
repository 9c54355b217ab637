#!/usr/bin/env python3
"""Runs one check: `run.py ID [--replay FILE | --case NAME]`, or builds everything: `run.py --setup`.

Each run makes a fresh view of /repo's working tree, rebuilds the harness crate that the
property needs against it, and runs the harness. Exit 0: held. Exit 1 with a VIOLATION line:
broken. Exit 2: no verdict (does not build, undecided query, ...).
"""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(HERE, "work"))
sys.path.insert(0, HERE)

#: property -> (cargo workspace, package)
CHECKS = {}
for pkg, ids in {
    ("checks", "vcore"): ["S01", "S02", "S03", "S04", "S05", "S06", "S07", "P01", "P02", "P03", "P04", "P05"],
    ("checks", "vcircom"): ["G01", "G02", "G03", "G04", "C01", "C02", "K01", "K02", "K03", "K04", "K05"],
}.items():
    for i in ids:
        CHECKS[i] = pkg


def environment():
    env = dict(os.environ)
    env.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=os.path.join(WORK, "target"),
        VERIF_EVIDENCE=os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence")),
        VERIF_KNOWN=os.path.join(HERE, "known_findings.json"),
        VERIF_WORK=WORK,
        VERIF_REPO=REPO,
    )
    env.setdefault("VERIF_SEED", "1")
    env.setdefault("VERIF_TIER", "quick")
    return env


def prepare(ws, env):
    subprocess.run([sys.executable, os.path.join(HERE, "gen_view.py")], check=True, env=env)
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(HERE, ws, "Cargo.lock"))


def build(ws, pkg, env):
    prepare(ws, env)
    r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", pkg], cwd=os.path.join(HERE, ws), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print(f"ERROR: {pkg} does not build against {REPO}")
        return False
    return True


def main():
    env = environment()
    args = sys.argv[1:]
    if args == ["--setup"]:
        ok = all([build(ws, pkg, env) for ws, pkg in sorted(set(CHECKS.values()))])
        return 0 if ok else 2
    if args and args[0] in CHECKS:
        ws, pkg = CHECKS[args[0]]
        if not build(ws, pkg, env):
            return 2
        os.makedirs(env["VERIF_EVIDENCE"], exist_ok=True)
        r = subprocess.run([os.path.join(WORK, "target", "debug", pkg)] + args, env=env, cwd=HERE)
        return r.returncode if r.returncode in (0, 1) else 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
