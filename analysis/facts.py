"""Builds the fact base (type-checked MIR + item tables) of /repo's current working tree."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

from mirror import REPO, VERIF, mirror

BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, ".build")
TOOLCHAIN = "nightly"


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def _run(cmd, cwd, env, check=True):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if check and p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        raise SystemExit(2)
    return p


def _hash_tree(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            h.update(base.encode() + b"\0" + open(base, "rb").read())
            continue
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build_driver():
    env = _env()
    _run(["cargo", "+" + TOOLCHAIN, "build", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
         os.path.join(VERIF, "driver"), env)
    return os.path.join(BUILD, "driver", "debug", "factdump")


def _key():
    return _hash_tree([os.path.join(REPO, "minter"), os.path.join(REPO, "evm_rpc_client"),
                       os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "driver", "src"),
                       os.path.join(VERIF, "stubs"), os.path.join(VERIF, "analysis", "mirror.py")])


def facts():
    """Returns (facts: {name: json}, info).  Rebuilt whenever /repo's sources changed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = _key()
        out = os.path.join(BUILD, "facts")
        stamp = os.path.join(out, "KEY")
        if not (os.path.exists(stamp) and open(stamp).read() == key):
            drv = build_driver()
            ws = os.path.join(BUILD, "ws")
            mirror(ws)
            for base in ("build", ".fingerprint"):  # force cargo to run the driver again
                d0 = os.path.join(ws, "target", "debug", base)
                for d in (os.listdir(d0) if os.path.isdir(d0) else []):
                    if re.match(r"evm_minter\b|evm_rpc_client\b", d):
                        shutil.rmtree(os.path.join(d0, d))
            if os.path.isdir(out):
                shutil.rmtree(out)
            os.makedirs(out)
            env = _env()
            sysroot = _run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], VERIF, env).stdout.strip()
            env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
            env["RUSTC_WORKSPACE_WRAPPER"] = drv
            env["FACTS_DIR"] = out
            env["RUSTFLAGS"] = "--cap-lints allow"
            p = _run(["cargo", "+" + TOOLCHAIN, "check", "--offline", "-p", "evm_rpc_client", "-p", "evm_minter",
                      "--lib", "--keep-going"], ws, env, check=False)
            with open(os.path.join(out, "cargo.log"), "w") as f:
                f.write(p.stdout)
            with open(os.path.join(out, "rc"), "w") as f:
                f.write(str(p.returncode))
            with open(stamp, "w") as f:
                f.write(key)
        res = {}
        for f in sorted(os.listdir(out)):
            if f.endswith(".json"):
                res[f[:-5]] = json.load(open(os.path.join(out, f)))
        info = {"cargo_rc": int(open(os.path.join(out, "rc")).read()), "key": key,
                "log": open(os.path.join(out, "cargo.log")).read()}
        return res, info


if __name__ == "__main__":
    r, i = facts()
    for k, v in r.items():
        print(k, "bodies", len(v["bodies"]), "failed", len(v["failed"]), "adts", len(v["adts"]), "impls", len(v["impls"]))
    print("cargo rc", i["cargo_rc"])
    if i["cargo_rc"]:
        print(i["log"][-3000:])
