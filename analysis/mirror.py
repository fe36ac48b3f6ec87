"""Mirror /repo into a scratch workspace in which the WHOLE project type-checks offline.

The project depends on crates from github.com/dfinity/ic and on four wasm blobs that are not
available here.  The mirror copies /repo's current sources verbatim and replaces only
  * those dependencies, by API-compatible stand-ins (/verif/stubs), and
  * the wasm blobs, by files holding their own name.
Nothing is executed: the mirror only exists so that rustc can resolve names and types.
"""
import os
import re
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
STUBS = os.path.join(VERIF, "stubs")

#: dev-dependencies and target-specific test dependencies are dropped: tests are not analysed.
DROP = {"pocket-ic", "ethers-core", "ic-crypto-test-utils-reproducible-rng",
        "ic-icrc1-index-ng", "ic-icrc1-ledger", "proptest", "assert_matches", "maplit",
        "flate2", "tokio", "rand", "mockall"}


def _write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def _manifest(path, in_minter):
    out, drop_section = [], False
    for line in open(path):
        m = re.match(r"\s*\[(.*)\]\s*$", line)
        if m:
            drop_section = m.group(1).strip() in ("dev-dependencies",) or \
                m.group(1).strip().startswith("dev-dependencies.")
        if drop_section:
            continue
        name = re.match(r"\s*([\w-]+)\s*=", line)
        if name and name.group(1) in DROP:
            continue
        if name and "github.com/dfinity/ic" in line:
            n = name.group(1)
            if os.path.isdir(os.path.join(STUBS, n)):
                out.append('%s = { path = "../stubs/%s" }\n' % (n, n))
            continue
        out.append(line)
        if in_minter and line.strip() == "[package]":
            out.append("autobins = false\n")
    return "".join(out)


def mirror(ws):
    """(Re)create the mirror of REPO at ws; keeps ws/target."""
    os.makedirs(ws, exist_ok=True)
    for d in ("minter", "evm_rpc_client", "stubs", "wasm"):
        p = os.path.join(ws, d)
        if os.path.isdir(p):
            shutil.rmtree(p)
    shutil.copytree(STUBS, os.path.join(ws, "stubs"), ignore=shutil.ignore_patterns("target"))
    top = open(os.path.join(REPO, "Cargo.toml")).read()
    _write(os.path.join(ws, "Cargo.toml"), top +
           '\n[patch.crates-io]\nethnum = { path = "stubs/ethnum" }\n')
    for pkg in ("minter", "evm_rpc_client"):
        shutil.copytree(os.path.join(REPO, pkg, "src"), os.path.join(ws, pkg, "src"))
        _write(os.path.join(ws, pkg, "Cargo.toml"),
               _manifest(os.path.join(REPO, pkg, "Cargo.toml"), pkg == "minter"))
    # other crate-level files that sources may include (candid files, templates)
    for root, dirs, files in os.walk(os.path.join(REPO, "minter")):
        dirs[:] = [d for d in dirs if d not in ("src", "target")]
        for f in files:
            if f == "Cargo.toml" or f.endswith(".rs"):
                continue
            rel = os.path.relpath(os.path.join(root, f), REPO)
            dst = os.path.join(ws, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(root, f), dst)
    # the canister binary (main.rs) is analysed as a module of the library, so that one
    # compilation sees the whole program even when part of it does not type-check
    lib, main = (os.path.join(ws, "minter", "src", f) for f in ("lib.rs", "main.rs"))
    if os.path.exists(main):
        txt = re.sub(r"\bcrate::", "crate::main_bin::", open(main).read())
        _write(main, txt)
        with open(lib, "a") as f:
            f.write('\nextern crate self as evm_minter;\n#[path = "main.rs"]\npub mod main_bin;\n')
    wanted = set()
    for root, _, files in os.walk(os.path.join(ws, "minter", "src")):
        for f in files:
            if f.endswith(".rs"):
                s = open(os.path.join(root, f), encoding="utf-8", errors="replace").read()
                wanted.update(re.findall(r'include_bytes!\(\s*"([^"]*wasm[^"]*)"', s))
    for w in wanted:
        _write(os.path.join(ws, "wasm", os.path.basename(w)), os.path.basename(w))  # distinct, so that the analysis tells them apart
    lock = os.path.join(VERIF, "stubs", "Cargo.lock.ws")
    if os.path.exists(lock):
        shutil.copyfile(lock, os.path.join(ws, "Cargo.lock"))
    else:
        shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))


if __name__ == "__main__":
    import sys
    mirror(sys.argv[1] if len(sys.argv) > 1 else os.path.join(VERIF, ".build", "ws"))
