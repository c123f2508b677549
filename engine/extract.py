"""Rebuild the MIR dump of /repo's current working tree (fail closed if it is stale)."""
import json, os, shutil, subprocess, sys, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CRATE_PKG = "cargo-mutants"


class ExtractError(Exception):
    pass


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ExtractError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_MUTANTS") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
            e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_driver():
    env = base_env()
    _run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
         os.path.join(VERIF, "driver"), env)
    return os.path.join(BUILD, "driver", "release", "mirdump")


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def source_digest():
    """Digest of what the crate is built from (all .rs, Cargo.toml, Cargo.lock)."""
    h = hashlib.sha256()
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "testdata", "book", "mutants.out", "mutants.out.old"))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock", "config.toml"):
                out.append(os.path.join(root, f))
    for root in (os.path.join(VERIF, "driver", "src"),):
        for f in sorted(os.listdir(root)):
            out.append(os.path.join(root, f))
    for f in out:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def dump(out_path=None):
    """Compile /repo with the driver and return the parsed dump. The dump of one exact
    source digest may be reused within the same build directory."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        dig = source_digest()
        out = out_path or os.path.join(BUILD, "dump.json")
        stamp = out + ".digest"
        if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == dig):
            drv = build_driver()
            target = os.path.join(BUILD, "target")
            for sub in ("debug/.fingerprint", "debug/build"):
                d = os.path.join(target, sub)
                if os.path.isdir(d):
                    for n in os.listdir(d):
                        if n == CRATE_PKG or n.startswith(CRATE_PKG + "-"):
                            shutil.rmtree(os.path.join(d, n), ignore_errors=True)
            for f in (out, stamp):
                if os.path.exists(f):
                    os.unlink(f)
            env = base_env()
            env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
            env["RUSTC_WRAPPER"] = drv
            env["MIRDUMP_CRATE"] = "cargo_mutants"
            env["MIRDUMP_OUT"] = out
            _run(["cargo", "+nightly", "check", "--offline", "--locked", "--bin", "cargo-mutants", "--target-dir", target], REPO, env)
            if not os.path.exists(out):
                raise ExtractError("the compiler driver produced no dump (crate not rebuilt?)")
            if source_digest() != dig:
                raise ExtractError("sources changed while compiling")
            with open(stamp, "w") as f:
                f.write(dig)
        with open(out) as f:
            return json.load(f)
    finally:
        lock.close()


if __name__ == "__main__":
    d = dump()
    print("bodies", len(d["bodies"]), "insts", len(d["insts"]))
