"""Build the MIR dumper and dump /repo's current tree (type-checked MIR of the crate and what it calls)."""
import os, sys, subprocess, fcntl, hashlib, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RESSA_REPO", "/repo")
BUILD = os.environ.get("RESSA_VERIF_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    r = sh(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"), env=e)
    if r.returncode:
        raise BuildError("driver build failed\n" + r.stdout[-3000:])
    return os.path.join(BUILD, "driver", "debug", "ressa-mir")


def dump():
    """-> path of the MIR dump of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        e = env()
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], env=e).stdout.strip().splitlines()[-1]
        out = os.path.join(BUILD, "mir.json")
        if os.path.exists(out):
            os.remove(out)
        tgt = os.path.join(BUILD, "repo")
        for g in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "ressa-*")) + glob.glob(os.path.join(tgt, "debug", "build", "ressa-*")) + glob.glob(os.path.join(tgt, "debug", "build", "ressa")):
            shutil.rmtree(g, ignore_errors=True)
        e.update(
            LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
            RUSTC_WORKSPACE_WRAPPER=drv,
            RESSA_MIR_OUT=out,
            RESSA_MIR_RUSTC=os.path.join(sysroot, "bin", "rustc"),
            CARGO_TARGET_DIR=tgt,
            RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Cpanic=abort -Awarnings",
        )
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", lock)
        r = sh(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=REPO, env=e)
        if r.returncode or not os.path.exists(out):
            raise BuildError("crate does not build\n" + r.stdout[-3000:])
        return out


def digest(path):
    h = hashlib.sha256()
    h.update(open(path, "rb").read())
    for f in sorted(glob.glob(os.path.join(VERIF, "engine", "*.py"))) + [os.path.join(VERIF, "spec", "nonterminals.txt")]:
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


if __name__ == "__main__":
    p = dump()
    print(p, digest(p))
