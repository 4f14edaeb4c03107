"""Builds the rustc driver and extracts the MIR facts of /repo's working tree (cached by content hash)."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OR_REPO", "/repo")
CACHE = os.environ.get("OR_CACHE", os.path.join(VERIF, ".cache"))
DRIVER_SRC = os.path.join(VERIF, "driver", "driver.rs")

SETS = {
    # name: (cwd relative to repo, cargo args, crates expected)
    "core": (".", ["-p", "openraft"], ["openraft"]),
    "stl": (".", ["-p", "openraft", "--features", "single-term-leader"], ["openraft"]),
    "stores": (
        ".",
        ["-p", "openraft-memstore", "-p", "openraft-rocksstore", "-p", "openraft-sledstore"],
        ["openraft_memstore", "openraft_rocksstore", "openraft_sledstore"],
    ),
    "monoio": ("rt-monoio", [], ["openraft_rt_monoio"]),
}


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _rustup(*a):
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    r = subprocess.run(["rustup", *a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd="/")
    if r.returncode != 0:
        raise BuildError("rustup %s: %s" % (a, r.stderr))
    return r.stdout.strip()


def toolchain():
    rustc = _rustup("which", "--toolchain", "nightly", "rustc")
    cargo = _rustup("which", "--toolchain", "nightly-2024-07-02", "cargo")
    sysroot = os.path.dirname(os.path.dirname(rustc))
    return rustc, cargo, sysroot


def tree_hash(extra=""):
    """Content hash of every source the build of the library crates reads."""
    h = hashlib.sha256()
    files = []
    for d in ("openraft/src", "macros/src", "stores", "rt-monoio"):
        for base, dirs, fs in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x not in ("target", ".git", "tests")]
            for f in fs:
                if f.endswith((".rs", ".toml", ".lock")):
                    files.append(os.path.join(base, f))
    for f in ("Cargo.toml", "Cargo.lock", "openraft/Cargo.toml", "macros/Cargo.toml", "rust-toolchain"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            files.append(p)
    for p in sorted(files):
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(extra.encode())
    return h.hexdigest()[:24]


def _file_hash(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()[:16]


def driver():
    rustc, cargo, sysroot = toolchain()
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "ordriver-" + _file_hash(DRIVER_SRC))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = _run([rustc, "--edition", "2021", "-O", DRIVER_SRC, "-o", tmp], cwd=CACHE)
        if r.returncode != 0:
            raise BuildError("driver does not build:\n" + r.stdout[-4000:])
        os.rename(tmp, out)
    return out


def facts(setname):
    """Paths of the fact files of one build configuration, building them if the tree changed."""
    os.makedirs(CACHE, exist_ok=True)
    cwd, args, crates = SETS[setname]
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        key = tree_hash(os.path.basename(drv) + setname)
        d = os.path.join(CACHE, "facts-%s-%s" % (setname, key))
        paths = [os.path.join(d, c + ".json") for c in crates]
        if all(os.path.exists(p) for p in paths):
            return paths
        for old in glob.glob(os.path.join(CACHE, "facts-%s-*" % setname)):
            shutil.rmtree(old, ignore_errors=True)
        rustc, cargo, sysroot = toolchain()
        tgt = os.path.join(CACHE, "target-mo" if setname == "monoio" else "target")
        for fp in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "openraft*")):
            shutil.rmtree(fp, ignore_errors=True)
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        env.update(
            PATH="/root/.cargo/bin:" + env.get("PATH", ""),
            RUSTC=rustc,
            RUSTC_WORKSPACE_WRAPPER=drv,
            OR_FACTS_DIR=tmp,
            LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
            CARGO_NET_OFFLINE="true",
            CARGO_INCREMENTAL="0",
            CARGO_PROFILE_DEV_DEBUG="0",
            CARGO_TARGET_DIR=tgt,
        )
        if setname == "stores":
            rd = sorted(glob.glob("/root/.cargo/registry/src/*/librocksdb-sys-0.16.0*"))
            if rd:
                env.update(ROCKSDB_LIB_DIR="/nonexistent", ROCKSDB_INCLUDE_DIR=rd[0] + "/rocksdb/include")
        wd = os.path.join(REPO, cwd)
        lock = os.path.join(wd, "Cargo.lock")
        had = os.path.exists(lock)
        r = _run([cargo, "check", "--offline", *args], cwd=wd, env=env)
        if not had and os.path.exists(lock) and _run(["git", "-C", REPO, "check-ignore", "-q", lock]).returncode != 0:
            os.remove(lock)
        missing = [c for c in crates if not os.path.exists(os.path.join(tmp, c + ".json"))]
        if r.returncode != 0 or missing:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("cargo check (%s) rc=%d missing=%s\n%s" % (setname, r.returncode, missing, r.stdout[-6000:]))
        os.rename(tmp, d)
        return paths


if __name__ == "__main__":
    for s in sys.argv[1:] or list(SETS):
        t = time.time()
        print(s, facts(s), "%.1fs" % (time.time() - t))
