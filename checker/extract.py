"""Builds the fact extractor (once per copy) and runs it over /repo's working tree."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VP_BUILD_DIR") or os.path.join(VERIF, ".build")
REPO = os.environ.get("VP_REPO") or "/repo"
TOOLCHAIN = "nightly"


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "LOUIS_TABLE_PATH",
              "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def _run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def driver():
    src = os.path.join(HERE, "driver", "driver.rs")
    env = _env()
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "driver-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        rc, log = _run(["rustc", "--edition", "2021", "-O", src, "-o", tmp], env, HERE)
        if rc != 0 or not os.path.exists(tmp):
            raise ExtractError("driver build failed:\n" + log[-4000:])
        os.replace(tmp, out)
    return out


def facts(features="default"):
    """Returns [lib facts, bin facts] of the current working tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _facts(features)


def _facts(features):
    drv = driver()
    env = _env()
    rc, sysroot = _run(["rustc", "--print", "sysroot"], env, HERE)
    sysroot = sysroot.strip()
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    target = os.path.join(BUILD, "target-" + features)
    os.makedirs(target, exist_ok=True)
    out = tempfile.mkdtemp(prefix="facts-", dir=BUILD)
    try:
        # cargo skips the wrapper on a fresh unit: forget every unit of the workspace package
        for pat in ("debug/build/louis-rs", "debug/build/louis-rs-*", "debug/.fingerprint/louis-rs-*"):
            for d in glob.glob(os.path.join(target, pat)):
                shutil.rmtree(d, ignore_errors=True)
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["VP_FACTS_DIR"] = out
        env["CARGO_TARGET_DIR"] = target
        cmd = ["cargo", "check", "--offline", "--lib", "--bins"]
        if features == "none":
            cmd.append("--no-default-features")
        lock = os.path.join(REPO, "Cargo.lock")
        before = open(lock, "rb").read() if os.path.exists(lock) else None
        rc, log = _run(cmd, env, REPO)
        if before is not None and open(lock, "rb").read() != before:
            open(lock, "wb").write(before)
        if rc != 0:
            raise ExtractError("cargo check failed:\n" + log[-6000:])
        res = []
        for n in ("louis-lib.json", "louis-bin.json"):
            p = os.path.join(out, n)
            if not os.path.exists(p):
                raise ExtractError("no facts for %s\n%s" % (n, log[-3000:]))
            res.append(json.load(open(p)))
        return res
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    print(driver())
    for f in facts():
        print(f["crate"], f["bin"], len(f["fns"]), "functions", len(f["types"]), "types")
