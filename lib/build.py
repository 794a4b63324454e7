"""Builds the executor (and the real command line program) from /repo's working tree."""
import fcntl, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "1.82.0-x86_64-unknown-linux-gnu"


class BuildError(RuntimeError):
    pass


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "LD_LIBRARY_PATH", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", TZ="UTC",
             PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin")
    return e


def _cargo(args, e, log):
    r = subprocess.run(["cargo"] + args, cwd=os.path.join(VERIF, "harness"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append(r.stdout[-6000:])
    return r.returncode


def build(tier="quick"):
    """Returns {"vh": path, "cli": path, "build_s": seconds}; raises on a failed build."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    e = env()
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        fast = tier == "thorough"
        target = os.path.join(BUILD, "fast" if fast else "target")
        if not fast and not os.path.isdir(os.path.join(target, "debug", "deps")):
            # start from /repo's own compiled third-party crates when they are there: cargo reuses
            # what matches and compiles the rest
            src = os.path.join(REPO, "target", "debug")
            shutil.rmtree(target, ignore_errors=True)
            if os.path.isdir(os.path.join(src, "deps")):
                os.makedirs(os.path.join(target, "debug"))
                for d in (".fingerprint", "build", "deps"):
                    if os.path.isdir(os.path.join(src, d)):
                        subprocess.run(["cp", "-a", "--reflink=auto", os.path.join(src, d),
                                        os.path.join(target, "debug", d)], check=False)
        e["CARGO_TARGET_DIR"] = target
        log = []
        prof = ["--profile", "fast"] if fast else []
        # never trust file times for the code under test: rebuild it from the working tree
        _cargo(["clean", "--offline", "-p", "csvpp", "-p", "csvp", "-p", "vh"] + prof, e, log)
        cmd = ["build", "--offline", "--locked"] + prof
        if _cargo(cmd, e, log) != 0:
            if not fast:
                # a half-copied or incompatible target directory: once more from nothing
                shutil.rmtree(target, ignore_errors=True)
            if _cargo(cmd, e, log) != 0:
                raise BuildError("build failed:\n" + "\n".join(log))
        out = os.path.join(target, "fast" if fast else "debug")
        return {"vh": os.path.join(out, "vh"), "cli": os.path.join(out, "csvpp-cli"),
                "build_s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "quick"))
