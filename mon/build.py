"""Builds the drivers from /repo's working tree into /verif/.build (git-ignored)."""
import fcntl, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class BuildError(Exception):
    pass


def _env(toolchain, flags=None):
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = toolchain
    env.pop("RUSTFLAGS", None)
    if flags:
        env["RUSTFLAGS"] = flags
    return env


def _cargo(cwd, args, env):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("cargo %s failed:\n%s" % (" ".join(args), "\n".join(x for x in p.stdout.split("\n\n") if "error" in x)[-6000:]))


def _locked(fn):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return fn()


def driver(release=False):
    """The ordinary driver: debug (overflow checks, debug assertions) or release."""
    def go():
        args = ["build", "--offline", "--target-dir", os.path.join(BUILD, "target")]
        if release:
            args.append("--release")
        _cargo(os.path.join(VERIF, "driver"), args, _env("stable"))
        return os.path.join(BUILD, "target", "release" if release else "debug", "ooxdrv")
    return _locked(go)


def driver_asan():
    def go():
        args = ["build", "--offline", "--target", "x86_64-unknown-linux-gnu",
                "--target-dir", os.path.join(BUILD, "target_asan")]
        _cargo(os.path.join(VERIF, "driver"), args, _env("nightly", "-Zsanitizer=address"))
        return os.path.join(BUILD, "target_asan", "x86_64-unknown-linux-gnu", "debug", "ooxdrv")
    return _locked(go)


def driver_tsan():
    """The driver, the library and the standard library with ThreadSanitizer."""
    def go():
        args = ["build", "--offline", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu",
                "--target-dir", os.path.join(BUILD, "target_tsan")]
        _cargo(os.path.join(VERIF, "driver"), args, _env("nightly", "-Zsanitizer=thread"))
        return os.path.join(BUILD, "target_tsan", "x86_64-unknown-linux-gnu", "debug", "ooxdrv")
    return _locked(go)


def ffi():
    """rs_ffi's own sources plus a stand-in for the flatc output, with AddressSanitizer."""
    def go():
        crate = os.path.join(BUILD, "ffi_crate")
        new = crate + ".new"
        shutil.rmtree(new, ignore_errors=True)
        os.makedirs(new)
        shutil.copytree(os.path.join(REPO, "rs_ffi", "src"), os.path.join(new, "src"))
        stub = os.path.join(VERIF, "ffi", "stub")
        shutil.copy(os.path.join(stub, "consolidated_generated.rs"), os.path.join(new, "src"))
        shutil.copy(os.path.join(stub, "Cargo.toml"), new)
        shutil.rmtree(crate, ignore_errors=True)
        os.rename(new, crate)
        args = ["build", "--offline", "--target", "x86_64-unknown-linux-gnu",
                "--target-dir", os.path.join(BUILD, "target_asan")]
        _cargo(os.path.join(VERIF, "ffi"), args, _env("nightly", "-Zsanitizer=address"))
        return os.path.join(BUILD, "target_asan", "x86_64-unknown-linux-gnu", "debug", "ooxffi")
    return _locked(go)


def shim():
    """LD_PRELOAD fault injector and call recorder for the save path."""
    def go():
        src = os.path.join(VERIF, "shim", "faultfs.c")
        out = os.path.join(BUILD, "faultfs.so")
        p = subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", out + ".tmp", src, "-ldl", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError(p.stdout)
        os.rename(out + ".tmp", out)
        return out
    return _locked(go)


if __name__ == "__main__":
    for what in sys.argv[1:] or ["debug", "release", "ffi", "shim"]:
        print(what, {"debug": lambda: driver(), "release": lambda: driver(True), "ffi": ffi,
                     "asan": driver_asan, "tsan": driver_tsan, "shim": shim}[what]())
