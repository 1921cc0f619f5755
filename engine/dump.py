"""Builds the rustc driver and dumps the type-checked program of /repo's current working tree."""
import os, subprocess, hashlib, shutil, tempfile, fcntl, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SMDIFF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


def _env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    return e


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env or _env(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def filehash(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()[:16]


def driver():
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    h = filehash(src)
    out = os.path.join(BUILD, "mirdump-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp], cwd=BUILD)
        os.rename(tmp, out)
    return out, h


def tree_hash():
    """Content hash of everything in /repo that decides what is compiled."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock", "build.rs") or f.endswith(".in"):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def dump():
    """Directory with the JSON dumps of the current tree (cached by content)."""
    drv, dh = driver()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash()
        out = os.path.join(BUILD, "dump-%s-%s" % (dh, th))
        if os.path.exists(os.path.join(out, "ok")):
            return out
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = os.path.join(BUILD, "target")
        # the wrapper must see every workspace crate: drop their fingerprints, keep the dependencies'
        for root, dirs, files in os.walk(target):
            for d in list(dirs):
                if d.startswith("smdiff"):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                    dirs.remove(d)
            for f in files:
                if f.startswith(("smdiff", "libsmdiff")):
                    os.remove(os.path.join(root, f))
        e = _env()
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
        e["MIRDUMP_OUT"] = tmp
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["CARGO_TARGET_DIR"] = target
        e["CARGO_NET_OFFLINE"] = "true"
        # work on a private copy so that nothing (Cargo.lock) is ever written into /repo
        work = os.path.join(BUILD, "src")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        try:
            src = os.path.join(work, "repo")
            shutil.copytree(REPO, src, ignore=shutil.ignore_patterns(".git", "target"), symlinks=True)
            sh(["cargo", "+nightly", "check", "--offline", "--lib", "--workspace", "--exclude", "smdiff-testing"], env=e, cwd=src)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        n = len([f for f in os.listdir(tmp) if f.endswith("-lib.json")])
        if n < 7:
            raise RuntimeError("the driver dumped only %d library crates" % n)
        open(os.path.join(tmp, "ok"), "w").write(th)
        # keep only the newest dumps
        for d in os.listdir(BUILD):
            if d.startswith("dump-") and d != os.path.basename(tmp):
                p = os.path.join(BUILD, d)
                if os.path.isdir(p) and os.stat(p).st_mtime < os.stat(tmp).st_mtime - 7200:
                    shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    print(dump())
