"""Builds the MIR dumps of a source tree with the rustc driver."""
import fcntl
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")
DRIVER = os.path.join(VERIF, "driver")
PROBE = os.path.join(VERIF, "vf", "probe.rs")
DRV = os.path.join(DRIVER, "target", "debug", "vfdriver")
CRATES = ("lrp.lib", "lrp.bin", "wop.lib", "wop.bin")
REPO = "/repo"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (what, p.returncode, p.stdout[-3000:]))
    return p.stdout


def lock():
    os.makedirs(WORK, exist_ok=True)
    f = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    src = os.path.join(DRIVER, "src", "main.rs")
    if not os.path.exists(DRV) or os.path.getmtime(DRV) < os.path.getmtime(src):
        run(["cargo", "+nightly", "build", "--offline"], DRIVER, env(), "building the MIR driver")
        os.utime(DRV)
    return DRV


def copy_tree(src, dst):
    """The sources cargo needs, without build output and history."""
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        dirs[:] = [d for d in dirs if d not in ("target", ".git", ".circleci", "assets") and
                   not os.path.islink(os.path.join(root, d))]
        for f in files:
            p = os.path.join(root, f)
            if os.path.isfile(p) and os.path.getsize(p) < 5_000_000:
                q = os.path.join(dst, rel, f)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copyfile(p, q)


def dump(src, name, out):
    """MIR dumps of the workspace at src, into out."""
    dst = os.path.join(WORK, "src-" + name)
    copy_tree(src, dst)
    return dump_at(dst, os.path.join(WORK, "target"), out, src)


def dump_at(dst, tgt, out, src):
    drv = driver()
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    # cargo takes a unit it has seen as fresh and would skip the driver
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("lrp-", "wop-")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    e = env()
    e["VF_OUT"] = out
    e["CARGO_INCREMENTAL"] = "0"
    e["LD_LIBRARY_PATH"] = os.path.join(run(["rustc", "+nightly", "--print", "sysroot"], dst, e, "rustc").strip(), "lib")
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["CARGO_TARGET_DIR"] = tgt
    lib = os.path.join(dst, "src", "lib.rs")
    text = open(lib).read() if os.path.exists(lib) else None
    cmd = ["cargo", "+nightly", "check", "--workspace", "--lib", "--bins", "--offline"]
    try:
        if text is None:
            log = run(cmd, dst, e, "checking " + src)
        else:
            # uses of the crate's macros become functions of the copy that is analysed
            open(lib, "a").write(open(PROBE).read())
            try:
                log = run(cmd, dst, e, "checking " + src)
            except BuildError:
                open(lib, "w").write(text)
                log = run(cmd, dst, e, "checking " + src)
    finally:
        if text is not None:
            open(lib, "w").write(text)
    for c in CRATES:
        if not os.path.exists(os.path.join(out, c + ".json")):
            raise BuildError("no dump of %s:\n%s" % (c, log[-3000:]))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        for root, dirs, files in sorted(os.walk(p)):
            dirs.sort()
            if "target" in dirs:
                dirs.remove("target")
            for f in sorted(files):
                q = os.path.join(root, f)
                h.update(os.path.relpath(q, VERIF).encode())
                h.update(open(q, "rb").read())
    return h.hexdigest()


def spec_dump():
    """The reference model's dumps, cached under work/."""
    out = os.path.join(WORK, "spec-mir")
    stamp = os.path.join(WORK, "spec-mir.stamp")
    d = digest([os.path.join(VERIF, "spec"), os.path.join(DRIVER, "src")]) + hashlib.sha256(open(PROBE, "rb").read()).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == d and all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
        return out
    dump(os.path.join(VERIF, "spec"), "spec", out)
    open(stamp, "w").write(d)
    return out


def repo_dump():
    return dump(REPO, "repo", os.path.join(WORK, "repo-mir"))


if __name__ == "__main__":
    import time
    l = lock()
    t = time.time()
    driver()
    print("driver %.1fs" % (time.time() - t))
    spec_dump()
    print("reference model %.1fs" % (time.time() - t))
    repo_dump()
    print("repository %.1fs" % (time.time() - t))
