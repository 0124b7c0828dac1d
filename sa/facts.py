"""Builds the driver, runs it over /repo's current tree, loads the facts."""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile, time
from . import mir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))


class FactsError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "sadrv-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["rustc", "+nightly", "--edition", "2021", "-O", "-o", tmp, src])
        if r.returncode:
            raise FactsError("driver build failed:\n" + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def source_files():
    out = []
    for top in ("src", "lzma-rust/src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in sorted(fs):
                if f.endswith(".rs"):
                    out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "lzma-rust/Cargo.toml", "README.md"):
        out.append(os.path.join(REPO, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    h.update(open(os.path.join(VERIF, "driver", "main.rs"), "rb").read())
    return h.hexdigest()[:24]


def build_facts():
    """Facts directory for exactly the current sources (content-addressed)."""
    th = tree_hash()
    out = os.path.join(BUILD, "facts", th)
    if os.path.exists(os.path.join(out, "sevenz_rust.json")) and os.path.exists(os.path.join(out, "lzma_rust.json")):
        os.utime(out)       # recently used: the last to be dropped from the cache
        return out
    os.makedirs(os.path.join(BUILD, "facts"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked(th, out)


def build_locked(th, out):
    drv = driver()
    tmp = tempfile.mkdtemp(dir=os.path.join(BUILD, "facts"))
    tgt = os.path.join(BUILD, "target")
    env = dict(os.environ)
    env.update(SA_CRATES="sevenz_rust,lzma_rust", SA_OUT=tmp, RUSTC_WRAPPER=drv, CARGO_TARGET_DIR=tgt,
               LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    lock = os.path.join(REPO, "Cargo.lock")
    made_lock = False
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
        made_lock = True
    man = os.path.join(REPO, "Cargo.toml")
    # the freshness cache would skip the driver: drop the two crates first
    sh(["cargo", "+nightly", "clean", "--offline", "-p", "sevenz-rust", "-p", "lzma-rust", "--manifest-path", man], env=env)
    r = sh(["cargo", "+nightly", "check", "-p", "sevenz-rust", "-p", "lzma-rust", "--all-features", "--lib",
            "--offline", "--manifest-path", man], env=env, cwd=REPO)
    ok = r.returncode == 0 and all(os.path.exists(os.path.join(tmp, c + ".json")) for c in ("sevenz_rust", "lzma_rust"))
    if not ok:
        shutil.rmtree(tmp, ignore_errors=True)
        raise FactsError("cargo check of the current tree failed:\n" + r.stdout[-4000:])
    if tree_hash() != th:
        raise FactsError("sources changed during analysis")
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small
    fd = os.path.join(BUILD, "facts")
    ds = sorted((os.path.join(fd, d) for d in os.listdir(fd)), key=os.path.getmtime)
    for d in ds[:-16]:
        if d != out:
            shutil.rmtree(d, ignore_errors=True)
    return out


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = mir.Program(build_facts())
    return _prog
