"""Build the rustc driver and dump the type-checked program of /repo for a feature set.

The dump is keyed by the content of everything the build reads, so it always describes the
current working tree of /repo."""
import fcntl, hashlib, json, os, pickle, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ND_REPO", "/repo")
BUILD = os.environ.get("ND_BUILD", os.path.join(ROOT, ".build"))
FEATURES = {
    "core": ["yaml"],
    "serde": ["yaml", "serde"],
    "edits": ["yaml", "serde-edits"],
    "all": ["yaml", "serde", "serde-edits"],
}

class ExtractError(Exception):
    pass

def _run(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            e.pop(k)
    return e

def _hash_tree(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()[:24]

def repo_files():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")) or "/src/" in base + "/":
                out.append(os.path.join(base, f))
    return out

def driver_files():
    d = os.path.join(ROOT, "driver")
    return [os.path.join(d, "Cargo.toml")] + [os.path.join(d, "src", f) for f in sorted(os.listdir(os.path.join(d, "src")))]

def build_driver():
    key = _hash_tree(driver_files())
    exe = os.path.join(BUILD, "driver-" + key)
    if os.path.exists(exe):
        return exe
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver-target")
    rc, out = _run(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(ROOT, "driver", "Cargo.toml")], env)
    if rc != 0:
        raise ExtractError("driver build failed:\n" + out[-3000:])
    shutil.copy2(os.path.join(BUILD, "driver-target", "debug", "ndmir"), exe + ".tmp")
    os.rename(exe + ".tmp", exe)
    return exe

_sysroot = None
def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = _run(["rustc", "+nightly", "--print", "sysroot"], _env())
        _sysroot = out.strip().splitlines()[-1]
    return _sysroot

def dump(fs="all"):
    """Path of the JSON dump of /repo for feature set `fs`, produced if it is not cached."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        key = _hash_tree(repo_files()) + "-" + os.path.basename(exe)[7:15]
        path = os.path.join(BUILD, f"dump-{fs}-{key}.json")
        if os.path.exists(path):
            return path
        # keep the cache small
        for f in os.listdir(BUILD):
            if f.startswith(f"dump-{fs}-"):
                os.remove(os.path.join(BUILD, f))
        tgt = os.path.join(BUILD, "target-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
        shutil.rmtree(os.path.join(tgt, "debug", "build", "nondestructive"), ignore_errors=True)
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("nondestructive-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        env = _env()
        env.update(CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=exe, NDMIR_OUT=path + ".tmp", NDMIR_CRATE="nondestructive",
                   LD_LIBRARY_PATH=sysroot() + "/lib", RUSTFLAGS="-Zmir-opt-level=0 -Cpanic=abort -Coverflow-checks=on -Cdebug-assertions=off --cap-lints=allow",
                   CARGO_INCREMENTAL="0")
        if os.path.exists(path + ".tmp"):
            os.remove(path + ".tmp")
        rc, out = _run(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                        "--no-default-features", "--features", ",".join(FEATURES[fs])], env)
        if rc != 0 or not os.path.exists(path + ".tmp"):
            raise ExtractError(f"cargo check of {REPO} with features {FEATURES[fs]} failed:\n" + out[-3000:])
        os.rename(path + ".tmp", path)
        return path

_cache = {}
def load(fs="all"):
    p = dump(fs)
    if p not in _cache:
        with open(p) as f:
            _cache[p] = json.load(f)
    return _cache[p]

if __name__ == "__main__":
    for fs in sys.argv[1:] or ["all"]:
        d = load(fs)
        print(fs, "fns", len(d["fns"]), "local", sum(1 for f in d["fns"].values() if f.get("local")), "types", len(d["types"]), "items", len(d["items"]))
