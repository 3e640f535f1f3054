"""Builds, from /repo's current working tree, the replay harness (and the mirror crate with the probe appended)."""
import os, shutil, subprocess, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True).stdout
    for kv in out.split("\0"):
        k, s, v = kv.partition("=")
        if s and k not in ("_", "SHLVL", "PWD") and not k.startswith("BASH_FUNC"):
            e[k] = v
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e.pop("RUSTFLAGS", None)
    return e

def _sync(src, dst):
    """Copies src to dst only where contents differ (keeps mtimes for cargo)."""
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    new = src if isinstance(src, bytes) else open(src, "rb").read()
    if os.path.exists(dst) and open(dst, "rb").read() == new:
        return
    with open(dst, "wb") as f:
        f.write(new)

def mirror(stub=False):
    """A copy of the compiler crate, library only, renamed, with the probe module appended."""
    root = os.path.join(BUILD, "mirror", "compiler")
    src = os.path.join(REPO, "packages", "compiler")
    toml = open(os.path.join(src, "Cargo.toml")).read()
    toml = re.sub(r'(?m)^name = "zk-regex-compiler"', 'name = "zk-regex-compiler-probe"', toml)
    toml = re.sub(r'(?s)\[\[bin\]\].*?(?=\n\[)', '', toml)
    toml = re.sub(r'crate-type = \[.*?\]', 'crate-type = ["rlib"]', toml)
    toml = re.sub(r'path = "\.\./', 'path = "%s/packages/' % REPO, toml)
    _sync(toml.encode(), os.path.join(root, "Cargo.toml"))
    want = set()
    for d, _, fs in os.walk(os.path.join(src, "src")):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)
            if rel.startswith("src/bin"):
                continue
            want.add(rel)
            if rel == "src/lib.rs":
                probe = open(os.path.join(VERIF, "harness", "probe", "lib_stub.rs" if stub else "lib_append.rs"), "rb").read()
                _sync((b"" if stub else open(p, "rb").read()) + b"\n" + probe, os.path.join(root, rel))
            else:
                _sync(p, os.path.join(root, rel))
    for d, _, fs in os.walk(os.path.join(root, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, root) not in want:
                os.remove(p)

def harness():
    """Returns (binary, log). binary is None when /repo does not compile. The stub probe is used when the
    crate-private entry points no longer have the shape the probe expects."""
    log = ""
    for stub in (False, True, False):   # (the last: a build that failed for want of memory is tried again)
        mirror(stub)
        r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")],
                           capture_output=True, text=True, env=env(), cwd=VERIF)
        log += r.stdout + r.stderr
        if r.returncode:
            with open(os.path.join(BUILD, "build.log"), "w") as f: f.write(log)
        else:
            return os.path.join(BUILD, "target", "debug", "zkr-replay"), log
    return None, log

def ws_env():
    """Builds within /repo's own workspace use their own target directory: the harness's would mix two resolutions of the dependencies."""
    e = env(); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-ws")
    return e

def cli():
    """The command-line binary of /repo, built into .build."""
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "packages", "compiler", "Cargo.toml"), "--bin", "zk-regex"],
                       capture_output=True, text=True, env=ws_env(), cwd=VERIF)
    return os.path.join(BUILD, "target-ws", "debug", "zk-regex") if r.returncode == 0 else None
def wasm(name):
    """The JavaScript package of packages/NAME, built into .build/pkg-NAME. (module or None, log)"""
    e = ws_env()
    r = subprocess.run(["cargo", "build", "--offline", "--lib", "--target", "wasm32-unknown-unknown", "--manifest-path", os.path.join(REPO, "packages", name, "Cargo.toml")],
                       capture_output=True, text=True, env=e, cwd=VERIF)
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    out = os.path.join(BUILD, "pkg-" + name)
    r = subprocess.run(["/opt/vp/tools/bin/wasm-bindgen", os.path.join(BUILD, "target-ws", "wasm32-unknown-unknown", "debug", "zk_regex_%s.wasm" % name), "--target", "nodejs", "--out-dir", out],
                       capture_output=True, text=True, env=e, cwd=VERIF)
    return (os.path.join(out, "zk_regex_%s.js" % name), "") if r.returncode == 0 else (None, r.stderr[-2000:])

if __name__ == "__main__":
    b, l = harness()
    print(l[-6000:]); print(b)
