"""Builds the harness crates (with /repo's current tree as path dependencies) to LLVM IR and to a shared library for native replay."""
import fcntl, hashlib, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
SYMEX = os.path.join(B, "symex", "release", "symex")
REPLAY = os.path.join(B, "replay")
CRATES = {
    "el": dict(dir="harness", lib="symx", roots=["/repo/elusiv", "/repo/shared"], pk=["elusiv"]),
    "pf": dict(dir="harness_pf", lib="symx_pf", roots=["/repo/elusiv", "/repo/shared"], pk=["elusiv"], rustflags="-C llvm-args=--inline-threshold=-100000 -C llvm-args=--inlinehint-threshold=-100000"),
    "wn": dict(dir="harness_wn", lib="symx_wn", roots=["/repo/elusiv-warden-network", "/repo/shared"], pk=["elusiv"]),
}
FLAGS = ["--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]


def target(c): return os.path.join(B, "ir_" + c)
def artifacts(c):
    d = os.path.join(target(c), "release", "deps")
    return dict(ll=os.path.join(d, CRATES[c]["lib"] + ".ll"), so=os.path.join(d, "lib" + CRATES[c]["lib"] + ".so"))


def digest(roots):
    h = hashlib.sha256()
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "tests"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p) and (f.endswith((".rs", ".toml", ".lock", ".json", ".bin")) or "vkey" in f):
                    h.update(p.encode() + b"\0"); h.update(open(p, "rb").read())
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.72.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"): e.pop(k, None)
    return e


def tools():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock_tools"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        e = env(); e["RUSTUP_TOOLCHAIN"] = "stable"
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "symex")], cwd=os.path.join(V, "symex"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return p.stdout.decode(errors="replace")[-3000:]
        src = os.path.join(V, "tools", "replay.c")
        if not os.path.exists(REPLAY) or os.path.getmtime(REPLAY) < os.path.getmtime(src):
            p = subprocess.run(["gcc", "-O1", "-rdynamic", "-o", REPLAY, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: return p.stdout.decode(errors="replace")
    return None


def build(c):
    """None, or the compiler's complaint"""
    err = tools()
    if err: return err
    k = CRATES[c]
    with open(os.path.join(B, ".lock_" + c), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        # cargo compares modification times; compare contents too, so that a tree laid down with old times is rebuilt
        stamp = os.path.join(target(c), ".repo_digest")
        d = digest(k["roots"] + [os.path.join(V, k["dir"])])
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != d:
            fp = os.path.join(target(c), "release", ".fingerprint")
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith("elusiv"):
                        for f in os.listdir(os.path.join(fp, x)): os.remove(os.path.join(fp, x, f))
                        os.rmdir(os.path.join(fp, x))
        cmd = ["cargo", "rustc", "--release", "--lib", "--crate-type", "cdylib", "--target-dir", target(c), "--offline", "--quiet", "--"] + FLAGS
        e = env()
        if "rustflags" in k: e["RUSTFLAGS"] = k["rustflags"]
        p = subprocess.run(cmd, cwd=os.path.join(V, k["dir"]), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return "\n".join([l for l in p.stdout.decode(errors="replace").splitlines() if l.strip()][-60:])[-4000:]
        open(stamp, "w").write(d)
    return None


if __name__ == "__main__":
    for c in sys.argv[1:] or list(CRATES):
        e = build(c)
        if e: print(e); sys.exit(1)
