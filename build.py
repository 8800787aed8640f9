#!/usr/bin/env python3
"""Builds everything a check needs: the engine, the dependencies and - from /repo's current sources -
the post-LTO LLVM IR plus the native replay binary.  Everything lands in /verif/build and /verif/engine/target."""
import os, subprocess, sys, hashlib, glob, shutil, fcntl, time
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo"); B = os.environ.get("VERIF_BUILD", V + "/build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_CFG_HTTPARSE_DISABLE_SIMD="1")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"): ENV.pop(k, None)
class BuildError(Exception): pass
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=kw.pop("env", ENV), **kw)
    if p.returncode: raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout
def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()
def tree(d, ext): return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(ext)]
def fresh(name, key, outs):
    s = B + "/" + name + ".stamp"
    return os.path.exists(s) and open(s).read() == key and all(os.path.exists(o) for o in outs)
def stamp(name, key): open(B + "/" + name + ".stamp", "w").write(key)
ENGINE = V + "/engine/target/release/rsym"
def engine():
    key = digest(tree(V + "/engine/src", ".rs") + [V + "/engine/Cargo.toml"])
    if fresh("engine", key, [ENGINE]): return
    run(["cargo", "build", "--release", "--offline"], cwd=V + "/engine"); stamp("engine", key)
DT = B + "/deps"; DD = DT + "/release/deps"
def deps():
    key = digest([V + "/deps/Cargo.toml", V + "/deps/Cargo.lock", V + "/deps/src/lib.rs", V + "/deps/wrap.sh", V + "/deps/memchr/Cargo.toml", V + "/deps/memchr/src/lib.rs"])
    if fresh("deps", key, [DD]): return
    shutil.rmtree(DT, ignore_errors=True)
    run(["cargo", "build", "--release", "--offline", "--target-dir", DT], cwd=V + "/deps", env=dict(ENV, RUSTC_WRAPPER=V + "/deps/wrap.sh", RUSTFLAGS="-C embed-bitcode=yes -C no-vectorize-loops -C no-vectorize-slp"))
    stamp("deps", key)
def lib(n): g = glob.glob(DD + "/lib%s-*.%s" % (n, "so" if n == "serde_derive" else "rlib")); assert len(g) == 1, (n, g); return g[0]
FL = ["-C", "opt-level=2", "-C", "panic=abort", "-C", "embed-bitcode=yes", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "codegen-units=1", "-C", "debuginfo=0", "-A", "warnings"]
def rustc(name, src, out, externs=(), extra=(), ed="2021", typ="rlib"):
    return run(["rustc", "--edition", ed, "--crate-name", name, "--crate-type", typ, src, "--out-dir", out, "-L", "dependency=" + out, "-L", "dependency=" + DD] + FL + sum((["--extern", e] for e in externs), []) + list(extra))
def model():
    out = B + "/model"; key = digest(tree(V + "/model", ".rs") + [V + "/deps/Cargo.lock", V + "/build.py", B + "/deps.stamp"])
    if fresh("model", key, [out + "/libtokio.rlib"]): return
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    m = V + "/model/"
    rustc("vsym", m + "vsym/lib.rs", out)
    rustc("std", m + "std/lib.rs", out, ["vsym=%s/libvsym.rlib" % out, "serde=" + lib("serde")], ["-C", "metadata=vf", "-C", "extra-filename=-vf"])
    S = ["std=%s/libstd-vf.rlib" % out, "vsym=%s/libvsym.rlib" % out]
    rustc("rand", m + "rand/lib.rs", out, S)
    rustc("tokio_macros", m + "tokio_macros/lib.rs", out, typ="proc-macro")
    rustc("tokio", m + "tokio/lib.rs", out, S + ["tokio_macros=%s/libtokio_macros.so" % out])
    stamp("model", key)
def target():
    """server library + async binary + harness -> build/t/harness (native) and build/t/h.ll (IR)"""
    out = B + "/t"; mo = B + "/model"
    srcs = tree(REPO + "/server/src", ".rs")
    key = digest(srcs + tree(V + "/harness", ".rs") + [V + "/rt/rt.c"]) + open(B + "/model.stamp").read() + open(B + "/deps.stamp").read() + REPO
    LL = out + "/h.ll"
    if fresh("target", key, [LL, out + "/harness"]): return
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    run(["gcc", "-O1", "-g", "-c", V + "/rt/rt.c", "-o", out + "/rt.o"])
    L = ["-L", "dependency=" + mo]
    S = ["std=%s/libstd-vf.rlib" % mo, "vsym=%s/libvsym.rlib" % mo]; D = ["%s=%s" % (n, lib(n)) for n in ("serde", "serde_json", "httparse")]
    R = ["rand=%s/librand.rlib" % mo, "tokio=%s/libtokio.rlib" % mo]
    rustc("server", REPO + "/server/src/lib.rs", out, S + D + R, L + ["-C", "overflow-checks=on"])
    a = out + "/async_main.rs"; t = open(REPO + "/server/src/async.rs").read()
    open(a, "w").write(t + "\npub fn __verif_main() { main() }\n")
    rustc("async_server", a, out, S + D + R + ["server=%s/libserver.rlib" % out], L + ["-C", "overflow-checks=on"])
    for n in ("simple", "multi"):
        a = out + "/%s_main.rs" % n; t = open(REPO + "/server/src/%s.rs" % n).read()
        open(a, "w").write(t + "\npub fn __verif_main() { main() }\n")
        rustc(n + "_server", a, out, S + D + R + ["server=%s/libserver.rlib" % out], L + ["-C", "overflow-checks=on"])
    p = run(["rustc", "--edition", "2021", "--crate-name", "harness", "--crate-type", "bin", V + "/harness/main.rs", "--out-dir", out, "-L", "dependency=" + out, "-L", "dependency=" + DD] + L +
        ["-C", "opt-level=2", "-C", "panic=abort", "-C", "lto=fat", "-C", "codegen-units=1", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "overflow-checks=off", "-A", "warnings", "--emit=llvm-ir,link", "-C", "link-arg=" + out + "/rt.o"] +
        sum((["--extern", e] for e in S + D + R + ["server=%s/libserver.rlib" % out, "async_server=%s/libasync_server.rlib" % out, "simple_server=%s/libsimple_server.rlib" % out, "multi_server=%s/libmulti_server.rlib" % out]), []))
    os.rename(out + "/harness.ll", LL); stamp("target", key)
def build():
    os.makedirs(B, exist_ok=True)
    with open(B + "/lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        t0 = time.time(); ts = []
        for f in (engine, deps, model, target): t = time.time(); f(); ts.append("%s %.1fs" % (f.__name__, time.time() - t))
    return {"seconds": round(time.time() - t0, 1), "parts": ts}
if __name__ == "__main__":
    try: print(build())
    except BuildError as e: print(e); sys.exit(2)
