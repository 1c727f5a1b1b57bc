"""Builds the MIR extractor and extracts the program of each configuration from
/repo's current working tree.  Nothing of the analysed program is executed."""
import os
import re
import subprocess
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("ETHNUM_REPO", "/repo")

DBG = ["-C", "debug-assertions=on", "-C", "overflow-checks=on"]
REL = ["-C", "debug-assertions=off", "-C", "overflow-checks=off"]

# name: (flags, features, target, serde, description)
CONFIGS = {
    "nd": (DBG, [], None, False, "native intrinsics, overflow checks and debug assertions on"),
    "nr": (REL, [], None, False, "native intrinsics, overflow checks and debug assertions off"),
    "ld": (DBG, ["llvm-intrinsics"], None, False, "LLVM intrinsics, overflow checks on"),
    "lr": (REL, ["llvm-intrinsics"], None, False, "LLVM intrinsics, overflow checks off"),
    "bd": (DBG, [], "s390x-unknown-linux-gnu", False, "big-endian target, overflow checks on"),
    "br": (REL, [], "s390x-unknown-linux-gnu", False, "big-endian target, overflow checks off"),
    "sd": (DBG, ["serde"], None, True, "serde feature, overflow checks on"),
    "sr": (REL, ["serde"], None, True, "serde feature, overflow checks off"),
    "sfd": (DBG, ["serde"], "x86_64-unknown-linux-gnu", True, "serde feature, core library analysed from source, overflow checks on"),
    "sfr": (REL, ["serde"], "x86_64-unknown-linux-gnu", True, "serde feature, core library analysed from source, overflow checks off"),
    "sbd": (DBG, ["serde"], "s390x-unknown-linux-gnu", True, "serde feature, big-endian target, overflow checks on"),
    "sbr": (REL, ["serde"], "s390x-unknown-linux-gnu", True, "serde feature, big-endian target, overflow checks off"),
}
OVF = {c: v[0] is DBG for c, v in CONFIGS.items()}


class BuildError(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.what, self.log = what, log


_sys = None


def sysroot():
    global _sys
    if _sys is None:
        _sys = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    return _sys


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["RUSTC_BOOTSTRAP"] = "1"
    return e


def run(cmd, what, extra=None):
    e = env()
    if extra:
        e.update(extra)
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(what, p.stdout)
    return p.stdout


def edition():
    try:
        m = re.search(r'^edition\s*=\s*"(\d+)"', open(REPO + "/Cargo.toml").read(), re.M)
        return m.group(1)
    except Exception:
        return "2021"


def build_mirx(ws):
    out = os.path.join(ws, "mirx")
    run(["rustc", "+nightly", "--edition", "2021", "-O", "-C", "prefer-dynamic", VERIF + "/driver/main.rs", "-o", out, "--cap-lints", "allow"],
        "the extractor does not build")
    return out


_be_lock = threading.Lock()


def be_sysroot(ws, target):
    """libcore for a foreign target, compiled (metadata only) from rust-src."""
    d = os.path.join(ws, "core-" + target)
    with _be_lock:
        if not os.path.exists(d + "/ok"):
            os.makedirs(d, exist_ok=True)
            src = sysroot() + "/lib/rustlib/src/rust/library/"
            run(["rustc", "+nightly", "--edition", "2024", "--crate-type", "rlib", "--crate-name", "core", "--emit=metadata", "--target", target,
                 "-Zalways-encode-mir", "-Cpanic=abort", "--cap-lints", "allow", src + "core/src/lib.rs", "-o", d + "/libcore.rmeta"], "libcore for " + target)
            open(d + "/cb.rs", "w").write("#![feature(no_core, compiler_builtins)]\n#![compiler_builtins]\n#![no_core]\n")
            run(["rustc", "+nightly", "--edition", "2024", "--crate-type", "rlib", "--crate-name", "compiler_builtins", "--emit=metadata", "--target", target,
                 "--extern", "core=" + d + "/libcore.rmeta", "-Cpanic=abort", "--cap-lints", "allow", d + "/cb.rs", "-o", d + "/libcompiler_builtins.rmeta"], "stub for " + target)
            open(d + "/ok", "w").close()
    return d


class Extraction:
    def __init__(self, cfg):
        self.cfg = cfg
        self.json = None
        self.missing = {}      # root -> compiler error
        self.error = None
        self.ir = None


def find_serde():
    base = "/root/.cargo/registry/src"
    out = {}
    for d in sorted(os.listdir(base)) if os.path.isdir(base) else []:
        for c in sorted(os.listdir(os.path.join(base, d))):
            m = re.match(r"(serde|serde_core)-(\d[\d.]*)$", c)
            if m:
                out[m.group(1)] = os.path.join(base, d, c)
    return out


def extract(ws, mirx, cfg, roots_items, raw, prelude, stop=""):
    """Compile ethnum and the harness for one configuration and dump its MIR."""
    flags, feats, target, serde, _ = CONFIGS[cfg]
    x = Extraction(cfg)
    d = os.path.join(ws, cfg)
    os.makedirs(d, exist_ok=True)
    base = ["--edition", edition(), "--emit=metadata", "-Zmir-opt-level=0", "--cap-lints", "allow"] + flags
    tgt = []
    ext = []
    if target:
        core = be_sysroot(ws, target)
        tgt = ["--target", target, "-Cpanic=abort", "--sysroot", core + "/nosys", "--extern", "core=" + core + "/libcore.rmeta", "-L", core]
    for f in feats:
        ext += ["--cfg", 'feature="%s"' % f]
    try:
        if "llvm-intrinsics" in feats:
            run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "ethnum_intrinsics", "--emit=metadata", "-Zalways-encode-mir", "--cap-lints", "allow",
                 REPO + "/intrinsics/src/lib.rs", "-o", d + "/libethnum_intrinsics.rmeta"], "the intrinsics crate does not compile")
            from . import llvmir
            try:
                x.ir = llvmir.generate(REPO, d + "/template.ll")
            except RuntimeError as e:
                raise BuildError("the LLVM template does not compile", str(e))
            ext += ["--extern", "ethnum_intrinsics=" + d + "/libethnum_intrinsics.rmeta"]
        if serde:
            sd = serde_crates(ws, target)
            ext += ["--extern", "serde=" + sd + "/libserde.rmeta", "-L", sd]
        run(["rustc", "+nightly", "--crate-type", "rlib", "--crate-name", "ethnum", "-Zalways-encode-mir"] + base + tgt + ext +
            [REPO + "/src/lib.rs", "-o", d + "/libethnum.rmeta"], "ethnum does not compile (%s)" % cfg)
    except BuildError as e:
        x.error = e
        return x
    items = dict(roots_items)
    for attempt in range(6):
        lines = prelude.rstrip("\n").split("\n")
        where = {}
        for n, body in items.items():
            where[len(lines) + 1] = n
            lines.append(body)
        lines += raw
        rs = d + "/roots.rs"
        open(rs, "w").write("\n".join(lines) + "\n")
        out = d + "/p.json"
        p = subprocess.run([mirx, "--sysroot", tgt[4] if target else sysroot(), "--crate-type", "lib", "--crate-name", "roots"] + base + (["--target", target, "-Cpanic=abort"] + tgt[5:] if target else []) + (["-L", serde_crates(ws, target), "--extern", "serde=" + serde_crates(ws, target) + "/libserde.rmeta"] if serde else []) +
                           (["-L", d] if "llvm-intrinsics" in feats else []) +
                           ["--extern", "ethnum=" + d + "/libethnum.rmeta", rs, "-o", "/dev/null"],
                           env=dict(env(), MIRX_OUT=out, MIRX_PREFIX="root_", MIRX_STOP=stop), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            x.json = out
            return x
        bad = set()
        for m in re.finditer(r"^(error[^\n]*)\n\s*-->\s*\S*roots\.rs:(\d+):", p.stdout, re.M):
            n = where.get(int(m.group(2)))
            if n:
                bad.add(n)
                x.missing[n] = m.group(1)
        if not bad:
            x.error = BuildError("the harness does not compile (%s)" % cfg, p.stdout)
            return x
        for n in bad:
            del items[n]
    x.error = BuildError("the harness does not compile (%s)" % cfg, p.stdout)
    return x


_sd_lock = threading.Lock()
_sd = {}


def serde_crates(ws, target=None):
    """serde, compiled (metadata only, no derive) from the cargo cache."""
    with _sd_lock:
        if target in _sd:
            return _sd[target]
        d = os.path.join(ws, "serde" + ("-" + target if target else ""))
        os.makedirs(d + "/gen", exist_ok=True)
        src = find_serde()
        common = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "rlib", "--emit=metadata", "-Zalways-encode-mir", "--cap-lints", "allow"]
        if target:
            core = be_sysroot(ws, target)
            common += ["--target", target, "-Cpanic=abort", "--sysroot", core + "/nosys", "--extern", "core=" + core + "/libcore.rmeta", "-L", core]
        if "serde_core" in src:
            m = open(src["serde_core"] + "/build.rs").read() if os.path.exists(src["serde_core"] + "/build.rs") else ""
            priv = re.search(r"__private\S*", m)
            import shutil
            ver = src["serde_core"].rsplit("-", 1)[1].split(".")[-1]
            open(d + "/gen/private.rs", "w").write('#[doc(hidden)]\npub mod __private%s {\n    #[doc(hidden)]\n    pub use crate::private::*;\n}\n' % ver)
            run(common + ["--crate-name", "serde_core", "--cfg", 'feature="result"', src["serde_core"] + "/src/lib.rs", "-o", d + "/libserde_core.rmeta"], "serde_core", {"OUT_DIR": d + "/gen", "CARGO_PKG_VERSION_PATCH": ver})
            ver = src["serde"].rsplit("-", 1)[1].split(".")[-1]
            os.makedirs(d + "/gen2", exist_ok=True)
            open(d + "/gen2/private.rs", "w").write('#[doc(hidden)]\npub mod __private%s {\n    #[doc(hidden)]\n    pub use crate::private::*;\n}\nuse serde_core::__private%s as serde_core_private;\n' % (ver, ver))
            run(common + ["--crate-name", "serde", "--extern", "serde_core=" + d + "/libserde_core.rmeta", "-L", d, src["serde"] + "/src/lib.rs", "-o", d + "/libserde.rmeta"], "serde", {"OUT_DIR": d + "/gen2", "CARGO_PKG_VERSION_PATCH": ver})
        else:
            run(common + ["--crate-name", "serde", src["serde"] + "/src/lib.rs", "-o", d + "/libserde.rmeta"], "serde")
        _sd[target] = d
        return d
