"""Effect rules over the whole crate, and compile-time witnesses.

The rules look at the type-checked MIR of every monomorphic function of the
crate and of everything reachable from them and from the harness's entry
points; the witnesses are items the compiler must accept (or must refuse)."""
import json
import os
import re
import subprocess
from . import extract

ATOMIC = re.compile(r"^(atomic_|volatile_|unaligned_volatile_|nontemporal_|va_|breakpoint|rust_eh|catch_unwind|caller_location)")
PURE_FOREIGN = re.compile(r"^(__ethnum_\w+|mem(cpy|move|set|cmp)|bcmp|strlen)$")


def crate_program(ws, mirx, cfg):
    """MIR of every monomorphic function of the crate itself (public or private) in one configuration."""
    flags, feats, target, serde, _ = extract.CONFIGS[cfg]
    d = os.path.join(ws, cfg)
    ext = []
    tgt = []
    if target:
        core = extract.be_sysroot(ws, target)
        tgt = ["--target", target, "-Cpanic=abort", "--extern", "core=" + core + "/libcore.rmeta", "-L", core]
        sysroot = core + "/nosys"
    else:
        sysroot = extract.sysroot()
    for f in feats:
        ext += ["--cfg", 'feature="%s"' % f]
    if "llvm-intrinsics" in feats:
        ext += ["--extern", "ethnum_intrinsics=" + d + "/libethnum_intrinsics.rmeta"]
    if serde:
        sd = extract.serde_crates(ws)
        ext += ["--extern", "serde=" + sd + "/libserde.rmeta", "-L", sd]
    out = d + "/crate.json"
    p = subprocess.run([mirx, "--sysroot", sysroot, "--crate-type", "rlib", "--crate-name", "ethnum", "--edition", extract.edition(), "--emit=metadata",
                        "-Zmir-opt-level=0", "--cap-lints", "allow"] + flags + tgt + ext + [extract.REPO + "/src/lib.rs", "-o", "/dev/null"],
                       env=dict(extract.env(), MIRX_OUT=out, MIRX_PREFIX="", MIRX_STOP=""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise extract.BuildError("the crate scan fails (%s)" % cfg, p.stdout)
    return json.load(open(out))


def consts(x, out):
    """Allocation ids of the constants occurring in a MIR body."""
    if x.__class__ is not list:
        return
    if len(x) >= 3 and x[0] == "k" and x[2].__class__ is list and len(x[2]) == 3 and x[2][1].__class__ is list:
        for p in x[2][1]:
            out.add(p[1])
    for y in x:
        consts(y, out)


def heads(x, out):
    if x.__class__ is list:
        if x and x[0] in ("tls", "asm") and len(x) == 1:
            out.append(x[0])
        for y in x:
            heads(y, out)


def observes_address(x, f, types):
    """Casts (or transmutes) from a pointer to a number: results would depend on where a value lives."""
    if x.__class__ is not list:
        return False
    if len(x) == 4 and x[0] == "cast":
        if x[1] in ("PointerExposeAddress", "PointerExposeProvenance"):
            return True
        if x[1] == "Transmute" and x[2].__class__ is list and x[2][0] in ("c", "m") and not x[2][1][1]:
            a, b = types[f["locals"][x[2][1][0]]], types[x[3]]
            if a.get("k") == "ptr" and b.get("k") in ("int", "array"):
                return True
    return any(observes_address(y, f, types) for y in x)


def reach_allocs(allocs, ids):
    seen, todo = set(), list(ids)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        a = allocs.get(str(i))
        if a and a.get("v"):
            todo += [p[1] for p in a["v"][1]]
    return seen


def rules(j, cfg, label):
    """Rule instances over one program (parsed JSON of the extractor)."""
    out = []
    fns = j["fns"]
    allocs = j["allocs"]
    files = j["files"]
    nscan = 0
    for f in fns.values():
        where = f["name"]
        if f.get("span"):
            sp = f["span"]
            try:
                where = "%s (%s:%s)" % (f["name"], files[sp[0]], sp[1])
            except Exception:
                pass

        def bad(rule, what):
            out.append({"status": "VIOLATED", "rule": rule, "key": "%s/%s/%s" % (rule, f["name"], what.split(":")[0]), "what": "%s [%s %s]" % (what, cfg, label), "construct": where})
        if f["foreign"]:
            if not PURE_FOREIGN.match(f["sym"]):
                bad("foreign", "foreign function %s is reachable" % f["sym"])
            else:
                out.append({"status": "OK", "rule": "foreign", "key": "foreign/%s" % f["sym"], "what": "", "construct": ""})
            continue
        if f["kind"] == "intrinsic" and ATOMIC.match(f["in"]):
            bad("intrinsic", "intrinsic %s is reachable" % f["in"])
            continue
        if f["kind"] == "llvm":
            bad("intrinsic", "target intrinsic %s is reachable" % f["name"])
            continue
        if f["crate"] == "std":
            if f.get("blocks") is None:
                bad("std", "operating-system facility %s is reachable" % f["name"])
                continue
        bl = f.get("blocks")
        if bl is None:
            continue
        nscan += 1
        hs = []
        heads(bl, hs)
        if "tls" in hs:
            bad("thread-local", "reads thread-local state")
        if "asm" in hs:
            bad("asm", "contains inline assembly")
        if f["crate"] in ("ethnum", "ethnum_intrinsics") and observes_address(bl, f, j["types"]):
            bad("address", "turns an address into a number")
        cs = set()
        consts(bl, cs)
        if f["crate"] in ("ethnum", "ethnum_intrinsics", "roots", "std", "alloc") or cs:
            for i in reach_allocs(allocs, cs):
                a = allocs.get(str(i))
                if a and a["k"] == "static":
                    if a.get("mut") or a.get("v") is None:
                        bad("static", "refers to the mutable static %s" % a["name"])
    out.append({"status": "OK" if nscan else "VIOLATED", "rule": "scan", "key": "scan/%s/%s" % (cfg, label), "what": "%d bodies scanned [%s %s]" % (nscan, cfg, label), "construct": ""})
    return out


# ------------------------------------------------------------ witnesses

PLAIN = ["const fn plain<T: Copy + Clone + Send + Sync + Unpin + 'static + core::panic::UnwindSafe + core::panic::RefUnwindSafe>() {}"]


def accept_items():
    """Items the compiler must accept: (name, source line)."""
    out = []
    for T, p, s in (("U256", "u128", False), ("I256", "i128", True)):
        t = T.lower()
        w = "(0, 1)"
        out.append(("%s is Copy, Send, Sync and 'static" % T, "const _: () = plain::<%s>();" % T))
        out.append(("%s occupies 32 bytes" % T, "const _: [u8; 32] = [0; core::mem::size_of::<%s>()];" % T))
        out.append(("%s needs no drop" % T, "const _: [u8; 0] = [0; core::mem::needs_drop::<%s>() as usize];" % T))
        out.append(("%s: a static of the type is allowed" % T, "pub static S_%s: %s = %s::ONE;" % (T, T, T)))
        out.append(("%s: arrays and options of the constants" % T, "pub const A_%s: [Option<%s>; 3] = [Some(%s::ZERO), Some(%s::MIN), Some(%s::MAX)];" % (T, T, T, T, T)))
        cs = [("new", "%s::new(7)" % T, T), ("from_words", "%s::from_words(1, 2)" % T, T), ("into_words", "%s::ONE.into_words()" % T, "(%s, %s)" % (p, p)),
              ("const_from_str_prefixed", '%s::const_from_str_prefixed("0x2a")' % T, T), ("BITS", "%s::BITS" % T, "u32"),
              ("from_be", "%s::from_be(%s::ONE)" % (T, T), T), ("from_le", "%s::from_le(%s::ONE)" % (T, T), T), ("to_be", "%s::ONE.to_be()" % T, T), ("to_le", "%s::ONE.to_le()" % T, T),
              ("swap_bytes", "%s::ONE.swap_bytes()" % T, T), ("reverse_bits", "%s::ONE.reverse_bits()" % T, T), ("count_ones", "%s::ONE.count_ones()" % T, "u32"), ("count_zeros", "%s::ONE.count_zeros()" % T, "u32")]
        for q in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "isize", "usize"):
            cs.append(("as_%s" % q, "%s::ONE.as_%s()" % (T, q), q))
        o = "I256" if T == "U256" else "U256"
        cs.append(("as_%s" % o.lower(), "%s::ONE.as_%s()" % (T, o.lower()), o))
        if s:
            for m in ("be", "le", "ne"):
                cs.append(("to_%s_bytes" % m, "%s::ONE.to_%s_bytes()" % (T, m), "[u8; 32]"))
                cs.append(("from_%s_bytes" % m, "%s::from_%s_bytes([1; 32])" % (T, m), T))
            cs += [("signum", "I256::ONE.signum()", "I256"), ("signum128", "I256::ONE.signum128()", "i128"), ("is_positive", "I256::ONE.is_positive()", "bool"), ("is_negative", "I256::ONE.is_negative()", "bool"), ("MINUS_ONE", "I256::MINUS_ONE", "I256")]
        for n, e, ty in cs:
            out.append(("%s::%s in a constant" % (T, n), "pub const _%s_%s: %s = %s;" % (T, n, ty, e)))
    out.append(("uint! in a constant", 'pub const M_U: U256 = ethnum::uint!("0x1_0");'))
    out.append(("int! in a constant", 'pub const M_I: I256 = ethnum::int!("-0b1_0");'))
    out.append(("usable from several threads", "pub fn shared<F: Fn(U256, I256) -> (U256, I256) + Send + Sync + 'static>(_: F) {} pub fn share() { shared(|a, b| (a + a, b * b)) }"))
    for t in ("[u8; 32]",):
        out.append(("endless lifetime", "pub fn outlives() -> &'static U256 { const X: U256 = U256::MAX; &X }"))
    return out


def witnesses(x, ws, cfg):
    """Compiles each accepted item; a refused one is a violation naming it."""
    d = os.path.join(ws, cfg)
    items = accept_items()
    lines = ["#![no_std]", "#![allow(warnings)]", "use ethnum::*;"] + PLAIN
    where = {}
    for n, s in items:
        where[len(lines) + 1] = n
        lines.append(s)
    rs = d + "/witness.rs"
    open(rs, "w").write("\n".join(lines) + "\n")
    p = subprocess.run(["rustc", "+nightly", "--crate-type", "rlib", "--crate-name", "witness", "--edition", "2021", "--emit=metadata", "--cap-lints", "allow",
                        "--extern", "ethnum=" + d + "/libethnum.rmeta", "-L", d, rs, "-o", d + "/libwitness.rmeta"],
                       env=extract.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = []
    bad = {}
    if p.returncode:
        for m in re.finditer(r"^(error[^\n]*)\n\s*-->\s*(\S+):(\d+):", p.stdout, re.M):
            n = where.get(int(m.group(3))) if m.group(2).endswith("witness.rs") else None
            bad.setdefault(n or "witness file", m.group(1))
        for m in re.finditer(r"^(error[^\n]*)\n(?:[^\n]*\n){0,40}?\s*:::\s*\S*witness\.rs:(\d+):", p.stdout, re.M):
            n = where.get(int(m.group(2)))
            if n:
                bad.setdefault(n, m.group(1))
        if not bad:
            bad["witness file"] = p.stdout[-300:]
    for n, s in items:
        if n in bad:
            out.append({"status": "VIOLATED", "rule": "witness", "key": "witness/" + n, "what": "the compiler refuses: %s (%s)" % (n, bad[n]), "construct": s})
        else:
            out.append({"status": "PROVED", "rule": "witness", "key": "witness/" + n, "what": n, "construct": s})
    if "witness file" in bad:
        out.append({"status": "VIOLATED", "rule": "witness", "key": "witness/file", "what": "the witnesses do not compile: " + bad["witness file"], "construct": "witness"})
    return out


def refuses(ws, cfg, items, rule):
    """Items the compiler must refuse while evaluating a constant."""
    d = os.path.join(ws, cfg)
    out = []
    for k, (n, s) in enumerate(items):
        rs = "%s/refuse%d.rs" % (d, k)
        open(rs, "w").write("#![no_std]\n#![allow(warnings)]\nuse ethnum::*;\n" + s + "\n")
        p = subprocess.run(["rustc", "+nightly", "--crate-type", "rlib", "--crate-name", "refuse", "--edition", "2021", "--emit=metadata", "--cap-lints", "allow",
                            "--extern", "ethnum=" + d + "/libethnum.rmeta", "-L", d, rs, "-o", d + "/librefuse.rmeta"],
                           env=extract.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            out.append({"status": "VIOLATED", "rule": rule, "key": "%s/%s" % (rule, n), "what": "the compiler accepts: " + n, "construct": s})
        elif "E0080" in p.stdout:
            out.append({"status": "PROVED", "rule": rule, "key": "%s/%s" % (rule, n), "what": n, "construct": s})
        else:
            out.append({"status": "UNDECIDED", "rule": rule, "key": "%s/%s" % (rule, n), "what": p.stdout[-200:], "construct": s})
    return out


def c26(P, x, ws, tier):
    mirx = os.path.join(ws, "mirx")
    out = []
    out += rules(crate_program(ws, mirx, x.cfg), x.cfg, "crate")
    out += rules(json.load(open(x.json)), x.cfg, "entry points")
    if x.cfg == "nd":
        out += witnesses(x, ws, x.cfg)
        selftest(ws, mirx)
    return out


SELF = """#![feature(thread_local)]
use std::sync::atomic::*;
static A: AtomicU64 = AtomicU64::new(0);
static mut B: u64 = 0;
static C: u64 = 5;
thread_local! { static D: std::cell::Cell<u32> = const { std::cell::Cell::new(1) }; }
#[thread_local] static E: u32 = 3;
extern "C" { fn getenv(p: *const u8) -> *const u8; }
pub fn f_a() -> u64 { A.fetch_add(1, Ordering::SeqCst) }
pub fn f_b() -> u64 { unsafe { B += 1; B } }
pub fn f_c() -> u64 { C }
pub fn f_e() -> u32 { E }
pub fn f_asm() { unsafe { std::arch::asm!("nop") } }
pub fn f_env() -> bool { unsafe { getenv(b"X\\0".as_ptr()).is_null() } }
pub fn f_now() -> std::time::Instant { std::time::Instant::now() }
pub fn f_vol(p: *const u32) -> u32 { unsafe { p.read_volatile() } }
"""


def selftest(ws, mirx):
    """Each rule must see what it forbids, and nothing else."""
    rs = ws + "/selfeff.rs"
    open(rs, "w").write(SELF)
    p = subprocess.run([mirx, "--sysroot", extract.sysroot(), "--crate-type", "rlib", "--crate-name", "selfeff", "--edition", "2021", "--emit=metadata", "--cap-lints", "allow",
                        "-Zmir-opt-level=0", rs, "-o", "/dev/null"], env=dict(extract.env(), MIRX_OUT=ws + "/selfeff.json", MIRX_PREFIX="f_", MIRX_STOP=""),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("effect self-test does not compile: " + p.stdout[-500:])
    r = [v for v in rules(json.load(open(ws + "/selfeff.json")), "self", "test") if v["status"] == "VIOLATED"]
    got = {(v["rule"], v["construct"].split(" ")[0].split("::")[-1]) for v in r}
    for want in (("static", "f_a"), ("static", "f_b"), ("thread-local", "f_e"), ("asm", "f_asm"), ("foreign", "getenv")):
        if want not in got:
            raise RuntimeError("effect self-test: %s not reported in %s" % (want, sorted(got)))
    kinds = {v["rule"] for v in r}
    if not {"intrinsic", "std"} <= kinds or any(c.startswith("f_c") for _, c in got):
        raise RuntimeError("effect self-test: %s" % sorted(got))
