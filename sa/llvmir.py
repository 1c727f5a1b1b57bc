"""The LLVM IR of the generated entry points, as transfer functions.

The template crate is compiled to IR by the same compiler the build uses, the build script's own
textual widening (its `.replace("a", "b")` chain) is applied, and each `define` is parsed into a
straight-line list of instructions interpreted over the same exact integer terms as MIR."""
import os
import re
import subprocess
from . import terms as T
from .interp import Ptr, Undecided, NeedSplit
from .models import UNIT

REPLACES = [("i128", "i256"), (" 127", " 255"), ("dereferenceable(16)", "dereferenceable(32)"), (" 0, 129)", " 0, 257)")]


def generate(repo, out):
    """-> IR text after the widening, or raises RuntimeError."""
    src = repo + "/intrinsics/build/intrinsics.rs"
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    log = ""
    for tc in ("1.90.0", None):
        e = dict(env)
        if tc:
            e["RUSTUP_TOOLCHAIN"] = tc
        p = subprocess.run(["rustc", src, "-O", "--crate-type", "lib", "--emit", "llvm-ir", "--target", "x86_64-unknown-linux-gnu", "-o", out],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
        log = p.stdout
    else:
        raise RuntimeError(log)
    text = open(out).read()
    for a, b in replaces(repo):
        text = text.replace(a, b)
    return text


def replaces(repo):
    try:
        s = open(repo + "/intrinsics/build/main.rs").read()
    except OSError:
        return REPLACES
    s = re.sub(r"//[^\n]*", "", s)
    r = re.findall(r'\.replace\(\s*"([^"]*)"\s*,\s*"([^"]*)"\s*,?\s*\)', s)
    return r or REPLACES


class Fn:
    def __init__(self, name, ret, params, body):
        self.name, self.ret, self.params, self.body = name, ret, params, body


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(text):
    fns = {}
    for m in re.finditer(r"^define ([^\n]*?)@(\w+)\(([^\n]*)\)[^\n()]*\{\n(.*?)^\}", text, re.M | re.S):
        ret, name, params, body = m.groups()
        ps = []
        for p in split_top(params):
            mm = re.match(r"(ptr|i\d+)\b(.*?)(%[\w.]+)$", p)
            if not mm:
                ps.append((None, p, None))
                continue
            ps.append((mm.group(1), mm.group(2), mm.group(3)))
        lines = []
        for ln in body.split("\n"):
            ln = ln.split(";")[0].rstrip()
            if not ln.strip():
                continue
            lines.append(ln.strip())
        fns[name] = Fn(name, ret.strip(), ps, lines)
    return fns


def width(t):
    m = re.match(r"i(\d+)$", t)
    if not m:
        raise Undecided("IR type " + t)
    return int(m.group(1))


BIN = re.compile(r"(%[\w.]+) = (add|sub|mul|and|or|xor|shl|lshr|ashr)((?: nuw| nsw| exact| disjoint)*) (i\d+) ([^,]+), (.+)$")


def ret_type(r):
    m = re.search(r"(void|i\d+)$", r)
    return m.group(1) if m else None


def contract(f):
    def run(I, st, fn, args, atys):
        env = {}
        F = st.facts
        if len(args) != len(f.params):
            I.event(st, "ub", "IR of %s takes %d parameters, %d are passed" % (f.name, len(f.params), len(args)))
            return []
        for (t, attrs, n), a in zip(f.params, args):
            if t == "ptr":
                if a.__class__ is not Ptr:
                    raise Undecided("IR pointer argument")
                m = re.search(r"dereferenceable\((\d+)\)", attrs)
                if m and int(m.group(1)) > 32:
                    I.event(st, "ub", "%s: parameter %s is declared dereferenceable(%s)" % (f.name, n, m.group(1)))
            else:
                if a.__class__ is Ptr:
                    I.event(st, "ub", "%s: pointer passed for integer parameter %s" % (f.name, n))
                    return []
                bits, s = I.bits_of(atys[len(env)])
                if t is None or bits != width(t):
                    I.event(st, "ub", "%s: parameter %s is %s, %d bits are passed" % (f.name, n, t, bits))
                    return []
            env[n] = a

        def v(x):
            x = x.strip()
            if x in env:
                return env[x]
            if x in ("true", "false"):
                return int(x == "true")
            if re.match(r"-?\d+$", x):
                return int(x)
            raise Undecided("IR operand " + x)

        def iv(x, w):
            r = v(x)
            if r.__class__ is int:
                return r % (1 << w)
            return I.need_int(st, r)

        def sg(x, w):
            return I.signed(st, x, w)

        st = st.fork()

        def ranged(txt, name, val):
            m = re.search(r"range\(i\d+ (-?\d+), (-?\d+)\)", txt)
            if m and val.__class__ in (int, T.Poly):
                lo, hi = int(m.group(1)), int(m.group(2))
                bad = T.sub(1, T.mul(T.le(lo, val, st.facts), T.lt(val, hi, st.facts)))
                b = (st if bad else None) if bad.__class__ is int else I.branch(st, bad, 1, 1)
                if b is not None:
                    I.event(b, "ub", "%s: %s outside its declared range [%d, %d)" % (f.name, name, lo, hi))

        for ln in f.body:
            F = st.facts
            ln = re.sub(r", ![\w.]+ !\d+", "", ln)
            if re.match(r"[\w.]+:$", ln):
                continue
            m = re.match(r"(%[\w.]+) = load (i\d+), ptr (%[\w.]+)(?:, align (\d+))?$", ln)
            if m:
                w = width(m.group(2))
                p = v(m.group(3))
                env[m.group(1)] = I.need_int(st, I.read(st, p.a, p.off, w // 8, ("i", w, False)), "load")
                continue
            m = re.match(r"store (i\d+) ([^,]+), ptr (%[\w.]+)(?:, align (\d+))?$", ln)
            if m:
                w = width(m.group(1))
                p = v(m.group(3))
                x = iv(m.group(2), w)
                if w == 256:
                    I.write(st, p.a, p.off, 16, T.mod(x, 1 << 128, F))
                    I.write(st, p.a, T.add(p.off, 16), 16, T.mod(T.fl(x, 1 << 128, F), 1 << 128, F))
                else:
                    I.write(st, p.a, p.off, w // 8, x)
                continue
            m = BIN.match(ln)
            if m:
                d, op, fl, t, x, y = m.groups()
                w = width(t)
                M = 1 << w
                x, y = iv(x, w), iv(y, w)
                if fl.strip():
                    raise Undecided("IR flags %s" % fl)
                if op == "add":
                    r = T.mod(T.add(x, y), M, F)
                elif op == "sub":
                    r = T.mod(T.sub(x, y), M, F)
                elif op == "mul":
                    r = T.mod(T.mul(x, y), M, F)
                elif op == "and":
                    r = T.band(x, y, F)
                elif op == "or":
                    r = T.bor(x, y, F)
                elif op == "xor":
                    r = T.bxor(x, y, F)
                else:
                    y = T.fold(y, F)
                    if y.__class__ is not int:
                        lo, hi = F.bound(y)
                        if hi is not None and hi - lo < 256:
                            raise NeedSplit(y, lo, hi)
                        raise Undecided("IR shift by a symbolic amount")
                    if y >= w:
                        I.event(st, "ub", "%s: shift by %d in a value of %d bits" % (f.name, y, w))
                        return []
                    if op == "shl":
                        r = T.mod(T.scale(x, 1 << y), M, F)
                    else:
                        r = T.mod(T.fl(sg(x, w) if op == "ashr" else x, 1 << y, F), M, F)
                env[d] = r
                continue
            m = re.match(r"(%[\w.]+) = (?:tail |musttail |notail )?call (.*?)@llvm\.([\w.]+)\((.*)\)(?: #\d+)?$", ln)
            if m:
                d, pre, nm, ar = m.groups()
                parts = []
                for a in split_top(ar):
                    mm = re.match(r"(i\d+)\b.*?(\S+)$", a)
                    if not mm:
                        raise Undecided("IR argument " + a)
                    parts.append((width(mm.group(1)), mm.group(2)))
                w = int(re.search(r"\.i(\d+)$", nm).group(1))
                M = 1 << w
                nm = nm.rsplit(".", 1)[0]
                xs = [iv(x, ww) for ww, x in parts]
                mo = re.match(r"([us])(add|sub|mul)\.with\.overflow$", nm)
                if mo:
                    a, b = (sg(xs[0], w), sg(xs[1], w)) if mo.group(1) == "s" else xs
                    e = {"add": T.add, "sub": T.sub, "mul": T.mul}[mo.group(2)](a, b)
                    if mo.group(1) == "s":
                        ov = T.add(T.isneg(T.add(e, M // 2), F), T.lt(M // 2 - 1, e, F))
                    elif mo.group(2) == "sub":
                        ov = T.isneg(e, F)
                    else:
                        ov = T.le(M, e, F)
                    env[d] = (T.mod(e, M, F), ov)
                elif nm in ("fshl", "fshr") and len(xs) == 3:
                    x, y, n = xs
                    n = T.fold(T.mod(n, w, F), F)
                    if n.__class__ is not int:
                        lo, hi = F.bound(n)
                        raise NeedSplit(n, lo, hi)
                    if nm == "fshr":
                        n = (w - n) % w if n else None
                        r = y if n is None else T.add(T.mod(T.scale(x, 1 << n), M, F), T.fl(y, 1 << (w - n), F))
                    else:
                        r = x if n == 0 else T.add(T.mod(T.scale(x, 1 << n), M, F), T.fl(y, 1 << (w - n), F))
                    env[d] = r
                elif nm in ("ctlz", "cttz"):
                    x = T.fold(xs[0], F)
                    if xs[1] != 0:
                        raise Undecided("zero-poison count")
                    env[d] = T.clz(x, w, F) if nm == "ctlz" else T.ctz(x, w, F)
                elif nm == "ctpop":
                    env[d] = T.popcount(xs[0], F)
                elif nm in ("umin", "umax", "smin", "smax"):
                    a, b = (sg(xs[0], w), sg(xs[1], w)) if nm[0] == "s" else xs
                    l = T.lt(a, b, F)
                    x, y = xs if nm.endswith("min") else xs[::-1]
                    env[d] = T.add(y, T.mul(l, T.sub(x, y)))
                else:
                    raise Undecided("IR call llvm." + nm)
                if "range(" in pre:
                    ranged(pre, d, env[d])
                continue
            m = re.match(r"(%[\w.]+) = extractvalue \{[^}]*\} (%[\w.]+), (\d)$", ln)
            if m:
                env[m.group(1)] = v(m.group(2))[int(m.group(3))]
                continue
            m = re.match(r"(%[\w.]+) = icmp (?:samesign )?(\w+) (i\d+) ([^,]+), (.+)$", ln)
            if m:
                d, op, t, x, y = m.groups()
                w = width(t)
                x, y = iv(x, w), iv(y, w)
                if op[0] == "s":
                    x, y = sg(x, w), sg(y, w)
                z = T.iszero(T.sub(x, y), F)
                env[d] = {"eq": lambda: z, "ne": lambda: T.sub(1, z), "lt": lambda: T.lt(x, y, F), "gt": lambda: T.lt(y, x, F),
                          "le": lambda: T.le(x, y, F), "ge": lambda: T.le(y, x, F)}[op if op in ("eq", "ne") else op[1:]]()
                continue
            m = re.match(r"(%[\w.]+) = (zext|sext|trunc)((?: nneg| nuw| nsw)*) (i\d+) ([^ ]+) to (i\d+)$", ln)
            if m:
                d, op, fl, t, x, t2 = m.groups()
                w, w2 = width(t), width(t2)
                x = iv(x, w)
                if op == "zext":
                    if "nneg" in fl and w > 1:
                        ranged("range(i%d 0, %d)" % (w, 1 << (w - 1)), d, x)
                    r = x
                elif op == "sext":
                    r = T.mod(sg(x, w), 1 << w2, F)
                else:
                    if "nuw" in fl:
                        ranged("range(i%d 0, %d)" % (w, 1 << w2), d, x)
                    if "nsw" in fl:
                        ranged("range(i%d %d, %d)" % (w, -(1 << (w2 - 1)), 1 << (w2 - 1)), d, sg(x, w))
                    r = T.mod(x, 1 << w2, F)
                env[d] = r
                continue
            m = re.match(r"(%[\w.]+) = select i1 ([^,]+), (i\d+) ([^,]+), i\d+ (.+)$", ln)
            if m:
                d, c, t, x, y = m.groups()
                w = width(t)
                c, x, y = iv(c, 1), iv(x, w), iv(y, w)
                env[d] = T.add(y, T.mul(c, T.sub(x, y)))
                continue
            m = re.match(r"(%[\w.]+) = freeze (i\d+) (.+)$", ln)
            if m:
                env[m.group(1)] = iv(m.group(3), width(m.group(2)))
                continue
            if ln == "ret void":
                return [(st, UNIT)]
            m = re.match(r"ret (i\d+) (.+)$", ln)
            if m:
                w = width(m.group(1))
                r = iv(m.group(2), w)
                if "range(" in f.ret:
                    ranged(f.ret, "the result", r)
                return [(st, r)]
            raise Undecided("IR: " + ln)
        raise Undecided("IR function without return")
    return run


def contracts(text):
    return {"__ethnum" + n[8:] if n.startswith("__ethnum") else n: contract(f) for n, f in parse(text).items()}
