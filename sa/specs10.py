"""C10: exponentiation, relative to the contracts of the multiplication
primitives (C02). The base is one symbol x; a product chain's values are the
residues of x^k, named by k, and a product overflows exactly when |x| passes
the k-th root of the bound, so every overflow test is a linear test on x."""
import os
import random
from . import terms as T
from .terms import Contradiction
from .cells import Cell, Ret, Panic, ANY, M, H
from .interp import Blob
from .specs import load256, words256, word_offsets, blob256, CMPC, rootname, W

_pow = {}


def power(x, k, m=M):
    """The residue of x^k as a term."""
    if x.__class__ is int:
        return pow(x, k, m)
    if k == 0:
        return 1
    f = _pow.get((k, m))
    if f is None:
        f = _pow[k, m] = (lambda v: pow(v, k, m)) if m else (lambda v: v // W)
    return T.ap(T.intern("FN", (x, f), 0, m - 1))


def iroot(n, k):
    """Largest r with r^k <= n."""
    if k == 1:
        return n
    if k > 256:
        return 1
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** k <= n:
            lo = mid
        else:
            hi = mid - 1
    return lo


def bound(x, k, neg):
    """Largest |base| whose k-th power fits type x; neg: the base is negative."""
    if k == 0:
        return M
    return iroot(M - 1 if x == "u" else (H if neg and k % 2 else H - 1), k)


def words(I, v):
    """(high, low) words of the residue v, named."""
    if v.__class__ is int:
        return v // W, v % W
    hi = T.opaque(T.ap(T.intern("FL", (v, W), None, None)), 0, W - 1)
    lo = T.opaque(T.sub(v, T.scale(T.ap(T.intern("FL", (v, W), None, None)), W)), 0, W - 1)
    return hi, lo


def dom_base(lo, hi):
    def f(name, ty, env, st, I):
        x = T.var(name, lo, hi)
        env[name] = x
        if x.__class__ is int:
            return [(x % M) >> 128, x % W]
        env["_pw"] = {}
        v = x if lo >= 0 else T.add(x, M)
        h, l = words(None, v)
        if I is not None:
            I.ghost = {(h, l): x}
            I.pw = {(h, l): 1}
            I.base = x
        return [h, l]
    f.label = "%s..%s" % (T.cshow(lo), T.cshow(hi))
    return f


def key(I, st, v):
    h, l = word_offsets(I)
    if v.__class__ is Blob:
        from .interp import Alloc
        al = Alloc(v.size, {o: (n, x) for o, n, x in v.ch})
        return I.need_int(st, I.assemble(st, al, h, 16)), I.need_int(st, I.assemble(st, al, l, 16))
    return (I.need_int(st, I.read(st, v.a, T.add(v.off, h), 16, ("i", 128, False))),
            I.need_int(st, I.read(st, v.a, T.add(v.off, l), 16, ("i", 128, False))))


def put(I, st, p, ws):
    h, l = word_offsets(I)
    I.write(st, p.a, T.add(p.off, l), 16, ws[1])
    I.write(st, p.a, T.add(p.off, h), 16, ws[0])


def product(I, st, a, b, res, x, flag):
    """res = a*b mod 2^256; with flag, whether the exact product on type x fits."""
    ka, kb = key(I, st, a), key(I, st, b)
    pw = getattr(I, "pw", None) or {}

    def exp(k):
        if k == (0, 1):
            return 0
        return pw.get(k)
    ea, eb = exp(ka), exp(kb)
    if all(v.__class__ is int for v in ka + kb):
        A, B = ka[0] * W + ka[1], kb[0] * W + kb[1]
        if x == "i":
            A, B = (A - M if A >= H else A), (B - M if B >= H else B)
        p = A * B
        st = st.fork()
        put(I, st, res, ((p % M) >> 128, p % W))
        fits = -H <= p < H if x == "i" else 0 <= p < M
        return [(st, (0 if fits else 1) if flag else Blob(0, []))]
    if ea is None or eb is None:
        return None
    k = ea + eb
    v = power(I.base, k) if k > 1 else I.base
    ws = words(I, v) if k > 1 else next(w for w, e in pw.items() if e == 1)
    if k not in pw.values():
        pw[ws] = k
        I.ghost[ws] = v
    out = []
    if not flag:
        st = st.fork()
        put(I, st, res, ws)
        return [(st, Blob(0, []))]
    lo, hi = st.facts.bound(I.base)
    neg = hi < 0
    ay = max(abs(lo), abs(hi))
    if ay <= bound(x, max(ea, 1), neg) and ay <= bound(x, max(eb, 1), neg):
        # both factors are exact: the product overflows from a power of x on
        n = bound(x, k, neg)
        for f, (u, w) in ((0, (-n, None) if neg else (None, n)), (1, (None, -n - 1) if neg else (n + 1, None))):
            s = I.branch(st, I.base, u, w)
            if s is not None:
                s = s.fork()
                put(I, s, res, ws)
                out.append((s, f))
        return out
    def val(e):
        r = power(I.base, e) if e > 1 else (1 if e == 0 else I.base if not neg else T.add(I.base, M))
        if x == "i" and r.__class__ is not int:
            return T.sub(r, T.scale(T.ap(T.intern("NEG", (T.sub(H - 1, r),), 0, 1)), M))
        return r
    p = T.mul(val(ea), val(eb))
    if x == "u":
        fl = T.ap(T.intern("NEG", (T.sub(M - 1, p),), 0, 1))
    else:
        fl = T.opaque(T.add(T.ap(T.intern("NEG", (T.sub(H - 1, p),), 0, 1)), T.ap(T.intern("NEG", (T.add(p, H),), 0, 1))), 0, 1)
    st = st.fork()
    put(I, st, res, ws)
    return [(st, fl)]


def c_mulc(x):
    return lambda I, st, fn, args, atys: product(I, st, args[1], args[2], args[0], x, True)


def c_mul3(I, st, fn, args, atys):
    return product(I, st, args[1], args[2], args[0], "u", False)


def c_mul2(I, st, fn, args, atys):
    return product(I, st, args[0], args[1], args[0], "u", False)


CON = dict(CMPC)
CON[r"^ethnum::intrinsics::(?:\w+::)*umulc$"] = c_mulc("u")
CON[r"^ethnum::intrinsics::(?:\w+::)*imulc$"] = c_mulc("i")
CON[r"^ethnum::intrinsics::(?:\w+::)*mul3$"] = c_mul3
CON[r"^ethnum::intrinsics::(?:\w+::)*mul2$"] = c_mul2

KINDS = ("op", "checked", "saturating", "wrapping", "overflowing")


def outcome(x, kind, dbg, e, fits, neg):
    def f(env):
        v = power(env.a, e) if e > 1 else (1 if e == 0 else env.a)
        if kind == "wrapping":
            return Ret(v)
        if kind == "overflowing":
            return Ret([v, 0 if fits else 1])
        if kind == "checked":
            return Ret([1, v]) if fits else Ret([0, ANY])
        if fits:
            return Ret(v)
        if kind == "saturating":
            return Ret((M - 1 if x == "u" else -H if neg and e % 2 else H - 1))
        return Panic("overflow") if dbg else Ret(v)
    return f


def exponents(tier):
    es = set(range(0, 66)) | {2 ** k + d for k in range(6, 32) for d in (-1, 0, 1)} | {2 ** 32 - 1, 2 ** 32 - 2}
    es |= {80, 81, 84, 85, 86, 96, 100, 101, 110, 126, 130, 160, 161, 162, 170, 200, 250, 251, 252, 253, 254, 258, 300, 0xAAAAAAAA, 0x55555555, 0xDEADBEEF}
    if tier == "thorough":
        es |= set(range(0, 600))
        r = random.Random(5)
        es |= {r.randrange(1 << 32) for _ in range(200)}
    else:
        r = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        es |= {r.randrange(66, 600) for _ in range(20)} | {r.randrange(1 << 32) for _ in range(8)}
    return sorted(es)


def c10(R, cfg, dbg, tier="quick"):
    out = []
    for x in "ui":
        for kind in KINDS:
            root = rootname(x, kind, "pow")
            for e in exponents(tier):
                regs = []
                n = min(bound(x, e, False), M - 1 if x == "u" else H - 1)
                regs += [(0, 0, True, False), (1, 1, True, False)]
                top = M - 1 if x == "u" else H - 1
                if n >= 2:
                    regs.append((2, n, True, False))
                if n < top:
                    regs.append((max(n, 1) + 1, top, False, False))
                if x == "i":
                    n = min(bound(x, e, True), H)
                    regs.append((-1, -1, True, True))
                    if n >= 2:
                        regs.append((-n, -2, True, True))
                    if n < H:
                        regs.append((-H, -max(n, 1) - 1, False, True))
                for lo, hi, fits, neg in regs:
                    d = dom_base(lo, hi)
                    out.append(Cell("C10", cfg, root, (d, e), outcome(x, kind, dbg, e, fits, neg), None, "%s,exponent %d" % (d.label, e), CON))
    return out
