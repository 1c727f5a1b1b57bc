"""Specifications of shifts, bit operations, comparison, sign, conversions, constants."""
from . import terms as T
from .cells import Ret, Panic, Pred, ANY, M, H
from .specs import (mk, rng, eq, ovf, S_ovf, S_val, KINDS, MIN_, MAX_, A128, B127, L64, W, UHI, PMUL, SMUL, WNEG, WPOS,
                    add_, sub_, rootname, S_mul, DIVC, MULC, CMPC)
from .roots import PRIMS

PBITS = {p: (64 if p.endswith("size") else int(p[1:])) for p in PRIMS}


def prng(p):
    b = PBITS[p]
    return (0, (1 << b) - 1) if p[0] == "u" else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


def bit_rng(ty):
    if ty == "U":
        return 0, M - 1
    if ty == "I":
        return -H, H - 1
    return prng(ty)


# ------------------------------------------------------------ C05 shifts


def amount(j, klo, khi):
    """Domain n = j + 256*k, k in [klo, khi]."""
    def dom(name, ty, env, st, I):
        bits = 256 if ty in ("U", "I") else PBITS[ty]
        k = T.var(name + "k", klo, khi) if klo != khi else klo
        n = T.add(T.scale(k, 256), j)
        env[name] = n
        env[name + "_j"] = j
        u = T.mod(n, 1 << bits, st.facts)
        if bits == 256:
            return [T.fl(u, W, st.facts), T.mod(u, W, st.facts)]
        return [u]
    dom.label = "%d" % j if klo == khi == 0 else "%d+256k,k=%s..%s" % (j, T.cshow(klo), T.cshow(khi))
    return dom


def amounts(ty, js, big=True):
    """All amounts congruent to one of js: in-range ones and out-of-range ones."""
    lo, hi = bit_rng(ty)
    out = []
    for j in js:
        if j <= hi:
            out.append(amount(j, 0, 0))
        if big:
            kh = (hi - j) // 256
            if kh >= 1:
                out.append(amount(j, 1, kh))
            kl = -((-lo + j) // 256)
            if j - 256 >= lo:
                out.append(amount(j, kl, -1))
    return out


def shl_(e):
    return T.scale(e.a, 1 << e.n_j)


def shr_(e):
    return T.fl(e.a, 1 << e.n_j, e.F)


def S_shift(op, kind, dbg):
    f = shl_ if op == "shl" else shr_

    def g(e):
        v = f(e)
        n = e.n
        inr = n.__class__ is int and 0 <= n < 256
        if kind == "op":
            return [([], Ret(v) if inr or not dbg else Panic())]
        if kind == "checked":
            return [([], Ret((1, v)) if inr else Ret((0, ANY)))]
        if kind == "wrapping":
            return [([], Ret(v))]
        return [([], Ret((v, 0 if inr else 1)))]
    return g


EDGE = [0, 1, 2, 7, 8, 31, 32, 63, 64, 65, 100, 126, 127, 128, 129, 130, 160, 191, 192, 193, 200, 253, 254, 255]
EDGES = [0, 1, 64, 127, 128, 129, 200, 255]


def c05(R, cfg, dbg, tier="quick"):
    out = []
    P = "C05"
    allj = list(range(256))
    edge, edges = (EDGE, EDGES) if tier == "quick" else (allj, allj)
    for x in "ui":
        for op in ("shl", "shr"):
            for k in ("op", "checked", "wrapping", "overflowing"):
                r = "%s_%s_0" % (x, op) if k == "op" else "%s_%s_%s" % (x, k, op)
                mk(out, R, P, cfg, r, S_shift(op, k, dbg), {"n": amounts("u32", allj, False) + amounts("u32", EDGE if k != "wrapping" else allj)[1:]})
            for v in ("1", "2", "3", "as", "asr"):
                mk(out, R, P, cfg, "%s_%s_%s" % (x, op, v), S_shift(op, "op", dbg), {"n": amounts("u32", edge)})
            for p in PRIMS:
                if p == "u32":
                    continue
                for v in ("", "_rr", "_rv", "_vr", "_as", "_asr"):
                    mk(out, R, P, cfg, "%s_%s_%s%s" % (x, op, p, v), S_shift(op, "op", dbg), {"n": amounts(p, edges if v else edge)})
            for p in ("U", "I"):
                for v in ("", "_as"):
                    mk(out, R, P, cfg, "%s_%s_%s%s" % (x, op, p, v), S_shift(op, "op", dbg), {"n": amounts(p, edges)})
    for n, op, x in (("shl", "shl", "u"), ("shr", "shr", "u"), ("sar", "shr", "i"), ("ushl", "shl", "u"), ("ishl", "shl", "i"), ("ushr", "shr", "u"), ("isar", "shr", "i")):
        for v in "23":
            if "in_%s%s" % (n, v) in R.items:
                mk(out, R, P, cfg, "in_%s%s" % (n, v), S_shift(op, "wrapping", dbg), {"n": amounts("u32", allj, False)})
    return out


# ------------------------------------------------------------ C06 rotations and bit counts


def rot_(e, left):
    s = e.n_j if left else (256 - e.n_j) % 256
    u = e.a_u
    if s == 0:
        return u
    # rotate left by s: (u * 2^s) mod 2^256 + u div 2^(256-s)
    return T.add(T.scale(T.mod(u, 1 << (256 - s), e.F), 1 << s), T.fl(u, 1 << (256 - s), e.F))


def bytes_of(u, F):
    out = []
    for i in range(32):
        out.append(T.mod(T.fl(u, 1 << (8 * i), F), 256, F))
    return out


ULZ = [("limbs", ((0, 0), (0, 0), (0, 0), (0, 0)))] + \
    [("limbs", tuple([L64] * i + [(1 << k, (2 << k) - 1)] + [(0, 0)] * (3 - i))) for i in range(4) for k in range(64)]


def lz_dom(ones):
    """Partition by the position of the leading one (zero for the complement)."""
    out = []
    W64 = (1 << 64) - 1
    for i in range(4):
        for k in range(64):
            l = (1 << k, (2 << k) - 1)
            z = (0, 0)
            if ones:
                l = (W64 - l[1], W64 - l[0])
                z = (W64, W64)
            out.append((tuple([L64] * i + [l] + [z] * (3 - i)), 255 - (64 * i + k)))
    out.append((tuple([(W64, W64) if ones else (0, 0)] * 4), 256))
    return [_lab(("limbs", d), v) for d, v in out]


def _lab(dom, val):
    from .cells import build_arg

    def f(name, ty, env, st, I):
        r = build_arg(name, ty, dom, env, st, I)
        env[name + "_k"] = val
        return r
    f.label = "k=%d" % val
    return f


def tz_dom(ones):
    """Partition by the position of the trailing one: a = 2^k*(2t+1) (or its complement)."""
    out = []
    for k in range(256):
        def f(name, ty, env, st, I, k=k):
            # limb holding bit k is 2^(k%64) * (2t+1)
            i, j = divmod(k, 64)
            ls = []
            for q in range(4):
                if q < i:
                    ls.append(0)
                elif q == i:
                    t = T.var("%s%d" % (name, q), 0, (1 << (63 - j)) - 1)
                    ls.append(T.add(T.scale(t, 2 << j), 1 << j))
                else:
                    ls.append(T.var("%s%d" % (name, q), 0, (1 << 64) - 1))
            if ones:
                ls = [T.sub((1 << 64) - 1, l) for l in ls]
            lo = T.add(ls[0], T.scale(ls[1], 1 << 64))
            hi = T.add(ls[2], T.scale(ls[3], 1 << 64))
            u = T.add(lo, T.scale(hi, W))
            env[name] = env[name + "_u"] = u
            env[name + "_k"] = k
            return [hi, lo]
        f.label = "k=%d" % k
        out.append(f)
    W64 = (1 << 64) - 1
    out.append(_lab(("limbs", tuple([(W64, W64) if ones else (0, 0)] * 4)), 256))
    return out


def revbits(u, n, F):
    """Reversal of the n low bits of u."""
    from .models import rev
    r = 0
    for i in range(0, n, 64):
        r = T.add(r, T.scale(rev(T.mod(T.fl(u, 1 << i, F), 1 << 64, F), 64, F), 1 << (n - 64 - i)))
    return r


def c06(R, cfg, dbg):
    out = []
    P = "C06"
    allj = list(range(256))
    for x in "ui":
        for m, left in (("rotate_left", 1), ("rotate_right", 0)):
            mk(out, R, P, cfg, "%s_%s" % (x, m), S_val(lambda e, left=left: rot_(e, left)),
               {"a": [None], "n": amounts("u32", allj)})
        for m, ones in (("leading_zeros", 0), ("leading_ones", 1)):
            mk(out, R, P, cfg, "%s_%s" % (x, m), S_val(lambda e: e.a_k), {"a": lz_dom(ones)})
        for m, ones in (("trailing_zeros", 0), ("trailing_ones", 1)):
            mk(out, R, P, cfg, "%s_%s" % (x, m), S_val(lambda e: e.a_k), {"a": tz_dom(ones)})
        pc = lambda e: T.add(*[T.popcount(w, e.F) for w in (e.a_lo, e.a_hi)])
        mk(out, R, P, cfg, "%s_count_ones" % x, S_val(pc), {"a": [None]})
        mk(out, R, P, cfg, "%s_count_zeros" % x, S_val(lambda e: T.sub(256, pc(e))), {"a": [None]})
        mk(out, R, P, cfg, "%s_swap_bytes" % x, S_val(lambda e: swapped(e.a_u, e.F)), {"a": ["bytes"]})
        mk(out, R, P, cfg, "%s_reverse_bits" % x, S_val(lambda e: revbits(e.a_u, 256, e.F)), {"a": [None]})
    for n, x, left in (("rol", "u", 1), ("ror", "u", 0), ("irol", "i", 1), ("iror", "i", 0)):
        mk(out, R, P, cfg, "in_%s3" % n, S_val(lambda e, left=left: rot_(e, left)), {"a": [None], "n": amounts("u32", allj, False)})
    for n in ("in_ctlz", "in_ictlz"):
        mk(out, R, P, cfg, n, S_val(lambda e: e.a_k), {"a": lz_dom(0)})
    for n in ("in_cttz", "in_icttz"):
        mk(out, R, P, cfg, n, S_val(lambda e: e.a_k), {"a": tz_dom(0)})
    return out


def swapped(u, F):
    r = 0
    for i, b in enumerate(bytes_of(u, F)):
        r = T.add(r, T.scale(b, 1 << (8 * (31 - i))))
    return r


# ------------------------------------------------------------ C07 order


def bool_cases(diff, table):
    """table: (value when a<b, a==b, a>b)."""
    return [([(diff, None, -1)], Ret(table[0])), ([(diff, 0, 0)], Ret(table[1])), ([(diff, 1, None)], Ret(table[2]))]


CMPT = {"eq": (0, 1, 0), "ne": (1, 0, 1), "lt": (1, 0, 0), "le": (1, 1, 0), "gt": (0, 0, 1), "ge": (0, 1, 1), "cmp": (-1, 0, 1)}


def wordcases(e, n1="a", n2="b"):
    """Conditions fixing the order of a and b word by word: [(conds, sign)]."""
    a, b, F = e[n1], e[n2], e.F
    h = T.sub(T.fl(a, W, F), T.fl(b, W, F))
    l = T.sub(T.mod(a, W, F), T.mod(b, W, F))
    return [([(h, None, -1)], -1), ([(h, 1, None)], 1), ([(h, 0, 0), (l, None, -1)], -1), ([(h, 0, 0), (l, 0, 0)], 0), ([(h, 0, 0), (l, 1, None)], 1)]


def S_cmp(t):
    return lambda e: [(c, Ret(CMPT[t][s + 1])) for c, s in wordcases(e)]


def c07(R, cfg, dbg):
    out = []
    P = "C07"
    for x in "ui":
        for m in ("eq", "ne", "lt", "le", "gt", "ge"):
            for v in ("", "_p", "_q"):
                mk(out, R, P, cfg, "%s_%s%s" % (x, m, v), S_cmp(m))
        for m in ("cmp", "partial_cmp", "partial_cmp_p", "partial_cmp_q"):
            mk(out, R, P, cfg, "%s_%s" % (x, m), S_cmp("cmp"))
        mk(out, R, P, cfg, "%s_max" % x, lambda e: [(c, Ret(e.a if s > 0 else e.b)) for c, s in wordcases(e)])
        mk(out, R, P, cfg, "%s_min" % x, lambda e: [(c, Ret(e.b if s > 0 else e.a)) for c, s in wordcases(e)])
        mk(out, R, P, cfg, "%s_clamp" % x, S_clamp)
        mk(out, R, P, cfg, "%s_default" % x, S_val(lambda e: 0))
        mk(out, R, P, cfg, "%s_hash" % x, S_val(lambda e: 1))
        mk(out, R, P, cfg, "%s_hash_def" % x, S_val(lambda e: 1))
    return out


def S_clamp(e):
    out = []
    for c1, s1 in wordcases(e, "b", "c"):
        if s1 > 0:
            out.append((c1, Panic()))
            continue
        for c2, s2 in wordcases(e, "a", "b"):
            if s2 < 0:
                out.append((c1 + c2, Ret(e.b)))
                continue
            for c3, s3 in wordcases(e, "a", "c"):
                out.append((c1 + c2 + c3, Ret(e.c if s3 > 0 else e.a)))
    return out


# ------------------------------------------------------------ C08 bitwise


def bitf(op):
    def f(e):
        F = e.F

        def w(n):
            v = e[n]
            return T.mod(v, W, F), T.mod(T.fl(v, W, F), W, F)
        (al, ah), (bl, bh) = w("a"), w("b")
        g = {"and": T.band, "or": T.bor, "xor": T.bxor}[op]
        return T.add(g(al, bl, F), T.scale(g(ah, bh, F), W))
    return f


def c08(R, cfg, dbg):
    out = []
    P = "C08"
    for x in "ui":
        d = {n: [None] if x == "u" else ["+", "neg"] for n in "ab"}
        for op in ("and", "or", "xor"):
            f = bitf(op)
            for v in ("", "_rv", "_vr", "_vv", "_as", "_asr"):
                mk(out, R, P, cfg, "%s_%s%s" % (x, op, v), S_val(f), d)
            for v in ("p0", "p1", "p2", "p3", "q0", "q1", "q2", "q3", "asp", "aspr"):
                mk(out, R, P, cfg, "%s_%s_%s" % (x, op, v), S_val(f), d)
        for v in ("not", "not_r"):
            mk(out, R, P, cfg, "%s_%s" % (x, v), S_val(lambda e: T.sub(-1, e.a)))
    return out


# ------------------------------------------------------------ C09 sign


SGN = [MIN_, -1, 0, 1] + WNEG + WPOS


def S_neg(x, kind, dbg):
    return lambda e: ovf(x, T.scale(e.a, -1), kind, dbg)


def sign_of(e, n="a"):
    v = e[n]
    l, h = e.F.bound(v) if v.__class__ is not int else (v, v)
    if l > 0:
        return 1
    if h < 0:
        return -1
    if l == h == 0:
        return 0
    raise AssertionError("sign not fixed")


def absv(e):
    return T.scale(e.a, -1) if sign_of(e) < 0 else e.a


def c09(R, cfg, dbg):
    out = []
    P = "C09"
    d = {"a": SGN}
    for x in "ui":
        for k in ("checked", "wrapping", "overflowing"):
            mk(out, R, P, cfg, "%s_%s_neg" % (x, k), S_neg(x, k, dbg), d if x == "i" else {"a": [None]})
    for r in ("i_neg", "i_neg_r"):
        mk(out, R, P, cfg, r, S_neg("i", "op", dbg), d)
    mk(out, R, P, cfg, "i_saturating_neg", S_neg("i", "saturating", dbg), d)
    for k in KINDS:
        mk(out, R, P, cfg, rootname("i", k, "abs"), lambda e, k=k: ovf("i", absv(e), k, dbg), d)
    mk(out, R, P, cfg, "i_unsigned_abs", S_val(absv), d)
    for r in ("i_signum", "i_signum128"):
        mk(out, R, P, cfg, r, S_val(sign_of), d)
    mk(out, R, P, cfg, "i_is_positive", S_val(lambda e: 1 if sign_of(e) > 0 else 0), d)
    mk(out, R, P, cfg, "i_is_negative", S_val(lambda e: 1 if sign_of(e) < 0 else 0), d)
    for x in "ui":
        mk(out, R, P, cfg, "%s_abs_diff" % x, lambda e: [(c, Ret(T.sub(e.a, e.b) if s > 0 else T.sub(e.b, e.a))) for c, s in wordcases(e)])
    return out


# ------------------------------------------------------------ C11 conversions


def S_try(lo, hi):
    def f(e):
        a = e.a
        return [([(a, lo, hi)], Ret((1, a))), ([(a, None, lo - 1)], Ret((0, ANY))), ([(a, hi + 1, None)], Ret((0, ANY)))]
    return f


def c11(R, cfg, dbg):
    out = []
    P = "C11"
    for x in "ui":
        o = "i" if x == "u" else "u"
        for p in PRIMS:
            mk(out, R, P, cfg, "%s_as_%s" % (x, p), S_val(lambda e: e.a))
            mk(out, R, P, cfg, "%s_from_as_%s" % (x, p), S_val(lambda e: e.a))
            mk(out, R, P, cfg, "%s_tryinto_%s" % (x, p), S_try(*prng(p)))
            if "%s_from_%s" % (x, p) in R.items:
                mk(out, R, P, cfg, "%s_from_%s" % (x, p), S_val(lambda e: e.a))
            if "%s_tryfrom_%s" % (x, p) in R.items:
                mk(out, R, P, cfg, "%s_tryfrom_%s" % (x, p), S_try(*rng(x)))
        for r in ("%s_as_%s256" % (x, o), "%s_asself" % x, "%s_from_as_%s256" % (x, o), "%s_from_bool" % x, "%s_from_as_bool" % x):
            mk(out, R, P, cfg, r, S_val(lambda e: e.a))
        mk(out, R, P, cfg, "%s_tryfrom_%s256" % (x, o), S_try(*rng(x)))
    return out


# ------------------------------------------------------------ C19 bytes


def S_bytes(order, big):
    """to_*_bytes: array of the bytes of the two's complement pattern."""
    def f(e):
        b = bytes_of(e.a_u, e.F)
        return Ret(b if order == "le" or (order == "ne" and not big) else b[::-1])
    return f


def S_frombytes(order, big):
    def f(e):
        b = e.a if order == "le" or (order == "ne" and not big) else e.a[::-1]
        r = 0
        for i, x in enumerate(b):
            r = T.add(r, T.scale(x, 1 << (8 * i)))
        return Ret(r)
    return f


def c19(R, cfg, dbg):
    out = []
    P = "C19"
    big = cfg.startswith("b")
    for x in "ui":
        for o in ("be", "le", "ne"):
            mk(out, R, P, cfg, "%s_to_%s_bytes" % (x, o), S_bytes(o, big), {"a": ["bytes"]})
            mk(out, R, P, cfg, "%s_from_%s_bytes" % (x, o), S_frombytes(o, big))
        for m in ("to_be", "to_le", "from_be", "from_le"):
            swap = (m.endswith("be")) != big
            mk(out, R, P, cfg, "%s_%s" % (x, m), S_val((lambda e: swapped(e.a_u, e.F)) if swap else (lambda e: e.a)), {"a": ["bytes"]})
        word_cells(out, R, P, cfg, x)
    return out


def word_cells(out, R, P, cfg, x):
    def lo(e):
        return T.mod(e.a_u, W, e.F)

    def hi(e):
        return T.fl(e.a, W, e.F)
    mk(out, R, P, cfg, "%s_id" % x, S_val(lambda e: e.a))
    mk(out, R, P, cfg, "%s_low" % x, S_val(lo))
    mk(out, R, P, cfg, "%s_high" % x, S_val(hi))
    mk(out, R, P, cfg, "%s_set_low" % x, S_val(lambda e: T.add(T.scale(hi(e), W), T.mod(e.b, W, e.F))))
    mk(out, R, P, cfg, "%s_set_high" % x, S_val(lambda e: T.add(T.scale(e.b, W), lo(e))))
    mk(out, R, P, cfg, "%s_words" % x, S_val(lambda e: (hi(e), lo(e))))


# ------------------------------------------------------------ C23 folds


def S_fold(x, dbg):
    """Left-to-right sum: the first partial sum that overflows decides."""
    def f(e):
        lo, hi = rng(x)
        t = 0
        conds = []
        out = []
        for n in "abc":
            if n not in e:
                break
            t = T.add(t, e[n])
            if dbg:
                out.append((conds + [(t, None, lo - 1)], Panic()))
                out.append((conds + [(t, hi + 1, None)], Panic()))
                conds = conds + [(t, lo, hi)]
        out.append((conds, Ret(t)))
        return out
    return f


def c23(R, cfg, dbg):
    out = []
    P = "C23"
    for x in "ui":
        d = {n: UHI if x == "u" else SMUL for n in "ab"}
        con = DIVC if x == "u" else MULC
        one = lambda e: T.add(1, 0)
        for v in ("", "r"):
            for k in range(4):
                mk(out, R, P, cfg, "%s_sum%d%s" % (x, k, v), S_fold(x, dbg))
            mk(out, R, P, cfg, "%s_product0%s" % (x, v), S_val(lambda e: 1))
            mk(out, R, P, cfg, "%s_product1%s" % (x, v), S_val(lambda e: e.a), d, contracts=con)
            mk(out, R, P, cfg, "%s_product2%s" % (x, v), S_mul(x, "op", dbg), d, contracts=con)
    return out


# ------------------------------------------------------------ C24 powers of two


def c24(R, cfg, dbg):
    out = []
    P = "C24"
    W64 = (1 << 64) - 1
    pows = []
    others = []
    for k in range(256):
        i, j = divmod(k, 64)
        pows.append(_lab(("limbs", tuple([(0, 0)] * i + [(1 << j, 1 << j)] + [(0, 0)] * (3 - i))), k))
        # 2^k < a < 2^(k+1)
        rest = []
        if j:
            rest.append((i, j))
        for q in range(i):
            rest.append(tuple([L64] * q + [(1, W64)] + [(0, 0)] * (i - q - 1) + [(1 << j, 1 << j)] + [(0, 0)] * (3 - i)))
        for n, r in enumerate(rest):
            f = _lab(("limbs", r), k + 1) if len(r) == 4 else _top(*r, k + 1)
            f.label = "%d<log<%d.%d" % (k, k + 1, n)
            others.append(f)
    zero = _lab(("limbs", tuple([(0, 0)] * 4)), 0)
    zero.label = "zero"
    mk(out, R, P, cfg, "u_is_power_of_two", S_val(lambda e: 1), {"a": pows})
    mk(out, R, P, cfg, "u_is_power_of_two", S_val(lambda e: 0), {"a": others + [zero]})
    mk(out, R, P, cfg, "u_next_power_of_two", lambda e: [([], Ret(1 << e.a_k) if e.a_k < 256 else Panic() if dbg else Ret(0))], {"a": pows + others + [zero]})
    mk(out, R, P, cfg, "u_checked_next_power_of_two", lambda e: [([], Ret((1, 1 << e.a_k)) if e.a_k < 256 else Ret((0, ANY)))], {"a": pows + others + [zero]})
    return out


def _top(i, j, val):
    """2^j + t in limb i, 1 <= t < 2^j; lower limbs arbitrary."""
    def f(name, ty, env, st, I):
        ls = [T.var("%s%d" % (name, q), 0, (1 << 64) - 1) for q in range(i)]
        ls += [T.add(T.var("%s%d" % (name, i), 1, (1 << j) - 1), 1 << j)] + [0] * (3 - i)
        lo = T.add(ls[0], T.scale(ls[1], 1 << 64))
        hi = T.add(ls[2], T.scale(ls[3], 1 << 64))
        env[name] = env[name + "_u"] = T.add(lo, T.scale(hi, W))
        env[name + "_k"] = val
        return [hi, lo]
    return f


# ------------------------------------------------------------ C25 constants


def c25(R, cfg, dbg):
    out = []
    P = "C25"
    for x in "ui":
        lo, hi = rng(x)
        for c, v in (("MIN", lo), ("MAX", hi), ("ZERO", 0), ("ONE", 1), ("BITS", 256)):
            mk(out, R, P, cfg, "%s_const_%s" % (x, c), S_val(lambda e, v=v: v))
        mk(out, R, P, cfg, "%s_new" % x, S_val(lambda e: e.b))
        mk(out, R, P, cfg, "%s_default" % x, S_val(lambda e: 0))
        mk(out, R, P, cfg, "%s_clone" % x, S_val(lambda e: e.a))
        word_cells(out, R, P, cfg, x)
    mk(out, R, P, cfg, "i_const_MINUS_ONE", S_val(lambda e: -1))
    return out
