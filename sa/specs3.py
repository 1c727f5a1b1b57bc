"""The unsigned division core, decided shift by shift."""
import random
import re
from . import terms as T, cells, polyhedra
from .cells import Cell, Ret, Panic, Pred, M, Env, Blob
from .interp import Ptr
from .terms import Contradiction

W = 1 << 128
B = 1 << 64


def samples(env, F, n=400):
    """Corner valuations of the input variables satisfying the initial facts (used to avoid hopeless proof attempts)."""
    rng = random.Random(7)
    vs = [a for a in T.ATOMS if a.kind == "V"]
    out = []
    for _ in range(n * 3):
        e = {a.name: cells.corner(rng, *F.atom(a.id)) for a in vs}
        # dividends close to a multiple of the divisor reach the correction steps
        m = {}
        b = T.evaluate(env.b, e, m)
        if b == 0:
            continue
        q = cells.corner(rng, 0, env._qmax)
        d = rng.choice((0, 1, -1, b - 1, rng.randrange(b), rng.randrange(b), b >> 1))
        a = q * b + d
        if rng.randrange(4) == 0 or not env._adecode(a, e):
            pass
        m = {}
        if all((lo is None or T.evaluate(f, e, m) >= lo) and (hi is None or T.evaluate(f, e, m) <= hi) for f, (lo, hi) in F.m.items()):
            out.append((e, m))
            if len(out) >= n:
                break
    return out


def _base(I, env, norm):
    if norm.__class__ is int:
        I.moduli, polyhedra.BASE = (), set()
    else:
        I.moduli, polyhedra.BASE = (norm,), {i for m in norm.t for i in m}
    polyhedra.CANDS = (B - 1, B, B + 1)
    I.width = 200


def _hints(env, st):
    st.facts.smp = samples(env, st.facts)
    cells.HINTS[:] = st.facts.smp


def setup_core(I, env, st):
    _base(I, env, env.b_norm)
    _hints(env, st)


def dom_divisor_low(s):
    """b = one word with exactly s leading zeros (high word zero): digits b1 (64 bits, top bit set) and b0."""
    def dom(name, ty, env, st, I):
        if s < 64:
            k = 64 - s
            b1 = T.var(name + "1", 1 << 63, B - 1)
            b0 = T.var(name + "0", 0, (1 << k) - 1)
            v = T.add(T.scale(b1, 1 << k), b0)
        elif s == 127:
            v = 1
        else:
            v = T.var(name + "1", 1 << (127 - s), (1 << (128 - s)) - 1)
        env["b"] = env["b_u"] = v
        env["b_norm"] = T.scale(v, 1 << s)
        return [0, v]
    return dom


def dom_dividend_low(s, big=False):
    """Dividend below b * 2^128 (big: plus k * b * 2^128), cut at the digit boundaries the normalised dividend has."""
    def dom(name, ty, env, st, I):
        F = st.facts
        n2 = T.var(name + "2", 0, W - 1)          # digits above 2^(128-s)
        if s < 64:
            x1 = T.var(name + "1", 0, B - 1)
            x0 = T.var(name + "0", 0, (1 << (64 - s)) - 1)
            lo = T.add(T.scale(x1, 1 << (64 - s)), x0)
        else:
            lo = T.var(name + "1", 0, (1 << (128 - s)) - 1)
        v = T.add(T.scale(n2, 1 << (128 - s)), lo)
        env["a_top"] = n2
        hi, lw = T.fl(v, W, F), T.mod(v, W, F)
        env["a_base"] = v
        env["a_hib"] = hi

        def dec(x, e):
            if x < 0:
                return False
            n, x = divmod(x, 1 << (128 - s))
            if n >= W:
                return False
            e[name + "2"] = n
            if s < 64:
                e[name + "1"], e[name + "0"] = divmod(x, 1 << (64 - s))
            else:
                e[name + "1"] = x
            return True
        env["_adecode"] = dec
        env["_qmax"] = W - 1
        env["a"] = env["a_u"] = v
        return [hi, lw]
    return dom


def dom_dividend_high(s):
    """k * b * 2^128 + the former; the divisor is built first (its terms are shared)."""
    low = dom_dividend_low(s)

    def dom(name, ty, env, st, I):
        be = Env()
        dom_divisor_low(s)("b", None, be, st, I)
        hi, lw = low(name, ty, env, st, I)
        k = T.add(T.var("k", 0, W - 2), 1)
        env["a"] = env["a_u"] = T.add(env["a"], T.scale(T.mul(k, be.b), W))
        h = T.add(hi, T.mul(k, be.b))
        dec = env["_adecode"]

        def dec2(x, e):
            m = {}
            bv = T.evaluate(be.b, e, m)
            k, x = divmod(x, bv * W)
            e["k"] = k - 1
            return k > 0 and dec(x, e)
        env["_adecode"] = dec2
        env["_qmax"] = W * W - 1
        env["a_hi"] = h
        return [h, lw]
    return dom


def dom_divisor_high(s):
    """b with s leading zeros: digits b1 (128 bits, top bit set) and b0 of the normalised divisor."""
    def dom(name, ty, env, st, I):
        F = st.facts
        b1 = T.var(name + "1", 1 << 127, W - 1)
        b0 = T.var(name + "0", 0, (1 << (128 - s)) - 1)
        v = T.add(T.scale(b1, 1 << (128 - s)), b0)
        env["b"] = env["b_u"] = v
        env["b_norm"] = T.scale(v, 1 << s)
        return [T.fl(v, W, F), T.mod(v, W, F)]
    return dom


def dom_dividend_knuth(s):
    """Digits of a * 2^s: x2 (s bits), x1 (128 bits), x0."""
    def dom(name, ty, env, st, I):
        F = st.facts
        x2 = T.var(name + "2", 0, (1 << s) - 1) if s else 0
        x1 = T.var(name + "1", 0, W - 1)
        x0 = T.var(name + "0", 0, (1 << (128 - s)) - 1)
        v = T.add(T.add(T.scale(x2, 1 << (256 - s)), T.scale(x1, 1 << (128 - s))), x0)
        env["a"] = env["a_u"] = v

        def dec(x, e):
            if x < 0:
                return False
            x, e[name + "0"] = divmod(x, 1 << (128 - s))
            x, e[name + "1"] = divmod(x, W)
            if s:
                e[name + "2"] = x
            return x < (1 << s)
        env["_adecode"] = dec
        env["_qmax"] = (1 << (s + 1)) - 1
        return [T.fl(v, W, F), T.mod(v, W, F)]
    return dom


def spec_qr(e):
    def f(v, s):
        q, r = v
        if any(x.__class__ not in (int, T.Poly) for x in (q, r)):
            return [("eq", x, 0, None, "quotient and remainder") for x in (q, r) if x.__class__ not in (int, T.Poly)]
        p = T.sub(T.add(T.mul(q, e.b), r), e.a)
        if not (T.NAMED and T.entails_nonneg(s.facts, p) and T.entails_nonneg(s.facts, T.neg(p))):
            p = T.expand_opaque(p)
        else:
            p = 0
        return [("eq", p, 0, None, "quotient*divisor + remainder = dividend"),
                ("in", r, 0, None, "remainder >= 0"),
                ("in", T.sub(r, e.b), None, -1, "remainder < divisor")]
    return Pred(f)


def spec_low(e):
    # high word of the dividend below the divisor, dividend not below the divisor
    # (the normalised top digits are below the normalised divisor)
    return [([(T.sub(e.a_top, e.b_norm), None, -1), (T.sub(e.a, e.b), 0, None)], spec_qr(e))]


def spec_high(e):
    return [([(T.sub(e.a_top, e.b_norm), None, -1), (T.sub(e.a_hib, e.b), None, -1), (e.a_hi, None, W - 1)], spec_qr(e))]


def spec_knuth(e):
    return [([(T.sub(e.a, e.b), 0, None)], spec_qr(e))]


# ------------------------------------------------ the private 256-by-128 step


UDIV = "ethnum::intrinsics::native::divmod::udiv256_by_128_to_128"
FULL = "ethnum::intrinsics::native::divmod::div_mod_knuth::fullmul_u128"


def c_udiv(I, st, fn, args, atys):
    """q = (u1 * 2^128 + u0) div v, *r = the remainder, for u1 < v with the top bit of v set."""
    u1, u0, v, r = args
    v = v.ch[0][2] if v.__class__ is cells.Blob else v
    if r.__class__ is not Ptr or v.__class__ not in (int, T.Poly):
        return None
    u = T.add(T.scale(u1, W), u0)
    F = st.facts
    if F.bound(v)[0] is None or F.bound(v)[0] < 1 << 127:
        return None
    if not T.entails_nonneg(F, T.sub(T.sub(v, 1), u1)) and T.isneg(T.sub(u1, v), F) != 1:
        return None
    q = T.div(u, v, F)
    if q.__class__ is not int and len(q.t) == 1:
        smp = F.smp
        F = F.assume(q, 0, W - 1)
        F = F.assume(T.sub(u, T.mul(q, v)), 0, None)
        F = F.assume(T.sub(T.mul(q, v), u), None, 0)
        F.smp = smp
    d = T.sub(u, T.mul(q, v))
    rem = d if d.__class__ is int else T.opaque(d, 0, W - 1)
    st = st.fork()
    smp = F.smp
    F = F.assume(T.sub(v, rem), 1, None)
    F = F.assume(T.sub(rem, d), 0, 0)
    F.smp = smp
    st.facts = F
    I.write(st, r.a, r.off, 16, rem)
    return [(st, q)]


def p_u128(name):
    def dom(n, ty, env, st, I):
        l, h = T.var(name + "0", 0, B - 1), T.var(name + "1", 0, B - 1)
        env[name] = T.add(T.scale(h, B), l)
        return [env[name]]
    return dom


def p_word(name):
    def dom(n, ty, env, st, I):
        env[name] = T.var(name, 0, W - 1)
        return [env[name]]
    return dom


def p_norm(name):
    def dom(n, ty, env, st, I):
        l, h = T.var(name + "0", 0, B - 1), T.var(name + "1", 1 << 63, B - 1)
        v = env[name] = T.add(T.scale(h, B), l)
        return [Blob(16, [(0, 16, v)])]
    return dom


def p_out(name):
    def dom(n, ty, env, st, I):
        a = I.new_alloc(st, 16, {0: (16, 0)})
        env["_out"] = Ptr(a, 0)
        env["_I"] = I
        return [env["_out"]]
    return dom


def spec_udiv(e):
    u = T.add(T.scale(e.u1, W), e.u0)

    def f(v, s):
        r = e["_I"].read(s, e["_out"].a, 0, 16, ("i", 128, False))
        if v.__class__ not in (int, T.Poly) or r.__class__ not in (int, T.Poly):
            return [("eq", v, 0, None, "x"), ("eq", r, 0, None, "x")]
        p = T.expand_opaque(T.sub(T.add(T.mul(v, e.v), r), u))
        return [("eq", p, 0, None, "q*v + r = u"), ("in", r, 0, None, "r >= 0"), ("in", T.sub(r, e.v), None, -1, "r < v")]
    return [([(T.sub(e.u1, e.v), None, -1)], Pred(f))]


def setup_udiv(I, env, st):
    _base(I, env, env.v)
    rng = random.Random(11)
    out = []
    for _ in range(900):
        e = {}
        v = cells.corner(rng, 1 << 127, W - 1)
        q = cells.corner(rng, 0, W - 1)
        u = q * v + rng.choice((0, 1, v - 1, rng.randrange(v), rng.randrange(v)))
        e["v1"], e["v0"] = divmod(v, B)
        e["u1"], u = divmod(u, W)
        e["u01"], e["u00"] = divmod(u, B)
        m = {}
        if all((lo is None or T.evaluate(f, e, m) >= lo) and (hi is None or T.evaluate(f, e, m) <= hi) for f, (lo, hi) in st.facts.m.items()):
            out.append((e, m))
    st.facts.smp = out[:400]
    cells.HINTS[:] = st.facts.smp


def spec_full(e):
    def f(v, s):
        lo, hi = v
        if any(x.__class__ not in (int, T.Poly) for x in v):
            return [("eq", x, 0, None, "x") for x in v if x.__class__ not in (int, T.Poly)]
        return [("eq", T.add(lo, T.scale(hi, W)), T.mul(e.x, e.y), None, "lo + hi*2^128 = x*y"), ("in", lo, 0, W - 1, "lo is a word")]
    return [([], Pred(f))]


def c_full(I, st, fn, args, atys):
    """(lo, hi) of the full product of two words."""
    p = T.mul(args[0], args[1])
    F = st.facts
    lo, hi = T.mod(p, W, F), T.fl(p, W, F)
    if T.NAMED and p.__class__ is not int and hi.__class__ is not int:
        lo, hi = I.name_word(lo, W), I.name_word(hi, W)
        st = st.fork()
        I.tie(st, T.sub(T.add(lo, T.scale(hi, W)), p))
    rt = I.p.types[fn.ret]
    ol, oh = I.p.field_off(fn.ret, None, 0), I.p.field_off(fn.ret, None, 1)
    return [(st, Blob(32, sorted([(ol, 16, lo), (oh, 16, hi)])))]


_helpers = {}


def helpers(P, R, ovf):
    """Contracts of the private helpers that were proved on this tree, by function name."""
    k = id(P)
    if k in _helpers:
        return _helpers[k]
    out = {}
    c = Cell("C03", "", "@" + UDIV, (p_word("u1"), p_u128("u0"), p_norm("v"), p_out("r")), spec_udiv, 0, "normalised")
    r = _deep(P, c, R, ovf, setup=setup_udiv)
    if r.status == "PROVED":
        out[UDIV] = c_udiv
    c = Cell("C03", "", "@" + FULL, (p_u128("x"), p_u128("y")), spec_full, 0, "all")
    r2 = cells.decide(P, c, R, ovf)
    if r2.status == "PROVED":
        out[FULL] = c_full
    _helpers[k] = out
    _helpers[k, "res"] = (r, r2)
    return out


def _deep(P, c, R, ovf, seed=1, contracts=None, setup=setup_core):
    T.DEEP = polyhedra
    try:
        return cells.decide(P, c, R, ovf, seed=seed, contracts=contracts, setup=setup)
    finally:
        T.DEEP = None
        cells.HINTS[:] = []


def deep(P, c, R, ovf, seed=1, contracts=None):
    return _deep(P, c, R, ovf, seed)


def deep_knuth(P, c, R, ovf, seed=1, contracts=None):
    h = helpers(P, R, ovf)
    polyhedra.WIDE = T.NAMED = True
    try:
        return _deep(P, c, R, ovf, seed, contracts=h)
    finally:
        polyhedra.WIDE = T.NAMED = False


WIDE = ("wide", 0, W - 1)


def _pair(root, q, r):
    return Ret((q, r)) if root == "in_udivmod4" else Ret(q if root == "in_udiv3" else r)


def spec_edge(root, kind):
    """Regions of the core outside the two long-division bodies."""
    def f(e):
        z = lambda x: (x, 0, 0)
        bh, bl = e.b_hi, e.b_lo
        if kind == "zero":
            return [([z(bh), z(bl)], Panic())]
        if kind == "words":
            return [([z(e.a_hi), z(bh), (bl, 1, None)], Pred(_words(e, root)))]
        return [([(bh, 1, None), (T.sub(e.b, e.a), 1, None)], _pair(root, 0, e.a))]
    return f


def _words(e, root):
    def f(v, s):
        F = s.facts
        q = T.div(e.a_lo, e.b_lo, F)
        r = T.sub(e.a_lo, T.mul(q, e.b_lo))
        want = (q, r) if root == "in_udivmod4" else ((q,) if root == "in_udiv3" else (r,))
        got = v if root == "in_udivmod4" else (v,)
        return [("eq", g, w, M, "quotient and remainder of one-word operands") for g, w in zip(got, want)]
    return f


def spec_q(e):
    """The quotient does not depend on whether the remainder was asked for."""
    return Pred(lambda v, s: [("eq", v[0], v[1], None, "quotient with and without remainder")])


def spec_r(e):
    def f(v, s):
        if v.__class__ not in (int, T.Poly):
            return [("eq", v, 0, None, "remainder")]
        return [("in", v, 0, None, "remainder >= 0"), ("in", T.sub(v, e.b), None, -1, "remainder < divisor")]
    return Pred(f)


def _case(base, of):
    return lambda e: [(base(e)[0][0], of(e))]


REGIONS = (("a:s=%d,b:low", dom_dividend_low, dom_divisor_low, spec_low, "deep"),
           ("a:high,s=%d,b:low", dom_dividend_high, dom_divisor_low, spec_high, "deep"),
           ("a:s=%d,b:high", dom_dividend_knuth, dom_divisor_high, spec_knuth, "deep_knuth"))


def c03core(cfg, low, high, only=(5,)):
    """low, high: the normalisation shifts analysed with a one-word / two-word divisor."""
    out = []
    for root in ("in_udivmod4", "in_udiv3", "in_urem3"):
        for kind in ("zero", "words", "less"):
            out.append(Cell("C03", cfg, root, (WIDE, WIDE), spec_edge(root, kind), 0, "core:" + kind))
    for lab, da, db, sp, hk in REGIONS:
        for s in (high if hk == "deep_knuth" else low):
            c = Cell("C03", cfg, "in_udivmod4", (da(s), db(s)), sp, 0, lab % s, hook=globals()[hk])
            c.limit = 60 if hk == "deep_knuth" else 30
            out.append(c)
        for s in only:
            if hk == "deep_knuth" and len(low) < 128:
                continue
            for root, of in (("in_divsame", spec_q), ("in_urem3", spec_r)):
                c = Cell("C03", cfg, root, (da(s), db(s)), _case(sp, of), 0, lab % s, hook=globals()[hk])
                c.limit = 60 if hk == "deep_knuth" else 30
                out.append(c)
    return out


EDGE = (0, 1, 63, 64, 65, 127)


def c03full(R, cfg, ovf, tier="quick"):
    from . import specs
    out = specs.c03(R, cfg, ovf)
    if tier == "thorough":
        out += c03core(cfg, range(128), range(128) if ovf else EDGE)
    elif ovf:
        out += c03core(cfg, sorted({*range(0, 128, 8), *EDGE}), sorted({*range(2, 128, 5), 0, 1, 63, 64, 126}))
    else:
        out += c03core(cfg, (0, 33, 64, 127), (0, 64), ())
    return out


def c03test(R, cfg, ovf):
    return [c for c in c03full(R, cfg, ovf) if c.label.startswith("core") or c.hook]


def c22(R, cfg, ovf, tier="quick"):
    from . import specs
    out = []
    for f in ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c11", "c23", "c24"):
        out += getattr(specs, f)(R, cfg, ovf)
    if tier == "quick":
        # every amount for the entry points themselves, a spread of amounts for the operator spellings
        out = [c for k, c in enumerate(out) if not re.match(r"[ui]_sh[lr]_", c.root) or k % 16 == 0]
    return out
