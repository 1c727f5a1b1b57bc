"""Specifications of the arithmetic entry points as obligations on integer terms."""
import re
from itertools import product
from . import terms as T
from .cells import Cell, Ret, Panic, Pred, ANY, NoPanic, M, H, Env, build_arg
from .interp import State, Facts, Undecided, Ptr, Blob, Contradiction

MIN_, MAX_ = -H, H - 1
CFGS = {"nd": True, "nr": False}          # native debug / release -> overflow checks


W64 = (1 << 64) - 1
W = 1 << 128
L64 = (0, W64)
# partition of an unsigned 256-bit value by its high word
UHI = [("limbs", (L64, L64, (0, 0), (0, 0))), ("limbs", (L64, L64, (1, W64), (0, 0))), ("limbs", (L64, L64, L64, (1, W64)))]
PMUL = [(-(1 << 127), -2), -1, 0, 1, (2, (1 << 127) - 1)]
A128 = (1 << 128) - 1
B127 = 1 << 127
# partition of the signed values by sign and by the shape of their words (no cell straddles a borrow)
WNEG = [("wide", B127 + 1, A128, 0, 0), ("wide", B127, A128 - 1, 1, A128), ("wide", A128, A128, 1, A128 - 1)]
WPOS = [("wide", 0, 0, 2, A128), ("wide", 1, B127 - 1, 0, A128)]
SMUL = [MIN_, -1, 0, 1] + WNEG + WPOS


def rng(x):
    return (0, M - 1) if x == "u" else (-H, H - 1)


def eq(t, v=0):
    return (t, v, v)


def zero_or_not(b, iszero, notzero):
    """Case split on b == 0 for an unsigned value term."""
    return [([eq(b)], iszero), ([(b, 1, None)], notzero)]


def default_doms(ty):
    if ty == "I" or (ty[0] == "i" and ty[1:2].isdigit()) or ty == "isize":
        return ["+", "-"]
    return [None]


def mk(out, R, prop, cfg, root, spec, doms=None, contracts=None):
    args = R.items[root][0]
    ds = []
    for n, ty in args:
        if doms and n in doms:
            ds.append(doms[n])
        else:
            ds.append(default_doms(ty))
    for combo in product(*ds):
        T.reset()
        env = Env()
        st = State({}, Facts())
        for (n, ty), d in zip(args, combo):
            build_arg(n, ty, d, env, st, None)
        env["F"] = st.facts
        k = spec(env)
        label = ",".join("%s:%s" % (n, dom_name(d)) for (n, ty), d in zip(args, combo) if d is not None)
        if isinstance(k, list):
            for c in range(len(k)):
                out.append(Cell(prop, cfg, root, combo, spec, c, label, contracts))
        else:
            out.append(Cell(prop, cfg, root, combo, spec, None, label, contracts))


def dom_name(d):
    if callable(d):
        return getattr(d, "label", d.__name__)
    if isinstance(d, int):
        return T.cshow(d)
    if isinstance(d, tuple) and d and d[0] == "c":
        return "%s..%s" % tuple("" if x is None else T.cshow(x) for x in d[2:4])
    if isinstance(d, tuple) and d and d[0] == "limbs":
        return "/".join("*" if x == L64 else T.cshow(x[0]) if x[0] == x[1] else "%s.." % T.cshow(x[0]) for x in reversed(d[1]))
    if isinstance(d, tuple) and d and d[0] in ("range", "wide"):
        return d[0] + "(" + ",".join(T.cshow(x) if isinstance(x, int) else "limbs" for x in d[1:]) + ")"
    if isinstance(d, tuple):
        return "..".join(T.cshow(x) for x in d)
    return str(d)


# ------------------------------------------------------------ contracts


def unghost(I, v):
    """v with every sum hi*2^128 + lo of named words replaced by the value they are the words of."""
    if not I.ghost or v.__class__ is int:
        return v
    for (hi, lo), w in I.ghost.items():
        if lo.__class__ is int:
            continue
        (m0, c0), = [x for x in lo.t.items()][:1]
        c = v.t.get(m0)
        if c is None or c % c0:
            continue
        c //= c0
        s = T.add(lo, T.scale(hi, 1 << 128))
        if all(v.t.get(m) == k * c for m, k in s.t.items() if m):
            v = T.add(v, T.scale(T.sub(w, s), c))
    return v


def load256(I, st, v, signed=False):
    """Value of a 256-bit argument given by pointer or by value."""
    h, l = word_offsets(I)
    if v.__class__ is Ptr:
        lo = I.read(st, v.a, T.add(v.off, l), 16, ("i", 128, False))
        hi = I.read(st, v.a, T.add(v.off, h), 16, ("i", 128, False))
    else:
        from .interp import Alloc
        al = Alloc(v.size, {o: (n, x) for o, n, x in v.ch})
        lo, hi = I.assemble(st, al, l, 16), I.assemble(st, al, h, 16)
    lo, hi = I.need_int(st, lo), I.need_int(st, hi)
    if I.ghost:
        v = I.ghost.get((hi, lo))
        if v is None and lo.__class__ is not int:
            v = T.add(T.scale(hi, 1 << 128), lo)
            w = unghost(I, v)
            v = None if w is v else T.fold(w, st.facts)
            if v is not None and v.__class__ is not int:
                l, h = st.facts.bound(v)
                if l is not None and h is not None and l // M == h // M:
                    v = T.sub(v, l // M * M)
        if v.__class__ is int:
            return v - M if signed and v >= H else v
        if v is not None:
            l, h = st.facts.bound(v)
            a, b = (-H, H) if signed else (0, M)
            if l >= a and h < b:
                return v
            if signed and l >= H and h < M:
                return T.sub(v, M)
    if signed:
        hi = I.val(st, hi, 128, True)
    return T.add(T.scale(hi, 1 << 128), lo)


def words256(I, st, v):
    """(high, low) words of v; a long sum is kept aside and its words named."""
    F = st.facts
    if I.ghost is not None and v.__class__ is not int:
        l, h = F.bound(v)
        if (len(v.t) > 6 or (l is not None and l < 0)) and l is not None and h is not None and l >= -H and h < M and (l >= 0 or h < H):
            if l >= 0 and h < (1 << 64 if I.limbs else W):
                return 0, v
            if l >= 0 and not I.limbs:
                # a sum that parts cleanly at the word boundary
                low = T.mk({m: c for m, c in v.t.items() if c % W})
                a, b = F.bound(low) if low.__class__ is not int else (low, low)
                if a is not None and b is not None and a >= 0 and b < W:
                    return T.mk({m: c // W for m, c in v.t.items() if c % W == 0}), low
            m = T.ap(T.intern("FL", (v, W), None, None))
            if l >= 0 or h < 0:
                z = 0 if l >= 0 else W
                hl, hh = l // W + z, h // W + z
                hi = hl if hl == hh else T.opaque(T.add(m, z), hl, hh)
            else:
                hi = T.opaque(T.add(m, T.scale(T.ap(T.intern("NEG", (v,), 0, 1)), W)), 0, W - 1)
            lo = T.sub(v, T.scale(m, W))
            if I.limbs:
                q = T.ap(T.intern("FL", (lo, 1 << 64), None, None))
                lo = T.add(T.scale(T.opaque(q, 0, (1 << 64) - 1), 1 << 64), I.name_word(T.sub(lo, T.scale(q, 1 << 64)), 1 << 64))
            else:
                lo = T.opaque(lo, 0, W - 1)
            I.ghost[(hi, lo)] = v
            return hi, lo
    return T.mod(T.fl(v, W, F), W, F), T.mod(v, W, F)


def store256(I, st, p, v):
    h, l = word_offsets(I)
    hi, lo = words256(I, st, v)
    I.write(st, p.a, T.add(p.off, l), 16, lo)
    I.write(st, p.a, T.add(p.off, h), 16, hi)


def blob256(I, st, v):
    h, l = word_offsets(I)
    hi, lo = words256(I, st, v)
    return Blob(32, sorted([(l, 16, lo), (h, 16, hi)], key=lambda c: c[0]))


def c_udivmod4(I, st, fn, args, atys):
    """udivmod4(res, a, b, Option<rem>): panics iff b == 0, else res = a div b, rem = a mod b.
    Discharged separately by the division property."""
    res, a, b, rem = args
    F = st.facts
    A, B = load256(I, st, a), load256(I, st, b)
    z = T.iszero(B, F)
    if z.__class__ is not int:
        bad = I.branch(st, z, 1, 1)
        if bad is not None:
            I.event(bad, "panic", "division by zero")
        st = I.branch(st, z, 0, 0)
        if st is None:
            return []
    elif z == 1:
        I.event(st, "panic", "division by zero")
        return []
    F = st.facts
    A, B = T.fold(A, F), T.fold(B, F)
    q = T.div(A, B, F)
    r = T.sub(A, T.mul(q, B))
    st = st.fork()
    if q.__class__ is not int and len(q.t) == 1:
        # 0 <= r < B and 0 <= q <= A
        try:
            f = F.assume(r, 0, None)
            f = f.assume(T.sub(r, B), None, -1)
            f = f.assume(q, 0, None)
            st.facts = f
        except Contradiction:
            return []
    store256(I, st, res, q)
    if rem.__class__ is Blob:
        rem = rem.ch[0][2] if rem.ch else 0
    if rem.__class__ is Ptr:
        store256(I, st, rem, r)
    return [(st, Blob(0, []))]


def qr(A, B, F):
    """Quotient and remainder of A by B (B >= 1) with their defining facts.

    A symbolic quotient (remainder) is represented by its two words, each an
    opaque atom that still evaluates to its definition.
    """
    q = T.div(A, B, F)
    r = T.sub(A, T.mul(q, B))
    facts = []
    if q.__class__ is not int and any(len(m) == 1 and T.ATOMS[m[0]].kind == "DIV" for m in q.t):
        hi = T.div(q, W, F)
        lh = F.bound(q)
        q2 = T.add(T.opaque(T.sub(q, T.scale(hi, W)), 0, W - 1), T.scale(T.opaque(hi, 0, W - 1), W))
        facts += [(q2, lh[0], lh[1]), (T.sub(q2, A), None, 0)]
        h = T.fl(r, W, F)
        r2 = T.add(T.opaque(T.sub(r, T.scale(h, W)), 0, W - 1), T.scale(T.opaque(h, 0, W - 1), W))
        facts += [(r2, 0, None), (T.sub(r2, B), None, -1), (T.sub(r2, A), None, 0)]
        q, r = q2, r2
    return q, r, [f for f in facts if f[0].__class__ is not int]


def c_udivmod4w(I, st, fn, args, atys):
    """udivmod4 with the quotient and remainder as opaque words."""
    res, a, b, rem = args
    F = st.facts
    A, B = load256(I, st, a), load256(I, st, b)
    z = T.iszero(B, F)
    if z.__class__ is not int:
        bad = I.branch(st, z, 1, 1)
        if bad is not None:
            I.event(bad, "panic", "division by zero")
        st = I.branch(st, z, 0, 0)
        if st is None:
            return []
    elif z == 1:
        I.event(st, "panic", "division by zero")
        return []
    F = st.facts
    q, r, facts = qr(T.fold(A, F), T.fold(B, F), F)
    st = st.fork()
    try:
        for f in facts:
            F = F.assume(*f)
    except Contradiction:
        return []
    st.facts = F
    store256(I, st, res, q)
    if rem.__class__ is Blob:
        rem = rem.ch[0][2] if rem.ch else 0
    if rem.__class__ is Ptr:
        store256(I, st, rem, r)
    return [(st, Blob(0, []))]


def c_mul3(I, st, fn, args, atys):
    """mul3(res, a, b): res = a*b mod 2^256 (discharged by the multiplication property)."""
    res, a, b = args
    from .cells import modred
    v = modred(T.mul(modred(load256(I, st, a), M), modred(load256(I, st, b), M)), M)
    st = st.fork()
    store256(I, st, res, v)
    return [(st, Blob(0, []))]


def c_cmp(signed):
    def f(I, st, fn, args, atys):
        """Ord::cmp (discharged by the order property)."""
        a, b = load256(I, st, args[0], signed), load256(I, st, args[1], signed)
        F = st.facts
        r = T.add(T.scale(T.lt(a, b, F), 255), T.lt(b, a, F))
        return [(st, r)]
    return f


def c_eq(I, st, fn, args, atys):
    """PartialEq::eq (discharged by the order property)."""
    a, b = load256(I, st, args[0]), load256(I, st, args[1])
    return [(st, T.iszero(T.sub(a, b), st.facts))]


CMPC = {r"<impl (?:core|std)::cmp::Ord for ethnum::I256>::cmp$": c_cmp(True),
        r"<impl (?:core|std)::cmp::Ord for ethnum::U256>::cmp$": c_cmp(False),
        r"<impl (?:core|std)::cmp::PartialEq for ethnum::[IU]256>::eq$": c_eq}


def word_offsets(I):
    """Byte offsets of the (high, low) words of the representation."""
    return (0, 16) if I.big else (16, 0)


def contracts_for(prog, names):
    out = {}
    for f in prog.fns.values():
        for pat, fn in names.items():
            if f.foreign:
                if f.sym == pat:
                    out[f.sym] = fn
            elif re.search(pat, f.name) or re.search(pat, f.defname):
                out[f.name] = fn
    return out


DIVC = {r"^ethnum::intrinsics::(?:\w+::)*udivmod4$": c_udivmod4}
DIVW = {r"^ethnum::intrinsics::(?:\w+::)*udivmod4$": c_udivmod4w}
DIVS = dict(DIVW, **CMPC)
MULC = dict(DIVC, **CMPC)
MULC[r"^ethnum::intrinsics::(?:\w+::)*mul3$"] = c_mul3


# ------------------------------------------------------------ generic outcome tables


def ovf(x, v, kind, dbg, sat=None):
    """Cases for an operation with exact result v on type x."""
    lo, hi = rng(x)
    inside = [(v, lo, hi)]
    below = [(v, None, lo - 1)]
    above = [(v, hi + 1, None)]
    if kind == "op":
        o = Panic() if dbg else Ret(v)
        return [(inside, Ret(v)), (below, o), (above, o)]
    if kind == "checked":
        return [(inside, Ret((1, v))), (below, Ret((0, ANY))), (above, Ret((0, ANY)))]
    if kind == "wrapping":
        return [(inside, Ret(v)), (below, Ret(v)), (above, Ret(v))]
    if kind == "overflowing":
        return [(inside, Ret((v, 0))), (below, Ret((v, 1))), (above, Ret((v, 1)))]
    if kind == "saturating":
        return [(inside, Ret(v)), (below, Ret(lo)), (above, Ret(hi))]
    raise KeyError(kind)


W = 1 << 128
KINDS = ("op", "checked", "wrapping", "overflowing", "saturating")


def S_ovf(x, val, kind, dbg):
    return lambda e: ovf(x, val(e), kind, dbg)


def S_val(val):
    return lambda e: Ret(val(e))


def A_(e):
    return e.a


def add_(e):
    return T.add(e.a, e.b)


def sub_(e):
    return T.sub(e.a, e.b)


def mul_(e):
    return T.mul(e.a, e.b)


def S_mul(x, kind, dbg):
    """Cases of a product, with the product's interval as a lemma."""
    def f(e):
        p = T.mul(e.a, e.b)
        cs = ovf(x, p, kind, dbg)
        F = e.F
        (al, ah), (bl, bh) = [F.bound(v) if v.__class__ is not int else (v, v) for v in (e.a, e.b)]
        xs = (al * bl, al * bh, ah * bl, ah * bh)
        return [(a + [(p, min(xs), max(xs))], o) for a, o in cs]
    return f


def rootname(x, k, op):
    return "%s_%s" % (x, op) if k == "op" else "%s_%s_%s" % (x, k, op)


def c01(R, cfg, dbg):
    """Addition / subtraction family."""
    out = []
    P = "C01"
    for x in "ui":
        for op, f in (("add", add_), ("sub", sub_)):
            for k in KINDS:
                mk(out, R, P, cfg, rootname(x, k, op), S_ovf(x, f, k, dbg))
            for v in ("rv", "vr", "vv", "as", "asr"):
                mk(out, R, P, cfg, "%s_%s_%s" % (x, op, v), S_ovf(x, f, "op", dbg))
            for v in ("p0", "q0", "asp"):
                mk(out, R, P, cfg, "%s_%s_%s" % (x, op, v), S_ovf(x, f, "op", dbg))
    for k in KINDS[1:]:
        mk(out, R, P, cfg, "u_%s_add_signed" % k, S_ovf("u", add_, k, dbg))
        mk(out, R, P, cfg, "i_%s_add_unsigned" % k, S_ovf("i", add_, k, dbg))
        mk(out, R, P, cfg, "i_%s_sub_unsigned" % k, S_ovf("i", sub_, k, dbg))
    # intrinsics: results modulo 2^256, carry flags exact
    for n, x, f in (("uaddc", "u", add_), ("iaddc", "i", add_), ("usubc", "u", sub_), ("isubc", "i", sub_)):
        mk(out, R, P, cfg, "in_" + n, S_ovf(x, f, "overflowing", dbg))
    for n, f in (("add", add_), ("sub", sub_)):
        for r in ("in_%s2", "in_%s3", "in_u%s2", "in_u%s3", "in_i%s2", "in_i%s3"):
            mk(out, R, P, cfg, r % n, S_val(f))
    return out


def c02(R, cfg, dbg):
    """Multiplication family."""
    out = []
    P = "C02"
    for x in "ui":
        ud = {"a": UHI, "b": UHI} if x == "u" else {"a": SMUL, "b": SMUL}
        con = DIVC if x == "u" else MULC
        mk(out, R, P, cfg, "%s_wrapping_mul" % x, S_val(mul_), {"a": [None], "b": [None]})
        for k in KINDS:
            if k == "wrapping":
                continue
            mk(out, R, P, cfg, rootname(x, k, "mul"), S_mul(x, k, dbg), ud, contracts=con)
        for v in ("rv", "vr", "vv", "as", "asr"):
            mk(out, R, P, cfg, "%s_mul_%s" % (x, v), S_mul(x, "op", dbg), ud, contracts=con)
        pd = PMUL if x == "i" else [None]
        for v in ("p0", "q0", "asp"):
            mk(out, R, P, cfg, "%s_mul_%s" % (x, v), S_mul(x, "op", dbg), {"a": ud["a"] if v != "q0" else pd, "b": ud["b"] if v == "q0" else pd}, contracts=con)
    mk(out, R, P, cfg, "in_umulc", S_mul("u", "overflowing", dbg), {"a": UHI, "b": UHI}, contracts=DIVC)
    mk(out, R, P, cfg, "in_imulc", S_mul("i", "overflowing", dbg), {"a": SMUL, "b": SMUL}, contracts=MULC)
    for r in ("in_mul2", "in_mul3", "in_umul2", "in_umul3", "in_imul2", "in_imul3"):
        mk(out, R, P, cfg, r, S_val(mul_), {"a": [None], "b": [None]})
    return out


# ------------------------------------------------------------ division


def sgn(e, n):
    """(sign, magnitude) of a value of known sign."""
    v = e[n]
    l, h = e.F.bound(v) if v.__class__ is not int else (v, v)
    if l >= 0:
        return 1, v
    if h < 0:
        return -1, T.scale(v, -1)
    raise AssertionError("sign of %s not fixed by the cell" % n)


def cases_by_sign(e, f):
    """f(sa, A, sb, B) over the signs the cell fixes."""
    sa, A = sgn(e, "a")
    sb, B = sgn(e, "b")
    return f(sa, A, sb, B)


def zero_of(v, F):
    if v.__class__ is int:
        return v == 0
    l, h = F.bound(v)
    if l is not None and l > 0 or h is not None and h < 0:
        return False
    if l == 0 and h == 0:
        return True
    return None


def halves(v, F):
    """Regions by which words of v are zero."""
    if v.__class__ is int:
        return [[]]
    h = T.fl(v, W, F)
    l = T.sub(v, T.scale(h, W))
    return [[c, d] for c in ((l, 0, 0), (l, 1, None)) for d in ((h, 0, 0), (h, 1, None))]


def trunc(e):
    """[(conditions, quotient, remainder)], rounded toward zero; divisor known non-zero."""
    F = e.F
    sa, A = sgn(e, "a")
    sb, B = sgn(e, "b")
    if B.__class__ is not int:
        F = F.assume(B, 1, None)
    q, r, facts = qr(A, B, F)
    out = []
    for c in halves(q, F) if sa * sb < 0 else [[]]:
        for d in halves(r, F) if sa < 0 else [[]]:
            out.append((facts + c + d, T.scale(q, sa * sb), T.scale(r, sa)))
    return out


def euclid(e):
    """[(extra conditions, q, r)]: a = q*b + r, 0 <= r < |b|."""
    F = e.F
    sa, A = sgn(e, "a")
    sb, B = sgn(e, "b")
    if B.__class__ is not int:
        F = F.assume(B, 1, None)
    q, r, facts = qr(A, B, F)
    if sa > 0:
        return [(facts + c, T.scale(q, sb), r) for c in (halves(q, F) if sb < 0 else [[]])]
    # a = -A: when A = q*B + r with r > 0, a = -(q+1)*B + (B - r)
    out = []
    for c in halves(q, F):
        for d in halves(r, F):
            if len(d) == 2 and all(x[1:] == (0, 0) for x in d):
                out.append((facts + c + [eq(r)] + d, T.scale(q, -sb), 0))
            elif len(d) == 2:
                g = T.sub(T.fl(r, W, F), T.fl(B, W, F))
                bh = T.fl(B, W, F)
                l = T.sub(T.sub(B, T.scale(bh, W)), d[0][0])
                for k in [[]] if g.__class__ is int else [[(l, None, -1)], [(l, 0, None)]]:
                    out.append((facts + c + d + k, T.scale(T.add(q, 1), -sb), T.sub(B, r)))
            else:
                out.append((facts + c + [eq(r)], T.scale(q, -sb), 0))
                out.append((facts + c + [(r, 1, None)], T.scale(T.add(q, 1), -sb), T.sub(B, r)))
    return out


def S_div(x, what, kind, dbg):
    """what: 'q', 'r', 'qr' with suffix 'e' for Euclidean."""
    eu = what.endswith("e")
    w = what.rstrip("e")

    def f(e):
        b = e.b
        z = zero_of(b, e.F)
        zero = Ret((0, ANY)) if kind == "checked" else Panic()
        if z is True:
            return [([], zero)]
        cs = [] if z is False else [([eq(b)], zero)]
        nz = [] if z is False else [(b, 1, None)]
        if x == "i" and e.a == MIN_ and b == -1:
            q, r = MIN_, 0
            if kind == "op":
                o = Panic()
            elif kind == "checked":
                o = Ret((0, ANY))
            elif kind == "saturating":
                o = Ret(pick(w, MAX_, 0))
            elif kind == "wrapping":
                o = Ret(pick(w, q, r))
            else:
                o = Ret(pick(w, q, r, (1,)))
            return [([], o)]
        for cond, q, r in (euclid(e) if eu else trunc(e)):
            v = pick(w, q, r, (0,) if kind == "overflowing" else ())
            if kind == "checked":
                v = (1, v)
            cs.append((nz + cond, Ret(v)))
        return cs
    return f


def pick(w, q, r, extra=()):
    t = {"q": (q,), "r": (r,), "qr": (q, r)}[w] + tuple(extra)
    return t[0] if len(t) == 1 else t


SDIV = [MIN_, -1, 0, 1] + WNEG + WPOS
UDIVB = [0, ("c", None, 1, None)]


def c03(R, cfg, dbg):
    """Truncated division and remainder."""
    out = []
    P = "C03"
    for x in "ui":
        d = {"a": [None], "b": [0, None]} if x == "u" else {"a": SDIV, "b": SDIV}
        con = DIVW if x == "u" else DIVS
        for op, w in (("div", "q"), ("rem", "r")):
            for k in KINDS:
                if op == "rem" and k == "saturating":
                    continue
                mk(out, R, P, cfg, rootname(x, k, op), S_div(x, w, k, dbg), d, contracts=con)
            for v in ("rv", "vr", "vv", "as", "asr"):
                mk(out, R, P, cfg, "%s_%s_%s" % (x, op, v), S_div(x, w, "op", dbg), d, contracts=con)
            pd = PMUL if x == "i" else [None]
            for v in ("p0", "p1", "p2", "p3", "q0", "q1", "q2", "q3", "asp", "aspr"):
                mk(out, R, P, cfg, "%s_%s_%s" % (x, op, v), S_div(x, w, "op", dbg),
                   {"a": pd, "b": d["b"]} if v[0] == "q" else {"a": d["a"], "b": pd}, contracts=con)
        for op, w in (("div3", "q"), ("div2", "q"), ("rem3", "r"), ("rem2", "r")):
            mk(out, R, P, cfg, "in_%s%s" % (x, op), S_div(x, w, "wrapping", dbg), d, contracts=con)
    mk(out, R, P, cfg, "in_idivmod4", S_div("i", "qr", "wrapping", dbg), {"a": SDIV, "b": SDIV}, contracts=DIVS)
    return out


def c04(R, cfg, dbg):
    """Euclidean division and the paired forms."""
    out = []
    P = "C04"
    for x in "ui":
        d = {"a": [None], "b": [0, None]} if x == "u" else {"a": SDIV, "b": SDIV}
        con = DIVW if x == "u" else DIVS
        for op, w in (("div_euclid", "qe"), ("rem_euclid", "re"), ("div_rem", "qr"), ("div_rem_euclid", "qre")):
            for k in KINDS:
                if op in ("div_euclid", "rem_euclid") and k == "saturating":
                    continue
                mk(out, R, P, cfg, rootname(x, k, op), S_div(x, w, k, dbg), d, contracts=con)
    return out


from .specs2 import *  # noqa: E402,F401,F403
from .specs3 import *  # noqa: E402,F401,F403
