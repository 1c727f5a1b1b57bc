"""Floating point on exact bit patterns: a float is the term of its bits, and an
operation is performed where the sign and exponent involved are determined."""
from fractions import Fraction
from . import terms as T
from .terms import Poly

FMT = {32: (23, 127), 64: (52, 1023)}       # mantissa bits, exponent bias


def flt(w, bits):
    from .interp import Flt
    return Flt(w, bits=bits)


def und(s):
    from .interp import Undecided
    raise Undecided("float: " + s)


def from_fraction(neg, v, w):
    """Bits of the nearest float to the magnitude v, ties to even."""
    m, b = FMT[w]
    s = (1 << (w - 1)) if neg else 0
    if v == 0:
        return s
    e = v.numerator.bit_length() - v.denominator.bit_length()
    if Fraction(2) ** e > v:
        e -= 1
    e = max(e, 1 - b)
    q = v / Fraction(2) ** (e - m)
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    x = ((e + b - 1) << m) + n if n >> m else n
    if x >= (2 * b + 1) << m:
        x = (2 * b + 1) << m
    return s | x


def to_fraction(bits, w):
    """Exact value of a finite float; None otherwise."""
    m, b = FMT[w]
    e = (bits >> m) & (2 * b + 1)
    f = bits & ((1 << m) - 1)
    if e == 2 * b + 1:
        return None
    v = Fraction(f) * Fraction(2) ** (1 - b - m) if e == 0 else Fraction(f + (1 << m)) * Fraction(2) ** (e - b - m)
    return -v if bits >> (w - 1) else v


class Part:
    """sign, magnitude bits and their range."""
    __slots__ = ("w", "s", "m", "lo", "hi", "nan", "e")

    def __init__(self, F, v):
        self.w = w = v.w
        M, b = FMT[w]
        x = v.bits
        if x.__class__ not in (int, Poly):
            und("unknown bits")
        x = T.fold(x, F)
        lo, hi = (x, x) if x.__class__ is int else F.bound(x)
        if lo is None or hi is None or lo < 0 or hi >= 1 << w:
            und("bits out of range")
        half = 1 << (w - 1)
        if hi < half:
            self.s = 0
        elif lo >= half:
            self.s = 1
        else:
            und("sign not determined")
        o = half if self.s else 0
        self.m = T.add(x, -o)
        self.lo, self.hi = lo - o, hi - o
        inf = (2 * b + 1) << M
        self.nan = True if self.lo > inf else False if self.hi <= inf else None
        self.e = (self.lo >> M) if self.lo >> M == self.hi >> M else None

    def known_nan(self):
        if self.nan is None:
            und("not-a-number or not is not determined")
        return self.nan


def compare(F, op, x, y):
    a, b = Part(F, x), Part(F, y)
    if a.known_nan() or b.known_nan():
        return 1 if op == "Ne" else 0
    d = T.sub(T.neg(a.m) if a.s else a.m, T.neg(b.m) if b.s else b.m)
    if op == "Eq":
        return T.iszero(d, F)
    if op == "Ne":
        return T.sub(1, T.iszero(d, F))
    if op == "Lt":
        return T.isneg(d, F)
    if op == "Ge":
        return T.sub(1, T.isneg(d, F))
    if op == "Gt":
        return T.isneg(T.neg(d), F)
    if op == "Le":
        return T.sub(1, T.isneg(T.neg(d), F))
    und(op)


def scale(F, x, neg, k):
    """x * (-1)^neg * 2^k."""
    a = Part(F, x)
    M, b = FMT[a.w]
    s = a.s ^ neg
    top = 2 * b + 1
    so = s << (a.w - 1)
    if a.known_nan():
        return flt(a.w, T.add(a.m, so))
    if k == 0 or a.hi == 0 or a.lo == top << M:
        return flt(a.w, T.add(a.m, so))
    el, eh = a.lo >> M, a.hi >> M
    if el == 0:
        und("scaling a subnormal")
    if el + k >= 1 and eh + k < top:
        return flt(a.w, T.add(T.add(a.m, k << M), so))
    if el + k >= top:
        return flt(a.w, T.add(top << M, so))
    und("scaling across the range")


def power_of_two(bits, w):
    M, b = FMT[w]
    e = (bits >> M) & (2 * b + 1)
    if bits & ((1 << M) - 1) or e in (0, 2 * b + 1):
        return None
    return bits >> (w - 1), e - b


def binop(I, st, op, x, y):
    from .interp import Flt
    F = st.facts
    if x.__class__ is not Flt or y.__class__ is not Flt:
        und("mixed operands")
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        return compare(F, op, x, y)
    w = x.w
    cx, cy = T.fold(x.bits, F), T.fold(y.bits, F)
    if cx.__class__ is int and cy.__class__ is int and to_fraction(cx, w) is not None and to_fraction(cy, w) is not None:
        vx, vy = to_fraction(cx, w), to_fraction(cy, w)
        sx, sy = cx >> (w - 1), cy >> (w - 1)
        if op in ("Add", "Sub"):
            if op == "Sub":
                vy, sy = -vy, 1 - sy
            r = vx + vy
            neg = r < 0 or (r == 0 and sx and sy)
        elif op == "Mul":
            r, neg = vx * vy, sx ^ sy
        elif op == "Div" and vy != 0:
            r, neg = vx / vy, sx ^ sy
        else:
            und(op + " of constants")
        return flt(w, from_fraction(bool(neg), abs(r), w))
    if op == "Mul":
        for c, v in ((cy, x), (cx, y)):
            if c.__class__ is int:
                p = power_of_two(c, w)
                if p:
                    return scale(F, v, p[0], p[1])
                if c << 1 & ((1 << w) - 1) == 0:
                    a = Part(F, v)
                    if a.nan is False and a.hi < (2 * FMT[w][1] + 1) << FMT[w][0]:
                        return flt(w, (a.s ^ (c >> (w - 1))) << (w - 1))
    if op == "Div" and cy.__class__ is int:
        p = power_of_two(cy, w)
        if p:
            return scale(F, x, p[0], -p[1])
    if op in ("Add", "Sub"):
        for c, v, n in ((cy, x, 0), (cx, y, op == "Sub")):
            if c.__class__ is int and c << 1 & ((1 << w) - 1) == 0:
                a = Part(F, v)
                if a.lo > 0 and a.known_nan() is False:
                    return scale(F, v, int(n), 0)
    if op in ("Add", "Sub", "Mul"):
        return arith(F, op, x, y)
    und(op)


def neg(I, st, v):
    F = st.facts
    a = Part(F, v)
    return flt(v.w, T.add(a.m, (1 - a.s) << (v.w - 1)))


def fabs(I, st, v):
    return flt(v.w, Part(st.facts, v).m)


def copysign(I, st, v, s):
    return flt(v.w, T.add(Part(st.facts, v).m, Part(st.facts, s).s << (v.w - 1)))


def split_booleans(F, v):
    """Separate the cases of an undecided truth value occurring in v."""
    from .interp import NeedSplit
    for mon in v.t:
        for i in mon:
            if T.ATOMS[i].kind in ("Z", "NEG"):
                l, h = F.atom(i)
                if l != h:
                    raise NeedSplit(T.ap(T.ATOMS[i]), 0, 1)


def from_int(F, v, w):
    """The float nearest to the integer term v (ties to even)."""
    return rounded(F, v, 0, w)


def rounded(F, v, k, w):
    """The float nearest to v * 2^k (ties to even)."""
    M, b = FMT[w]
    top = (2 * b + 1) << M
    v = T.fold(T.renorm(v, F), F)
    lo, hi = (v, v) if v.__class__ is int else F.bound(v)
    if lo is None or hi is None:
        und("unbounded integer")
    if lo == hi:
        return flt(w, from_fraction(lo < 0, Fraction(abs(lo)) * Fraction(2) ** k, w))
    if lo <= 0 <= hi:
        split_booleans(F, v)
        und("sign of the converted integer not determined")
    so = 0
    if hi < 0:
        v, lo, hi, so = T.neg(v), -hi, -lo, 1 << (w - 1)
    p = hi.bit_length() - 1
    l = lo.bit_length() - 1
    if l + k > b:
        return flt(w, so + top)
    if l != p:
        split_booleans(F, v)
        if p - l == 1:
            from .interp import NeedSplit
            raise NeedSplit(T.isneg(T.add(v, -(1 << p)), F), 0, 1)
        und("magnitude of the converted integer not determined")
    if p + k > b:
        return flt(w, so + top)
    if p + k < 1 - b:
        und("rounding to a subnormal")
    if p <= M:
        return flt(w, T.add(T.scale(T.add(v, -(1 << p)), 1 << (M - p)), so + ((p + k + b) << M)))
    s = p - M
    q = T.fl(v, 1 << s, F)
    rem = T.sub(v, T.scale(q, 1 << s))
    h = 1 << (s - 1)
    d = T.add(rem, -h)
    eq = T.iszero(T.fold(d, F), F)
    if eq == 1:
        up = T.mod(q, 2, F)
    else:
        gt = T.isneg(T.fold(T.neg(d), F), F)
        up = gt
        if eq != 0 and gt != 1:
            up = T.add(gt, T.mul(eq, T.mod(q, 2, F)))
    return flt(w, T.add(T.add(q, up), so + ((p + k + b - 1) << M)))


def exact(F, v):
    """A finite normal or zero float as (integer term, power of two)."""
    a = Part(F, v)
    M, b = FMT[a.w]
    if a.hi == 0:
        return 0, 0
    if a.known_nan() or a.hi >= (2 * b + 1) << M or a.lo < 1 << M:
        und("arithmetic outside the normal range")
    if a.e is None:
        if (a.hi >> M) - (a.lo >> M) <= 2:
            from .interp import NeedSplit
            raise NeedSplit(T.fl(a.m, 1 << M, F), a.lo >> M, a.hi >> M)
        und("exponent not determined")
    x = T.add(a.m, (1 << M) - (a.e << M))
    return (T.neg(x) if a.s else x), a.e - b - M


def arith(F, op, x, y):
    (p, k), (q, l) = exact(F, x), exact(F, y)
    if op == "Mul":
        return rounded(F, T.mul(p, q), k + l, x.w)
    n = min(k, l)
    p, q = T.scale(p, 1 << (k - n)), T.scale(q, 1 << (l - n))
    r = T.add(p, q) if op == "Add" else T.sub(p, q)
    return rounded(F, r, n, x.w)


def to_int(F, v, bits, signed):
    """Truncating, saturating conversion."""
    a = Part(F, v)
    M, b = FMT[a.w]
    top = 2 * b + 1
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if a.known_nan():
        return 0
    if a.hi < b << M:
        return 0
    if a.s and not signed:
        return 0
    sat = (lo if a.s else hi) % (1 << bits)
    if a.lo >= (b + bits) << M:
        return sat
    if a.e is None:
        und("exponent not determined")
    e = a.e - b
    m = T.add(a.m, -(a.e << M) + (1 << M))
    x = T.fl(m, 1 << (M - e), F) if e <= M else T.scale(m, 1 << (e - M))
    l, h = (x, x) if x.__class__ is int else F.bound(x)
    if a.s:
        x, l, h = T.neg(x), -h, -l
    if l >= lo and h <= hi:
        return T.mod(x, 1 << bits, F)
    if (a.s and h <= lo) or (not a.s and l >= hi):
        return sat
    und("saturation not determined")


def widen(F, v):
    """f32 to f64."""
    a = Part(F, v)
    so = a.s << 63
    if a.known_nan():
        return flt(64, T.add(T.add(T.scale(a.m, 1 << 29), 0), so + ((2047 - 255) << 52)))
    if a.hi == 0:
        return flt(64, so)
    if a.lo >= 255 << 23:
        return flt(64, so + (2047 << 52))
    if a.lo >= 1 << 23:
        return flt(64, T.add(T.scale(a.m, 1 << 29), so + ((1023 - 127) << 52)))
    p = a.hi.bit_length() - 1
    if a.hi >= 1 << 23 or a.lo.bit_length() - 1 != p:
        und("widening a subnormal")
    return flt(64, T.add(T.scale(T.add(a.m, -(1 << p)), 1 << (52 - p)), so + ((p - 149 + 1023) << 52)))


def cast(I, st, k, x, tf, tt):
    F = st.facts
    p = I.p
    if k == "IntToFloat":
        bits, s = I.bits_of(tf)
        v = I.val(st, I.need_int(st, x), bits, s)
        return from_int(F, v, p.types[tt]["bits"])
    if k == "FloatToInt":
        bits, s = I.bits_of(tt)
        return to_int(F, x, bits, s)
    w = p.types[tt]["bits"]
    if x.w == w:
        return x
    if x.w == 32:
        return widen(F, x)
    c = T.fold(x.bits, F)
    if c.__class__ is int:
        v = to_fraction(c, 64)
        if v is not None:
            return flt(32, from_fraction(bool(c >> 63), abs(v), 32))
        a = Part(F, x)
        if a.nan is False:
            return flt(32, (a.s << 31) | (255 << 23))
    a = Part(F, x)
    if a.known_nan():
        return flt(32, (a.s << 31) | (255 << 23) | (1 << 22))
    if a.lo >= (1023 + 128) << 52:
        return flt(32, (a.s << 31) | (255 << 23))
    v, n = exact(F, x)
    return rounded(F, v, n, 32)
