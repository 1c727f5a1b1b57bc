"""Specifications of text parsing and compile-time literals."""
from . import terms as T
from .cells import Cell, Ret, Panic, ANY, M, H, Env
from .interp import Blob, Ptr, Alloc, Flt, UNINIT, TOP, Contradiction, Undecided
from .specs import unghost, load256, blob256, store256, DIVW, CMPC, word_offsets

# ------------------------------------------------------------ contracts of the arithmetic API
# (each is the statement of C01/C02, which discharge it on the bodies)


def adt(I, t, var, fields):
    """Blob of enum type t, variant var, with its fields given as values."""
    ty = I.p.types[t]
    ch = []
    for i, v in enumerate(fields):
        ft = ty["v"][var][2][i]
        b = I.as_blob(v, I.p.size(ft))
        off = I.p.field_off(t, var, i)
        ch += [(off + o, n, x) for o, n, x in b.ch]
    vs = ty["lay"]["vars"]
    if vs and "single" not in vs:
        tag = vs["tag"]
        if vs["niche"] is None:
            ch.append((I.tag_off(t), tag[1], int(ty["v"][var][1]) % (1 << 8 * tag[1])))
        else:
            unt, n0, n1, start = vs["niche"]
            if var != unt:
                ch.append((I.tag_off(t), tag[1], (start + var - n0) % (1 << 8 * tag[1])))
    return Blob(I.p.size(t), sorted(ch, key=lambda c: c[0]))


def in_range(I, st, v, signed):
    """[(state, fits)] for v in the type's range."""
    lo, hi = (-H, H - 1) if signed else (0, M - 1)
    if v.__class__ is int:
        return [(st, lo <= v <= hi)]
    l, h = st.facts.bound(v)
    out = []
    ok = st
    if l is None or l < lo:
        s = I.branch(st, v, None, lo - 1)
        if s is not None:
            out.append((s, False))
            ok = I.branch(st, v, lo, None)
    if ok is not None and (h is None or h > hi):
        s = I.branch(ok, v, hi + 1, None)
        if s is not None:
            out.append((s, False))
            ok = I.branch(ok, v, None, hi)
    if ok is not None:
        out.append((ok, True))
    return out


def _op(name):
    return {"add": T.add, "sub": T.sub, "mul": T.mul}[name]


def c_arith(kind, op, signed):
    def f(I, st, fn, args, atys):
        def ld(v, t):
            ty = I.p.types[t]
            if ty["k"] == "int":
                v = I.need_int(st, v)
                return I.val(st, v, ty["bits"], ty["s"])
            if ty["k"] == "ptr" and I.p.types[ty["e"]]["k"] == "int":
                e = I.p.types[ty["e"]]
                return I.val(st, I.read(st, v.a, v.off, e["bits"] // 8, ("i", e["bits"], e["s"])), e["bits"], e["s"])
            return load256(I, st, v, signed)
        try:
            a, b = ld(args[0], atys[0]), ld(args[1], atys[1])
        except Undecided:
            return None
        v = _op(op)(a, b)
        out = []
        for s, ok in in_range(I, st, v, signed):
            w = v if ok else T.mod(v, M, s.facts)
            if kind == "checked":
                out.append((s, adt(I, fn.ret, 1, [blob256(I, s, w)]) if ok else adt(I, fn.ret, 0, [])))
            elif kind == "wrapping":
                out.append((s, blob256(I, s, w)))
            elif kind == "saturating":
                if not ok:
                    lo, hi = (-H, H - 1) if signed else (0, M - 1)
                    l, h = s.facts.bound(v) if v.__class__ is not int else (v, v)
                    w = hi if l is not None and l > hi else lo
                out.append((s, blob256(I, s, w)))
            elif kind == "overflowing":
                ty = I.p.types[fn.ret]
                b = blob256(I, s, w)
                off = I.p.field_off(fn.ret, None, 0)
                out.append((s, Blob(I.p.size(fn.ret), [(off + o, n, x) for o, n, x in b.ch] + [(I.p.field_off(fn.ret, None, 1), 1, 0 if ok else 1)])))
            else:
                if ok or not I.ovf:
                    r = blob256(I, s, w)
                    if fn.defname.endswith("_assign"):
                        store256(I, s, args[0], w)
                        r = Blob(0, [])
                    out.append((s, r))
                else:
                    I.event(s, "panic", "arithmetic operation overflowed")
        return out
    return f


ARITH = {}
for _s, _x in ((False, "U"), (True, "I")):
    for _o in ("add", "sub", "mul"):
        for _k in ("checked", "wrapping", "overflowing", "saturating"):
            ARITH[r"::<impl ethnum::%s256>::%s_%s$" % (_x, _k, _o)] = c_arith(_k, _o, _s)
        _t = _o.capitalize()
        ARITH[r"<impl (?:core|std)::ops::%s(?:<[^>]*>)? for (?:&(?:'_ )?)?ethnum::%s256>::%s$" % (_t, _x, _o)] = c_arith("op", _o, _s)


def c_from_words(I, st, fn, args, atys):
    """from_words(hi, lo), kept in the normal form of its value."""
    hi, lo = I.need_int(st, args[0]), I.need_int(st, args[1])
    v = unghost(I, T.fold(T.add(T.scale(hi, 1 << 128), lo), st.facts))
    return [(st, blob256(I, st, v))]


WORDS = {r"^ethnum::[UI]256::from_words$": c_from_words}

# ------------------------------------------------------------ strings


class Dig:
    """A digit of the radix: an atom for its value, one for its case."""

    def __init__(self, i, radix, lo=0, hi=None, case=None):
        hi = radix - 1 if hi is None else hi
        self.d = T.var("d%d" % i, lo, hi) if lo != hi else lo
        d = self.d
        if hi <= 9:
            self.c = T.add(d, 48)
            return
        if case is None and lo == 9 and hi == 10:
            k = 0
        elif case is None:
            k = T.var("k%d" % i, 0, 1)
        else:
            k = case
        if lo >= 10:
            self.c = T.sub(T.add(d, 87), T.scale(k, 32))
            return
        b = T.le(10, d, T.Facts())
        self.c = T.add(T.add(d, 48), T.mul(b, T.sub(39, T.scale(k, 32))))


def text_dom(label, make):
    """Domain of a &str parameter: make(env) -> list of byte terms."""
    def dom(name, ty, env, st, I):
        bs = make(env)
        if I is None:
            return [Blob(16, [(0, 8, 0), (8, 8, len(bs))])]
        a = I.new_alloc(st, len(bs), {i: (1, b) for i, b in enumerate(bs)})
        return [Blob(16, [(0, 8, Ptr(a, 0)), (8, 8, len(bs))])]
    dom.label = label
    return dom


def c_to_digit(table):
    def f(I, st, fn, args, atys):
        """char::to_digit on a byte that is a digit of the radix."""
        c, r = args
        if c.__class__ is int or r.__class__ is not int:
            return None
        d = table.get((c, r))
        if d is None:
            return None
        return [(st, adt(I, fn.ret, 1, [d]))]
    return f


def num(ds, radix):
    v = 0
    for d in ds:
        v = T.add(T.scale(v, radix), d.d if d.__class__ is Dig else d)
    return v


def digits_of(v, radix):
    out = []
    while v:
        out.append(v % radix)
        v //= radix
    return out[::-1] or [0]


_VALS = []


def telling():
    """Values at which words, carries and digit groups meet."""
    if not _VALS:
        import random
        r = random.Random(7)
        vs = set()
        for k in list(range(0, 257, 4)) + [1, 2, 3, 63, 65, 127, 129, 191, 193, 255]:
            vs |= {1 << k, (1 << k) - 1, (1 << k) + 1}
        for k in range(78):
            vs |= {10 ** k, 10 ** k - 1, 10 ** k + 1}
        for k in (32, 64, 96, 128, 160, 192):
            for j in (2, 3, 5, 15, 16, 17, 255, 256, (1 << 31) + 5, (1 << 63), (1 << 64) - 1, (1 << 100) + 1, (1 << 127) - 1, (1 << 127) + 1, (1 << 128) - 1):
                vs |= {j << k, (j << k) + 1, (j << k) - 1, (j << k) + r.randrange(1 << k)}
        vs = [v for v in vs if 0 <= v < M]
        r.shuffle(vs)
        _VALS[:] = vs
    return _VALS


def digit_hints(ds, radix, limit=160):
    """Valuations of the digits spelling telling values, and telling digit patterns."""
    import random
    from . import cells
    rng = random.Random(len(ds) * 41 + radix)
    box = []
    for d in ds:
        x = d.d if d.__class__ is Dig else d
        if x.__class__ is int:
            box.append((x, x, None))
        else:
            (m, _), = x.t.items()
            a = T.ATOMS[m[0]]
            box.append((a.lo, a.hi, a.name))
    n = len(box)
    pats = []
    for v in telling():
        if len(pats) >= limit:
            break
        if v >= radix ** n:
            continue
        g = []
        for _ in range(n):
            g.append(v % radix)
            v //= radix
        g.reverse()
        if all(lo <= x <= hi for x, (lo, hi, _) in zip(g, box)):
            pats.append(g)
    pats.append([b[0] for b in box])
    pats.append([b[1] for b in box])
    for _ in range(20):
        pats.append([rng.choice((b[0], b[0], b[0], b[1], rng.randint(b[0], b[1]))) for b in box])
        pats.append([rng.choice((b[1], b[1], b[0])) for b in box])
    others = [a for a in T.ATOMS if a.kind == "V" and not a.name.startswith("?")]
    names = {b[2] for b in box}
    out = []
    for g in pats:
        env = {}
        for a in others:
            if a.name not in names:
                env[a.name] = cells.corner(rng, a.lo, a.hi)
        for x, b in zip(g, box):
            if b[2]:
                env[b[2]] = x
        out.append((env, {}))
    return out


ERR_EMPTY, ERR_DIGIT, ERR_POS, ERR_NEG = 1, 2, 3, 4


class Shape:
    """One region of texts: how the digits are drawn, and the outcome."""

    def __init__(self, label, pre, digs, radix, out, post=()):
        self.label, self.pre, self.digs, self.radix, self.out, self.post = label, pre, digs, radix, out, post


def draws(n, radix, lim, width):
    """Partition of all n-digit texts into regions [(label, [(lo, hi)...], fits)] against the bound lim.
    width limits how many boundary positions are enumerated (None = all)."""
    full = (0, radix - 1)
    if radix ** n - 1 <= lim:
        return [("*", [full] * n, True)]
    L = digits_of(lim, radix)
    z = n - len(L)
    out = []
    pos = list(range(len(L)))
    if width is not None and len(pos) > width:
        h = max(1, width // 2)
        pos = pos[:h] + pos[-(width - h):]
    # a leading non-zero among the z extra positions
    for i in range(z):
        if width is not None and i > 2 and i != z - 1:
            continue
        out.append(("0^%d,>" % i, [(0, 0)] * i + [(1, radix - 1)] + [full] * (n - i - 1), False))
    for i in pos:
        head = [(0, 0)] * z + [(x, x) for x in L[:i]]
        if L[i] > 0:
            out.append(("=%d,<" % i, head + [(0, L[i] - 1)] + [full] * (len(L) - i - 1), True))
        if L[i] < radix - 1:
            out.append(("=%d,>" % i, head + [(L[i] + 1, radix - 1)] + [full] * (len(L) - i - 1), False))
    out.append(("=", [(0, 0)] * z + [(x, x) for x in L], True))
    return out


def overflow_prefix(box, radix, lim):
    return None


# byte ranges that are not digits of the radix
def nondigits(radix):
    out = [(0, 47)]
    if radix <= 10:
        out.append((48 + radix, 127))
    else:
        out += [(58, 64), (55 + radix, 96), (87 + radix, 127)]
    return [(a, b) for a, b in out if a <= b]


def cellof(out, P, cfg, root, doms, label, outcome, contracts, table_of, radixarg):
    """outcome(env) -> Ret/Panic; digits table is rebuilt with the terms."""
    def spec(e):
        return outcome(e)
    c = Cell(P, cfg, root, doms, spec, None, label, contracts)
    c.table = None
    out.append(c)
    return c


PARSE = dict(ARITH, **CMPC)
PARSE[r"^core::char::methods::<impl char>::to_digit$"] = lambda I, st, fn, args, atys: c_to_digit(I.digits)(I, st, fn, args, atys)
PARSE.update(WORDS)


def hints(env):
    from . import cells
    ds, radix = env.get("ds"), env.get("_radix")
    if ds and radix:
        cells.HINTER[0] = lambda: digit_hints(ds, radix)


def hook(P, cell, roots, ovf, seed=1, contracts=None, **kw):
    from .cells import decide

    def setup(I, env, st):
        I.digits = env.get("_digits", {})
        hints(env)
        I.width = 64
        I.ghost = {}
    return decide(P, cell, roots, ovf, seed=seed, contracts=contracts, setup=setup, **kw)


def region(P, cfg, root, label, radix, pre, boxes, post, outcome, radix_arg=True, case=None):
    """One cell: pre (bytes) + digits drawn from boxes + post (byte boxes)."""
    def make(env):
        ds = [Dig(i, radix, lo, hi, case if case is None or case < 2 else (i + case) % 2) for i, (lo, hi) in enumerate(boxes)]
        env["_digits"] = {(d.c, radix): d.d for d in ds}
        env["ds"] = ds
        env["_radix"] = radix
        env["v"] = num(ds, radix)
        ps = [T.var("z%d" % i, lo, hi) if lo != hi else lo for i, (lo, hi) in enumerate(post)]
        return list(pre) + [d.c for d in ds] + ps
    dom = text_dom(label, make)
    doms = (dom, radix) if radix_arg else (dom,)
    c = Cell(P, cfg, root, doms, outcome, None, label, PARSE, hook)
    return c


def bts(s):
    return [ord(c) for c in s]


def parse_cells(out, P, cfg, root, x, radix, pre, signs, tier, radix_arg=True, lens=None, wid=None, inval=True, label=""):
    """All regions of texts for one radix and one prefix."""
    signed = x == "i"
    for sign in signs:
        if sign == "-" and not signed:
            continue
        lim = (M - 1) if not signed else (H if sign == "-" else H - 1)
        nL = len(digits_of(lim, radix))
        for n in (lens(nL) if lens else [1, 2, 3, nL - 1, nL, nL + 1]):
            if n < 1:
                continue
            for lab, boxes, fits in draws(n, radix, lim, wid):
                def oc(e, fits=fits, sign=sign):
                    if fits:
                        return Ret((0, e.v if sign != "-" else T.neg(e.v)))
                    return Ret((ERR_NEG if sign == "-" else ERR_POS, ANY))
                out.append(region(P, cfg, root, "%s%s%s radix %d, %d digits %s" % (label, sign, "".join(chr(b) for b in pre), radix, n, lab), radix,
                                  bts(sign) + pre, boxes, [], oc, radix_arg))
        if not inval:
            continue
        # an invalid byte after p digits
        fits_len = nL - 1
        ps = [0, 1, 2, fits_len] if tier == "quick" else [0, 1, 2, 3, 7, fits_len // 2, fits_len]
        for p in sorted(set(ps)):
            for lo, hi in nondigits(radix):
                cuts = [(lo, hi)]
                if p == 0 and not sign and not pre:
                    # a sign is not an invalid first byte
                    cuts = [(a, b) for a, b in ((lo, min(hi, 42)), (max(lo, 44), min(hi, 44)), (max(lo, 46), hi)) if a <= b] if lo <= 45 else [(lo, hi)]
                for a, b in cuts:
                    for tail in ([], [(0, 127)], [(0, 127)] * 3):
                        def oc(e):
                            return Ret((ERR_DIGIT, ANY))
                        out.append(region(P, cfg, root, "%s%s%s radix %d, %d digits then %d..%d+%d" % (label, sign, "".join(chr(b_) for b_ in pre), radix, p, a, b, len(tail)), radix,
                                          bts(sign) + pre, [(0, radix - 1)] * p, [(a, b)] + tail, oc, radix_arg))
        # a text that has used up the type's length, then an invalid byte: refused for the byte, unless already overflown
        lim = (M - 1) if not signed else (H if sign == "-" else H - 1)
        full = digits_of(lim, radix)
        for lab, boxes, fits in draws(nL, radix, lim, 4):
            if lab == "*":
                continue
            for lo, hi in nondigits(radix)[1:2]:
                oc = (lambda e: Ret((ERR_DIGIT, ANY))) if fits else (lambda e, sign=sign: Ret((ERR_NEG if sign == "-" else ERR_POS, ANY)))
                out.append(region(P, cfg, root, "%s%s%s radix %d, %d digits %s then %d..%d" % (label, sign, "".join(chr(b_) for b_ in pre), radix, nL, lab, lo, hi), radix,
                                  bts(sign) + pre, boxes, [(lo, hi)], oc, radix_arg))
    return out


def fixed(out, P, cfg, root, label, boxes, outcome, radix=None):
    def make(env):
        env["_digits"] = {}
        return [T.var("z%d" % i, lo, hi) if lo != hi else lo for i, (lo, hi) in enumerate(boxes)]
    doms = (text_dom(label, make),) + ((radix,) if radix is not None else ())
    out.append(Cell(P, cfg, root, doms, lambda e: outcome, None, label, PARSE, hook))


def c14(R, cfg, dbg, tier="quick"):
    out = []
    P = "C14"
    EMPTY, DIGIT = Ret((ERR_EMPTY, ANY)), Ret((ERR_DIGIT, ANY))
    quick = tier == "quick"
    main = (2, 8, 10, 16, 36) if quick else tuple(range(2, 37))
    for x in "ui":
        rr = x + "_from_str_radix"
        for radix in range(2, 37):
            if quick and cfg != "nd" and radix not in main:
                continue
            big = radix in (2, 8, 10, 16, 36)
            if big:
                wid = 8 if quick else 40
            else:
                wid = 2 if quick else 12
            def lens(nL, big=big):
                L = [1, nL - 1, nL, nL + 1]
                if big or not quick:
                    L += [2, 3, 5, 17, nL // 2, 62, 63, 64, 65, nL + 3]
                return sorted({n for n in L if n <= nL + 3})
            parse_cells(out, P, cfg, rr, x, radix, [], ("", "-", "+") if big or not quick else ("", "-"), tier, lens=lens, wid=wid, inval=True)
            for s in ([], [(43, 43)], [(45, 45)]):
                fixed(out, P, cfg, rr, "%s radix %d" % ("".join(chr(a) for a, _ in s) or "empty", radix), s, DIGIT if s else EMPTY, radix)
            if x == "u":
                for n in (1, 2, 66):
                    fixed(out, P, cfg, rr, "-%d radix %d" % (n, radix), [(45, 45)] + [(48, 49)] * n, DIGIT, radix)
            for a in (43, 45):
                for b in (43, 45):
                    fixed(out, P, cfg, rr, "%c%c.. radix %d" % (a, b, radix), [(a, a), (b, b), (48, 49)], DIGIT, radix)
            # two-byte and three-byte characters anywhere near the front
            for p in (0, 1):
                fixed(out, P, cfg, rr, "wide char at %d radix %d" % (p, radix), [(48, 49)] * p + [(0xc2, 0xdf), (0x80, 0xbf)], DIGIT, radix)
                fixed(out, P, cfg, rr, "wider char at %d radix %d" % (p, radix), [(48, 49)] * p + [(0xe1, 0xec), (0x80, 0xbf), (0x80, 0xbf), (0, 127)], DIGIT, radix)
        for lo, hi in ((0, 1), (37, (1 << 32) - 1)):
            for s in ([], [(0, 127)], [(0, 127)] * 2, [(48, 57)] * 5):
                fixed(out, P, cfg, rr, "radix out of range %d, %d bytes" % (lo, len(s)), s, Panic(), (lo, hi))
        # decimal FromStr
        few = lambda nL: [1, 2, nL - 1, nL, nL + 1]
        parse_cells(out, P, cfg, x + "_from_str", x, 10, [], ("", "-", "+"), tier, radix_arg=False, lens=few, wid=4 if quick else 20)
        for s in ([], [(43, 43)], [(45, 45)], [(43, 43), (45, 45)]):
            fixed(out, P, cfg, x + "_from_str", "%s" % ("".join(chr(a) for a, _ in s) or "empty"), s, DIGIT if s else EMPTY)
        # prefixed
        rp = x + "_from_str_prefixed"
        rh = x + "_from_str_hex"
        for root in (rp, rh):
            for pre, radix in (("0b", 2), ("0o", 8), ("0x", 16)):
                if root == rh and pre != "0x":
                    continue
                parse_cells(out, P, cfg, root, x, radix, bts(pre), ("", "-", "+"), tier, radix_arg=False,
                            lens=lambda nL: [1, 2, nL - 1, nL, nL + 1] if quick else [1, 2, 3, 63, 64, 65, 66, nL - 1, nL, nL + 1], wid=4 if quick else 20)
                for sg in ("", "-", "+"):
                    fixed(out, P, cfg, root, "%s%s alone" % (sg, pre), [(ord(c), ord(c)) for c in sg + pre], DIGIT)
                if x == "u":
                    fixed(out, P, cfg, root, "-%s.." % pre, [(ord(c), ord(c)) for c in "-" + pre] + [(48, 49)] * 2, DIGIT)
            for s in ("", "+", "-", "+-", "--1", "+-1", "-+1"):
                fixed(out, P, cfg, root, s or "empty", [(ord(c), ord(c)) for c in s], EMPTY if not s else DIGIT)
        # no prefix: decimal
        parse_cells(out, P, cfg, rp, x, 10, [], ("", "-", "+"), tier, radix_arg=False, lens=few, wid=4 if quick else 20, inval=False)
        for sg in ("", "-", "+"):
            s = [(ord(c), ord(c)) for c in sg]
            for lo, hi in ((0, 47), (58, 97), (99, 110), (112, 119), (121, 127)):
                for tail in (0, 2):
                    fixed(out, P, cfg, rp, "%s0 then %d..%d+%d" % (sg, lo, hi, tail), s + [(48, 48), (lo, hi)] + [(0, 127)] * tail, DIGIT)
            for lo, hi in ((0, 42), (44, 44), (46, 47), (58, 127)) if not sg else ((0, 47), (58, 127)):
                for tail in (0, 2):
                    fixed(out, P, cfg, rp, "%s then %d..%d+%d" % (sg, lo, hi, tail), s + [(lo, hi)] + [(0, 127)] * tail, DIGIT)
            # hexadecimal without its prefix
            for n in (1, 2, 3, 64):
                for lo, hi in ((49, 57), (97, 102), (65, 70)):
                    fixed(out, P, cfg, rh, "%s no prefix %d..%d*%d" % (sg, lo, hi, n), s + [(lo, hi)] * n, DIGIT)
            for lo, hi in ((0, 119), (121, 127)):
                fixed(out, P, cfg, rh, "%s0 then %d..%d" % (sg, lo, hi), s + [(48, 48), (lo, hi), (48, 57)], DIGIT)
    wide_chars(out, P, cfg)
    return out


WIDE = (((0xc2, 0xdf), (0x80, 0xbf)), ((0xe1, 0xec), (0x80, 0xbf), (0x80, 0xbf)), ((0xf1, 0xf3), (0x80, 0xbf), (0x80, 0xbf), (0x80, 0xbf)))


def wide_chars(out, P, cfg, roots=("from_str", "from_str_prefixed", "from_str_hex"), outcome=None):
    """Characters of two to four bytes near the front, in or after a prefix, and after digits."""
    for x in "ui":
        for r in roots:
            for sg in ("", "-", "+"):
                for pre in ("", "0x") if r != "from_str" else ("",):
                    for p in range(4):
                        for w in WIDE:
                            for tail in (0, 1):
                                s = [(ord(c), ord(c)) for c in sg + pre] + [(48, 49)] * p + list(w) + [(48, 57)] * tail
                                fixed(out, P, cfg, "%s_%s" % (x, r), "%s%s, %d digits, a character of %d bytes+%d" % (sg, pre, p, len(w), tail), s, outcome or Ret((ERR_DIGIT, ANY)))
