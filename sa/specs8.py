"""Specifications of serialization as text."""
from . import terms as T
from .cells import Cell, Ret, Panic, ANY, M, H
from .interp import Ptr, Blob
from .specs import words256
from .specs4 import Dig, num, digits_of, bts, PARSE, hints, adt
from . import specs4
from .specs6 import lead, FMTC


def c_from_utf8(I, st, fn, args, atys):
    """core::str::from_utf8 on bytes that are all ASCII, or whose validity does not matter to the caller's answer."""
    b = args[0]
    if b.__class__ is not Blob:
        return None
    c = {o: v for o, n, v in b.ch}
    n = c.get(8)
    if n.__class__ is not int or c.get(0).__class__ is not Ptr:
        return None
    for i in range(n):
        x = I.read(st, c[0].a, T.add(c[0].off, i), 1, ("i", 8, False))
        if x.__class__ is int:
            hi = x
        else:
            lo, hi = st.facts.bound(x)
        if hi is None or hi > 127:
            return None
    return [(st, adt(I, fn.ret, 0, [b]))]


TEXTC = dict(FMTC)
TEXTC.update(PARSE)
TEXTC[r"^core::str::(?:converts::)?from_utf8$"] = c_from_utf8


def c_fmt128(I, st, fn, args, atys):
    """The standard library's formatting of a 128-bit number into serde's own error text succeeds."""
    return [(st, Blob(1, [(0, 1, 0)]))] if I.p.size(fn.ret) == 1 else None


TEXTC[r"^<impl (?:core|std)::fmt::Display for [ui]128>::fmt$"] = c_fmt128
TEXTC[r"^core::fmt::num::<impl core::fmt::Display for [ui]128>::fmt$"] = c_fmt128


def hook(P, cell, roots, ovf, seed=1, contracts=None, **kw):
    from .cells import decide

    def setup(I, env, st):
        I.digits = env.get("_digits", {})
        hints(env)
        I.width = 80
        I.use_phi = True
        I.addrs = {}
        if I.ghost is None:
            I.ghost = {}
    return decide(P, cell, roots, ovf, seed=seed, contracts=contracts, setup=setup, **kw)


def written(P, cfg, root, label, radix, boxes, sign, prefix, case):
    def dom(name, ty, env, st, I):
        ds = [Dig(i, radix, lo, hi, case) for i, (lo, hi) in enumerate(boxes)]
        env["ds"], env["_radix"] = ds, radix
        v = num(ds, radix)
        v = T.neg(v) if sign < 0 else v
        if I.ghost is None:
            I.ghost = {}
        I.width = 80
        if v.__class__ is int:
            return [(v % M) >> 128, v % (1 << 128)]
        return list(words256(I, st, v))

    def spec(env):
        t = bts(prefix) + [d.c for d in env["ds"]]
        return Ret([0, [2, [len(t), t + [0] * (80 - len(t))]]])
    return Cell(P, cfg, root, (dom,), spec, None, label, TEXTC, hook)


def c17(R, cfg, dbg, tier="quick"):
    out = []
    P = "C17"
    quick = tier == "quick"
    for x in "ui":
        for form in ("str", "decimal", "prefixed", "permissive"):
            root = "sd_text_%s_%s" % (x, form)
            radix = 10 if form == "decimal" else 16
            for sign in (1, -1):
                if x == "u" and sign < 0:
                    continue
                lim = M - 1 if x == "u" else (H if sign < 0 else H - 1)
                nL = len(digits_of(lim, radix))
                for n in range(1, nL + 1):
                    if quick and form in ("prefixed", "permissive") and n not in (1, 2, 32, 33, nL - 1, nL):
                        continue
                    for lab, boxes in lead(n, radix, lim, 8 if quick else 80):
                        if n == 1 and sign < 0:
                            boxes = [(1, radix - 1)]
                        px = ("-" if sign < 0 else "") + ("0x" if radix == 16 else "")
                        out.append(written(P, cfg, root, "%s%d digits %s" % ("-" if sign < 0 else "", n, lab), radix, boxes, sign, px, 0))
    # reading: the same regions of texts as the parsers, with every refusal an error of the deserializer
    tmp = []
    DIGIT = Ret((2, ANY))
    wids = dict(quick=2, thorough=12)[tier]
    for x in "ui":
        for form in ("str", "decimal", "prefixed", "permissive"):
            for via in ("parse", "parseb"):
                if quick and via == "parseb" and form in ("prefixed", "permissive"):
                    continue
                root = "sd_%s_%s_%s" % (via, x, form)
                few = (lambda nL: [1, 2, nL, nL + 1]) if quick else (lambda nL: [1, 2, 3, 32, 64, nL - 1, nL, nL + 1])
                inval = via == "parse"
                pres = {"str": [("0x", 16)], "decimal": [("", 10)]}.get(form, [("0b", 2), ("0o", 8), ("0x", 16), ("", 10)])
                for pre, radix in pres:
                    specs4.parse_cells(tmp, P, cfg, root, x, radix, bts(pre), ("", "-", "+"), tier, radix_arg=False, lens=few, wid=wids,
                                       inval=inval and not (pre == "" and form != "decimal"))
                    for sg in ("", "-", "+"):
                        if pre:
                            specs4.fixed(tmp, P, cfg, root, "%s%s alone" % (sg, pre), [(ord(c), ord(c)) for c in sg + pre], DIGIT)
                        if x == "u" and sg == "-":
                            specs4.fixed(tmp, P, cfg, root, "-%s.." % pre, [(ord(c), ord(c)) for c in "-" + pre] + [(48, 49)] * 2, DIGIT)
                for s in ("", "+", "-", "+-", "--1", "+-1", "-+1"):
                    specs4.fixed(tmp, P, cfg, root, s or "empty", [(ord(c), ord(c)) for c in s], DIGIT)
                if form == "str":
                    for n in (1, 2, 3, 64):
                        for lo, hi in ((49, 57), (97, 102), (65, 70)):
                            specs4.fixed(tmp, P, cfg, root, "no prefix %d..%d*%d" % (lo, hi, n), [(lo, hi)] * n, DIGIT)
                elif form == "decimal":
                    specs4.fixed(tmp, P, cfg, root, "0x", [(48, 48), (120, 120), (48, 57)], DIGIT)
                if via == "parseb":
                    for p in (0, 1, 5):
                        for tail in (0, 2):
                            specs4.fixed(tmp, P, cfg, root, "stray byte at %d+%d" % (p, tail), [(48, 49)] * p + [(128, 191)] + [(48, 49)] * tail, DIGIT)
                    specs4.fixed(tmp, P, cfg, root, "wide char", [(0xc2, 0xdf), (0x80, 0xbf)], DIGIT)
    for c in tmp:
        c.contracts, c.hook = TEXTC, hook
        c.spec = refused(c.spec)
        out.append(c)
    # numbers
    for x in "ui":
        for form in ("str", "decimal", "prefixed", "permissive"):
            for p in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"):
                root = "sd_num_%s_%s_%s" % (x, form, p)
                for sg in "+-" if p[0] == "i" else "+":
                    b = int(p[1:]) - (1 if p[0] == "i" else 0)
                    dom = sg if p == "i128" else ((0, (1 << b) - 1) if sg == "+" else (-(1 << b), -1))
                    ok = form == "permissive" and (x == "i" or sg == "+")
                    out.append(Cell(P, cfg, root, (dom,), (lambda e: Ret((0, e.a))) if ok else (lambda e: Ret((1, ANY))), None, "%s" % sg, TEXTC, hook))
    out += offered_floats(P, cfg)
    return out


def dom_whole(w, m, b, s, e, lo, hi, part, rest):
    """A float: with part not None its fraction is a whole part's low bits over `rest` bits below the point."""
    def f(name, ty, env, st, I):
        from .interp import Flt
        if part is None:
            x = T.var(name, lo, hi)
            env["_whole"] = None
        else:
            k = T.var(name + "w", 0, (1 << (m - rest)) - 1) if rest < m else 0
            env["_whole"] = T.add(k, 1 << (m - rest))
            x = T.scale(k, 1 << rest)
            if part:
                x = T.add(x, T.var(name + "f", 1, (1 << rest) - 1))
        env[name] = x
        return [Flt(w, bits=T.add(x, (s << (w - 1)) + (e << m)))]
    f.label = "%sexponent %d, %s" % ("-" if s else "", e, "fraction %s..%s" % (T.cshow(lo), T.cshow(hi)) if part is None else ("not whole" if part else "whole"))
    return f


def offered_floats(P, cfg):
    """Floats offered to a deserializer: the permissive form takes the whole ones whose neighbours are whole too, no other form takes any."""
    out = []
    for x in "ui":
        for p, (w, m, b) in (("f32", (32, 23, 127)), ("f64", (64, 52, 1023))):
            for form in ("str", "decimal", "prefixed"):
                for s in (0, 1):
                  tp = (2 * b + 1) << m
                  for lo, hi in [(0, 0)] + [(1 << k, (2 << k) - 1) for k in range(m)] + [(1 << m, tp - 1), (tp, tp), (tp + 1, (1 << (w - 1)) - 1)]:
                    d = dom_whole(w, m, b, s, 0, lo, hi, None, 0)
                    out.append(Cell(P, cfg, "sd_num_%s_%s_%s" % (x, form, p), (d,), lambda e: Ret((1, ANY)), None, d.label, TEXTC, hook))
            root = "sd_num_%s_permissive_%s" % (x, p)
            for s in (0, 1):
                regs = [(0, 0, 0, None, 0)] + [(0, 1 << k, (2 << k) - 1, None, 0) for k in range(m)]
                for e in range(1, b):
                    regs.append((e, 0, (1 << m) - 1, None, 0))
                for e in range(b, b + m + 1):
                    r = m - (e - b)
                    regs.append((e, None, None, 0, r))
                    if r:
                        regs.append((e, None, None, 1, r))
                for e in range(b + m + 1, 2 * b + 2):
                    if s and e == b + m + 1:
                        regs.append((e, 1, (1 << m) - 1, None, 0))      # the bound itself may go either way
                    else:
                        regs.append((e, 0, (1 << m) - 1, None, 0) if e < 2 * b + 1 else (e, 0, 0, None, 0))
                regs.append((2 * b + 1, 1, (1 << m) - 1, None, 0))
                for e, lo, hi, part, rest in regs:
                    d = dom_whole(w, m, b, s, e, lo, hi, part, rest)
                    out.append(Cell(P, cfg, root, (d,), _bind(x, e, part, s, lo), None, d.label, TEXTC, hook))
    return out


def _bind(x, e, part, s, lo):
    def spec(env):
        if e == 0 and lo == 0:
            return Ret((0, 0))
        if part != 0 or (s and x == "u"):
            return Ret((1, ANY))
        v = env["_whole"]
        return Ret((0, T.neg(v) if s else v))
    return spec


def refused(spec):
    def f(e):
        r = spec(e)
        return r if r.v[0] == 0 else Ret((1, ANY))
    return f
