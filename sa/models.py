"""Transfer functions for compiler intrinsics and a few opaque library sinks."""
from . import terms as T
from .terms import Poly
from .interp import Ptr, FnP, Flt, Blob, Undecided, NeedSplit, TOP, UNINIT, State


def _reverse_bits(x, bits, F):
    if x.__class__ is int:
        return int(bin(x | 1 << bits)[3:][::-1], 2)
    return permute(x, bits, lambda i: bits - 1 - i, F, "rev%d" % bits)


def permute(x, bits, f, F, name):
    """Uninterpreted but exact: keep as an atom with an evaluator."""
    if name.startswith("rev"):
        def ev(v):
            return int(bin(v | 1 << bits)[3:][::-1], 2)
    else:
        def ev(v):
            return int.from_bytes(v.to_bytes(bits // 8, "little"), "big")
    return T.ap(T.intern("FN", (x, name, ev_table(name, bits)), 0, (1 << bits) - 1))


_EV = {}


def ev_table(name, bits):
    k = (name, bits)
    if k not in _EV:
        if name.startswith("rev"):
            def ev(v):
                return int(bin(v | 1 << bits)[3:][::-1], 2)
        else:
            def ev(v):
                return int.from_bytes(v.to_bytes(bits // 8, "little"), "big")
        _EV[k] = ev
    return _EV[k]


def rev(x, bits, F):
    """Bit reversal, distributed over 64-bit halves (rev128 = rev64 of each half swapped)."""
    if x.__class__ is int:
        return int(bin(x | 1 << bits)[3:][::-1], 2)
    if bits > 64:
        h = bits // 2
        lo = T.mod(x, 1 << h, F)
        hi = T.fl(x, 1 << h, F)
        return T.add(T.scale(rev(lo, h, F), 1 << h), rev(hi, h, F))
    return permute(x, bits, None, F, "rev%d" % bits)


def bswap(x, bits, F):
    n = bits // 8
    if x.__class__ is int:
        return int.from_bytes(x.to_bytes(n, "little"), "big")
    r = 0
    for i in range(n):
        b = T.mod(T.fl(x, 1 << (8 * i), F), 256, F)
        r = T.add(r, T.scale(b, 1 << (8 * (n - 1 - i))))
    return r


def argty(p, fn, i=0):
    return fn.targs[i] if fn.targs else None


def call(I, st, fn, args, atys, ln):
    if fn.kind == "intrinsic":
        return intrinsic(I, st, fn, args, atys, ln)
    h = SINKS.get(fn.defname)
    if h is not None and I.addrs is None:
        return h(I, st, fn, args, atys)
    if fn.defname == "core::str::from_utf8_unchecked" or fn.defname == "core::str::converts::from_utf8_unchecked":
        utf8(I, st, args[0])
        return None
    n = fn.name
    if n.endswith("::precondition_check") or "::precondition_check" in n:
        return None
    return None


def one(st, v):
    return [(st, v)]


UNIT = Blob(0, [])


def utf8(I, st, b):
    """Bytes declared to be text must not leave ASCII (unless they are the
    caller's own text, or constants that are well formed)."""
    d = {o: v for o, n, v in b.ch} if b.__class__ is Blob else {}
    p, n = d.get(0), d.get(8)
    if p.__class__ is not Ptr or n.__class__ is not int or p.off.__class__ is not int or n > 4096:
        return
    al = I.get_alloc(st, p.a)
    if p.off < 0 or p.off + n > al.size or p.a.__class__ is not int:
        return
    bs = [I.read(st, p.a, p.off + i, 1, ("i", 8, False)) for i in range(n)]
    if all(x.__class__ is int for x in bs):
        try:
            bytes(bs).decode("utf-8")
        except UnicodeDecodeError:
            I.event(st, "ub", "bytes that are not UTF-8 declared to be text")
        return
    for x in bs:
        if x is UNINIT:
            I.event(st, "uninit", "uninitialised bytes declared to be text")
            return
        if x.__class__ is Poly and len([m for m in x.t if m]) and not T.bare(x):
            h = st.facts.bound(x)[1]
            if h is None or h > 127:
                bad = I.branch(st, x, 128, None)
                if bad is not None:
                    I.event(bad, "ub", "bytes that are not ASCII declared to be text")


def intrinsic(I, st, fn, args, atys, ln):
    n = fn.iname
    F = st.facts
    p = I.p
    if n in ("assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "cold_path", "assume_no_padding"):
        return one(st, UNIT)
    if n == "is_val_statically_known":
        return one(st, 0)
    if n in ("likely", "unlikely", "black_box"):
        return one(st, args[0])
    if n in ("fabs", "fabsf32", "fabsf64") and args[0].__class__ is Flt:
        from . import floats
        return one(st, floats.fabs(I, st, args[0]))
    if n in ("copysignf32", "copysignf64") and args[0].__class__ is Flt and args[1].__class__ is Flt:
        from . import floats
        return one(st, floats.copysign(I, st, args[0], args[1]))
    if n == "float_to_int_unchecked":
        return one(st, I.cast(st, "FloatToInt", args[0], atys[0], fn.ret))
    if n == "assume":
        v = I.need_int(st, args[0])
        try:
            st.facts = F.assume(v, 1, 1)
        except T.Contradiction:
            I.event(st, "ub", "assume(false)")
            return []
        return one(st, UNIT)
    if n in ("ctpop", "ctlz", "cttz", "ctlz_nonzero", "cttz_nonzero", "bswap", "bitreverse"):
        bits, s = I.bits_of(atys[0])
        x = T.fold(I.need_int(st, args[0]), F)
        if n == "ctpop":
            r = T.popcount(x, F)
        elif n.startswith("ctlz"):
            r = T.clz(x, bits, F)
        elif n.startswith("cttz"):
            r = T.ctz(x, bits, F)
        elif n == "bswap":
            r = bswap(x, bits, F)
            if r.__class__ is not int:
                st.facts = F = F.assume(r, 0, (1 << bits) - 1)
        else:
            r = rev(x, bits, F)
        if n.endswith("_nonzero"):
            z = T.iszero(x, F)
            if z.__class__ is not int or z == 1:
                bad = I.branch(st, z, 1, 1) if z.__class__ is not int else st
                if bad is not None:
                    I.event(bad, "ub", n + " of zero")
                if z == 1:
                    return []
        return one(st, r)
    if n in ("ptr_offset_from_unsigned", "ptr_offset_from"):
        a, b = args
        if a.__class__ is not Ptr or b.__class__ is not Ptr or a.a != b.a:
            raise Undecided("offset_from")
        sz = p.size(p.types[atys[0]]["e"])
        return one(st, T.mod(T.fl(T.sub(a.off, b.off), sz, F), 1 << 64, F))
    if n in ("offset", "arith_offset"):
        return one(st, I.binop(st, "Offset", args[0], args[1], atys[0], atys[1]))
    if n == "compare_bytes":
        return compare_bytes(I, st, args)
    if n == "raw_eq":
        t = p.types[atys[0]]["e"]
        a = I.copy_out(st, args[0].a, args[0].off, t)
        b = I.copy_out(st, args[1].a, args[1].off, t)
        v = 1
        for (o, m, x), (o2, m2, y) in zip(sorted(a.ch, key=lambda c: c[0]), sorted(b.ch, key=lambda c: c[0])):
            if (o, m) != (o2, m2):
                raise Undecided("raw_eq layout")
            v = T.mul(v, T.iszero(T.sub(I.need_int(st, x), I.need_int(st, y)), F))
        return one(st, v)
    if n in ("size_of", "size_of_val", "min_align_of", "align_of"):
        t = fn.targs[0]
        l = p.types[t]["lay"]
        return one(st, l["size"] if n.startswith("size") else l["align"])
    if n in ("copy_nonoverlapping", "copy"):
        I.copy_nonoverlapping(st, args[0], args[1], args[2], p.types[atys[0]]["e"])
        return one(st, UNIT)
    if n == "write_bytes":
        v = args[1]
        cnt = T.fold(I.need_int(st, args[2]), F)
        t = p.types[atys[0]]["e"]
        if cnt.__class__ is not int:
            lo, hi = F.bound(cnt)
            raise NeedSplit(cnt, lo, hi)
        for i in range(cnt * p.size(t)):
            I.write(st, args[0].a, T.add(args[0].off, i), 1, v)
        return one(st, UNIT)
    ar = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul", "unchecked_add": "Add", "unchecked_sub": "Sub",
          "unchecked_mul": "Mul", "unchecked_shl": "Shl", "unchecked_shr": "Shr", "unchecked_div": "Div", "unchecked_rem": "Rem",
          "exact_div": "Div", "disjoint_bitor": "BitOr"}.get(n)
    if ar:
        return one(st, I.binop(st, ar, args[0], args[1], atys[0], atys[1]))
    if n in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        v, o = I.checked(st, n[:3].capitalize(), args[0], args[1], atys[0], atys[1])
        return one(st, I.tuple2(fn.ret, v, o))
    if n in ("saturating_add", "saturating_sub"):
        bits, s = I.bits_of(atys[0])
        M = 1 << bits
        a = I.val(st, I.need_int(st, args[0]), bits, s)
        b = I.val(st, I.need_int(st, args[1]), bits, s)
        e = T.add(a, b) if n.endswith("add") else T.sub(a, b)
        lo, hi = (-(M >> 1), (M >> 1) - 1) if s else (0, M - 1)
        l, h = F.bound(e)
        out = []
        for (x, y, v) in ((None, lo - 1, lo), (lo, hi, None), (hi + 1, None, hi)):
            if e.__class__ is int:
                ok = (x is None or e >= x) and (y is None or e <= y)
                s2 = st if ok else None
            elif (x is None or (l is not None and l >= x)) and (y is None or (h is not None and h <= y)):
                s2 = st
            else:
                s2 = I.branch(st, e, x, y)
            if s2 is not None:
                out.append((s2, T.mod(e if v is None else v, M, s2.facts)))
        return out
    if n in ("rotate_left", "rotate_right"):
        bits, s = I.bits_of(atys[0])
        x = I.need_int(st, args[0])
        k = T.fold(T.mod(I.need_int(st, args[1]), bits, F), F)
        if k.__class__ is not int:
            lo, hi = F.bound(k)
            raise NeedSplit(k, lo, hi)
        if n == "rotate_right":
            k = -k % bits
        if k == 0:
            return one(st, x)
        hi = T.fl(x, 1 << (bits - k), F)
        lo = T.mod(x, 1 << (bits - k), F)
        return one(st, T.add(T.scale(lo, 1 << k), hi))
    if n == "transmute":
        return one(st, I.cast(st, "Transmute", args[0], atys[0], fn.ret))
    if n == "discriminant_value":
        a = args[0]
        t = p.types[atys[0]]["e"]
        return one(st, I.disc(st, a.a, a.off, t))
    if n == "three_way_compare":
        return one(st, I.binop(st, "Cmp", args[0], args[1], atys[0], atys[1]))
    if n == "select_unpredictable":
        c = T.fold(I.need_int(st, args[0]), F)
        if c.__class__ is int:
            return one(st, args[1] if c else args[2])
        out = []
        for v in (0, 1):
            s2 = I.branch(st, c, v, v)
            if s2 is not None:
                out.append((s2, args[1] if v else args[2]))
        return out
    if n in ("abort", "unreachable"):
        I.event(st, "ub" if n == "unreachable" else "panic", n)
        return []
    if n in ("ub_checks", "overflow_checks", "contract_checks"):
        return one(st, 1 if n == "overflow_checks" and I.ovf else 0)
    if n == "const_eval_select":
        # run-time branch
        f = args[2]
        if f.__class__ is FnP:
            callee = p.fns[f.f]
        else:
            t = p.types[atys[2]]
            if t["k"] != "fndef":
                raise Undecided("const_eval_select")
            callee = p.fns[t["fn"]]
        tup = p.types[atys[0]]
        b = I.as_blob(args[0], p.size(atys[0]))
        vs = []
        for i, ft in enumerate(tup["f"]):
            off = p.field_off(atys[0], None, i)
            sz = p.size(ft)
            vs.append(I.from_blob(st, Blob(sz, [(o - off, m, v) for o, m, v in b.ch if off <= o < off + sz]), ft))
        return I.invoke(st, callee, vs, tup["f"], ln)
    raise Undecided("intrinsic " + n)


def compare_bytes(I, st, args):
    a, b, n = args
    F = st.facts
    n = T.fold(I.need_int(st, n), F)
    if n.__class__ is not int:
        lo, hi = F.bound(n)
        raise NeedSplit(n, lo, hi)
    states = [(st, None)]
    out = []
    for i in range(n):
        nxt = []
        for s, _ in states:
            x = I.need_int(s, I.read(s, a.a, T.add(a.off, i), 1, ("i", 8, False)))
            y = I.need_int(s, I.read(s, b.a, T.add(b.off, i), 1, ("i", 8, False)))
            d = T.fold(T.sub(x, y), s.facts)
            if d.__class__ is int:
                if d == 0:
                    nxt.append((s, None))
                else:
                    out.append((s, 1 if d > 0 else (1 << 32) - 1))
                continue
            z = T.iszero(d, s.facts)
            s0 = I.branch(s, z, 1, 1) if z.__class__ is not int else (s if z else None)
            if s0 is not None:
                nxt.append((s0, None))
            s1 = I.branch(s, z, 0, 0) if z.__class__ is not int else (s if not z else None)
            if s1 is not None:
                neg = T.isneg(d, s1.facts)
                for v, r in ((1, (1 << 32) - 1), (0, 1)):
                    s2 = I.branch(s1, neg, v, v) if neg.__class__ is not int else (s1 if neg == v else None)
                    if s2 is not None:
                        out.append((s2, r))
        states = nxt
    return out + [(s, 0) for s, _ in states]


def pad_integral(I, st, fn, args, atys):
    """Formatter::pad_integral(&self, is_nonnegative, prefix: &str, buf: &str): record the observable call."""
    def text(v):
        d = dict((o, x) for o, n, x in v.ch)
        return d[0], d[8]
    nonneg = T.fold(I.need_int(st, args[1]), st.facts)
    pp, pl = text(args[2])
    bp, bl = text(args[3])
    pl = T.fold(pl, st.facts)
    bl = T.fold(bl, st.facts)
    if pl.__class__ is not int or bl.__class__ is not int:
        x = bl if bl.__class__ is not int else pl
        lo, hi = st.facts.bound(x)
        raise NeedSplit(x, lo, hi)

    def grab(ptr, n):
        out = []
        for i in range(n):
            v = I.read(st, ptr.a, T.add(ptr.off, i), 1, ("i", 8, False))
            if v is UNINIT:
                I.event(st, "uninit", "formatting buffer read before being written")
            out.append(v)
        return tuple(out)
    st = st.fork()
    st.obs = st.obs + (("pad", nonneg, grab(pp, pl), grab(bp, bl)),)
    return [(st, T.var("pad_result", 0, 1))]


def nosink(I, st, fn, args, atys):
    raise Undecided("opaque " + fn.defname)


SINKS = {
    "core::fmt::Formatter::<'a>::pad_integral": pad_integral,
    "core::fmt::Formatter::<'_>::pad_integral": pad_integral,
}
