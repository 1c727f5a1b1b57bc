"""Exact integer terms: polynomials over input atoms and derived atoms.

A term is a Python int (constant) or a Poly.  Every term denotes one integer
for every valuation of the input atoms, so two terms with the same canonical
form denote the same function of the inputs.  The derived atoms are
  FL(p, m)    floor(p / m), m a positive constant
  NEG(p)      1 if p < 0 else 0
  Z(p)        1 if p == 0 else 0
  DIV(p, q)   floor(p / q) for a non-constant q >= 1
  AND(p, q)   bitwise and of two non-negative terms
  POP(p)      population count of a non-negative term
  CTZ(p, w) / CLZ(p, w)  trailing / leading zeros in a w-bit word
Bounds come from intervals plus a table of linear facts (`Facts`).
"""
from math import gcd

INF = None


DEEP = None         # polyhedra, when polynomial entailment is wanted
NAMED = False       # carries and words of multi-word arithmetic get names


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "name")

    def __init__(self, id, kind, args, lo, hi, name):
        self.id, self.kind, self.args, self.lo, self.hi, self.name = id, kind, args, lo, hi, name


ATOMS = []
_INTERN = {}


def reset():
    ATOMS.clear()
    _INTERN.clear()


class Poly:
    __slots__ = ("t", "_k", "_h")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._h = None

    def key(self):
        k = self._k
        if k is None:
            k = self._k = tuple(sorted(self.t.items()))
        return k

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash(self.key())
        return h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


def mk(t):
    """Normalise a monomial dict into a term."""
    for k in [k for k, v in t.items() if v == 0]:
        del t[k]
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def is_const(p):
    return p.__class__ is int


def tdict(p):
    return {(): p} if p.__class__ is int else p.t


def add(p, q):
    pi = p.__class__ is int
    qi = q.__class__ is int
    if pi and qi:
        return p + q
    if pi:
        p, q, pi, qi = q, p, qi, pi
    if qi:
        if q == 0:
            return p
        t = dict(p.t)
        t[()] = t.get((), 0) + q
        return mk(t)
    if len(p.t) < len(q.t):
        p, q = q, p
    t = dict(p.t)
    for k, v in q.t.items():
        t[k] = t.get(k, 0) + v
    return mk(t)


def scale(p, c):
    if c == 1:
        return p
    if c == 0:
        return 0
    if p.__class__ is int:
        return p * c
    return Poly({k: v * c for k, v in p.t.items()})


def neg(p):
    return scale(p, -1)


def sub(p, q):
    if q.__class__ is int:
        return add(p, -q)
    return add(p, scale(q, -1))


class TooBig(Exception):
    pass


def _monmul(a, b):
    m = tuple(sorted(a + b))
    if len(m) > 1:
        # boolean atoms are idempotent
        out = []
        prev = None
        for x in m:
            if x == prev:
                at = ATOMS[x]
                if at.lo == 0 and at.hi == 1:
                    continue
            out.append(x)
            prev = x
        m = tuple(out)
    return m


def mul(p, q):
    if p.__class__ is int:
        return scale(q, p)
    if q.__class__ is int:
        return scale(p, q)
    if len(p.t) * len(q.t) > 4000:
        raise TooBig()
    t = {}
    for a, x in p.t.items():
        for b, y in q.t.items():
            m = _monmul(a, b)
            t[m] = t.get(m, 0) + x * y
    return mk(t)


def intern(kind, args, lo, hi, name=None):
    key = (kind,) + args if name is None else (kind, name)
    a = _INTERN.get(key)
    if a is None:
        a = Atom(len(ATOMS), kind, args, lo, hi, name)
        ATOMS.append(a)
        _INTERN[key] = a
    return a


def ap(a):
    return Poly({(a.id,): 1})


def var(name, lo, hi):
    if lo == hi:
        return lo
    a = intern("V", (), lo, hi, name)
    assert a.lo == lo and a.hi == hi, name
    return ap(a)


def show(p, depth=0):
    if p.__class__ is int:
        return cshow(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (-len(x[0]), x[0])):
        s = "*".join(ashow(ATOMS[i], depth + 1) for i in m)
        if not m:
            s = cshow(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = cshow(c) + "*" + s
        out.append(s)
        if len(out) > 12:
            out.append("...")
            break
    return "+".join(out).replace("+-", "-")


def cshow(c):
    a = abs(c)
    if a > 4096:
        b = a.bit_length()
        for d in (0, 1):
            if a + d == 1 << (a + d).bit_length() - 1:
                s = "2^%d%s" % ((a + d).bit_length() - 1, "-1" if d else "")
                return ("-(%s)" % s if d else "-" + s) if c < 0 else ("(%s)" % s if d else s)
        return ("-" if c < 0 else "") + hex(a)
    return str(c)


def ashow(a, depth=0):
    if a.kind == "V":
        return a.name
    if depth > 2:
        return a.kind + "[..]"
    return "%s[%s]" % (a.kind, ",".join(show(x, depth) if isinstance(x, (int, Poly)) else str(x) for x in a.args))


# ---------------------------------------------------------------- facts


class Contradiction(Exception):
    pass


def split_const(p):
    c = p.t.get((), 0)
    if c == 0:
        return p, 0
    t = dict(p.t)
    del t[()]
    return Poly(t), c


def norm_key(p):
    """p = s*key + c with key content-free, leading coefficient positive."""
    q, c = split_const(p)
    g = 0
    for v in q.t.values():
        g = gcd(g, v)
        if g == 1:
            break
    lead = q.t[max(q.t)]
    s = g if lead > 0 else -g
    if s != 1:
        q = Poly({k: v // s for k, v in q.t.items()})
    return q, s, c


class Facts:
    """Immutable set of linear bounds; `assume` returns a strengthened copy."""

    __slots__ = ("m", "cache", "_idx", "smp")

    def __init__(self, m=None):
        self.smp = None
        self.m = m or {}
        self.cache = {}
        self._idx = None

    # -- bounds
    def atom(self, i):
        r = self.cache.get(i)
        if r is not None:
            return r
        a = ATOMS[i]
        lo, hi = a.lo, a.hi
        self.cache[i] = (lo, hi)
        k = a.kind
        if k == "FL":
            l, h = self.bound(a.args[0])
            m = a.args[1]
            if l is not None:
                l = l // m
                if lo is None or l > lo:
                    lo = l
            if h is not None:
                h = h // m
                if hi is None or h < hi:
                    hi = h
        elif k == "NEG":
            l, h = self.bound(a.args[0])
            if l is not None and l >= 0:
                hi = 0
            if h is not None and h < 0:
                lo = 1
        elif k == "Z":
            l, h = self.bound(a.args[0])
            if l is not None and h is not None:
                if l > 0 or h < 0:
                    hi = 0
                elif l == 0 and h == 0:
                    lo = 1
        elif k == "AND":
            _, h1 = self.bound(a.args[0])
            _, h2 = self.bound(a.args[1])
            for h in (h1, h2):
                if h is not None and (hi is None or h < hi):
                    hi = h
        elif k == "POP":
            l1, h1 = self.bound(a.args[0])
            hi = None if h1 is None else h1.bit_length()
            if l1 is not None and l1 >= 1:
                lo = 1
        elif k == "DIV":
            l1, h1 = self.bound(a.args[0])
            l2, h2 = self.bound(a.args[1])
            if l2 is not None and l2 >= 1 and l1 is not None and l1 >= 0:
                if h1 is not None:
                    h = h1 // l2
                    if hi is None or h < hi:
                        hi = h
                if h2 is not None:
                    l = l1 // h2
                    if lo is None or l > lo:
                        lo = l
        f = self.m.get(Poly({(i,): 1}))
        if f is not None:
            if f[0] is not None and (lo is None or f[0] > lo):
                lo = f[0]
            if f[1] is not None and (hi is None or f[1] < hi):
                hi = f[1]
        self.cache[i] = (lo, hi)
        return lo, hi

    def raw(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            n = len(m)
            if n == 0:
                l = h = 1
            elif n == 1:
                l, h = self.atom(m[0])
            else:
                l = h = 1
                for i in m:
                    a, b = self.atom(i)
                    if l is None or h is None or a is None or b is None:
                        if l is not None and a is not None and l >= 0 and a >= 0:
                            l = l * a
                            h = None
                            continue
                        l = h = None
                        break
                    xs = (l * a, l * b, h * a, h * b)
                    l, h = min(xs), max(xs)
                f = self.m.get(Poly({m: 1}))
                if f is not None:
                    if f[0] is not None and (l is None or f[0] > l):
                        l = f[0]
                    if f[1] is not None and (h is None or f[1] < h):
                        h = f[1]
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
            if lo is None and hi is None:
                break
        return lo, hi

    def bound(self, p):
        if p.__class__ is int:
            return p, p
        r = self.cache.get(p)
        if r is not None:
            return r
        lo, hi = self.raw(p)
        if len(p.t) > 1:
            self.cache[p] = (lo, hi)
            if lo != hi and len(p.t) <= 64:
                ids = bool_atoms(p, 8)
                if ids is not None and len(ids) > 1:
                    lo, hi = self._boolrange(p, ids, lo, hi)
                    self.cache[p] = (lo, hi)
            lo, hi = self._peel(p, lo, hi)
            if lo is None or hi is None or lo != hi:
                self.cache[p] = (lo, hi)
                lo, hi = self._defloor(p, lo, hi)
        self.cache[p] = (lo, hi)
        return lo, hi

    def _boolrange(self, p, ids, lo, hi):
        """Exact range of a polynomial over booleans."""
        n = len(ids)
        fix = on = 0
        for j, i in enumerate(ids):
            a, b = self.atom(i)
            if a == b:
                fix |= 1 << j
                if a == 1:
                    on |= 1 << j
        pos = {i: 1 << j for j, i in enumerate(ids)}
        ms = []
        for m, c in p.t.items():
            k = 0
            for i in m:
                k |= pos[i]
            ms.append((k, c))
        vals = [sum(c for mk_, c in ms if mk_ & k == mk_) for k in range(1 << n) if k & fix == on]
        if not vals:
            return lo, hi
        return (max(lo, min(vals)) if lo is not None else min(vals),
                min(hi, max(vals)) if hi is not None else max(vals))

    def _defloor(self, p, lo, hi):
        """Bounds through m*FL(x, m) = x - r, 0 <= r < m."""
        q = p
        den = 1
        sl = sh = 0     # q*1 + slack in [sl, sh], everything over den
        for _ in range(4):
            best = None
            for m in q.t:
                if len(m) == 1 and ATOMS[m[0]].kind == "FL" and (best is None or m[0] > best):
                    best = m[0]
            if best is None:
                break
            a = ATOMS[best]
            m = a.args[1]
            c = q.t[(best,)]
            if len(a.args[0].t) + len(q.t) > 60 or den.bit_length() > 1200:
                break
            # den*p = q + s  ->  m*den*p = m*q' + c*x - c*r + m*s
            rest = dict(q.t)
            del rest[(best,)]
            g = gcd(c, m)
            mm = m // g
            cc = c // g
            q = add(scale(mk(rest), mm), scale(a.args[0], cc))
            den *= mm
            sl *= mm
            sh *= mm
            if cc > 0:
                sl -= cc * (m - 1)
            else:
                sh -= cc * (m - 1)
            if q.__class__ is int:
                l = h = q
            else:
                l, h = self.raw(q)
                l, h = self._peel(q, l, h)
            if l is not None:
                v = -((-(l + sl)) // den)
                if lo is None or v > lo:
                    lo = v
            if h is not None:
                v = (h + sh) // den
                if hi is None or v < hi:
                    hi = v
            if q.__class__ is int:
                break
        return lo, hi

    def index(self):
        ix = self._idx
        if ix is None:
            ix = self._idx = {}
            for f, (l, h) in self.m.items():
                if len(f.t) > 1:
                    e = (f, l, h)
                    for m in f.t:
                        ix.setdefault(m, []).append(e)
        return ix

    def implicit(self, i):
        """Linear facts tying a derived atom to its argument."""
        k = ("imp", i)
        r = self.cache.get(k)
        if r is not None:
            return r
        self.cache[k] = ()
        a = ATOMS[i]
        out = []
        if a.kind == "FL":
            m = a.args[1]
            out.append((sub(a.args[0], scale(ap(a), m)), 0, m - 1))
        elif a.kind == "NEG":
            q = a.args[0]
            l, h = self.bound(q)
            if l is not None and l < 0:
                out.append((sub(q, scale(ap(a), l)), 0, None))
            if h is not None and h >= 0:
                out.append((add(q, scale(ap(a), h + 1)), None, h))
            if len(out) == 2 and out[0][0] == out[1][0]:
                out = [(out[0][0], 0, h)]
        elif a.kind == "AND":
            x, y = a.args
            h = None
            for v in (x, y):
                vh = v if v.__class__ is int else self.bound(v)[1]
                h = None if vh is None or (h is None and v is not x) else max(h or 0, vh)
                if v.__class__ is not int:
                    out.append((sub(v, ap(a)), 0, None))
            if h is not None:
                out.append((sub(add(x, y), ap(a)), 0, (1 << h.bit_length()) - 1))
                out.append((sub(add(x, y), scale(ap(a), 2)), 0, (1 << h.bit_length()) - 1))
        elif a.kind == "DIV":
            p, q = a.args
            try:
                r = sub(p, mul(q, ap(a)))
                if r.__class__ is not int:
                    out.append((r, 0, None))
                    out.append((sub(r, q), None, -1))
            except TooBig:
                pass
        out = tuple(x for x in out if x[0].__class__ is not int)
        self.cache[k] = out
        return out

    def _cands(self, p):
        ix = self.index()
        out = []
        seen = {}
        for lead in p.t:
            if ix:
                for f in ix.get(lead, ()):
                    k = id(f)
                    n = seen.get(k, 0)
                    seen[k] = n + (2 if len(lead) > 1 else 1)
                    if n < 2 and seen[k] >= 2:
                        out.append(f)
            if len(lead) == 1:
                if ATOMS[lead[0]].kind in ("FL", "NEG", "AND"):
                    out.extend(self.implicit(lead[0]))
            elif len(lead) == 2:
                for i in lead:
                    if ATOMS[i].kind == "DIV":
                        for f in self.implicit(i):
                            if lead in f[0].t:
                                out.append(f)
        return out

    def _peel(self, p, lo, hi, depth=0, skip=None):
        pt = p.t
        for f, fl, fh in self._cands(p):
            if skip is not None and f == skip:
                continue
            ratios = {}
            for m, l0 in f.t.items():
                c0 = pt.get(m)
                if c0 is not None:
                    g = gcd(c0, l0)
                    if l0 < 0:
                        g = -g
                    r = (c0 // g, l0 // g)
                    ratios[r] = ratios.get(r, 0) + (2 if len(m) > 1 and (r[1] == 1) else 1)
            for (c, k), n in ratios.items():
                if n < 2:
                    continue
                if k > 1:
                    rest = sub(scale(p, k), scale(f, c))
                else:
                    rest = sub(p, scale(f, c))
                if rest.__class__ is int:
                    rl = rh = rest
                elif len(rest.t) > max(len(pt), len(f.t) if k > 1 else 0):
                    continue
                else:
                    rl, rh = self.raw(rest)
                    if depth < 2 and len(rest.t) > 1:
                        rl, rh = self._peel(rest, rl, rh, depth + 1, skip)
                a, b = (fl, fh) if c > 0 else (fh, fl)
                if a is not None and rl is not None:
                    v = c * a + rl
                    if k > 1:
                        v = -((-v) // k)
                    if lo is None or v > lo:
                        lo = v
                if b is not None and rh is not None:
                    v = c * b + rh
                    if k > 1:
                        v = v // k
                    if hi is None or v < hi:
                        hi = v
        return lo, hi

    # -- strengthening
    def assume(self, p, lo, hi):
        """Facts plus lo <= p <= hi (either may be None); raises Contradiction."""
        if p.__class__ is int:
            if (lo is not None and p < lo) or (hi is not None and p > hi):
                raise Contradiction()
            return self
        m = dict(self.m)
        work = [(p, lo, hi, 0)]
        seen = 0
        cur = self
        while work:
            p, lo, hi, d = work.pop()
            if p.__class__ is int:
                if (lo is not None and p < lo) or (hi is not None and p > hi):
                    raise Contradiction()
                continue
            l0, h0 = cur.bound(p)
            if (lo is not None and h0 is not None and h0 < lo) or (hi is not None and l0 is not None and l0 > hi):
                raise Contradiction()
            nl = lo if (lo is not None and (l0 is None or lo > l0)) else None
            nh = hi if (hi is not None and (h0 is None or hi < h0)) else None
            if nl is None and nh is None:
                continue
            lo = nl if nl is not None else l0
            hi = nh if nh is not None else h0
            q, s, c = norm_key(p)
            a = None if lo is None else lo - c
            b = None if hi is None else hi - c
            if s < 0:
                a, b = (None if b is None else -b), (None if a is None else -a)
            g = abs(s)
            if a is not None:
                a = -((-a) // g)
            if b is not None:
                b = b // g
            o = m.get(q)
            if o is not None:
                if o[0] is not None and (a is None or o[0] > a):
                    a = o[0]
                if o[1] is not None and (b is None or o[1] < b):
                    b = o[1]
            if a is not None and b is not None and a > b:
                raise Contradiction()
            m[q] = (a, b)
            cur = Facts(dict(m))
            seen += 1
            if seen > 40 or d > 6:
                continue
            # propagate
            if len(q.t) == 1:
                mon = next(iter(q.t))
                if len(mon) == 1:
                    at = ATOMS[mon[0]]
                    k = at.kind
                    if k == "FL":
                        mm = at.args[1]
                        work.append((at.args[0], None if a is None else a * mm, None if b is None else b * mm + mm - 1, d + 1))
                    elif k == "NEG":
                        if a == 1:
                            work.append((at.args[0], None, -1, d + 1))
                        elif b == 0:
                            work.append((at.args[0], 0, None, d + 1))
                    elif k == "Z":
                        if a == 1:
                            work.append((at.args[0], 0, 0, d + 1))
                        elif b == 0:
                            l, h = cur.bound(at.args[0])
                            if l == 0:
                                work.append((at.args[0], 1, None, d + 1))
                            if h == 0:
                                work.append((at.args[0], None, -1, d + 1))
                else:
                    if b == 0 and a is not None and a >= 0:
                        rest = [i for i in mon if not (cur.atom(i)[0] or 0) >= 1]
                        if len(rest) == 1:
                            work.append((Poly({(rest[0],): 1}), 0, 0, d + 1))
                    # product of booleans equal to 1
                    if a == 1 and all(ATOMS[i].lo == 0 and ATOMS[i].hi == 1 for i in mon):
                        for i in mon:
                            work.append((Poly({(i,): 1}), 1, 1, d + 1))
            elif len(q.t) <= 6:
                # one round of constraint propagation on the linear atoms
                for mon, cf in q.t.items():
                    if len(mon) != 1:
                        continue
                    t = dict(q.t)
                    del t[mon]
                    rl, rh = cur.raw(Poly(t))
                    # cf*x in [a - rh, b - rl]
                    xl = None if a is None or rh is None else a - rh
                    xh = None if b is None or rl is None else b - rl
                    if cf < 0:
                        xl, xh = (None if xh is None else -xh), (None if xl is None else -xl)
                    k = abs(cf)
                    if xl is not None:
                        xl = -((-xl) // k)
                    if xh is not None:
                        xh = xh // k
                    l1, h1 = cur.atom(mon[0])
                    if (xl is not None and (l1 is None or xl > l1)) or (xh is not None and (h1 is None or xh < h1)):
                        work.append((Poly({mon: 1}), xl, xh, d + 1))
            if len(q.t) > 1 and b is not None and len(q.t) <= 40 and b < max(q.t.values()):
                # non-negative monomials with a coefficient above the bound vanish
                if all(cf > 0 and (cur.raw(Poly({mon: 1}))[0] or 0) >= 0 and cur.raw(Poly({mon: 1}))[0] is not None for mon, cf in q.t.items()):
                    for mon, cf in q.t.items():
                        if cf > b and cur.raw(Poly({mon: 1}))[1] != 0:
                            work.append((Poly({mon: 1}), 0, 0, d + 1))
            # other facts sharing a monomial may tighten or conflict
            for f, (fl, fh) in list(m.items()):
                if f is q or f == q or len(f.t) < 2:
                    continue
                if not any(x in q.t for x in f.t):
                    continue
                l, h = cur.raw(f)
                l, h = cur._peel(f, l, h, 0, f)
                if (l is not None and fh is not None and l > fh) or (h is not None and fl is not None and h < fl):
                    raise Contradiction()
                if (l is not None and (fl is None or l > fl)) or (h is not None and (fh is None or h < fh)):
                    m[f] = (l if fl is None or (l is not None and l > fl) else fl, h if fh is None or (h is not None and h < fh) else fh)
                    cur = Facts(dict(m))
        return cur


NOFACTS = Facts()

# polynomial entailment, switched on for obligations that need it
_DEEPMEMO = {}


def _wants_deep(p):
    if p.__class__ is int or len(p.t) > 40:
        return False
    for m in p.t:
        if len(m) > 1:
            return True
        if m and ATOMS[m[0]].kind in ("DIV", "OPQ"):
            return True
    return False


def inside(p, lo, hi):
    """The polynomials that are >= 0 exactly when lo <= p <= hi (sign and zero tests unfolded)."""
    if p.__class__ is int:
        return []
    q, s, c = norm_key(p)
    if len(q.t) == 1:
        mon = next(iter(q.t))
        if len(mon) == 1:
            a = ATOMS[mon[0]]
            vals = [v for v in (0, 1) if (lo is None or s * v + c >= lo) and (hi is None or s * v + c <= hi)]
            if a.kind == "NEG" and len(vals) == 1:
                return [sub(-1, a.args[0])] if vals[0] else [a.args[0]]
            if a.kind == "Z" and vals == [1]:
                return [a.args[0], neg(a.args[0])]
    out = []
    if lo is not None:
        out.append(sub(p, lo))
    if hi is not None:
        out.append(sub(hi, p))
    return out


def expand_opaque(p, memo=None):
    """Replace opaque atoms by their definitions."""
    if p.__class__ is int:
        return p
    r = 0
    for m, c in p.t.items():
        t = c
        for i in m:
            a = ATOMS[i]
            t = mul(t, expand_opaque(a.args[0]) if a.kind == "OPQ" else ap(a))
        r = add(r, t)
    return r


def entails_nonneg(F, p):
    """p >= 0 follows from F by linear arithmetic over monomials."""
    if DEEP is None or not _wants_deep(p):
        return False
    k = ("deep", p)
    r = F.cache.get(k)
    if r is None:
        if F.smp and any(evaluate(p, e, m) < 0 for e, m in F.smp):
            r = F.cache[k] = False
        else:
            F2 = DEEP.bounded(F, p)
            r = F.cache[k] = DEEP.refute(F2, [sub(-1, p)])
    return r


def bool_atoms(p, cap=6):
    """Atom ids when p is a polynomial over at most `cap` boolean atoms, else None."""
    ids = set()
    for m in p.t:
        for i in m:
            a = ATOMS[i]
            if a.lo != 0 or a.hi != 1:
                return None
            ids.add(i)
        if len(ids) > cap:
            return None
    return sorted(ids)


def boolfn(p, f):
    """f(p) as a multilinear polynomial when p only depends on a few booleans, else None."""
    ids = bool_atoms(p)
    if ids is None:
        return None
    n = len(ids)
    vals = []
    for k in range(1 << n):
        v = 0
        on = {ids[j] for j in range(n) if k >> j & 1}
        for m, c in p.t.items():
            if all(i in on for i in m):
                v += c
        vals.append(f(v))
    # Moebius transform
    for j in range(n):
        for k in range(1 << n):
            if k >> j & 1:
                vals[k] -= vals[k ^ (1 << j)]
    t = {}
    for k in range(1 << n):
        if vals[k]:
            t[tuple(ids[j] for j in range(n) if k >> j & 1)] = vals[k]
    return mk(t)

# ---------------------------------------------------------------- builders


def is_bool(p, F):
    if p.__class__ is int:
        return p in (0, 1)
    l, h = F.bound(p)
    return l is not None and h is not None and l >= 0 and h <= 1


def fold(p, F):
    """Replace a term whose bounds are a single value by that constant."""
    if p.__class__ is int:
        return p
    l, h = F.bound(p)
    if l is not None and l == h:
        return l
    return p


def fl(p, m, F, depth=0):
    """floor(p/m) in canonical form under facts F."""
    if p.__class__ is int:
        return p // m
    if m == 1:
        return p
    lo, hi = F.bound(p)
    if lo is not None and hi is not None and lo // m == hi // m:
        return lo // m
    b = boolfn(p, lambda v: v // m)
    if b is not None:
        return b
    Q = {}
    R = {}
    for mon, c in p.t.items():
        if mon == ():
            k, r = divmod(c, m)
        elif c >= 0:
            k, r = divmod(c, m)
        else:
            k, r = divmod(-c, m)
            k, r = -k, -r
            if r and (-2 * r >= m or (-r // (-r & r)) >> 16):
                k, r = k - 1, m + r
        if k:
            Q[mon] = k
        if r:
            R[mon] = r
    q = mk(Q)
    r = mk(R)
    if r.__class__ is int:
        return add(q, r // m)
    if DEEP is not None and entails_nonneg(F, r) and entails_nonneg(F, sub(m - 1, r)):
        return q
    lo, hi = F.bound(r)
    if lo is not None and hi is not None:
        if lo // m == hi // m:
            return add(q, lo // m)
        if lo >= -1 and hi <= 0:
            return add(q, r)
    # coefficients just below m: the same terms with a small negative remainder
    if any(2 * c > m for mon, c in r.t.items() if mon):
        r2 = mk({mon: (c - m if mon and 2 * c > m else c) for mon, c in r.t.items()})
        lo2, hi2 = F.bound(r2)
        if lo2 is not None and hi2 is not None and lo2 // m == hi2 // m:
            return add(add(q, mk({mon: 1 for mon, c in r.t.items() if mon and 2 * c > m})), lo2 // m)
    # low-part elimination
    gs = sorted({gcd(abs(c), m) for mon, c in r.t.items()}, reverse=True)
    for g in gs:
        if g == 1:
            break
        A = {}
        B = {}
        for mon, c in r.t.items():
            if c % g == 0:
                A[mon] = c // g
            elif mon == ():
                k, rr = divmod(c, g)
                if k:
                    A[mon] = k
                B[mon] = rr
            else:
                B[mon] = c
        b = mk(B)
        bl, bh = F.bound(b)
        if bl is not None and bh is not None and bl // g == bh // g:
            a = add(mk(A), bl // g)
            return add(q, fl(a, m // g, F, depth + 1))
        if A and b.__class__ is not int and any(len(x) > 1 for x in B) and any(x for x in A) and depth < 8:
            # floor((g*A + B)/m) = floor((A + floor(B/g)) / (m/g))
            return add(q, fl(add(mk(A), fl(b, g, F, depth + 1)), m // g, F, depth + 1))
    # nested floor
    nonc = [mon for mon in r.t if mon]
    if len(nonc) == 1 and r.t[nonc[0]] == 1 and len(nonc[0]) == 1:
        at = ATOMS[nonc[0][0]]
        if at.kind == "FL":
            c = r.t.get((), 0)
            return add(q, fl(add(at.args[0], c * at.args[1]), at.args[1] * m, F, depth + 1))
        if at.kind == "DIV" and DEEP is None and r.t.get((), 0) == 0:
            return add(q, div(at.args[0], scale(at.args[1], m), F))
        if at.kind == "DIV" and DEEP is None and r.t.get((), 0) and depth < 8:
            # floor((x + c)/m) = D + [x mod m + c >= m], D = floor(x/m), c in (0, m)
            d = div(at.args[0], scale(at.args[1], m), F)
            x = sub(ap(at), scale(d, m))
            return add(q, add(d, sub(1, isneg(add(x, r.t[()] - m), F))))
    if len(nonc) == 1 and r.t[nonc[0]] == -1 and len(nonc[0]) == 1 and ATOMS[nonc[0][0]].kind in ("FL", "DIV") and depth < 8:
        # floor((c - x)/m) = -1 - floor((x - c - 1)/m), x a quotient
        return add(q, sub(-1, fl(sub(ap(ATOMS[nonc[0][0]]), r.t.get((), 0) + 1), m, F, depth + 1)))
    # two-valued floors become sign tests
    if lo is not None and hi is not None:
        a, b = lo // m, hi // m
        if b - a == 1:
            # floor = b - [r < b*m]
            return add(q, sub(b, isneg(sub(r, b * m), F)))
    # static bounds of derived atoms stay open: `Facts.atom` derives them in context
    a = intern("FL", (r, m), None, None)
    return add(q, ap(a))


def mod(p, m, F):
    if p.__class__ is int:
        return p % m
    lo, hi = F.bound(p)
    if lo is not None and hi is not None and lo >= 0 and hi < m:
        return p
    return sub(p, scale(fl(p, m, F), m))


def isneg(p, F):
    if p.__class__ is int:
        return 1 if p < 0 else 0
    lo, hi = F.bound(p)
    if lo is not None and lo >= 0:
        return 0
    if hi is not None and hi < 0:
        return 1
    if lo is not None and lo == -1 and hi == 0:
        return neg(p)
    r = boolfn(p, lambda v: 1 if v < 0 else 0)
    if r is not None:
        return r
    if DEEP is not None:
        if entails_nonneg(F, p):
            return 0
        if entails_nonneg(F, sub(-1, p)):
            return 1
    for m, cf in (p.t.items() if DEEP is None else ()):
        if len(m) == 1 and (cf == 1 or cf == -1):
            at = ATOMS[m[0]]
            if at.kind == "DIV" and sum(m[0] in x for x in p.t) == 1:
                ql = F.bound(at.args[1])[0]
                if ql is None or ql < 1:
                    continue
                r = sub(p, scale(ap(at), cf))
                try:
                    if cf == 1:    # floor(x/q) + r < 0  <=>  x + r*q < 0
                        return isneg(add(at.args[0], mul(r, at.args[1])), F)
                    # r - floor(x/q) < 0  <=>  x >= (r+1)*q
                    return sub(1, isneg(sub(at.args[0], mul(add(r, 1), at.args[1])), F))
                except TooBig:
                    pass
    q, c = split_const(p)
    g = 0
    for v in q.t.values():
        g = gcd(g, v)
    k = (-c - 1) // g
    q = Poly({mm: v // g for mm, v in q.t.items()})
    # q <= k
    lead = q.t[max(q.t)]
    if lead < 0:
        # q <= k  <=>  -q >= -k  <=> not(-q <= -k-1)
        q = neg(q)
        return sub(1, _leq(q, -k - 1, F))
    return _leq(q, k, F)


def _leq(q, k, F):
    """[q <= k], q with positive lead and unit content, no constant."""
    l, h = F.bound(q)
    if l is not None and h is not None and h - l == 1 and k == l:
        return sub(h, q)  # q in {l, l+1}
    # q = g*A + B with B in [0,g): [q <= k] = [A <= floor(k - B ...)] only when k = g*j + (g-1)
    cs = sorted({abs(c) for c in q.t.values()}, reverse=True)
    for g in cs:
        if g == 1:
            break
        if (k + 1) % g:
            continue
        A = {}
        B = {}
        for m, c in q.t.items():
            if c % g == 0:
                A[m] = c // g
            else:
                B[m] = c
        if not A:
            continue
        bl, bh = F.bound(mk(B))
        if bl is not None and bh is not None and bl >= 0 and bh < g:
            # g*A + B <= g*j + g-1  <=> A <= j
            j = (k + 1) // g - 1
            return isneg(sub(mk(A), j + 1), F)
    a = intern("NEG", (sub(q, k + 1),), 0, 1)
    return ap(a)


def iszero(p, F):
    if p.__class__ is int:
        return 1 if p == 0 else 0
    lo, hi = F.bound(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return 0
    if lo == 0 and hi == 0:
        return 1
    r = boolfn(p, lambda v: 1 if v == 0 else 0)
    if r is not None:
        return r
    q, s, c = norm_key(p)
    if c % abs(s):
        return 0
    k = c // s  # q + k == 0
    lo, hi = F.bound(q)
    if lo is not None and hi is not None and hi - lo == 1:
        v = -k
        if v == lo:
            return sub(hi, q)
        if v == hi:
            return sub(q, lo)
        return 0
    a = intern("Z", (add(q, k),), 0, 1)
    return ap(a)


def lt(x, y, F):
    return isneg(sub(x, y), F)


def le(x, y, F):
    return sub(1, isneg(sub(y, x), F))


def div(p, q, F):
    if q.__class__ is int:
        return fl(p, q, F)
    lo, hi = F.bound(p)
    ql, qh = F.bound(q)
    if ql is not None and ql == qh:
        return fl(p, ql, F)
    if lo is not None and lo >= 0 and hi is not None and ql is not None and hi < ql:
        return 0
    # p = k*q + r with 0 <= r < q
    d = sub(p, q)
    if d == 0:
        return 1
    if p.__class__ is not int:
        ex = exact_quotient(p, q, F)
        if ex is not None:
            return ex
    if lo is not None and ql is not None and lo >= 0 and ql >= 1 and hi is not None and qh is not None:
        if lo // qh == hi // ql:
            return lo // qh
    a = intern("DIV", (p, q), None, None)
    return ap(a)


def opaque(p, lo, hi):
    """An atom standing for the value of p (in [lo, hi]) that hides its structure."""
    if p.__class__ is int:
        return p
    return ap(intern("OPQ", (p,), lo, hi))


def exact_quotient(p, q, F):
    """k such that p = k*q + r, 0 <= r < q, by leading monomial division."""
    if p.__class__ is int or q.__class__ is int:
        return None
    qlead = max(q.t, key=lambda m: (len(m), m))
    k = 0
    r = p
    for _ in range(8):
        if r.__class__ is int:
            break
        hit = None
        for m, c in r.t.items():
            mm = list(m)
            ok = True
            for x in qlead:
                if x in mm:
                    mm.remove(x)
                else:
                    ok = False
                    break
            if ok and c % q.t[qlead] == 0:
                hit = (tuple(mm), c // q.t[qlead])
                break
        if hit is None:
            break
        t = mk({hit[0]: hit[1]})
        k = add(k, t)
        r = sub(r, mul(t, q))
        l, h = F.bound(r)
        if l is not None and l >= 0 and isneg(sub(r, q), F) == 1:
            return k
    return None


def pow2(n):
    return n > 0 and n & (n - 1) == 0


def tz(p):
    """A power of two dividing every coefficient (as exponent)."""
    if p.__class__ is int:
        return 10 ** 6 if p == 0 else (p & -p).bit_length() - 1
    g = 0
    for c in p.t.values():
        g = gcd(g, c)
    return (g & -g).bit_length() - 1


def and_const(p, mask, F):
    """p & mask for constant mask >= 0 and p >= 0."""
    out = 0
    i = 0
    runs = 0
    n = mask.bit_length()
    while i < n:
        if mask >> i & 1:
            j = i
            while mask >> j & 1:
                j += 1
            runs += 1
            if runs > 70:
                return None
            out = add(out, scale(mod(fl(p, 1 << i, F), 1 << (j - i), F), 1 << i))
            i = j
        else:
            i += 1
    return out


def as_boolmask(p, F):
    """p = b*(2^n-1) with b boolean: returns (b, n)."""
    if p.__class__ is int:
        return None
    g = 0
    for c in p.t.values():
        g = gcd(g, c)
    if g < 3 or (g + 1) & g:
        return None
    b = Poly({k: v // g for k, v in p.t.items()})
    if is_bool(b, F):
        return b, g.bit_length()
    return None


def subst1(p, i, val):
    """Set atom i to a constant."""
    if p.__class__ is int:
        return p
    t = {}
    for m, c in p.t.items():
        if i in m:
            n = m.count(i)
            m = tuple(x for x in m if x != i)
            c = c * val ** n
        t[m] = t.get(m, 0) + c
    return mk(t)


def band(p, q, F):
    p = fold(p, F)
    q = fold(q, F)
    if p.__class__ is int and q.__class__ is int:
        return p & q
    if p.__class__ is int:
        p, q = q, p
    if q.__class__ is int:
        if q == 0:
            return 0
        lo, hi = F.bound(p)
        if hi is not None:
            n = hi.bit_length()
            q &= (1 << n) - 1
        r = and_const(p, q, F)
        if r is not None:
            return r
    else:
        if p == q:
            return p
        if is_bool(p, F) and is_bool(q, F):
            return mul(p, q)
        for x, y in ((p, q), (q, p)):
            bm = as_boolmask(x, F)
            if bm is not None:
                b, n = bm
                h = F.bound(y)[1]
                if h is not None and h < 1 << n:
                    return mul(b, y)
                if b.__class__ is not int:
                    return mul(b, mod(y, 1 << n, F))
        if is_bool(p, F):
            return mul(p, mod(q, 2, F))
        if is_bool(q, F):
            return mul(q, mod(p, 2, F))
        # common boolean factor
        for x, y in ((p, q), (q, p)):
            it = iter(x.t)
            common = set(next(it))
            for m in it:
                common &= set(m)
                if not common:
                    break
            for i in sorted(common):
                a = ATOMS[i]
                if a.lo == 0 and a.hi == 1:
                    return mul(ap(a), band(subst1(x, i, 1), subst1(y, i, 1), F))
        # disjoint supports
        for x, y in ((p, q), (q, p)):
            k = tz(x)
            if k:
                h = F.bound(y)[1]
                if h is not None and h < 1 << k:
                    return 0
        # split at multiples of 64/32/8 where cleanly separable
        ph, qh = F.bound(p)[1], F.bound(q)[1]
        ks = [128, 64, 32, 16, 8]
        for x in (p, q):
            if x.t.get((), 0) > 0:
                k = x.t[()].bit_length() - 1
                if k not in ks:
                    ks.append(k)
        ks.sort(reverse=True)
        for k in ks:
            if (ph is not None and ph >> k == 0) and (qh is not None and qh >> k == 0):
                continue
            s1 = _cut(p, k, F)
            if s1 is None:
                continue
            s2 = _cut(q, k, F)
            if s2 is None:
                continue
            return add(band(s1[0], s2[0], F), scale(band(s1[1], s2[1], F), 1 << k))
    # factor out a common power of two
    if q.__class__ is not int:
        k = min(tz(p), tz(q))
        if 0 < k < 10 ** 5:
            return scale(band(fl(p, 1 << k, F), fl(q, 1 << k, F), F), 1 << k)
    x, y = (p, q) if _ord(p) <= _ord(q) else (q, p)
    ph, qh = F.bound(p)[1], F.bound(q)[1]
    a = intern("AND", (x, y), 0, None)
    return ap(a)


def _ord(p):
    return (0, p) if p.__class__ is int else (1, p.key())


def _cut(p, k, F):
    """p = lo + 2^k*hi syntactically, 0 <= lo < 2^k."""
    if p.__class__ is int:
        return p & ((1 << k) - 1), p >> k
    A = {}
    B = {}
    g = 1 << k
    for m, c in p.t.items():
        if c % g == 0:
            A[m] = c // g
        else:
            B[m] = c
    b = mk(B)
    l, h = F.bound(b)
    if l is not None and h is not None and l >= 0 and h < g:
        return b, mk(A)
    return None


def bor(p, q, F):
    p = fold(p, F)
    q = fold(q, F)
    if p.__class__ is int and q.__class__ is int:
        return p | q
    return sub(add(p, q), band(p, q, F))


def bxor(p, q, F):
    p = fold(p, F)
    q = fold(q, F)
    if p.__class__ is int and q.__class__ is int:
        return p ^ q
    return sub(add(p, q), scale(band(p, q, F), 2))


def popcount(p, F):
    if p.__class__ is int:
        return bin(p).count("1")
    k = tz(p)
    if k:
        return popcount(fl(p, 1 << k, F), F)
    c = p.t.get((), 0)
    if c > 0 and c & (c + 1) == 0:      # complement within the bits of c
        l, h = F.bound(p)
        if l is not None and l >= 0 and h is not None and h <= c:
            x = sub(c, p)
            if all(v > 0 for v in x.t.values()):
                return sub(c.bit_length(), popcount(x, F))
    ks = [128, 64, 32, 16, 8]
    if c > 0 and c.bit_length() - 1 not in ks:
        ks.append(c.bit_length() - 1)
        ks.sort(reverse=True)
    for k in ks:
        h = F.bound(p)[1]
        if k == 0 or h is not None and h >> k == 0:
            continue
        s = _cut(p, k, F)
        if s is not None:
            return add(popcount(s[0], F), popcount(s[1], F))
    l, h = F.bound(p)
    if l == 0 and h == 1:
        return p
    a = intern("POP", (p,), 0, None)
    return ap(a)


def clz(p, w, F):
    if p.__class__ is int:
        return w - p.bit_length()
    l, h = F.bound(p)
    if l is not None and h is not None and l.bit_length() == h.bit_length():
        return w - l.bit_length()
    # leading boolean structure
    a = intern("CLZ", (p, w), 0, w)
    return ap(a)


def ctz(p, w, F):
    if p.__class__ is int:
        return w if p == 0 else (p & -p).bit_length() - 1
    k = tz(p)
    l, h = F.bound(p)
    if l is not None and l > 0:
        c = p.t.get((), 0)
        if c:
            kc = (c & -c).bit_length() - 1
            rest = {m: v for m, v in p.t.items() if m}
            kr = tz(Poly(rest))
            if kr > kc:
                return min(kc, w)
    a = intern("CTZ", (p, w), 0, w)
    return ap(a)


# ---------------------------------------------------------------- evaluation


def evaluate(p, env, memo):
    """Value of a term at a valuation (used only to exhibit a witness of inequality)."""
    if p.__class__ is int:
        return p
    s = 0
    for m, c in p.t.items():
        for i in m:
            v = memo.get(i)
            if v is None:
                v = memo[i] = _eval_atom(ATOMS[i], env, memo)
            c *= v
        s += c
    return s


def _eval_atom(a, env, memo):
    k = a.kind
    if k == "V":
        return env[a.name]
    if k == "FL":
        return evaluate(a.args[0], env, memo) // a.args[1]
    if k == "NEG":
        return 1 if evaluate(a.args[0], env, memo) < 0 else 0
    if k == "Z":
        return 1 if evaluate(a.args[0], env, memo) == 0 else 0
    if k == "OPQ":
        return evaluate(a.args[0], env, memo)
    if k == "DIV":
        d = evaluate(a.args[1], env, memo)
        if d == 0:
            raise ZeroDivisionError
        return evaluate(a.args[0], env, memo) // d
    if k == "AND":
        return evaluate(a.args[0], env, memo) & evaluate(a.args[1], env, memo)
    if k == "POP":
        return bin(evaluate(a.args[0], env, memo)).count("1")
    if k == "CLZ":
        return a.args[1] - evaluate(a.args[0], env, memo).bit_length()
    if k == "CTZ":
        v = evaluate(a.args[0], env, memo)
        return a.args[1] if v == 0 else (v & -v).bit_length() - 1
    if k == "FN":
        return a.args[-1](*[evaluate(x, env, memo) for x in a.args[:-1] if isinstance(x, (int, Poly))])
    raise KeyError(k)


def vars_of(p, out):
    if p.__class__ is int:
        return out
    for m in p.t:
        for i in m:
            a = ATOMS[i]
            if a.kind == "V":
                out.add(i)
            else:
                if ("seen", i) in out:
                    continue
                out.add(("seen", i))
                for x in a.args:
                    if isinstance(x, Poly):
                        vars_of(x, out)
    return out


def renorm(p, F, memo=None):
    """Rebuild a term bottom-up so that it is canonical under facts F."""
    if p.__class__ is int:
        return p
    if memo is None:
        memo = {}
    r = 0
    for m, c in p.t.items():
        t = c
        for i in m:
            v = memo.get(i)
            if v is None:
                v = memo[i] = _renorm_atom(ATOMS[i], F, memo)
            t = mul(t, v)
        r = add(r, t)
    return r


def _renorm_atom(a, F, memo):
    k = a.kind
    l, h = F.atom(a.id)
    if l is not None and l == h:
        return l
    if k == "FL":
        return fl(renorm(a.args[0], F, memo), a.args[1], F)
    if k == "NEG":
        return isneg(renorm(a.args[0], F, memo), F)
    if k == "Z":
        return iszero(renorm(a.args[0], F, memo), F)
    if k == "DIV":
        return div(renorm(a.args[0], F, memo), renorm(a.args[1], F, memo), F)
    if k == "AND":
        return band(renorm(a.args[0], F, memo), renorm(a.args[1], F, memo), F)
    if k == "POP":
        return popcount(renorm(a.args[0], F, memo), F)
    if k == "CLZ":
        return clz(renorm(a.args[0], F, memo), a.args[1], F)
    if k == "CTZ":
        return ctz(renorm(a.args[0], F, memo), a.args[1], F)
    return ap(a)


def bare(p):
    """A plain input variable."""
    if p.__class__ is int or len(p.t) != 1:
        return False
    (m, c), = p.t.items()
    return len(m) == 1 and c == 1 and ATOMS[m[0]].kind == "V"
