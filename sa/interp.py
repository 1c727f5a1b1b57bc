"""Abstract interpreter over extracted MIR (see DESIGN.md).

Domain: memory maps locations to exact terms (terms.py), pointers, function
references or TOP; facts hold linear bounds.  States at one program point are
partitioned by trace up to a fixed width, then joined.  Nothing is executed:
inputs are sets of values (cells), never single runs.
"""
import heapq
import json
from . import terms as T
from .terms import Poly, Facts, Contradiction, TooBig

WIDTH = 24          # trace partitions kept per program point
MAXSTEPS = 60000
MAXDEPTH = 60


class Undecided(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, term, lo, hi):
        self.term, self.lo, self.hi = term, lo, hi


class _Sent:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNINIT = _Sent("UNINIT")
TOP = _Sent("TOP")


class Ptr:
    """Pointer: allocation and offset, with the byte range its provenance
    covers (None: everything) and whether it comes from a shared reference."""
    __slots__ = ("a", "off", "ext", "ro")

    def __init__(self, a, off, ext=None, ro=False):
        self.a, self.off, self.ext, self.ro = a, off, ext, ro

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.a == o.a and self.off == o.off

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.a, self.off))

    def __repr__(self):
        return "&%s+%s" % (self.a, self.off)


class FnP:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, FnP) and self.f == o.f

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.f)


class Flt:
    """Float: either an exact bit pattern term, or a real interval [lo, hi]
    (endpoints are floats of the format, inclusive), possibly NaN."""

    __slots__ = ("w", "bits", "lo", "hi", "nan", "real", "exact")

    def __init__(self, w, bits=None, lo=None, hi=None, nan=True, real=None):
        self.w, self.bits, self.lo, self.hi, self.nan, self.real = w, bits, lo, hi, nan, real

    def __eq__(self, o):
        return isinstance(o, Flt) and (self.w, self.bits, self.lo, self.hi, self.nan, self.real) == (
            o.w, o.bits, o.lo, o.hi, o.nan, o.real)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.w, self.bits, self.lo, self.hi))

    def __repr__(self):
        return "Flt%d(bits=%s,[%s,%s])" % (self.w, self.bits, self.lo, self.hi)


class Blob:
    __slots__ = ("size", "ch")

    def __init__(self, size, ch):
        self.size, self.ch = size, ch

    def __repr__(self):
        return "Blob%d%r" % (self.size, self.ch)


class Alloc:
    __slots__ = ("size", "ch")

    def __init__(self, size, ch):
        self.size, self.ch = size, ch


class GAlloc:
    __slots__ = ("raw", "init", "prov", "size")

    def __init__(self, hexs, prov):
        n = len(hexs) // 2
        self.size = n
        self.init = [hexs[2 * i] != "_" for i in range(n)] if "_" in hexs else None
        self.raw = bytes.fromhex(hexs.replace("_", "0"))
        self.prov = {o: a for o, a in prov}


class State:
    __slots__ = ("mem", "facts", "pc", "exact", "obs")

    def __init__(self, mem, facts, pc=(), exact=True, obs=()):
        self.mem, self.facts, self.pc, self.exact, self.obs = mem, facts, pc, exact, obs

    def fork(self):
        return State(dict(self.mem), self.facts, self.pc, self.exact, self.obs)


class Fn:
    __slots__ = ("id", "name", "defname", "crate", "kind", "iname", "ret", "foreign", "sym", "targs", "nargs", "spread",
                 "locals", "blocks", "span", "order", "live", "names")


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.endian = d["endian"]
        self.files = d["files"]
        self.roots = {k.rsplit("::", 1)[-1]: v for k, v in d["roots"].items()}
        self.fns = {}
        for k, f in d["fns"].items():
            o = Fn()
            o.id = int(k)
            o.name, o.crate, o.kind, o.iname = f["name"], f["crate"], f["kind"], f["in"]
            o.defname = f["def"]
            o.ret, o.foreign, o.sym, o.targs = f["ret"], f["foreign"], f["sym"], f["targs"]
            o.blocks = f.get("blocks")
            if o.blocks is not None:
                o.nargs, o.spread, o.locals, o.span = f["args"], f["spread"], f["locals"], f["span"]
                o.names = f["names"]
            o.order = None
            o.live = None
            self.fns[o.id] = o
        self.allocs = d["allocs"]
        self.vtables = {(a, b): e for a, b, e in d.get("vtables", ())}
        self._g = {}
        self._leaf = {}

    def galloc(self, i):
        g = self._g.get(i)
        if g is None:
            a = self.allocs[str(i)]
            if a["k"] in ("mem", "static") and a["v"] is not None:
                g = GAlloc(a["v"][0], a["v"][1])
            else:
                g = a
            self._g[i] = g
        return g

    def size(self, t):
        l = self.types[t]["lay"]
        return l["size"] if l else 0

    def scalar(self, t):
        """('i',bits,signed) | ('f',bits) | ('p',) for scalar types, else None."""
        ty = self.types[t]
        s = ty.get("_s", 0)
        if s != 0:
            return s
        k = ty["k"]
        if k == "int":
            s = ("i", ty["bits"], ty["s"])
        elif k == "bool":
            s = ("i", 8, False)
        elif k == "char":
            s = ("i", 32, False)
        elif k == "float":
            s = ("f", ty["bits"])
        elif k == "ptr":
            s = ("p",) if not self.unsized(ty["e"]) else None
        elif k == "fnptr":
            s = ("p",)
        elif k == "pat":
            s = self.scalar(ty["e"])
        else:
            s = None
        ty["_s"] = s
        return s

    def unsized(self, t):
        ty = self.types[t]
        if ty["k"] in ("slice", "str", "dyn"):
            return True
        l = ty["lay"]
        return bool(l and l["unsized"])

    def elem(self, t):
        ty = self.types[t]
        if ty["k"] == "str":
            return None
        return ty["e"]

    def field_off(self, t, var, i):
        ty = self.types[t]
        lay = ty["lay"]
        vs = lay["vars"]
        if var is not None and isinstance(vs, dict) and "offs" in vs:
            return vs["offs"][var][i]
        o = lay["offs"]
        if isinstance(o, dict):
            return o["stride"] * i
        if o is None:
            return 0
        return o[i]

    def leaves(self, t):
        """Flattened scalar leaves [(off, size, kind)] or None when the shape is not fixed."""
        r = self._leaf.get(t, 0)
        if r != 0:
            return r
        ty = self.types[t]
        s = self.scalar(t)
        k = ty["k"]
        if s is not None:
            r = [(0, self.size(t), s)]
        elif self.size(t) == 0:
            r = []
        elif k == "ptr":
            r = [(0, 8, ("p",)), (8, 8, ("i", 64, False) if self.types[ty["e"]]["k"] != "dyn" else ("p",))]
        elif k == "array":
            e = self.leaves(ty["e"])
            if e is None or ty["n"] > 4096:
                r = None
            else:
                sz = self.size(ty["e"])
                r = [(i * sz + o, n, kk) for i in range(ty["n"]) for o, n, kk in e]
        elif k == "tuple" or (k == "adt" and ty["ak"] == "struct"):
            fs = ty["f"] if k == "tuple" else ty["v"][0][2]
            r = []
            for i, f in enumerate(fs):
                e = self.leaves(f)
                if e is None:
                    r = None
                    break
                o = self.field_off(t, None, i)
                r += [(o + a, n, kk) for a, n, kk in e]
            if r is not None:
                r.sort(key=lambda x: x[0])
        else:
            r = None
        self._leaf[t] = r
        return r


# ------------------------------------------------------------------ WTO


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def wto(fn):
    """Assign each block a key path [(order, head?)...] so loops are contiguous."""
    if fn.order is not None:
        return fn.order
    blocks = fn.blocks
    n = len(blocks)
    succ = [successors(t) for ss, t in blocks]
    key = {}
    heads = {}

    def sccs(nodes, entry):
        nodes = set(nodes)
        index = {}
        low = {}
        st = []
        on = set()
        out = []
        cnt = [0]
        import sys
        sys.setrecursionlimit(100000)

        def strong(v):
            index[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            on.add(v)
            for w in succ[v]:
                if w not in nodes:
                    continue
                if w not in index:
                    strong(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], index[w])
            if low[v] == index[v]:
                c = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(c)

        strong(entry)
        for v in nodes:
            if v not in index and False:
                strong(v)
        out.reverse()
        return out

    def rec(nodes, entry, prefix):
        # remove back edges into the entry by excluding it
        comps = sccs(nodes, entry)
        pos = 0
        for c in comps:
            if len(c) == 1 and c[0] not in succ[c[0]]:
                key[c[0]] = prefix + (pos,)
            else:
                # find the head: node with a predecessor outside c (or the entry)
                cs = set(c)
                head = None
                if entry in cs:
                    head = entry
                else:
                    for v in nodes:
                        if v in cs:
                            continue
                        for w in succ[v]:
                            if w in cs:
                                head = w
                                break
                        if head is not None:
                            break
                if head is None:
                    head = c[0]
                p = prefix + (pos,)
                key[head] = p + (0,)
                heads[head] = len(p)
                rest = [x for x in c if x != head]
                # order the rest as a graph entered from head's successors
                order_rest(rest, head, p)
            pos += 1

    def order_rest(rest, head, p):
        rs = set(rest)
        # topological over SCCs of rest; build a virtual entry
        saved = succ[head]
        virt = [w for w in saved if w in rs]
        # run sccs from each virtual root
        index_done = set()
        comps_all = []
        import itertools
        # emulate by adding a temporary node
        tmp = len(succ)
        succ.append(virt)
        comps = sccs(list(rs) + [tmp], tmp)
        succ.pop()
        pos = 1
        for c in comps:
            if c == [tmp]:
                continue
            if len(c) == 1 and c[0] not in succ[c[0]]:
                key[c[0]] = p + (pos,)
            else:
                cs = set(c)
                h = None
                for v in [head] + rest:
                    if v in cs:
                        continue
                    for w in succ[v]:
                        if w in cs:
                            h = w
                            break
                    if h is not None:
                        break
                if h is None:
                    h = c[0]
                q = p + (pos,)
                key[h] = q + (0,)
                heads[h] = len(q)
                order_rest([x for x in c if x != h], h, q)
            pos += 1

    rec(range(n), 0, ())
    fn.order = (key, heads, succ)
    return fn.order


class Interp:
    def __init__(self, prog, contracts=None, overflow_checks=True, stats=None):
        self.p = prog
        self.big = prog.endian == "big"
        self.contracts = contracts or {}
        self.ovf = overflow_checks
        self.nid = 0
        self.events = []
        self.steps = 0
        self.depth = 0
        self.havocs = 0
        self.visited = set()
        self.nblocks = 0
        self.calls = 0
        self.stack = []
        self.contract_uses = {}
        self.site = None
        self.moduli = ()
        self.ghost = None
        self.limbs = False
        self.bytecls = False
        self.use_phi = False
        self.addrs = None
        self.align = {}
        self._frozen = {}
        self.ext, self.ro = None, False
        self.clsatoms = []
        self.width = WIDTH

    # -------------------------------------------------- helpers
    def address(self, v, tag="?addr%s"):
        """An unknown address of which only the alignment is known."""
        a = v.a
        if a.__class__ is tuple:
            g = self.p.allocs[str(a[1])]
            n = g["v"][2] if g["k"] in ("mem", "static") and g["v"] is not None else 1
        else:
            n = (self.addrs or {}).get(a, 1)
        return T.add(T.scale(T.var(tag % (a,), 1, (1 << 47) // n), n), v.off)

    def new_alloc(self, st, size, ch=None):
        self.nid += 1
        st.mem[self.nid] = Alloc(size, ch if ch is not None else {})
        return self.nid

    def havoc(self, lo, hi):
        self.havocs += 1
        return T.var("?%d" % self.havocs, lo, hi)

    # -------------------------------------------------- memory
    def get_alloc(self, st, a):
        if a.__class__ is int:
            r = st.mem.get(a)
            if r is None:
                raise Undecided("dangling alloc")
            return r
        return self.p.galloc(a[1])

    def coff(self, st, off):
        if off.__class__ is int:
            return off
        return T.fold(off, st.facts)

    def read(self, st, a, off, size, kind):
        """Read one scalar.  kind = ('i',..)|('f',..)|('p',)|None"""
        off = self.coff(st, off)
        al = self.get_alloc(st, a)
        if off.__class__ is not int:
            return self.read_sym(st, al, a, off, size, kind)
        if al.__class__ is Alloc:
            c = al.ch.get(off)
            if c is not None and c[0] == size:
                return self.conv(st, c[1], kind, size)
            if off < 0 or (al.size.__class__ is int and off + size > al.size):
                self.event(st, "oob", "read outside allocation")
                raise Undecided("oob read")
            return self.conv(st, self.assemble(st, al, off, size), kind, size)
        if al.__class__ is GAlloc:
            if off < 0 or off + size > al.size:
                self.event(st, "oob", "read outside constant allocation")
                raise Undecided("oob const read")
            if off in al.prov:
                return self.conv(st, self.gptr(al, off), kind, size)
            if al.init is not None and not all(al.init[off:off + size]):
                return UNINIT
            v = int.from_bytes(al.raw[off:off + size], self.p.endian)
            return self.conv(st, v, kind, size)
        raise Undecided("read of opaque allocation")

    def gptr(self, al, off):
        aid = al.prov[off]
        g = self.p.allocs[str(aid)]
        base = int.from_bytes(al.raw[off:off + 8], self.p.endian)
        if g["k"] == "fn":
            return FnP(g["f"])
        if g["k"] == "vtable":
            return FnP(("vtc", aid))
        return Ptr(("g", aid), base)

    def conv(self, st, v, kind, size):
        if kind is None or v is UNINIT or v is TOP:
            return v
        k = kind[0]
        c = v.__class__
        if k == "i":
            if c is Flt:
                return self.flt_bits(v)
            if c is Ptr and self.addrs is not None and kind[1] == 64:
                return self.address(v)
            if c is Ptr or c is FnP:
                return TOP
            return v
        if k == "f":
            if c is int or c is Poly:
                return Flt(kind[1], bits=v)
            return v
        return v

    def flt_bits(self, v):
        if v.bits is not None:
            return v.bits
        if v.lo is not None and v.lo == v.hi and not v.nan:
            from . import floats
            return floats.to_bits(v.lo, v.w)
        return TOP

    def assemble(self, st, al, off, size):
        F = st.facts
        parts = []
        pos = off
        end = off + size
        ks = sorted(k for k, c in al.ch.items() if k < end and k + c[0] > off)
        res = 0
        for k in ks:
            sz, v = al.ch[k]
            if k > pos:
                return UNINIT
            if v is UNINIT or v is TOP:
                return v
            if v.__class__ is Flt:
                v = self.flt_bits(v)
                if v is TOP:
                    return TOP
            if v.__class__ not in (int, Poly):
                return TOP
            lo = max(pos, k)
            hi = min(end, k + sz)
            # bytes [lo-k, hi-k) of v
            n = hi - lo
            if self.big:
                shift = 8 * (k + sz - hi)
            else:
                shift = 8 * (lo - k)
            piece = v
            if shift:
                piece = T.fl(piece, 1 << shift, F)
            if n != sz:
                piece = T.mod(piece, 1 << (8 * n), F)
            if self.big:
                res = T.add(T.scale(res, 1 << (8 * n)), piece)
            else:
                res = T.add(res, T.scale(piece, 1 << (8 * (lo - off))))
            pos = hi
        if pos < end:
            if pos == off and al.size < end:
                return TOP
            return UNINIT
        return res

    def sym_offsets(self, st, off, al_size, size):
        lo, hi = st.facts.bound(off)
        if lo is None or hi is None:
            raise Undecided("unbounded index")
        g = 1
        d = T.sub(off, lo)
        k = T.tz(d) if d.__class__ is not int else 0
        g = 1 << k
        if lo < 0 or hi + size > al_size:
            for a, b in ((None, -1), (al_size - size + 1, None)):
                bad = self.branch(st, off, a, b)
                if bad is not None:
                    self.event(bad, "oob", "access outside allocation")
            try:
                st.facts = st.facts.assume(off, 0, al_size - size)
            except Contradiction:
                raise Undecided("oob access")
        lo, hi = max(lo, 0), min(hi, al_size - size)
        if (hi - lo) // g > 1024:
            raise Undecided("index range too wide")
        return [o for o in range(lo, hi + 1, g) if o + size <= al_size], lo, hi, g

    def read_sym(self, st, al, a, off, size, kind):
        offs, lo, hi, g = self.sym_offsets(st, off, al.size, size)
        if not offs:
            raise Undecided("no offset")
        vals = [self.read(st, a, o, size, kind) for o in offs]
        v0 = vals[0]
        if all(v == v0 for v in vals):
            return v0
        if all(v.__class__ is int for v in vals) and len(vals) >= 3:
            idx = T.fl(T.sub(off, offs[0]), g, st.facts) if g > 1 else T.sub(off, offs[0])
            r = fit_table(vals, idx, st.facts)
            if r is not None:
                return r
        if len(vals) <= 64:
            raise NeedSplit(off, lo, hi)
        if all(v.__class__ in (int, Poly) for v in vals):
            los, his = zip(*[st.facts.bound(v) for v in vals])
            if None in los or None in his:
                return TOP
            return self.havoc(min(los), max(his))
        return TOP

    def write(self, st, a, off, size, v):
        off = self.coff(st, off)
        if a.__class__ is not int:
            raise Undecided("write to constant memory")
        al = self.get_alloc(st, a)
        if off.__class__ is not int:
            offs, lo, hi, g = self.sym_offsets(st, off, al.size, size)
            if len(offs) <= 8:
                raise NeedSplit(off, lo, hi)
            for o in offs:
                old = self.read(st, a, o, size, None)
                self.write(st, a, o, size, self.joinv(st, old, v))
            return
        ch = al.ch
        c = ch.get(off)
        n = dict(ch)
        if c is not None and c[0] == size:
            n[off] = (size, v)
            st.mem[a] = Alloc(al.size, n)
            return
        if off < 0 or off + size > al.size:
            self.event(st, "oob", "write outside allocation")
            raise Undecided("oob write")
        self.clear(st, al, n, off, size)
        n[off] = (size, v)
        st.mem[a] = Alloc(al.size, n)

    def clear(self, st, al, n, off, size):
        end = off + size
        for k in [k for k, c in n.items() if k < end and k + c[0] > off]:
            sz, v = n.pop(k)
            if k < off:
                n[k] = (off - k, self.assemble(st, Alloc(al.size, {k: (sz, v)}), k, off - k))
            if k + sz > end:
                n[end] = (k + sz - end, self.assemble(st, Alloc(al.size, {k: (sz, v)}), end, k + sz - end))

    def copy_out(self, st, a, off, t):
        """Blob of type t at (a, off)."""
        size = self.p.size(t)
        return self.copy_range(st, a, off, size, t)

    def copy_range(self, st, a, off, size, t=None):
        if size == 0:
            return Blob(0, [])
        off = self.coff(st, off)
        al = self.get_alloc(st, a)
        if off.__class__ is not int:
            lv = self.p.leaves(t) if t is not None else None
            if lv is None:
                lo, hi = st.facts.bound(off)
                raise NeedSplit(off, lo, hi)
            return Blob(size, [(o, n, self.read(st, a, T.add(off, o), n, k)) for o, n, k in lv])
        if al.__class__ is GAlloc:
            return self.gblob(al, off, size, t, st)
        if al.__class__ is not Alloc:
            raise Undecided("copy of opaque allocation")
        end = off + size
        if off == 0 and size == al.size:
            return Blob(size, [(k, c[0], c[1]) for k, c in al.ch.items()])
        if end > al.size or off < 0:
            self.event(st, "oob", "read outside allocation")
            raise Undecided("oob read")
        out = []
        for k, (sz, v) in al.ch.items():
            if k >= end or k + sz <= off:
                continue
            if k >= off and k + sz <= end:
                out.append((k - off, sz, v))
            else:
                lo = max(k, off)
                hi = min(k + sz, end)
                out.append((lo - off, hi - lo, self.assemble(st, Alloc(al.size, {k: (sz, v)}), lo, hi - lo)))
        return Blob(size, out)

    def gblob(self, al, off, size, t, st=None):
        if off < 0 or off + size > al.size:
            if st is not None:
                self.event(st, "oob", "read outside constant allocation")
            raise Undecided("oob const copy")
        lv = self.p.leaves(t) if t is not None else None
        out = []
        if lv is None:
            lv = []
            o = 0
            while o < size:
                if off + o in al.prov:
                    lv.append((o, 8, ("p",)))
                    o += 8
                else:
                    lv.append((o, 1, ("i", 8, False)))
                    o += 1
        for o, n, k in lv:
            if off + o in al.prov:
                out.append((o, n, self.gptr(al, off + o)))
            elif al.init is not None and not all(al.init[off + o:off + o + n]):
                continue
            else:
                v = int.from_bytes(al.raw[off + o:off + o + n], self.p.endian)
                if k[0] == "f":
                    v = Flt(k[1], bits=v)
                out.append((o, n, v))
        return Blob(size, out)

    def store(self, st, a, off, b):
        """Write a Blob."""
        if b.size == 0:
            return
        if a.__class__ is not int:
            raise Undecided("write to constant memory")
        off = self.coff(st, off)
        if off.__class__ is not int:
            for o, n, v in b.ch:
                self.write(st, a, T.add(off, o), n, v)
            return
        al = self.get_alloc(st, a)
        if off == 0 and b.size == al.size:
            st.mem[a] = Alloc(al.size, {o: (n, v) for o, n, v in b.ch})
            return
        if off < 0 or off + b.size > al.size:
            self.event(st, "oob", "write outside allocation")
            raise Undecided("oob write")
        n = dict(al.ch)
        self.clear(st, al, n, off, b.size)
        for o, sz, v in b.ch:
            n[off + o] = (sz, v)
        st.mem[a] = Alloc(al.size, n)

    def joinv(self, st, x, y):
        if x is y or x == y:
            return x
        if x.__class__ in (int, Poly) and y.__class__ in (int, Poly):
            a, b = st.facts.bound(x)
            c, d = st.facts.bound(y)
            if None in (a, b, c, d):
                return TOP
            return self.havoc(min(a, c), max(b, d))
        return TOP

    # -------------------------------------------------- events
    def event(self, st, kind, detail, where=None):
        self.events.append((kind, detail, self.site or where, st, tuple(self.stack)))

    # -------------------------------------------------- places
    def place(self, st, fr, pl):
        """-> (alloc, off, type, meta)"""
        l, proj = pl
        a = fr[1][l]
        t = fr[0].locals[l]
        off = 0
        meta = None
        var = None
        types = self.p.types
        self.ext = None
        self.ro = False
        for e in proj:
            if e == "*":
                v = self.read(st, a, off, 8, ("p",))
                ty = types[t]
                if ty["k"] != "ptr":
                    # Box and friends: pointer is the first field
                    raise Undecided("deref of %s" % ty["d"])
                nt = ty["e"]
                if self.p.unsized(nt):
                    meta = self.read(st, a, T.add(off, 8), 8, ("i", 64, False))
                else:
                    meta = None
                if v.__class__ is not Ptr:
                    if v is UNINIT:
                        self.event(st, "uninit", "dereference of an uninitialised pointer")
                    if self.p.size(nt) == 0 and not self.p.unsized(nt):
                        a, off, t = self.new_alloc(st, 0), 0, nt
                        continue
                    if v.__class__ is int and meta == 0:
                        a, off, t = self.new_alloc(st, 0), 0, nt
                        continue
                    raise Undecided("deref of unknown pointer")
                a, off, t = v.a, v.off, nt
                self.ext, self.ro = v.ext, v.ro
                if off.__class__ is int:
                    self.reach(st, v, off, nt, meta)
                var = None
            elif e[0] == "f":
                off = T.add(off, self.p.field_off(t, var, e[1])) if off.__class__ is not int else off + self.p.field_off(t, var, e[1])
                t = e[2]
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                ix = self.read(st, fr[1][e[1]], 0, 8, ("i", 64, False))
                if ix.__class__ not in (int, Poly):
                    raise Undecided("index")
                nt = self.p.elem(t)
                off = T.add(off, T.scale(ix, self.p.size(nt)))
                t = nt
            elif e[0] == "c":
                nt = self.p.elem(t)
                sz = self.p.size(nt)
                if e[3]:
                    n = types[t]["n"] if types[t]["k"] == "array" else meta
                    off = T.add(off, T.scale(T.sub(n, e[1]), sz))
                else:
                    off = T.add(off, e[1] * sz)
                t = nt
            elif e[0] == "s":
                nt = self.p.elem(t)
                off = T.add(off, e[1] * self.p.size(nt))
                if types[t]["k"] == "slice":
                    meta = T.sub(meta, e[1] + e[2]) if e[3] else e[2] - e[1]
                else:
                    raise Undecided("array subslice")
            elif e[0] == "o":
                t = e[1]
            else:
                raise Undecided("proj")
        return a, off, t, meta

    def reach(self, st, v, off, t, meta):
        """A dereference must stay inside the reference the pointer derives
        from, and be aligned."""
        l = self.p.types[t]["lay"]
        if l is None or "size" not in l:
            return
        e = self.extent(st, off, t, meta)
        if v.ext is not None and e is not None and (e[0] < v.ext[0] or e[1] > v.ext[1]):
            self.event(st, "ub", "dereference outside the reference the pointer was derived from")
            raise Undecided("provenance")
        n = l["align"]
        if n > 1:
            m = self.align.get(v.a)
            if m is not None and (m < n or off % n):
                self.event(st, "ub", "dereference of a misaligned pointer (%d-byte alignment required)" % n)
                raise Undecided("misaligned")

    def extent(self, st, off, t, meta):
        """Bytes a reference to this place covers."""
        if off.__class__ is not int:
            return self.ext
        if not self.p.unsized(t):
            return (off, off + self.p.size(t))
        k = self.p.types[t]["k"]
        if meta.__class__ is int and k in ("slice", "str"):
            return (off, off + meta * (1 if k == "str" else self.p.size(self.p.elem(t))))
        return self.ext

    def frozen(self, t):
        """No interior mutability (only types seen entirely)."""
        r = self._frozen.get(t)
        if r is None:
            self._frozen[t] = False
            ty = self.p.types[t]
            k = ty["k"]
            if k in ("slice", "array"):
                r = self.frozen(self.p.elem(t))
            elif k == "tuple":
                r = all(self.frozen(f) for f in ty["f"])
            elif k == "adt":
                r = "UnsafeCell" not in ty["d"] and all(self.frozen(f) for v in ty["v"] for f in v[2])
            else:
                r = k in ("bool", "char", "int", "uint", "str", "ptr", "float")
            self._frozen[t] = r
        return r

    def written(self, st):
        if self.ro:
            self.event(st, "ub", "write through a pointer derived from a shared reference")

    def operand(self, st, fr, o):
        """-> value for scalars (term/Ptr/...), Blob otherwise"""
        k = o[0]
        if k == "c" or k == "m":
            l, proj = o[1]
            if not proj:
                a = fr[1][l]
                t = fr[0].locals[l]
                s = self.p.scalar(t)
                al = st.mem[a]
                if s is not None:
                    c = al.ch.get(0)
                    if c is not None and c[0] == al.size:
                        return c[1]
                    return self.read(st, a, 0, al.size, s)
                return Blob(al.size, [(kk, c[0], c[1]) for kk, c in al.ch.items()])
            a, off, t, meta = self.place(st, fr, o[1])
            s = self.p.scalar(t)
            if s is not None:
                return self.read(st, a, off, self.p.size(t), s)
            return self.copy_out(st, a, off, t)
        if k == "k":
            t, v = o[1], o[2]
            s = self.p.scalar(t)
            if v is None:
                return Blob(0, [])
            if v == "?":
                raise Undecided("unevaluated constant")
            c = o[3] if len(o) > 3 else None
            if c is None:
                g = GAlloc(v[0], v[1])
                if s is not None:
                    if 0 in g.prov:
                        c = self.gptr(g, 0)
                    else:
                        c = int.from_bytes(g.raw, self.p.endian)
                        if s[0] == "f":
                            c = Flt(s[1], bits=c)
                else:
                    c = self.gblob(g, 0, g.size, t)
                o.append(c)
            return c
        if k == "rc":
            if o[1] == "OverflowChecks":
                return 1 if self.ovf else 0
            return 0
        raise Undecided("operand")

    def op_type(self, fr, o):
        k = o[0]
        if k == "k":
            return o[1]
        if k == "rc":
            return None
        l, proj = o[1]
        t = fr[0].locals[l]
        for e in proj:
            if e == "*":
                t = self.p.types[t]["e"]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = self.p.elem(t)
            elif e[0] == "o":
                t = e[1]
        return t

    def as_blob(self, v, size):
        if v.__class__ is Blob:
            return v
        if size == 0:
            return Blob(0, [])
        return Blob(size, [(0, size, v)])

    def from_blob(self, st, b, t):
        """Scalar out of a Blob when t is scalar."""
        s = self.p.scalar(t)
        if s is None or b.__class__ is not Blob:
            return b
        if len(b.ch) == 1 and b.ch[0][1] == b.size:
            return self.conv(st, b.ch[0][2], s, b.size)
        return self.conv(st, self.assemble(st, Alloc(b.size, {o: (n, v) for o, n, v in b.ch}), 0, b.size), s, b.size)

    def assign(self, st, fr, pl, v):
        l, proj = pl
        if not proj:
            a = fr[1][l]
            al = st.mem[a]
            if v.__class__ is Blob:
                st.mem[a] = Alloc(al.size, {o: (n, x) for o, n, x in v.ch})
            elif al.size:
                st.mem[a] = Alloc(al.size, {0: (al.size, v)})
            return
        a, off, t, meta = self.place(st, fr, pl)
        self.written(st)
        if v.__class__ is Blob:
            self.store(st, a, off, v)
        else:
            sz = self.p.size(t)
            if sz:
                self.write(st, a, off, sz, v)

    # -------------------------------------------------- scalar ops
    def need_int(self, st, v, what=""):
        c = v.__class__
        if c is int or c is Poly:
            return v
        if v is UNINIT:
            self.event(st, "uninit", "use of an uninitialised value")
        raise Undecided("non-integer operand %r %s" % (v, what))

    def signed(self, st, v, bits):
        """Signed interpretation of residue v."""
        h = 1 << (bits - 1)
        F = st.facts
        if v.__class__ is int:
            return v - (1 << bits) if v >= h else v
        lo, hi = F.bound(v)
        if hi is not None and hi < h:
            return v
        if lo is not None and lo >= h:
            return T.add(v, -(1 << bits))
        s = T.fl(v, h, F)
        return T.sub(v, T.scale(s, 1 << bits))

    def bits_of(self, t):
        s = self.p.scalar(t)
        if s is None or s[0] != "i":
            raise Undecided("int type expected: %s" % self.p.types[t]["d"])
        if self.p.types[t]["k"] == "bool":
            return 1, False
        return s[1], s[2]

    def val(self, st, v, bits, s):
        return self.signed(st, v, bits) if s else v

    def binop(self, st, op, x, y, tx, ty):
        F = st.facts
        if op == "Offset":
            sz = self.p.size(self.p.types[tx]["e"])
            if x.__class__ is not Ptr:
                raise Undecided("offset of non-pointer")
            bits, s = self.bits_of(ty)
            n = self.val(st, self.need_int(st, y), bits, s)
            no = T.add(x.off, T.scale(n, sz))
            if no.__class__ is int and x.a.__class__ is int and x.a in st.mem and not 0 <= no <= st.mem[x.a].size and op != "arith":
                self.event(st, "ub", "pointer arithmetic leaves its allocation")
            return Ptr(x.a, no, x.ext, x.ro)
        if x.__class__ is Flt or y.__class__ is Flt:
            from . import floats
            return floats.binop(self, st, op, x, y)
        if x.__class__ in (Ptr, FnP, Blob) or y.__class__ in (Ptr, FnP, Blob):
            return self.ptrcmp(st, op, x, y)
        x = self.need_int(st, x, op)
        y = self.need_int(st, y, op)
        bits, s = self.bits_of(tx)
        M = 1 << bits
        if self.bytecls and bits == 8:
            x, y = self.byteclass(st, x), self.byteclass(st, y)
        if op.endswith("Unchecked"):
            self.unchecked(st, op, x, y, bits, s, ty)
            F = st.facts
        if op in ("Add", "AddUnchecked"):
            return T.mod(T.add(x, y), M, F)
        if op in ("Sub", "SubUnchecked"):
            r = T.mod(T.sub(x, y), M, F)
            return r if T.DEEP is None else self.name_remainder(st, r)
        if op in ("Mul", "MulUnchecked"):
            return T.mod(T.mul(x, y), M, F)
        if op == "BitAnd":
            return T.band(x, y, F)
        if op == "BitOr":
            return T.bor(x, y, F)
        if op == "BitXor":
            return T.bxor(x, y, F)
        if op in ("Eq", "Ne"):
            z = T.iszero(T.sub(x, y), F)
            return z if op == "Eq" else T.sub(1, z)
        if op in ("Lt", "Le", "Gt", "Ge", "Cmp"):
            a = self.val(st, x, bits, s)
            b = self.val(st, y, bits, s)
            if op == "Lt":
                return T.lt(a, b, F)
            if op == "Gt":
                return T.lt(b, a, F)
            if op == "Le":
                return T.le(a, b, F)
            if op == "Ge":
                return T.le(b, a, F)
            return T.add(T.scale(T.lt(a, b, F), 255), T.lt(b, a, F))
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            bb, sb = self.bits_of(ty)
            y = T.fold(y, F)
            if y.__class__ is not int:
                # the amount is taken modulo the width
                y = T.fold(T.mod(y, bits, F), F)
                if y.__class__ is not int:
                    if x == 0:
                        return 0
                    lo, hi = F.bound(y)
                    raise NeedSplit(y, lo, hi)
            y %= bits
            if op.startswith("Shl"):
                return T.mod(T.scale(x, 1 << y), M, F)
            return T.mod(T.fl(self.val(st, x, bits, s), 1 << y, F), M, F)
        if op in ("Div", "Rem"):
            return self.divrem(st, op, x, y, bits, s)
        raise Undecided("binop " + op)

    def unchecked(self, st, op, x, y, bits, s, ty):
        """Arithmetic whose overflow is undefined behaviour."""
        if op[:3] in ("Shl", "Shr"):
            bb, sb = self.bits_of(ty)
            e, lo, hi = self.val(st, y, bb, sb), 0, bits - 1
        else:
            a, b = self.val(st, x, bits, s), self.val(st, y, bits, s)
            e = T.add(a, b) if op[0] == "A" else T.sub(a, b) if op[0] == "S" else T.mul(a, b)
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if s else (0, (1 << bits) - 1)
        l, h = st.facts.bound(e)
        for out, u, v in ((l is None or l < lo, None, lo - 1), (h is None or h > hi, hi + 1, None)):
            if out:
                bad = (st if (u is None or e >= u) and (v is None or e <= v) else None) if e.__class__ is int else self.branch(st, e, u, v)
                if bad is not None:
                    self.event(bad, "ub", "%s overflows" % op)
                    if e.__class__ is int:
                        raise Undecided("undefined overflow")

    def name_remainder(self, st, r):
        """A partial remainder proved to lie in [0, v) is abstracted by a fresh name with that range."""
        if r.__class__ is int or not any(len(m) > 1 for m in r.t) or len(r.t) < 3:
            return r
        for v in self.moduli:
            if T.entails_nonneg(st.facts, r) and T.entails_nonneg(st.facts, T.sub(T.sub(v, 1), r)):
                k = T.tz(r)
                u = T.scale(T.opaque(T.Poly({m: c >> k for m, c in r.t.items()}), 0, None), 1 << k)
                smp = st.facts.smp
                st.facts = st.facts.assume(T.sub(v, u), 1, None)
                st.facts.smp = smp
                return u
        return r

    def divrem(self, st, op, x, y, bits, s):
        F = st.facts
        y = T.fold(y, F)
        if y == 0:
            raise Undecided("division by zero")
        if not s:
            q = T.div(x, y, F)
            return q if op == "Div" else T.sub(x, T.mul(q, y))
        a = self.signed(st, x, bits)
        b = self.signed(st, y, bits)
        la, ha = F.bound(a)
        lb, hb = F.bound(b)
        if la is None or ha is None or lb is None or hb is None:
            raise Undecided("signed div bounds")
        if la < 0 < ha or (la < 0 and ha >= 0):
            raise NeedSplit(T.isneg(a, F), 0, 1)
        if lb < 0 and hb >= 0:
            raise NeedSplit(T.isneg(b, F), 0, 1)
        na = la < 0
        nb = lb < 0
        ua = T.neg(a) if na else a
        ub = T.neg(b) if nb else b
        q = T.div(ua, ub, F)
        r = T.sub(ua, T.mul(q, ub))
        if na != nb:
            q = T.neg(q)
        if na:
            r = T.neg(r)
        return T.mod(q if op == "Div" else r, 1 << bits, F)

    def checked(self, st, op, x, y, tx, ty):
        """(result, overflow) for With-Overflow arithmetic."""
        F = st.facts
        x = self.need_int(st, x)
        y = self.need_int(st, y)
        bits, s = self.bits_of(tx)
        M = 1 << bits
        if self.bytecls and bits == 8:
            x, y = self.byteclass(st, x), self.byteclass(st, y)
        if op in ("Shl", "Shr"):
            r = self.binop(st, op, x, y, tx, ty)
            bb, sb = self.bits_of(ty)
            v = self.val(st, y, bb, sb)
            return r, T.sub(1, T.mul(T.le(0, v, F), T.lt(v, bits, F)))
        a = self.val(st, x, bits, s)
        b = self.val(st, y, bits, s)
        if op == "Add":
            e = T.add(a, b)
        elif op == "Sub":
            e = T.sub(a, b)
        elif op == "Mul":
            e = T.mul(a, b)
        else:
            raise Undecided("checked " + op)
        if s:
            ov = T.add(T.isneg(T.add(e, M // 2), F), T.lt(M // 2 - 1, e, F))
        elif op == "Sub":
            ov = T.isneg(e, F)
        else:
            ov = T.le(M, e, F)
        if T.NAMED and not s and bits == 128 and op != "Mul" and ov.__class__ is not int:
            # word and carry by name, tied by one linear equation
            t = T.scale(ov, M if op == "Sub" else -M)
            w = self.name_word(T.add(e, t), M)
            f = T.opaque(ov, 0, 1)
            self.tie(st, T.sub(T.sub(w, e), T.scale(f, M if op == "Sub" else -M)))
            return self.must_be_zero(st, w), f
        if self.limbs and op == "Add" and not s and bits == 128 and ov.__class__ is not int:
            # one name for the carry; with the multiples of M already taken off it is a quotient of bounded value
            rest = T.mk({m: c for m, c in e.t.items() if c % M})
            q = T.add(ov, T.mk({m: -c // M for m, c in e.t.items() if c % M == 0}))
            if q.__class__ is not int and rest.__class__ is not int and len(q.t) > 1:
                l, h = st.facts.bound(rest)
                if l is not None and h is not None:
                    st.facts = st.facts.assume(q, l // M, h // M)
            return T.sub(e, T.scale(ov, M)), ov
        w = T.mod(e, M, F)
        return (self.must_be_zero(st, w) if T.NAMED else w), ov

    def must_be_zero(self, st, w):
        F = st.facts
        if w.__class__ is int or F.smp is None or any(T.evaluate(w, e, m) for e, m in F.smp):
            return w
        if T.entails_nonneg(F, w) and T.entails_nonneg(F, T.neg(w)):
            self.tie(st, w)
            return 0
        return w

    def name_word(self, d, M):
        if d.__class__ is int:
            return d
        k = min(T.tz(d), M.bit_length() - 2)
        return T.scale(T.opaque(Poly({m: c >> k for m, c in d.t.items()}), 0, (M - 1) >> k), 1 << k)

    def tie(self, st, p):
        smp = st.facts.smp
        st.facts = st.facts.assume(p, 0, 0)
        st.facts.smp = smp

    def ptrcmp(self, st, op, x, y):
        if x.__class__ is Blob or y.__class__ is Blob:
            raise Undecided("wide pointer compare")
        if op in ("Eq", "Ne"):
            if x.__class__ is Ptr and y.__class__ is Ptr:
                if x.a == y.a:
                    z = T.iszero(T.sub(x.off, y.off), st.facts)
                else:
                    raise Undecided("ptr compare")
            elif x.__class__ is int and x == 0 or y.__class__ is int and y == 0:
                z = 0
            else:
                raise Undecided("ptr compare")
            return z if op == "Eq" else T.sub(1, z)
        if x.__class__ is Ptr and y.__class__ is Ptr and x.a == y.a and op in ("Lt", "Le", "Gt", "Ge"):
            F = st.facts
            if op == "Lt":
                return T.lt(x.off, y.off, F)
            if op == "Gt":
                return T.lt(y.off, x.off, F)
            if op == "Le":
                return T.le(x.off, y.off, F)
            return T.le(y.off, x.off, F)
        raise Undecided("ptr " + op)

    # -------------------------------------------------- discriminants
    def disc(self, st, a, off, t):
        ty = self.p.types[t]
        lay = ty["lay"]
        vs = lay["vars"]
        if ty["k"] != "adt" or vs is None:
            return 0
        if "single" in vs:
            return int(ty["v"][vs["single"]][1]) if ty["ak"] == "enum" else 0
        tag = vs["tag"]
        toff = T.add(off, self.p.field_off_tag(t)) if False else T.add(off, self.tag_off(t))
        v = self.read(st, a, toff, tag[1], ("p",) if tag[0] == "p" else ("i", tag[1] * 8, False))
        return self.disc_val(st, v, t)

    def tag_off(self, t):
        lay = self.p.types[t]["lay"]
        o = lay["offs"]
        return o[lay["vars"]["tagf"]] if isinstance(o, list) else 0

    def disc_mask(self, t):
        ty = self.p.types[t]
        # discriminants are reported sign-extended to 128 bits; keep 64-bit (isize) or tag-size residues
        return ty

    def disc_val(self, st, v, t):
        ty = self.p.types[t]
        vs = ty["lay"]["vars"]
        F = st.facts
        tag = vs["tag"]
        if v is UNINIT:
            self.event(st, "uninit", "read of an uninitialised discriminant")
            raise Undecided("uninit disc")
        if v is TOP:
            raise Undecided("unknown discriminant")
        if vs["niche"] is None:
            v = self.need_int(st, v, "disc")
            return v
        unt, n0, n1, start = vs["niche"]
        if v.__class__ in (Ptr, FnP):
            return int(ty["v"][unt][1])
        if v.__class__ is Flt:
            raise Undecided("float niche")
        M = 1 << (8 * tag[1])
        v = T.fold(v, F)
        dv = [int(x[1]) for x in ty["v"]]
        if v.__class__ is int:
            r = (v - start) % M
            if r <= n1 - n0:
                return dv[n0 + r]
            return dv[unt]
        out = dv[unt]
        for i in range(n0, n1 + 1):
            if i == unt:
                continue
            z = T.iszero(T.sub(v, (start + i - n0) % M), F)
            out = T.add(out, T.scale(z, dv[i] - dv[unt]))
        return out

    def set_disc(self, st, a, off, t, var):
        ty = self.p.types[t]
        vs = ty["lay"]["vars"]
        if not vs or "single" in vs:
            return
        tag = vs["tag"]
        M = 1 << (8 * tag[1])
        if vs["niche"] is None:
            v = int(ty["v"][var][1]) % M
        else:
            unt, n0, n1, start = vs["niche"]
            if var == unt:
                return
            v = (start + var - n0) % M
        self.write(st, a, T.add(off, self.tag_off(t)), tag[1], v)

    # -------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dt):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "addr":
            a, off, t, meta = self.place(st, fr, r[1])
            if k == "ref":
                mut = r[2]
                if mut and self.ro:
                    self.event(st, "ub", "mutable reference derived from a shared reference")
                p = Ptr(a, off, self.extent(st, off, t, meta), self.ro or (not mut and self.frozen(t)))
            else:
                p = Ptr(a, off, self.ext, self.ro)
            if self.p.unsized(t):
                return Blob(16, [(0, 8, p), (8, 8, meta)])
            return p
        if k == "bin":
            x = self.operand(st, fr, r[2])
            y = self.operand(st, fr, r[3])
            return self.binop(st, r[1], x, y, self.op_type(fr, r[2]), self.op_type(fr, r[3]))
        if k == "chk":
            x = self.operand(st, fr, r[2])
            y = self.operand(st, fr, r[3])
            v, o = self.checked(st, r[1], x, y, self.op_type(fr, r[2]), self.op_type(fr, r[3]))
            return self.tuple2(dt, v, o)
        if k == "un":
            return self.unop(st, fr, r, dt)
        if k == "cast":
            x = self.operand(st, fr, r[2])
            return self.cast(st, r[1], x, self.op_type(fr, r[2]), r[3])
        if k == "agg":
            return self.aggregate(st, fr, r, dt)
        if k == "disc":
            a, off, t, meta = self.place(st, fr, r[1])
            v = self.disc(st, a, off, t)
            return v
        if k == "len":
            a, off, t, meta = self.place(st, fr, r[1])
            ty = self.p.types[t]
            return ty["n"] if ty["k"] == "array" else meta
        if k == "rep":
            v = self.operand(st, fr, r[1])
            ty = self.p.types[dt]
            sz = self.p.size(ty["e"])
            b = self.as_blob(v, sz)
            n = r[2]
            if n > 5000:
                raise Undecided("large repeat")
            return Blob(sz * n, [(i * sz + o, m, x) for i in range(n) for o, m, x in b.ch])
        raise Undecided("rvalue " + k)

    def tuple2(self, dt, v, o):
        ty = self.p.types[dt]
        f = ty["f"]
        ch = [(self.p.field_off(dt, None, 0), self.p.size(f[0]), v), (self.p.field_off(dt, None, 1), 1, o)]
        return Blob(self.p.size(dt), ch)

    def unop(self, st, fr, r, dt):
        v = self.operand(st, fr, r[2])
        F = st.facts
        if r[1] == "PtrMetadata":
            if v.__class__ is Blob:
                for o, n, x in v.ch:
                    if o == 8:
                        return x
            return Blob(0, [])
        t = self.op_type(fr, r[2])
        if v.__class__ is Flt:
            from . import floats
            return floats.neg(self, st, v)
        v = self.need_int(st, v)
        bits, s = self.bits_of(t)
        if r[1] == "Not":
            return T.sub((1 << bits) - 1, v)
        return T.mod(T.neg(v), 1 << bits, F)

    def aggregate(self, st, fr, r, dt):
        kind, var, fld, ops = r[1], r[2], r[3], r[4]
        p = self.p
        size = p.size(dt)
        ty = p.types[dt]
        if kind == "rawptr":
            x = self.operand(st, fr, ops[0])
            m = self.operand(st, fr, ops[1])
            if m.__class__ is Blob and m.size == 0:
                return x
            return Blob(16, [(0, 8, x), (8, 8, m)])
        ch = []
        if kind == "array":
            sz = p.size(ty["e"])
            for i, o in enumerate(ops):
                b = self.as_blob(self.operand(st, fr, o), sz)
                ch += [(i * sz + a, n, x) for a, n, x in b.ch]
            return Blob(size, ch)
        if kind in ("tuple", "closure"):
            for i, o in enumerate(ops):
                t = self.op_type(fr, o)
                b = self.as_blob(self.operand(st, fr, o), p.size(t))
                off = p.field_off(dt, None, i)
                ch += [(off + a, n, x) for a, n, x in b.ch]
            return self.norm_scalar(st, Blob(size, ch), dt)
        if kind == "adt":
            enum = ty["ak"] == "enum"
            for i, o in enumerate(ops):
                t = self.op_type(fr, o)
                b = self.as_blob(self.operand(st, fr, o), p.size(t))
                idx = fld if fld is not None else i
                off = p.field_off(dt, var if enum else None, idx)
                ch += [(off + a, n, x) for a, n, x in b.ch]
            b = Blob(size, ch)
            if enum:
                vs = ty["lay"]["vars"]
                if vs and "single" not in vs:
                    tag = vs["tag"]
                    M = 1 << (8 * tag[1])
                    if vs["niche"] is None:
                        b.ch = [(self.tag_off(dt), tag[1], int(ty["v"][var][1]) % M)] + b.ch
                    else:
                        unt, n0, n1, start = vs["niche"]
                        if var != unt:
                            b.ch = [(self.tag_off(dt), tag[1], (start + var - n0) % M)] + b.ch
            return b
        raise Undecided("aggregate " + kind)

    def norm_scalar(self, st, b, t):
        return b

    def cast(self, st, k, x, tf, tt):
        F = st.facts
        p = self.p
        if k == "IntToInt":
            x = self.need_int(st, x, "cast")
            b1, s1 = self.bits_of(tf) if p.types[tf]["k"] != "adt" else (p.size(tf) * 8, False)
            b2, s2 = self.bits_of(tt)
            v = self.val(st, x, b1, s1)
            return T.mod(v, 1 << b2, F)
        if k == "Transmute":
            size = p.size(tt)
            b = self.as_blob(x, p.size(tf))
            if p.size(tf) != size:
                raise Undecided("transmute size")
            v = self.from_blob(st, b, tt) if p.scalar(tt) is not None else b
            k2 = p.types[tt]["k"]
            if k2 in ("bool", "char") and p.types[tf]["k"] != k2 and v.__class__ in (int, Poly):
                l, h = st.facts.bound(v)
                for u, w in ((2, None),) if k2 == "bool" else ((0x110000, None), (0xd800, 0xdfff)):
                    if (h is None or h >= u) and (w is None or l is None or l <= w):
                        bad = (st if w is None or v <= w else None) if v.__class__ is int else self.branch(st, v, u, w)
                        if bad is not None:
                            self.event(bad, "ub", "transmute to an invalid %s" % k2)
            return v
        if k in ("PtrToPtr", "FnPtrToPtr", "PC:MutToConstPointer", "PC:ArrayToPointer", "Subtype") or k.startswith("PC:UnsafeFnPointer"):
            if x.__class__ is Blob and p.size(tt) == 8:
                for o, n, v in x.ch:
                    if o == 0:
                        return v
            return x
        if k.startswith("PC:Unsize"):
            ft, t2 = p.types[tf], p.types[tt]
            if t2["k"] == "ptr" and ft["k"] == "ptr":
                e2 = p.types[t2["e"]]
                e1 = p.types[ft["e"]]
                if e2["k"] == "slice" and e1["k"] == "array":
                    return Blob(16, [(0, 8, x), (8, 8, e1["n"])])
                if e2["k"] == "dyn":
                    return Blob(16, [(0, 8, x), (8, 8, FnP(("vt", ft["e"], t2["e"])))])
            raise Undecided("unsize")
        if k.startswith("PC:ReifyFnPointer"):
            return FnP(p.types[tf]["fn"])
        if k.startswith("PC:ClosureFnPointer"):
            raise Undecided("closure fn ptr")
        if k in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            from . import floats
            return floats.cast(self, st, k, x, tf, tt)
        if k in ("PointerExposeAddress", "PointerExposeProvenance"):
            return self.address(x, "place%s") if isinstance(x, Ptr) else TOP
        if k == "PointerWithExposedProvenance":
            return TOP
        raise Undecided("cast " + k)

    # -------------------------------------------------- execution
    def run(self, fid, args, st):
        """Analyse function fid on blobs `args`; returns [(state, ret)]."""
        fn = self.p.fns[fid]
        if self.depth > MAXDEPTH:
            raise Undecided("recursion")
        if fn.blocks is None:
            raise Undecided("no body: " + fn.name)
        if len(args) != fn.nargs:
            raise Undecided("arity %s" % fn.name)
        self.visited.add(fid)
        self.calls += 1
        locs = []
        base = set(st.mem)
        st = st.fork()
        for i, t in enumerate(fn.locals):
            sz = self.p.size(t)
            if 1 <= i <= fn.nargs:
                b = self.as_blob(args[i - 1], sz)
                locs.append(self.new_alloc(st, sz, {o: (n, v) for o, n, v in b.ch}))
            else:
                locs.append(self.new_alloc(st, sz))
            if self.p.types[t]["lay"]:
                self.align[locs[-1]] = self.p.types[t]["lay"]["align"]
            if self.addrs is not None and self.p.types[t]["lay"]:
                self.addrs[locs[-1]] = self.p.types[t]["lay"]["align"]
        fr = (fn, locs)
        key, heads, succ = wto(fn)
        self.depth += 1
        self.stack.append(fn.name)
        try:
            return self._loop(fn, fr, st, key, heads, locs)
        finally:
            self.depth -= 1
            self.stack.pop()

    def _loop(self, fn, fr, st, key, heads, locs):
        queue = []
        pend = {}
        cnt = [0]

        def push(s, b, iv):
            # iv: dict head -> iteration (tuple of pairs)
            k = key.get(b)
            if k is None:
                raise Undecided("irreducible")
            # order key: interleave loop iteration counts
            okey = []
            niv = []
            d = dict(iv)
            for i in range(1, len(k) + 1):
                okey.append(k[i - 1])
                h = loophead.get(k[:i])
                if h is not None:
                    okey.append(d.get(h, 0))
                    niv.append((h, d.get(h, 0)))
            okey = tuple(okey)
            kk = (okey, b)
            e = pend.get(kk)
            if e is None:
                pend[kk] = ([s], tuple(niv))
                heapq.heappush(queue, kk)
            else:
                e[0].append(s)

        loophead = {}
        for h in heads:
            loophead[key[h][:heads[h]]] = h
        rets = []
        push(st, 0, ())
        while queue:
            kk = heapq.heappop(queue)
            states, iv = pend.pop(kk)
            b = kk[1]
            if len(states) > 1:
                self.drop_dead(fn, locs, b, states)
                states = self.merge(states, head=b in heads)
            for s in states:
                self.nblocks += 1
                self.steps += 1
                if self.steps > MAXSTEPS:
                    raise Undecided("step limit")
                for s2, nb in self.block(fr, s, b):
                    if nb is None:
                        rets.append(s2)
                    else:
                        niv = iv
                        if nb in heads:
                            d = dict(iv)
                            # entering the head from inside its own loop = next iteration
                            pre = key[nb][:heads[nb]]
                            if key[b][:len(pre)] == pre:
                                d[nb] = d.get(nb, 0) + 1
                                if d[nb] > 700:
                                    raise Undecided("loop bound")
                                # inner loops restart
                                for h in list(d):
                                    hp = key[h][:heads[h]]
                                    if len(hp) > len(pre) and hp[:len(pre)] == pre:
                                        del d[h]
                            else:
                                d[nb] = 0
                            niv = tuple(d.items())
                        push(s2, nb, niv)
        if len(rets) > 1:
            rets = self.merge(rets, final=True)
        out = []
        rt = fn.locals[0]
        for s in rets:
            r = self.from_blob(s, Blob(self.p.size(rt), [(o, c[0], c[1]) for o, c in s.mem[locs[0]].ch.items()]), rt)
            for l in locs:
                s.mem.pop(l, None)
            out.append((s, r))
        if len(out) > 1:
            out = self.merge_rets(out)
        return out

    def block(self, fr, st, b):
        """Execute one block: yields (state, successor|None)."""
        fn = fr[0]
        ss, term = fn.blocks[b]
        return self._stmts(fr, st, ss, 0, term)

    def _stmts(self, fr, st, ss, i, term):
        n = len(ss)
        while i < n:
            s = ss[i]
            try:
                k = s[0]
                if k == "=":
                    pl = s[1]
                    dt = fr[0].locals[pl[0]] if not pl[1] else self.ptype(fr, pl)
                    v = self.rvalue(st, fr, s[2], dt)
                    self.assign(st, fr, pl, v)
                elif k == "live" or k == "dead":
                    a = fr[1][s[1]]
                    al = st.mem[a]
                    if al.ch:
                        st.mem[a] = Alloc(al.size, {})
                elif k == "sd":
                    a, off, t, meta = self.place(st, fr, s[1])
                    self.written(st)
                    self.set_disc(st, a, off, t, s[2])
                elif k == "assume":
                    v = self.operand(st, fr, s[1])
                    if v.__class__ is Poly or v.__class__ is int:
                        try:
                            st.facts = st.facts.assume(v, 1, 1)
                        except Contradiction:
                            self.event(st, "ub", "assume(false)")
                            return []
                elif k == "copy":
                    self.copy_nonoverlapping(st, self.operand(st, fr, s[1]), self.operand(st, fr, s[2]),
                                             self.operand(st, fr, s[3]), self.p.types[self.op_type(fr, s[1])]["e"])
            except NeedSplit as e:
                out = []
                for s2 in self.split(st, e):
                    out += self._stmts(fr, s2, ss, i, term)
                return out
            except TooBig:
                raise Undecided("term too large")
            i += 1
        try:
            return self.terminator(fr, st, term)
        except NeedSplit as e:
            out = []
            for s2 in self.split(st, e):
                out += self._stmts(fr, s2, ss, n, term)
            return out
        except TooBig:
            raise Undecided("term too large")

    def ptype(self, fr, pl):
        t = fr[0].locals[pl[0]]
        for e in pl[1]:
            if e == "*":
                t = self.p.types[t]["e"]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = self.p.elem(t)
            elif e[0] == "o":
                t = e[1]
        return t

    def split(self, st, e):
        if e.lo is None or e.hi is None or e.hi - e.lo > 300:
            raise Undecided("split range")
        out = []
        for v in range(e.lo, e.hi + 1):
            try:
                f = st.facts.assume(e.term, v, v)
            except Contradiction:
                continue
            if T.fold(e.term, f).__class__ is not int:
                raise Undecided("split does not fix term")
            s = st.fork()
            s.facts = f
            s.pc = st.pc + ((e.term, v, v),)
            out.append(s)
        return out

    def copy_nonoverlapping(self, st, src, dst, n, t):
        sz = self.p.size(t)
        n = T.fold(self.need_int(st, n), st.facts)
        if n.__class__ is not int:
            lo, hi = st.facts.bound(n)
            raise NeedSplit(n, lo, hi)
        if n * sz == 0:
            return
        if src.__class__ is not Ptr or dst.__class__ is not Ptr:
            raise Undecided("copy of unknown pointer")
        so = self.coff(st, src.off)
        do = self.coff(st, dst.off)
        for q, o in ((src, so), (dst, do)):
            if q.ext is not None and o.__class__ is int and (o < q.ext[0] or o + n * sz > q.ext[1]):
                self.event(st, "ub", "copy outside the reference the pointer was derived from")
                raise Undecided("provenance")
        if dst.ro:
            self.event(st, "ub", "write through a pointer derived from a shared reference")
        for i in range(n):
            b = self.copy_range(st, src.a, T.add(so, i * sz), sz, t)
            self.store(st, dst.a, T.add(do, i * sz), b)

    def passert(self, st, t):
        w = self.where(t[5])
        save = self.site
        if "/repo/" in w:
            self.site = w
        self.event(st, "panic", t[3], w)
        self.site = save

    def byteclass(self, st, x):
        """Partition on the class of a text byte before anything is computed from it."""
        x = T.renorm(x, st.facts)
        if x.__class__ is not int:
            for i in sorted({i for m in x.t for i in m}, key=lambda i: (T.ATOMS[i].kind != "NEG", i)):
                a = T.ATOMS[i]
                if (a.kind == "NEG" or a.name in self.bytecls) and st.facts.atom(i) == (0, 1):
                    if i not in self.clsatoms:
                        self.clsatoms.append(i)
                    raise NeedSplit(T.ap(a), 0, 1)
        return x

    def boolsplit(self, st, v):
        """Branching on a combination of booleans: partition on one of them first."""
        if len(v.t) == 1 and () not in v.t and len(next(iter(v.t))) == 1:
            return
        ids = T.bool_atoms(v)
        if ids is None or len(ids) < 2:
            return
        # the oldest atom is the least derived one
        for i in ids:
            l, h = st.facts.atom(i)
            if l != h:
                raise NeedSplit(T.ap(T.ATOMS[i]), 0, 1)

    def branch(self, st, term, lo, hi):
        try:
            f = st.facts.assume(term, lo, hi)
        except Contradiction:
            return None
        if T.DEEP is not None:
            g = T.inside(term, lo, hi)
            smp = st.facts.smp
            if smp is not None:
                smp = [(e, m) for e, m in smp if all(T.evaluate(x, e, m) >= 0 for x in g)]
            if g and any(T._wants_deep(x) for x in g):
                if not smp and T.DEEP.refute(f, g):
                    return None
                f.smp = smp
                f = T.DEEP.nonzero(f, g)
            f.smp = smp
            if T.NAMED and smp is not None:
                f = T.DEEP.zeros(f, term)
        s = st.fork()
        s.facts = f
        s.pc = st.pc + ((term, lo, hi),)
        return s

    def terminator(self, fr, st, t):
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "ret":
            return [(st, None)]
        if k == "sw":
            v = self.operand(st, fr, t[1])
            v = self.need_int(st, v, "switch")
            if self.bytecls and v.__class__ is not int:
                ot = self.op_type(fr, t[1])
                if ot is not None and self.p.size(ot) == 1 and self.p.types[ot]["k"] == "int":
                    v = self.byteclass(st, v)
            v = T.fold(v, st.facts)
            if v.__class__ is int:
                # switch values are residues of the operand type
                ot = self.op_type(fr, t[1])
                if ot is not None:
                    v %= 1 << (self.p.size(ot) * 8)
                for c, b in t[2]:
                    if c == v:
                        return [(st, b)]
                return [(st, t[3])]
            self.boolsplit(st, v)
            out = []
            lo, hi = st.facts.bound(v)
            if lo == 0 and hi == 1:
                vals = dict((c, b) for c, b in t[2])
                for c in (0, 1):
                    s = self.branch(st, v, c, c)
                    if s is not None:
                        out.append((s, vals.get(c, t[3])))
                if len(out) == 1:
                    # implied: keep the original path condition
                    out[0][0].pc = st.pc
                return out
            rest = st
            for c, b in t[2]:
                if rest is None:
                    break
                z = T.iszero(T.sub(v, c), rest.facts)
                if z.__class__ is int:
                    if z == 1:
                        out.append((rest, b))
                        rest = None
                    continue
                s = self.branch(rest, z, 1, 1)
                if s is not None:
                    out.append((s, b))
                rest = self.branch(rest, z, 0, 0)
            if rest is not None:
                l, h = rest.facts.bound(v)
                out.append((rest, t[3]))
            return out
        if k == "call":
            return self.call(fr, st, t)
        if k == "assert":
            c = self.need_int(st, self.operand(st, fr, t[1]), "assert")
            want = 1 if t[2] else 0
            c = T.fold(c, st.facts)
            if c.__class__ is int:
                if c == want:
                    return [(st, t[4])]
                self.passert(st, t)
                return []
            self.boolsplit(st, c)
            bad = self.branch(st, c, 1 - want, 1 - want)
            good = self.branch(st, c, want, want)
            if bad is not None:
                if good is None:
                    bad.pc = st.pc
                self.passert(bad, t)
            elif good is not None:
                good.pc = st.pc
            return [(good, t[4])] if good is not None else []
        if k == "drop":
            if t[3] is None:
                return [(st, t[2])]
            return [(st, t[2])]
        if k == "unreach":
            self.event(st, "ub", "unreachable code reached")
            return []
        if k in ("resume", "abort"):
            return []
        raise Undecided("terminator " + k)

    def where(self, ln):
        return "%s:%d" % (self.p.files[ln[0]], ln[1])

    def call(self, fr, st, t):
        f, ops, dest, target, ln = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(st, fr, o) for o in ops]
        if f is None:
            raise Undecided("unresolved callee")
        if f.__class__ is list:
            v = self.operand(st, fr, f)
            if v.__class__ is FnP:
                f = v.f
            else:
                raise Undecided("indirect call")
        fn = self.p.fns[f]
        atys = [self.op_type(fr, o) for o in ops]
        save = self.site
        w = self.where(ln)
        if "/repo/" in w or save is None:
            self.site = w
        try:
            res = self.invoke(st, fn, args, atys, ln)
        finally:
            self.site = save
        out = []
        for s, r in res:
            if target is None:
                continue
            self.assign_ret(s, fr, dest, r)
            out.append((s, target))
        return out

    def assign_ret(self, s, fr, dest, r):
        self.assign(s, fr, dest, r)

    def invoke(self, st, fn, args, atys, ln=None):
        from . import models
        # diverging calls
        if fn.ret is not None and self.p.types[fn.ret]["k"] == "never":
            kind = "ub" if "unreachable_unchecked" in fn.defname else "panic"
            self.event(st, kind, fn.defname, self.where(ln) if ln else None)
            return []
        m = self.contracts.get(fn.name) or self.contracts.get(fn.defname)
        if m is None and fn.foreign:
            m = self.contracts.get(fn.sym)
        if m is not None:
            r = m(self, st, fn, args, atys)
            if r is not None:
                self.contract_uses[fn.name] = self.contract_uses.get(fn.name, 0) + 1
                return r
        r = models.call(self, st, fn, args, atys, ln)
        if r is not None:
            return r
        if fn.kind.startswith("virtual"):
            return self.virtual(st, fn, args, atys, ln)
        if fn.blocks is None:
            raise Undecided("no body: " + fn.name)
        # rust-call ABI: untuple
        if fn.spread is None and ("{closure" in fn.name or "{closure" in fn.defname) and len(args) == 2 and self.p.types[atys[1]]["k"] == "tuple":
            args, atys = self.untuple(st, args, atys)
        return self.run(fn.id, args, st)

    def untuple(self, st, args, atys):
        tt = self.p.types[atys[1]]
        b = self.as_blob(args[1], self.p.size(atys[1]))
        out = [args[0]]
        at = [atys[0]]
        for i, f in enumerate(tt["f"]):
            off = self.p.field_off(atys[1], None, i)
            sz = self.p.size(f)
            sub = Blob(sz, [(o - off, n, v) for o, n, v in b.ch if off <= o < off + sz])
            out.append(self.from_blob(st, sub, f))
            at.append(f)
        return out, at

    def virtual(self, st, fn, args, atys, ln):
        """A call through a trait object whose method table is known."""
        b = args[0]
        if b.__class__ is Blob and b.size == 16:
            c = {o: v for o, n, v in b.ch}
            f = c.get(8)
            if f.__class__ is FnP and f.f.__class__ is tuple:
                e = self.p.vtables.get(f.f[1:]) if f.f[0] == "vt" else self.p.allocs[str(f.f[1])]["e"]
                i = int(fn.kind.split(":")[1])
                if e is not None and i < len(e) and e[i] is not None:
                    fn2 = self.p.fns[e[i]]
                    return self.invoke(st, fn2, [c[0]] + list(args[1:]), [fn2.locals[1] if fn2.blocks is not None else atys[0]] + list(atys[1:]), ln)
        raise Undecided("virtual call " + fn.name)

    # -------------------------------------------------- merging
    def drop_dead(self, fn, locs, b, states):
        """Forget the locals no path from block b reads any more."""
        if fn.live is None:
            fn.live = liveness(fn)
        keep = fn.live[b]
        for i, a in enumerate(locs):
            if i in keep:
                continue
            for s in states:
                al = s.mem.get(a)
                if al is not None and al.ch:
                    s.mem[a] = Alloc(al.size, {})

    def same_mem(self, a, b):
        if len(a.mem) != len(b.mem):
            return False
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is v:
                continue
            if w is None or w.ch != v.ch:
                return False
        return True

    def merge2(self, a, b, join=False):
        mem = a.mem
        if join:
            mem = {}
            for k, v in a.mem.items():
                w = b.mem.get(k)
                if w is None:
                    continue
                if w is v or w.ch == v.ch:
                    mem[k] = v
                else:
                    ch = {}
                    for o in set(v.ch) & set(w.ch):
                        if v.ch[o][0] == w.ch[o][0]:
                            x, y = v.ch[o][1], w.ch[o][1]
                            if x == y:
                                z = x
                            elif x.__class__ in (int, Poly) and y.__class__ in (int, Poly):
                                l1, h1 = a.facts.bound(x)
                                l2, h2 = b.facts.bound(y)
                                z = TOP if None in (l1, h1, l2, h2) else self.havoc(min(l1, l2), max(h1, h2))
                            else:
                                z = TOP
                            ch[o] = (v.ch[o][0], z)
                        else:
                            ch[o] = (v.ch[o][0], TOP)
                    mem[k] = Alloc(v.size, ch)
        # facts: keep what both know
        fm = {}
        for k, (l, h) in a.facts.m.items():
            w = b.facts.m.get(k)
            if w is None:
                continue
            nl = None if l is None or w[0] is None else min(l, w[0])
            nh = None if h is None or w[1] is None else max(h, w[1])
            if nl is not None or nh is not None:
                fm[k] = (nl, nh)
        pc, exact = merge_pc(a.pc, b.pc)
        return State(mem, Facts(fm) if fm != a.facts.m else a.facts, pc, a.exact and b.exact and exact,
                     a.obs if a.obs == b.obs else None)

    def merge(self, states, final=False, head=False):
        if T.DEEP is not None and len(states) <= self.width:
            return states
        if self.clsatoms and not head and len(states) <= self.width:
            # byte classes stay apart until the next byte
            by = {}
            for s in states:
                by.setdefault(tuple(s.facts.atom(i) for i in self.clsatoms[-4:]), []).append(s)
            if len(by) > 1:
                return [s for g in by.values() for s in self.merge(g, final, True)]
        out = []
        for s in states:
            for i, o in enumerate(out):
                if o.obs == s.obs and self.same_mem(o, s):
                    out[i] = self.merge2(o, s)
                    break
                if self.use_phi:
                    g = self.phi(o, s)
                    if g is not None:
                        out[i] = g
                        break
            else:
                out.append(s)
        if len(out) > self.width:
            s = out[0]
            for o in out[1:]:
                if o.obs != s.obs:
                    raise Undecided("partition width")
                s = self.merge2(s, o, join=True)
            out = [s]
        return out

    def phi_pc(self, p, q):
        """Boolean term that is 1 on p and 0 on q, when the two paths part by one test only."""
        n = 0
        m = min(len(p), len(q))
        while n < m and p[n] == q[n]:
            n += 1
        if len(p) != n + 1 or len(q) != n + 1 or p[n][0].__class__ is str or p[n][0] != q[n][0]:
            return None, 0
        t, l1, h1 = p[n]
        _, l2, h2 = q[n]
        F = T.Facts()
        if l1 is None and h2 is None and h1 is not None and l2 == h1 + 1:
            return T.lt(t, l2, F), n
        if l2 is None and h1 is None and h2 is not None and l1 == h2 + 1:
            return T.le(l1, t, F), n
        if two_valued(t) and l1 == h1 and l2 == h2 and {l1, l2} == {0, 1}:
            return (t if l1 == 1 else T.sub(1, t)), n
        return None, 0

    def phi(self, a, b):
        """Joins two states that part by one test and differ in one cell by a constant; None when they do not."""
        if not (a.exact and b.exact) or a.obs != b.obs or set(a.mem) != set(b.mem):
            return None
        diff = []
        for k, v in a.mem.items():
            w = b.mem[k]
            if w is v or w.ch == v.ch:
                continue
            if set(v.ch) != set(w.ch):
                return None
            for o, c in v.ch.items():
                if w.ch[o] != c:
                    diff.append((k, o, c, w.ch[o]))
            if len(diff) > 1:
                return None
        if len(diff) != 1:
            return None
        k, o, (n, x), (n2, y) = diff[0]
        if n != n2 or x.__class__ not in (int, Poly) or y.__class__ not in (int, Poly):
            return None
        d = T.sub(x, y)
        if d.__class__ is not int:
            return None
        B, _ = self.phi_pc(a.pc, b.pc)
        if B is None:
            return None
        s = self.merge2(a, b)
        al = a.mem[k]
        ch = dict(al.ch)
        ch[o] = (n, T.add(y, T.scale(B, d)))
        s.mem = dict(s.mem)
        s.mem[k] = Alloc(al.size, ch)
        return s

    def merge_rets(self, rets):
        if T.DEEP is not None and len(rets) <= self.width:
            return rets
        out = []
        for s, r in rets:
            for i, (o, r2) in enumerate(out):
                if self.use_phi and o.obs == s.obs and o.exact and s.exact and r.__class__ in (int, Poly) and r2.__class__ in (int, Poly) and self.same_mem(o, s):
                    d = T.sub(r2, r)
                    B = self.phi_pc(o.pc, s.pc)[0] if d.__class__ is int and d else None
                    if B is not None:
                        out[i] = (self.merge2(o, s), T.add(r, T.scale(B, d)))
                        break
                if o.obs == s.obs and beq(r, r2) and self.same_mem(o, s):
                    out[i] = (self.merge2(o, s), r)
                    break
            else:
                out.append((s, r))
        return out


def places(x, out):
    """Every place occurring in a statement, rvalue or operand (an over-approximation)."""
    if x.__class__ is not list:
        return
    if len(x) == 2 and x[0].__class__ is int and x[0].__class__ is not bool and x[1].__class__ is list:
        out.append(x)
        for e in x[1]:
            if e.__class__ is list and e and e[0] == "i":
                out.append([e[1], ["read"]])
        return
    for y in x:
        places(y, out)


def liveness(fn):
    """Per block, the locals that may be read from its start on (address-taken locals always count)."""
    n = len(fn.blocks)
    fixed = {0}
    gen, kill, succ = [], [], []

    def use(g, k, x):
        ps = []
        places(x, ps)
        for l, _ in ps:
            if l not in k:
                g.add(l)

    def taken(x):
        if x.__class__ is list:
            if x and x[0] in ("ref", "addr") and "*" not in x[1][1]:
                fixed.add(x[1][0])
            for y in x:
                taken(y)
    for ss, t in fn.blocks:
        g, k = set(), set()
        for s in ss:
            if s[0] == "=":
                taken(s[2])
                use(g, k, s[2])
                if s[1][1]:
                    use(g, k, [s[1]])
                else:
                    k.add(s[1][0])
            elif s[0] in ("live", "dead"):
                k.add(s[1])
            else:
                use(g, k, s[1:])
        if t[0] == "call":
            use(g, k, t[2])
            use(g, k, [t[1]])
            if t[3][1]:
                use(g, k, [t[3]])
            else:
                k.add(t[3][0])
        else:
            use(g, k, t[1:])
        gen.append(g)
        kill.append(k)
        succ.append(list(successors(t)))
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for q in succ[b]:
                o |= live[q]
            v = gen[b] | (o - kill[b])
            if v != live[b]:
                live[b] = v
                ch = True
    return [v | fixed for v in live]


def beq(a, b):
    if a.__class__ is Blob and b.__class__ is Blob:
        return a.size == b.size and sorted(a.ch, key=lambda x: x[0]) == sorted(b.ch, key=lambda x: x[0])
    return a == b


def pc_size(p):
    return sum(pc_size(x) + sum(1 for _ in ()) if False else (sum(pc_size(y) for y in x[1]) if x[0].__class__ is str else 1) for x in p)


def compl(x, y):
    """The union of two intervals of one term: (True, lo, hi), or None when it is not one."""
    (l1, h1), (l2, h2) = x, y
    if l1 is not None and (l2 is None or l2 < l1):
        (l1, h1), (l2, h2) = (l2, h2), (l1, h1)
    if h1 is None or l2 is None or l2 > h1 + 1:
        return None
    return (l1, None if h2 is None else max(h1, h2))


def two_valued(t):
    if t.__class__ is int or len(t.t) != 1:
        return False
    (m, c), = t.t.items()
    a = T.ATOMS[m[0]] if len(m) == 1 and c == 1 else None
    return a is not None and a.lo == 0 and a.hi == 1


def expand_alt(x):
    """An alternative ending in a disjunction, as several without one."""
    if x and x[-1][0].__class__ is str:
        return [b for a in x[-1][1] for b in expand_alt(x[:-1] + a)]
    return [x]


def pair_alts(alts):
    """Joins alternatives that differ in their last condition only and cover each other there."""
    alts = list(alts)
    ch = True
    while ch:
        ch = False
        for i in range(len(alts)):
            for j in range(i + 1, len(alts)):
                x, y = alts[i], alts[j]
                if len(x) != len(y) or not x or x[:-1] != y[:-1] or x[-1][0].__class__ is str or y[-1][0].__class__ is str or x[-1][0] != y[-1][0]:
                    continue
                u = compl(x[-1][1:], y[-1][1:])
                if u is None:
                    continue
                t = x[-1][0]
                full = u == (None, None) or (u == (0, 1) and two_valued(t))
                alts[i] = x[:-1] if full else x[:-1] + ((t,) + u,)
                del alts[j]
                ch = True
                break
            if ch:
                break
    return tuple(alts)


def merge_pc(p, q):
    """Disjunction of two path conditions (conjunctions possibly containing ("or", (pc, ...)))."""
    if p == q:
        return p, True
    n = 0
    m = min(len(p), len(q))
    while n < m and p[n] == q[n]:
        n += 1
    if len(p) == n or len(q) == n:
        return p[:n], True
    if len(p) == n + 1 and len(q) == n + 1 and p[n][0].__class__ is not str and q[n][0].__class__ is not str:
        (a, l1, h1), (b, l2, h2) = p[n], q[n]
        if a == b and l1 is not None and l2 is not None and {(l1, h1), (l2, h2)} == {(0, 0), (1, 1)}:
            return p[:n], True
    alts = ()
    for r in (p[n:], q[n:]):
        if len(r) == 1 and r[0][0].__class__ is str:
            alts += r[0][1]
        else:
            alts += (r,)
    flat = [a for x in alts for a in expand_alt(x)]
    alts = pair_alts(flat if len(flat) <= 24 else alts)
    if alts == ((),):
        return p[:n], True
    if len(alts) == 1:
        return p[:n] + alts[0], True
    out = p[:n] + (("or", alts),)
    if pc_size(out) > 120:
        return p[:n], False
    return out, True


def fit_table(vals, idx, F):
    """Exact term for a constant table indexed by idx (vals[i] at idx=i), or None."""
    n = len(vals)
    d = vals[1] - vals[0]
    if all(vals[i] == vals[0] + d * i for i in range(n)):
        return T.add(vals[0], T.scale(idx, d))
    # v = c + floor((i+o)/m) mod k  (digit tables)
    for m in (1, 2, 4, 8, 10, 16, 20, 100, 200):
        for k in (2, 8, 10, 16, 100):
            for o in (0,):
                c = vals[0]
                if all(vals[i] == c + (i // m) % k for i in range(n)):
                    return T.add(c, T.mod(T.fl(idx, m, F), k, F))
    # interleaved digit pairs "00".."99": even = 48+i/20, odd = 48+(i/2)%10
    def pair(i):
        return 48 + (i // 20 if i % 2 == 0 else (i // 2) % 10)
    if all(vals[i] == pair(i) for i in range(n)):
        par = T.mod(idx, 2, F)
        par = T.fold(par, F)
        hi = T.fl(idx, 20, F)
        lo = T.mod(T.fl(idx, 2, F), 10, F)
        if par == 0:
            return T.add(48, hi)
        if par == 1:
            return T.add(48, lo)
    return None
