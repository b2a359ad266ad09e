"""Runtime of the symbolic executor: memory, value operations and path decisions."""
import math
from expr import *
import expr as X

BASE = 1 << 24
OFFM = 0xffffffff


class Undef(object):
    def __repr__(self):
        return 'undef'


U = Undef()


class PathEnd(Exception):
    """the current path is abandoned: infeasible or assumed away"""

    def __init__(self, *a):
        Exception.__init__(self, *a)
        if TRACEBUG:
            import traceback
            print('PathEnd', a, flush=True)
            traceback.print_stack(limit=8)


import os as _os
TRACEBUG = _os.environ.get("VP_TRACEBUG")


class PathDone(Exception):
    """the program ended before the harness entry returned"""


class BugFound(Exception):
    """undefined behaviour or abort reached on the current path"""

    def __init__(self, what):
        Exception.__init__(self, what)
        if TRACEBUG:
            import traceback; traceback.print_stack(limit=8)
        self.what = what


class Cat(object):
    """little-endian concatenation of byte pieces [(nbytes, value)]"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def size(self):
        return sum(n for n, _ in self.p)

    def __repr__(self):
        return 'Cat%r' % (self.p,)


class Obj(object):
    __slots__ = ('size', 'cells', 'alive', 'kind', 'name', 'fill', 'ro')

    def __init__(self, size, kind, name, fill=None):
        self.size = size
        self.cells = {}
        self.alive = True
        self.kind = kind
        self.name = name
        self.fill = fill
        self.ro = False


class Piece(object):
    """bytes [off, off+n) of a symbolic value of total size sz"""
    __slots__ = ('v', 'sz', 'off')

    def __init__(self, v, sz, off):
        self.v = v
        self.sz = sz
        self.off = off


class State(object):
    pass


S = State()
S.mem = {}
S.next = 0
S.ctl = None          # path controller
S.globals_init = None  # objid -> initialiser callback
S.steps = 0
S.maxsteps = 50_000_000
S.depth = 0


def new_obj(size, kind, name, fill=None):
    S.next += 1
    oid = S.next
    S.mem[oid] = Obj(size, kind, name, fill)
    return (oid << 32) + BASE


def getobj(p):
    if p.__class__ is not int:
        p = concint(p, 64)
    oid = p >> 32
    o = S.mem.get(oid)
    if o is None:
        gi = S.globals_init.get(oid)
        if gi is None:
            if p < 4096:
                raise BugFound('null pointer access')
            raise BugFound('invalid pointer access (0x%x)' % p)
        o = gi(oid)
    return o, (p & OFFM) - BASE


def load(p, n):
    if p.__class__ is int:
        o = S.mem.get(p >> 32)
        if o is not None:
            c = o.cells.get((p & OFFM) - BASE)
            if c is not None and c[0] == n:
                return c[1]
    return load_slow(p, n)


def _cover(o, off):
    """cell covering byte off: (start, size, val) or None"""
    cells = o.cells
    for d in range(0, 16):
        c = cells.get(off - d)
        if c is not None:
            if c[0] > d:
                return off - d, c[0], c[1]
            return None
    return None


def _bytes_of(v, size, off, n):
    """piece [off,off+n) of value v with given size"""
    c = v.__class__
    if off == 0 and n == size:
        return v
    if c is float:
        v = fbits('f' if size == 4 else 'd', v)
        c = int
    if c is bool:
        v = int(v)
        c = int
    if c is int:
        return (v >> (8 * off)) & ((1 << (8 * n)) - 1)
    if c is Undef:
        return U
    if c is Cat:
        out = []
        pos = 0
        for m, x in v.p:
            a = max(off, pos)
            b = min(off + n, pos + m)
            if a < b:
                out.append((b - a, _bytes_of(x, m, a - pos, b - a)))
            pos += m
        if len(out) == 1:
            return out[0][1]
        return mkcat(out)
    if c is Piece:
        return Piece(v.v, v.sz, v.off + off)
    if c is E:
        if e_isint(v):
            # bytes of an integer expression
            r = X.tou(v, 8 * size)
            if off:
                r = X.isdiv(r, ci(1 << (8 * off), 128), 128)
            return simp(X.wrap(r, 8 * n))
        return Piece(v, size, off)
    raise Unsupported('bytes of %r' % (v,))


def e_isint(v):
    return v.s not in ('f', 'd')


def mkcat(ps):
    """join pieces"""
    flat = []
    for n, v in ps:
        if v.__class__ is Cat:
            flat.extend(v.p)
        else:
            flat.append((n, v))
    # merge adjacent pieces of the same value and adjacent concrete ints
    out = []
    for n, v in flat:
        if out:
            m, w = out[-1]
            if w.__class__ is int and v.__class__ is int:
                out[-1] = (m + n, w | (v << (8 * m)))
                continue
            if w.__class__ is Piece and v.__class__ is Piece and w.v is v.v and w.off + m == v.off:
                if w.off == 0 and m + n == w.sz:
                    out[-1] = (m + n, w.v)
                else:
                    out[-1] = (m + n, w)
                continue
        out.append((n, v))
    if len(out) == 1:
        return out[0][1]
    return Cat(out)


def load_slow(p, n):
    o, off = getobj(p)
    if not o.alive:
        raise BugFound('use after free of %s' % o.name)
    if off < 0 or off + n > o.size:
        raise BugFound('out-of-bounds read of %d bytes at offset %d of %s (size %d)' % (n, off, o.name, o.size))
    c = o.cells.get(off)
    if c is not None:
        if c[0] == n:
            return c[1]
        if c[0] > n:
            return _bytes_of(c[1], c[0], 0, n)
    ps = []
    i = off
    end = off + n
    while i < end:
        c = _cover(o, i)
        if c is None:
            ps.append((1, 0 if o.fill == 0 else U))
            i += 1
        else:
            st, sz, v = c
            m = min(st + sz, end) - i
            ps.append((m, _bytes_of(v, sz, i - st, m)))
            i += m
    if all(v is U for _, v in ps):
        return U
    return mkcat(ps)


def _clear(o, off, n):
    cells = o.cells
    end = off + n
    if n > 64 and len(cells) < n:
        ks = [k for k in cells if k < end and k + cells[k][0] > off]
    else:
        ks = [k for k in range(off - 15, end) if k in cells and k + cells[k][0] > off]
    for k in ks:
        sz, v = cells.pop(k)
        if k < off:
            _put(o, k, off - k, _bytes_of(v, sz, 0, off - k))
        if k + sz > end:
            _put(o, end, k + sz - end, _bytes_of(v, sz, end - k, k + sz - end))


def _put(o, off, n, v):
    if v.__class__ is Cat:
        for m, x in v.p:
            _put(o, off, m, x)
            off += m
        return
    if v is U:
        if o.fill is not None:
            while n > 0:
                o.cells[off] = (min(n, 16), U)
                off += 16
                n -= 16
        return
    if v.__class__ is int and n > 8:
        while n > 0:
            m = min(n, 8)
            o.cells[off] = (m, v & ((1 << (8 * m)) - 1))
            v >>= 8 * m
            off += m
            n -= m
        return
    o.cells[off] = (n, v)


def store(p, n, v):
    if p.__class__ is int:
        o = S.mem.get(p >> 32)
        if o is not None and not o.ro:
            off = (p & OFFM) - BASE
            c = o.cells.get(off)
            if c is not None and c[0] == n and v.__class__ is not Cat:
                o.cells[off] = (n, v)
                return
    o, off = getobj(p)
    if not o.alive:
        raise BugFound('use after free of %s (write)' % o.name)
    if off < 0 or off + n > o.size:
        raise BugFound('out-of-bounds write of %d bytes at offset %d of %s (size %d)' % (n, off, o.name, o.size))
    if o.ro:
        raise BugFound('write to constant %s' % o.name)
    if v.__class__ is tuple:
        m = n // len(v)
        _clear(o, off, n)
        for i, x in enumerate(v):
            _put(o, off + i * m, m, x)
        return
    _clear(o, off, n)
    _put(o, off, n, v)


def chk_range(p, n, what):
    o, off = getobj(p)
    if not o.alive:
        raise BugFound('use after free of %s (%s)' % (o.name, what))
    if off < 0 or off + n > o.size:
        raise BugFound('out-of-bounds %s of %d bytes at offset %d of %s (size %d)' % (what, n, off, o.name, o.size))
    return o, off


def memcpy(d, s, n):
    n = concint(n, 64)
    if n == 0:
        return
    so, soff = chk_range(s, n, 'memcpy read')
    do, doff = chk_range(d, n, 'memcpy write')
    if do.ro:
        raise BugFound('write to constant %s' % do.name)
    ps = []
    cells = so.cells
    i = soff
    end = soff + n
    while i < end:
        c = cells.get(i)
        if c is not None and i + c[0] <= end:
            ps.append((i - soff, c[0], c[1]))
            i += c[0]
            continue
        c = _cover(so, i)
        if c is None:
            if so.fill == 0:
                ps.append((i - soff, 1, 0))
            i += 1
        else:
            st, sz, v = c
            m = min(st + sz, end) - i
            ps.append((i - soff, m, _bytes_of(v, sz, i - st, m)))
            i += m
    _clear(do, doff, n)
    if do.fill == 0 and len(ps) == 0:
        pass
    for o_, m, v in ps:
        _put(do, doff + o_, m, v)


def memset(d, v, n):
    n = concint(n, 64)
    if n == 0:
        return
    v = concint(v, 8)
    o, off = chk_range(d, n, 'memset')
    _clear(o, off, n)
    i = off
    end = off + n
    while i < end:
        m = min(8 - (i & 7), end - i)
        if m not in (1, 2, 4, 8):
            m = 1
        b = 0
        for _ in range(m):
            b = (b << 8) | v
        o.cells[i] = (m, b)
        i += m


def malloc(n, kind='heap'):
    n = concint(n, 64)
    if n > (1 << 30):
        raise BugFound('allocation of %d bytes' % n)
    return new_obj(n, 'heap', 'heap#%d' % (S.next + 1))


def free(p):
    p = concint(p, 64)
    if p == 0:
        return
    o, off = getobj(p)
    if o.kind != 'heap' or off != 0:
        raise BugFound('invalid free of %s' % o.name)
    if not o.alive:
        raise BugFound('double free of %s' % o.name)
    o.alive = False
    o.cells = {}


def cstr(p):
    o, off = getobj(p)
    out = bytearray()
    while True:
        b = load(p, 1)
        b = concint(b, 8)
        if b == 0:
            return out.decode('latin-1')
        out.append(b)
        p += 1


def rdbytes(p, n):
    return bytes(concint(load(p + i, 1), 8) for i in range(n))


# ------------------------------------------------------------------ values
def simp(e):
    """expression -> concrete python value if constant"""
    if e.op == 'c':
        s = e.s
        if s == 1:
            return bool(e.k)
        if s == 'f' or s == 'd':
            return e.k
        return e.k & ((1 << s) - 1)
    return e


def simpw(e, w):
    if e.op == 'c':
        return e.k & ((1 << w) - 1)
    return e


def toi(v, w):
    """python value -> integer expression (signed mathematical value)"""
    c = v.__class__
    if c is int:
        return ci(sgn(v, w), w)
    if c is E:
        if e_isint(v):
            if v.s == 1:
                return b2i(v, w) if w > 1 else v
            return v
        # float bits used as an integer
        raise Unsupported('integer operation on the bits of a symbolic float')
    if c is bool:
        return ci(int(v), w)
    if c is float:
        return ci(sgn(fbits('f' if w == 32 else 'd', v), w), w)
    if c is Cat:
        acc = ci(0, 128)
        pos = 0
        for n, x in v.p:
            if x is U:
                raise BugFound('use of an uninitialised value')
            t = X.tou(toi(x, 8 * n), 8 * n)
            acc = X.lincomb([(1, acc), (1 << (8 * pos), t)], 0, 128)
            pos += n
        return X.wrap(acc, w)
    if v is U:
        raise BugFound('use of an uninitialised value')
    raise Unsupported('integer operand %r' % (v,))


def tob(v):
    c = v.__class__
    if c is bool:
        return cb(v)
    if c is E:
        if v.s == 1:
            return v
        raise Unsupported('bool operand of sort %r' % (v.s,))
    if c is int:
        return cb(v & 1)
    if v is U:
        raise BugFound('branch or select on an uninitialised value')
    raise Unsupported('bool operand %r' % (v,))


def tof(v, s):
    """python value -> float expression"""
    c = v.__class__
    if c is float:
        return cf(v, s)
    if c is E:
        if v.s == s:
            return v
        if v.s in ('f', 'd'):
            raise Unsupported('float of the wrong width')
        if v.op == 'f2bits':
            return v.a[0]
        raise Unsupported('bits of a symbolic integer used as a float')
    if c is int:
        return cf(bitsf(s, v), s)
    if v is U:
        raise BugFound('use of an uninitialised float')
    raise Unsupported('float operand %r' % (v,))


def asf(v, s):
    """normalise a loaded / bitcast value to a float value"""
    c = v.__class__
    if c is float or c is Undef:
        return v
    if c is int:
        return bitsf(s, v)
    if c is E:
        if v.s == s:
            return v
        raise Unsupported('bits of a symbolic %r used as float' % (v.s,))
    if c is Cat:
        raise Unsupported('mixed bytes used as float: %r' % (v,))
    raise Unsupported('asf %r' % (v,))


def asi(v, w):
    """normalise a loaded value to an integer value (symbolic float bits are kept raw)"""
    c = v.__class__
    if c is float:
        return fbits('f' if w == 32 else 'd', v)
    if c is bool:
        return int(v)
    if c is Cat:
        if all(x.__class__ is int or (x.__class__ is E and e_isint(x)) for _, x in v.p):
            return simpw(toi(v, w), w)
        return v
    return v


def asb(v):
    """load of i1 / trunc to i1"""
    c = v.__class__
    if c is bool:
        return v
    if c is int:
        return (v & 1) != 0
    if c is E:
        if v.s == 1:
            return v
        if e_isint(v):
            return simp(bit0(v))
    if v is U:
        return U
    raise Unsupported('asb %r' % (v,))


def bit0(v):
    if v.lo >= 0 and v.hi <= 1:
        return bnot(ieq(v, ci(0, 64)))
    if v.op == 'iite' and (v.a[1].op == 'c' or v.a[2].op == 'c'):
        return bite(v.a[0], bit0(v.a[1]), bit0(v.a[2]))
    if v.op == 'c':
        return cb(v.k & 1)
    return bnot(ieq(mod2k(v, 1), ci(0, 64)))


def mod2k(e, k):
    """e mod 2^k as a non-negative value"""
    if e.lo >= 0 and e.hi < (1 << k):
        return e
    if e.op == 'c':
        return ci(e.k % (1 << k), 64)
    ts, c = X._lin(e)
    m = 1 << k
    r = X.lincomb([(t % m, x) for t, x in ts if t % m], c % m, 128)
    if r.lo >= 0 and r.hi < m:
        return r
    return X._mk('mod2', 64, (r,), m, 0, m - 1)


def iadd(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & ((1 << w) - 1)
    return simpw(X.iadd(toi(a, w), toi(b, w), w), w)


def isub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a - b) & ((1 << w) - 1)
    return simpw(X.isub(toi(a, w), toi(b, w), w), w)


def imul(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a * b) & ((1 << w) - 1)
    return simpw(X.imul(toi(a, w), toi(b, w), w), w)


def isdiv(a, b, w):
    if b.__class__ is int and b == 0:
        raise BugFound('division by zero')
    if a.__class__ is int and b.__class__ is int:
        return X._tdiv(sgn(a, w), sgn(b, w)) & ((1 << w) - 1)
    if b.__class__ is not int:
        b = concint(b, w)
        if b == 0:
            raise BugFound('division by zero')
    bs = sgn(b, w)
    if bs < 0:
        return simpw(X.lincomb([(-1, X.isdiv(toi(a, w), ci(-bs, w), w))], 0, w), w)
    return simpw(X.isdiv(toi(a, w), ci(bs, w), w), w)


def isrem(a, b, w):
    if b.__class__ is not int:
        b = concint(b, w)
    if b == 0:
        raise BugFound('division by zero')
    if a.__class__ is int:
        x, y = sgn(a, w), sgn(b, w)
        return (x - y * X._tdiv(x, y)) & ((1 << w) - 1)
    return simpw(X.isrem(toi(a, w), ci(abs(sgn(b, w)), w), w), w)


def iudiv(a, b, w):
    if b.__class__ is not int:
        b = concint(b, w)
    if b == 0:
        raise BugFound('division by zero')
    if a.__class__ is int:
        return a // b
    return simpw(X.wrap(X.isdiv(X.tou(toi(a, w), w), ci(b, 128), 128), w), w)


def iurem(a, b, w):
    if b.__class__ is not int:
        b = concint(b, w)
    if b == 0:
        raise BugFound('division by zero')
    if a.__class__ is int:
        return a % b
    return simpw(X.wrap(X.isrem(X.tou(toi(a, w), w), ci(b, 128), 128), w), w)


def _catify(v, w):
    if v.__class__ is Cat:
        return v
    return Cat([(w // 8, v)])


def ishl(a, b, w):
    b = concint(b, w)
    if a.__class__ is int:
        return (a << b) & ((1 << w) - 1)
    if b == 0:
        return a
    if a is U or a.__class__ is Cat or (a.__class__ is E and not e_isint(a)):
        if b % 8 == 0:
            return mkcat([(b // 8, 0)] + [(n, v) for n, v in _catify(_bytes_of(a, w // 8, 0, w // 8 - b // 8), w - b).p])
    return simpw(X.wrap(X.lincomb([(1 << b, toi(a, w))], 0, 128), w), w)


def ilshr(a, b, w):
    b = concint(b, w)
    if a.__class__ is int:
        return a >> b
    if b == 0:
        return a
    if (a is U or a.__class__ is Cat) and b % 8 == 0:
        r = _bytes_of(a, w // 8, b // 8, w // 8 - b // 8)
        return mkcat([(w // 8 - b // 8, r), (b // 8, 0)])
    if a.__class__ is E and not e_isint(a):
        if b == w - 1:
            return simpw(b2i(fsignbit(a), w), w)
        raise Unsupported('shift of float bits')
    return simpw(X.wrap(X.isdiv(X.tou(toi(a, w), w), ci(1 << b, 128), 128), w), w)


def fdivfloor(e, n):
    """floor division of a mathematical value by a positive constant"""
    if e.lo >= 0:
        return X.isdiv(e, ci(n, 128), 128)
    if e.op == 'c':
        return ci(e.k // n, 128)
    # floor(e/n) = (e - e mod n)/n ; shift into the non-negative range
    k = (-e.lo + n - 1) // n
    return X.lincomb([(1, X.isdiv(X.lincomb([(1, e)], k * n, 128), ci(n, 128), 128))], -k, 128)


def iashr(a, b, w):
    b = concint(b, w)
    if a.__class__ is int:
        return (sgn(a, w) >> b) & ((1 << w) - 1)
    if b == 0:
        return a
    if a.__class__ is E and not e_isint(a):
        if b == w - 1:
            return simpw(X.lincomb([(-1, b2i(fsignbit(a), w))], 0, w), w)
        raise Unsupported('shift of float bits')
    return simpw(X.wrap(fdivfloor(toi(a, w), 1 << b), w), w)


def iand(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a & b
    if w == 1:
        return simp(band(tob(a), tob(b)))
    if a.__class__ is int:
        a, b = b, a
    if a is b:
        return a
    if b.__class__ is int:
        m = (1 << w) - 1
        if b == m:
            return a
        if b == 0:
            return 0
        if a is U or a.__class__ is Cat or (a.__class__ is E and not e_isint(a)):
            if a.__class__ is E and b == (1 << (w - 1)) - 1:
                return simp(fabs_(a))
            # byte-aligned masks
            out = []
            for i in range(w // 8):
                mb = (b >> (8 * i)) & 255
                if mb == 255:
                    out.append((1, _bytes_of(a, w // 8, i, 1)))
                elif mb == 0:
                    out.append((1, 0))
                else:
                    x = _bytes_of(a, w // 8, i, 1) if w > 8 else a
                    if x is U or (w == 8 and x.__class__ is not int):
                        if x is not U:
                            raise Unsupported('mask of mixed bytes')
                        out.append((1, U))
                    elif x.__class__ is Piece:
                        raise Unsupported('mask of mixed bytes')
                    else:
                        out.append((1, iand(x, mb, 8)))
            return mkcat(out)
        e = toi(a, w)
        if (b & (b + 1)) == 0:     # low mask
            return simpw(mod2k(e, b.bit_length()), w)
        nb = (~b) & m
        if (nb & (nb + 1)) == 0:   # clear low bits
            return simpw(X.wrap(X.lincomb([(1, e), (-1, mod2k(e, nb.bit_length()))], 0, w), w), w)
        if (b & (b - 1)) == 0:     # single bit
            k = b.bit_length() - 1
            bit = mod2k(fdivfloor(X.tou(e, w), 1 << k), 1)
            return simpw(X.wrap(X.lincomb([(b, bit)], 0, 128), w), w)
        # contiguous mask
        lo = (b & -b).bit_length() - 1
        bb = b >> lo
        if (bb & (bb + 1)) == 0:
            f = mod2k(fdivfloor(X.tou(e, w), 1 << lo), bb.bit_length())
            return simpw(X.wrap(X.lincomb([(1 << lo, f)], 0, 128), w), w)
        if e.op == 'iite':
            return simpw(iite(e.a[0], toi(iand(simpw(e.a[1], w), b, w), w), toi(iand(simpw(e.a[2], w), b, w), w), w), w)
    else:
        x, y = toi(a, w), toi(b, w)
        if x.lo >= 0 and x.hi <= 1 and y.lo >= 0 and y.hi <= 1:
            return simpw(b2i(band(bit0(x), bit0(y)), w), w)
        for p, q in ((x, y), (y, x)):
            if p.op == 'iite':
                return simpw(iite(p.a[0], toi(iand(simpw(p.a[1], w), simpw(q, w), w), w),
                                  toi(iand(simpw(p.a[2], w), simpw(q, w), w), w), w), w)
    raise Unsupported('bitwise and of symbolic integers')


def _inner_cond(es):
    """a condition of a conditional value in es that contains none itself"""
    st, seen = list(es), set()
    has = {}
    order = []
    while st:
        e = st.pop()
        if e.id in seen:
            continue
        seen.add(e.id)
        order.append(e)
        st.extend(e.a)
    order.sort(key=lambda e: e.id)
    for e in order:
        h = any(has.get(y.id) for y in e.a)
        if e.op == 'iite':
            if not has.get(e.a[0].id):
                return e.a[0]
            h = True
        has[e.id] = h
    return None


def ior(a, b, w, split=True):
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if w == 1:
        return simp(bor(tob(a), tob(b)))
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int and b == 0:
        return a
    if a is b:
        return a
    if a is U or b is U or a.__class__ is Cat or b.__class__ is Cat or (a.__class__ is E and not e_isint(a)):
        out = []
        for i in range(w // 8):
            x = _bytes_of(a, w // 8, i, 1)
            y = _bytes_of(b, w // 8, i, 1)
            if x is U or y is U:
                out.append((1, U))
            elif x.__class__ is int and x == 0:
                out.append((1, y))
            elif y.__class__ is int and y == 0:
                out.append((1, x))
            elif x.__class__ is int and y.__class__ is int:
                out.append((1, x | y))
            else:
                raise Unsupported('bitwise or of mixed bytes')
        return mkcat(out)
    x, y = toi(a, w), toi(b, w)
    if x.lo >= 0 and x.hi <= 1 and y.lo >= 0 and y.hi <= 1:
        return simpw(b2i(bor(bit0(x), bit0(y)), w), w)
    # disjoint bits: x multiple of 2^k and 0 <= y < 2^k
    for p, q in ((x, y), (y, x)):
        if q.lo >= 0:
            k = q.hi.bit_length()
            ts, c = X._lin(p)
            if c % (1 << k) == 0 and all(t % (1 << k) == 0 for t, _ in ts):
                return simpw(X.wrap(X.lincomb([(1, p), (1, q)], 0, w), w), w)
    for p, q in ((x, y), (y, x)):
        if p.op == 'iite':
            try:
                return simpw(iite(p.a[0], toi(ior(simpw(p.a[1], w), simpw(q, w), w, False), w),
                                  toi(ior(simpw(p.a[2], w), simpw(q, w), w, False), w), w), w)
            except Unsupported:
                break
    if split and S.ctl is not None:
        # split on a condition inside the operands, innermost first
        memo = {}
        x2, y2 = S.ctl.rewrite(x, memo), S.ctl.rewrite(y, memo)
        if x2 is x and y2 is y:
            c = _inner_cond((x, y))
            if c is not None:
                S.ctl.branch(c)
                memo = {}
                x2, y2 = S.ctl.rewrite(x, memo), S.ctl.rewrite(y, memo)
        if x2 is not x or y2 is not y:
            return ior(simpw(x2, w), simpw(y2, w), w)
    raise Unsupported('bitwise or of symbolic integers')


def ixor(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if w == 1:
        return simp(bnot(beq(tob(a), tob(b))))
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        m = (1 << w) - 1
        if b == 0:
            return a
        if b == m:
            return simpw(X.lincomb([(-1, toi(a, w))], -1, w), w)
        if b == (1 << (w - 1)) and a.__class__ is E and not e_isint(a):
            return simp(fneg(a))
    x, y = toi(a, w), toi(b, w)
    if x.lo >= 0 and x.hi <= 1 and y.lo >= 0 and y.hi <= 1:
        return simpw(b2i(bnot(beq(bit0(x), bit0(y))), w), w)
    for p, q in ((x, y), (y, x)):
        if p.op == 'iite':
            return simpw(iite(p.a[0], toi(ixor(simpw(p.a[1], w), simpw(q, w), w), w),
                              toi(ixor(simpw(p.a[2], w), simpw(q, w), w), w), w), w)
    raise Unsupported('bitwise xor of symbolic integers')


_U = {'ult': X.ilt, 'ule': X.ile}


def icmp(pred, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if pred == 'ult':
            return a < b
        if pred == 'ule':
            return a <= b
        if pred == 'ugt':
            return a > b
        if pred == 'uge':
            return a >= b
        a = sgn(a, w)
        b = sgn(b, w)
        if pred == 'slt':
            return a < b
        if pred == 'sle':
            return a <= b
        if pred == 'sgt':
            return a > b
        return a >= b
    if pred == 'ne':
        r = icmp('eq', a, b, w)
        if r is U:
            return U
        return (not r) if r.__class__ is bool else simp(bnot(r))
    if pred in ('ugt', 'uge', 'sgt', 'sge'):
        return icmp(pred[0] + 'l' + pred[2], b, a, w)
    if w == 1:
        x, y = tob(a), tob(b)
        if pred == 'eq':
            return simp(beq(x, y))
        if pred == 'ult':
            return simp(band(bnot(x), y))
        if pred == 'ule':
            return simp(bor(bnot(x), y))
        return icmp({'slt': 'ult', 'sle': 'ule'}[pred], b, a, 1)
    for v, o in ((a, b), (b, a)):
        if v.__class__ is E and not e_isint(v):
            # comparison of float bits: sign tests only
            if o.__class__ is int and o == 0 and pred == 'slt' and v is a:
                return simp(fsignbit(v))
            if o.__class__ is int and o == (1 << w) - 1 and pred == 'slt' and v is b:
                return simp(bnot(fsignbit(v)))
            if pred == 'eq' and o.__class__ is E and o is v:
                return True
            if pred == 'eq' and S.ctl is not None and hasattr(S.ctl, 'biteq'):
                return S.ctl.biteq(a, b, w)
    if a.__class__ is Cat or b.__class__ is Cat:
        if any(v.__class__ is Cat and any(x is U for _, x in v.p) for v in (a, b)):
            return U                # an error only where the result is used
        if pred == 'eq':
            r = TRUE
            n = w // 8
            i = 0
            # compare piecewise on the boundaries of both
            cuts = {0, n}
            for v in (a, b):
                if v.__class__ is Cat:
                    pos = 0
                    for m, _ in v.p:
                        pos += m
                        cuts.add(pos)
            cs = sorted(cuts)
            for i, j in zip(cs, cs[1:]):
                t = icmp('eq', asi(_bytes_of(a, n, i, j - i), 8 * (j - i)), asi(_bytes_of(b, n, i, j - i), 8 * (j - i)), 8 * (j - i))
                r = band(r, tob(t))
            return simp(r)
    x, y = toi(a, w), toi(b, w)
    if pred == 'eq':
        return simp(X.ieq(x, y))
    if pred == 'slt':
        return simp(X.ilt(x, y))
    if pred == 'sle':
        return simp(X.ile(x, y))
    if pred == 'ult':
        return simp(X.iult(x, y, w))
    if pred == 'ule':
        return simp(X.iule(x, y, w))
    raise Unsupported(pred)


def trunc(v, w, t):
    c = v.__class__
    if c is int:
        return v & ((1 << t) - 1)
    if t == 1:
        if c is Cat:
            v = _bytes_of(v, w // 8, 0, 1)
            if v.__class__ is Piece:
                raise Unsupported('bit of a piece')
        return asb(v)
    if c is Cat:
        return asi(_bytes_of(v, w // 8, 0, t // 8), t)
    if v is U:
        return U
    if c is E and not e_isint(v):
        return Piece(v, w // 8, 0)
    if t % 8:
        return simpw(X.wrap(toi(v, w), t), t)
    return simpw(X.wrap(toi(v, w), t), t)


def zext(v, w, t):
    c = v.__class__
    if c is int:
        return v
    if c is bool:
        return 1 if v else 0
    if v is U:
        return U
    if c is Cat or c is Piece or (c is E and not e_isint(v)):
        return mkcat([(w // 8, v), ((t - w) // 8, 0)])
    if w == 1:
        return simpw(b2i(tob(v), t), t)
    return simpw(X.tou(toi(v, w), w), t)


def sext(v, w, t):
    c = v.__class__
    if c is int:
        return sgn(v, w) & ((1 << t) - 1)
    if c is bool:
        return ((1 << t) - 1) if v else 0
    if v is U:
        return U
    if w == 1:
        return simpw(iite(tob(v), ci(-1, t), ci(0, t), t), t)
    return simpw(toi(v, w), t)


def select(c, a, b, isptr):
    if c.__class__ is bool:
        return a if c else b
    c = tob(c)
    if c.op == 'c':
        return a if c.k else b
    if a.__class__ is tuple or isptr or a.__class__ is Cat or b.__class__ is Cat or a.__class__ is Piece or b.__class__ is Piece:
        if a.__class__ is b.__class__ and a.__class__ is int and a == b:
            return a
        return a if S.ctl.branch(c) else b
    if a is U or b is U:
        return a if S.ctl.branch(c) else b
    return None


def select_i(c, a, b, w):
    if c.__class__ is bool:
        return a if c else b
    if a.__class__ is int and b.__class__ is int and a == b:
        return a
    r = select(c, a, b, False)
    if r is not None:
        return r
    for v in (a, b):
        if v.__class__ is E and not e_isint(v):
            # a select over raw float bits
            s = v.s
            return simp(fite(tob(c), tof(a, s), tof(b, s)))
    return simpw(iite(tob(c), toi(a, w), toi(b, w), w), w)


def select_b(c, a, b):
    if c.__class__ is bool:
        return a if c else b
    if a is U or b is U:
        # 'select c, x, undef' style logical ops: only the defined side matters
        return a if S.ctl.branch(tob(c)) else b
    return simp(bite(tob(c), tob(a), tob(b)))


def select_f(c, a, b, s):
    if c.__class__ is bool:
        return a if c else b
    r = select(c, a, b, False)
    if r is not None:
        return r
    return simp(fite(tob(c), tof(a, s), tof(b, s)))


def select_p(c, a, b):
    if c.__class__ is bool:
        return a if c else b
    return select(c, a, b, True)


def branch(c):
    if c.__class__ is bool:
        return c
    c = tob(c)
    if c.op == 'c':
        return c.k
    return S.ctl.branch(c)


def concint(v, w):
    """make an integer concrete, forking over its feasible values"""
    if v.__class__ is int:
        return v
    if v.__class__ is bool:
        return int(v)
    e = toi(v, w)
    if e.op == 'c':
        return e.k & ((1 << w) - 1)
    return S.ctl.concretize(e) & ((1 << w) - 1)


def gep(p, idx, scale, w):
    """p + idx*scale with a possibly symbolic index"""
    if idx.__class__ is not int:
        idx = concint(idx, w)
    if p.__class__ is not int:
        p = concint(p, 64)
    return (p + sgn(idx, w) * scale) & 0xffffffffffffffff


# --------------------------------------------------------------- float ops
def _fb(name, cfun):
    f = getattr(X, name)

    def g32(a, b):
        if a.__class__ is float and b.__class__ is float:
            return r32(cfun(a, b))
        return simp(f(tof(a, 'f'), tof(b, 'f')))

    def g64(a, b):
        if a.__class__ is float and b.__class__ is float:
            return cfun(a, b)
        return simp(f(tof(a, 'd'), tof(b, 'd')))
    return g32, g64


fadd32, fadd64 = _fb('fadd', lambda a, b: a + b)
fsub32, fsub64 = _fb('fsub', lambda a, b: a - b)
fmul32, fmul64 = _fb('fmul', lambda a, b: a * b)
fdiv32, fdiv64 = _fb('fdiv', cdiv)


def fneg_(a, s):
    if a.__class__ is float:
        return -a
    return simp(fneg(tof(a, s)))


_CF = {
    'oeq': lambda a, b: a == b, 'olt': lambda a, b: a < b, 'ole': lambda a, b: a <= b,
    'ogt': lambda a, b: a > b, 'oge': lambda a, b: a >= b,
    'one': lambda a, b: a == a and b == b and a != b,
    'ord': lambda a, b: a == a and b == b, 'uno': lambda a, b: a != a or b != b,
    'ueq': lambda a, b: not (a == a and b == b and a != b),
    'une': lambda a, b: a != b, 'ult': lambda a, b: not a >= b, 'ule': lambda a, b: not a > b,
    'ugt': lambda a, b: not a <= b, 'uge': lambda a, b: not a < b,
    'true': lambda a, b: True, 'false': lambda a, b: False,
}
_SF = {
    'oeq': foeq, 'olt': folt, 'ole': fole, 'ogt': lambda a, b: folt(b, a), 'oge': lambda a, b: fole(b, a),
    'one': lambda a, b: band(bnot(funo(a, b)), bnot(foeq(a, b))),
    'ord': lambda a, b: bnot(funo(a, b)), 'uno': funo,
    'ueq': lambda a, b: bor(funo(a, b), foeq(a, b)), 'une': lambda a, b: bnot(foeq(a, b)),
    'ult': lambda a, b: bnot(fole(b, a)), 'ule': lambda a, b: bnot(folt(b, a)),
    'ugt': lambda a, b: bnot(fole(a, b)), 'uge': lambda a, b: bnot(folt(a, b)),
}


def fcmp(pred, a, b, s):
    if a.__class__ is float and b.__class__ is float:
        return _CF[pred](a, b)
    return simp(_SF[pred](tof(a, s), tof(b, s)))


def fptrunc(a):
    if a.__class__ is float:
        return r32(a)
    return simp(ftrunc_(tof(a, 'd')))


def fpext(a):
    if a.__class__ is float:
        return a
    return simp(fext(tof(a, 'f')))


def sitofp(v, w, s):
    if v.__class__ is int:
        return rnd(s, float(sgn(v, w)))
    if v.__class__ is bool:
        return -1.0 if v else 0.0
    return simp(i2f(toi(v, w), s))


def uitofp(v, w, s):
    if v.__class__ is int:
        return rnd(s, float(v))
    if v.__class__ is bool:
        return 1.0 if v else 0.0
    if w == 1:
        return simp(fite(tob(v), cf(1.0, s), cf(0.0, s)))
    return simp(i2f(X.tou(toi(v, w), w), s))


def fptosi(v, s, w):
    if v.__class__ is float:
        if v != v or math.isinf(v) or not (-(1 << (w - 1)) <= math.trunc(v) < (1 << (w - 1))):
            raise BugFound('float to integer conversion out of range')
        return math.trunc(v) & ((1 << w) - 1)
    return simpw(f2i(tof(v, s), w), w)


def fptoui(v, s, w):
    if v.__class__ is float:
        if v != v or math.isinf(v) or not (0 <= math.trunc(v) < (1 << w)):
            raise BugFound('float to unsigned conversion out of range')
        return math.trunc(v)
    return simpw(f2i(tof(v, s), w, False), w)


def bitcast(v, src, dst):
    """src/dst: type descriptors: ('i',w) ('f',) ('d',) ('v',n,elt)"""
    if src[0] == 'v' and dst[0] == 'v' and src[1] == dst[1]:
        return tuple(bitcast(x, src[2], dst[2]) for x in v)
    if dst[0] == 'v':
        n = dst[1]
        tot = _tsize(dst)
        if v is U:
            return tuple([U] * n)
        if src[0] == 'v':
            v = mkcat([(_tsize(src[2]), x) for x in v])
        es = tot // n
        return tuple(_norm(_bytes_of(v, tot, i * es, es), dst[2]) for i in range(n))
    if src[0] == 'v':
        v = mkcat([(_tsize(src[2]), x) for x in v])
    return _norm(v, dst)


def _tsize(t):
    if t[0] == 'i':
        return (t[1] + 7) // 8
    if t[0] == 'f':
        return 4
    if t[0] == 'v':
        return t[1] * _tsize(t[2])
    return 8


def _norm(v, t):
    if t[0] == 'f':
        return asf(v, 'f')
    if t[0] == 'd':
        return asf(v, 'd')
    if t[0] == 'i':
        if t[1] == 1:
            return asb(v)
        return asi(v, t[1])
    return asi(v, 64)
