"""Hash-consed symbolic expressions with intervals and canonicalising constructors.

Sorts: 1 = bool, 8..128 = machine integers (kept as signed mathematical values,
wrapping made explicit by 'wrap' nodes), 'f' / 'd' = IEEE binary32 / binary64.
Concrete values outside of expressions: bool, unsigned int, Python float.
"""
import math
import struct

_pf = struct.Struct('<f')
_pd = struct.Struct('<d')
_pI = struct.Struct('<I')
_pQ = struct.Struct('<Q')
INF = math.inf


def r32(x):
    try:
        return _pf.unpack(_pf.pack(x))[0]
    except OverflowError:
        return INF if x > 0 else -INF


def rnd(s, x):
    return r32(x) if s == 'f' else x


def fbits(s, x):
    return _pI.unpack(_pf.pack(x))[0] if s == 'f' else _pQ.unpack(_pd.pack(x))[0]


def bitsf(s, b):
    return _pf.unpack(_pI.pack(b))[0] if s == 'f' else _pd.unpack(_pQ.pack(b))[0]


class Unsupported(Exception):
    pass


class E(object):
    __slots__ = ('op', 'a', 's', 'id', 'lo', 'hi', 'nan', 'k')

    def __repr__(self):
        return show(self, 4)


def show(e, depth=6):
    if e.op == 'c':
        return repr(e.k)
    if e.op == 'var':
        return e.k
    if depth == 0:
        return '#%d' % e.id
    if e.op == 'lin':
        return '(' + ' + '.join(['%d*%s' % (c, show(x, depth - 1)) for c, x in e.k[0]] + [str(e.k[1])]) + ')'
    return '(%s%s %s)' % (e.op, '' if e.k is None else ':%s' % (e.k,),
                          ' '.join(show(x, depth - 1) for x in e.a))


_table = {}
_count = [0]
VARS = {}


def _mk(op, s, a, k=None, lo=None, hi=None, nan=False):
    key = (op, s, tuple([x.id for x in a]), k)
    e = _table.get(key)
    if e is None:
        e = E()
        e.op = op
        e.s = s
        e.a = a
        e.k = k
        e.lo = lo
        e.hi = hi
        e.nan = nan
        _count[0] += 1
        e.id = _count[0]
        _table[key] = e
    return e


# ---------------------------------------------------------------- constants
def cb(v):
    return TRUE if v else FALSE


def ci(v, w):
    """v: signed mathematical value"""
    return _mk('c', w, (), v, v, v)


def cf(v, s):
    key = ('c', s, fbits(s, v) if v == v else 'nan')
    e = _table.get(key)
    if e is None:
        e = E()
        e.op = 'c'
        e.s = s
        e.a = ()
        e.k = v
        e.nan = v != v
        e.lo = e.hi = v
        if e.nan:
            e.lo, e.hi = -INF, INF
        _count[0] += 1
        e.id = _count[0]
        _table[key] = e
    return e


TRUE = _mk('c', 1, (), True, 1, 1)
FALSE = _mk('c', 1, (), False, 0, 0)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def var(name, s, lo=None, hi=None):
    e = VARS.get(name)
    if e is not None:
        if e.s != s or (e.lo, e.hi) != (lo, hi):
            raise Unsupported('input %s redeclared differently' % name)
        return e
    e = _mk('var', s, (), name, lo, hi)
    VARS[name] = e
    return e


# ---------------------------------------------------------------- booleans
def bnot(a):
    if a.op == 'c':
        return FALSE if a.k else TRUE
    if a.op == 'not':
        return a.a[0]
    return _mk('not', 1, (a,), None, 0, 1)


def _nary(op, xs, unit, zero):
    seen = {}
    st = list(xs)
    while st:
        x = st.pop()
        if x is unit:
            continue
        if x is zero:
            return zero
        if x.op == op:
            st.extend(x.a)
            continue
        seen[x.id] = x
    for x in seen.values():
        n = x.a[0] if x.op == 'not' else None
        if n is not None and n.id in seen:
            return zero
    if not seen:
        return unit
    ys = tuple(sorted(seen.values(), key=lambda x: x.id))
    if len(ys) == 1:
        return ys[0]
    return _mk(op, 1, ys, None, 0, 1)


def band(*xs):
    return _nary('and', xs, TRUE, FALSE)


def bor(*xs):
    # canonical: or = not and not
    return bnot(band(*[bnot(x) for x in xs]))


def beq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        return a if b.k else bnot(a)
    if a.op == 'not' and b.op == 'not':
        return beq(a.a[0], b.a[0])
    if a.op == 'not':
        return bnot(beq(a.a[0], b))
    if b.op == 'not':
        return bnot(beq(a, b.a[0]))
    if a.id > b.id:
        a, b = b, a
    return _mk('beq', 1, (a, b), None, 0, 1)


def bite(c, a, b):
    if c.op == 'c':
        return a if c.k else b
    if a is b:
        return a
    if c.op == 'not':
        return bite(c.a[0], b, a)
    if a.op == 'c':
        return bor(c, b) if a.k else band(bnot(c), b)
    if b.op == 'c':
        return bor(bnot(c), a) if b.k else band(c, a)
    return bor(band(c, a), band(bnot(c), b))


# ---------------------------------------------------------------- integers
def _lin(e):
    """terms tuple ((coef, atom)...), const"""
    if e.op == 'c':
        return (), e.k
    if e.op == 'lin':
        return e.k
    return ((1, e),), 0


_linkey = {}


def mklin(terms, const, w):
    """terms: dict id->(coef, atom) -- an unwrapped mathematical value"""
    ts = tuple(sorted([(c, x) for c, x in terms.values() if c != 0], key=lambda t: t[1].id))
    if not ts:
        return ci(const, w)
    if const == 0 and len(ts) == 1 and ts[0][0] == 1 and ts[0][1].s == w:
        return ts[0][1]
    key = (w, tuple([(c, x.id) for c, x in ts]), const)
    e = _linkey.get(key)
    if e is None:
        lo = hi = const
        for c, x in ts:
            if c > 0:
                lo += c * x.lo
                hi += c * x.hi
            else:
                lo += c * x.hi
                hi += c * x.lo
        e = E()
        e.op = 'lin'
        e.s = w
        e.a = tuple([x for _, x in ts])
        e.k = (ts, const)
        e.lo = lo
        e.hi = hi
        e.nan = False
        _count[0] += 1
        e.id = _count[0]
        _linkey[key] = e
    return e


def lincomb(parts, const, w):
    terms = {}
    for coef, e in parts:
        ts, k = _lin(e)
        const += coef * k
        for c, x in ts:
            o = terms.get(x.id)
            terms[x.id] = ((o[0] if o else 0) + coef * c, x)
    return mklin(terms, const, w)


def wrap(e, w):
    """wrap mathematical value e to signed w-bit"""
    h = 1 << (w - 1)
    if e.lo >= -h and e.hi < h:
        return e if e.s == w else _retype(e, w)
    if e.op == 'c':
        return ci(((e.k + h) % (2 * h)) - h, w)
    if e.op == 'lin' and any(c >= h or c < -h for c, _ in e.k[0]):
        # coefficients modulo 2^w
        e = lincomb([(((c + h) % (2 * h)) - h, x) for c, x in e.k[0]], ((e.k[1] + h) % (2 * h)) - h, w)
        return wrap(e, w)
    if e.lo >= -3 * h and e.hi < 3 * h:
        r = e
        if e.hi >= h:
            r = iite(ile(ci(h, w), e), _rng(lincomb([(1, e)], -2 * h, w), -h, h - 1), r, w)
        if e.lo < -h:
            r = iite(ilt(e, ci(-h, w)), _rng(lincomb([(1, e)], 2 * h, w), -h, h - 1), r, w)
        return _rng(r, -h, h - 1)
    return _mk('wrap', w, (e,), w, -h, h - 1)


def _rng(e, lo, hi):
    return e


def _retype(e, w):
    if e.op == 'c':
        return ci(e.k, w)
    if e.op == 'lin':
        return mklin({x.id: (c, x) for c, x in e.k[0]}, e.k[1], w)
    # atoms of another width are usable as mathematical integers
    return _mk('as', w, (e,), None, e.lo, e.hi) if False else e


def iadd(a, b, w):
    return wrap(lincomb([(1, a), (1, b)], 0, w), w)


def isub(a, b, w):
    return wrap(lincomb([(1, a), (-1, b)], 0, w), w)


def imul(a, b, w):
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        return wrap(lincomb([(b.k, a)], 0, w), w)
    if a.id > b.id:
        a, b = b, a
    ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    return wrap(_mk('imul', w, (a, b), None, min(ps), max(ps)), w)


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def isdiv(a, b, w):
    if b.op == 'c' and b.k != 0:
        if a.op == 'c':
            return ci(_tdiv(a.k, b.k), w)
        if b.k == 1:
            return a
        if b.k > 0 and a.lo >= 0:
            ts, k = _lin(a)
            n = b.k
            # split multiples of n out: (n*x + r) div n = x + r div n (floor, valid for nonneg total)
            quo = [(c // n, x) for c, x in ts if c % n == 0]
            rest = lincomb([(c, x) for c, x in ts if c % n], k % n, w)
            base = k // n
            if rest.op == 'c' and rest.k < n:
                q = None
            elif rest.lo >= 0 and rest.hi < n:
                q = None
            else:
                q = _mk('div', w, (rest,), n, rest.lo // n, rest.hi // n)
            parts = [(c, x) for c, x in quo]
            if q is not None:
                parts.append((1, q))
            return lincomb(parts, base, w)
        if b.k > 0:
            ts, k = _lin(a)
            n = b.k
            if all(c % n == 0 for c, _ in ts):
                # a = n*q + r with a constant 0 <= r < n
                fl = lincomb([(c // n, x) for c, x in ts], k // n, w)
                if k % n == 0:
                    return fl
                return lincomb([(1, fl), (1, b2i(ilt(a, ci(0, w)), w))], 0, w)
            neg = lincomb([(-1, a)], 0, w)
            return iite(ile(ci(0, w), a),
                        _mk('div', w, (a,), b.k, a.lo // b.k, a.hi // b.k),
                        lincomb([(-1, _mk('div', w, (neg,), b.k, neg.lo // b.k, neg.hi // b.k))], 0, w), w)
    raise Unsupported('signed division by a symbolic or non-positive divisor')


def isrem(a, b, w):
    q = isdiv(a, b, w)
    return lincomb([(1, a), (-b.k, q)], 0, w)


def tou(e, w):
    """unsigned mathematical value of signed e"""
    if e.lo >= 0:
        return e
    if e.hi < 0:
        return lincomb([(1, e)], 1 << w, w)
    return iite(ile(ci(0, w), e), e, lincomb([(1, e)], 1 << w, w), w)


def iudiv(a, b, w):
    return wrap(isdiv(tou(a, w), tou(b, w), w), w)


def iurem(a, b, w):
    a = tou(a, w)
    b = tou(b, w)
    return wrap(isrem(a, b, w), w)


def iite(c, a, b, w):
    if c.op == 'c':
        return a if c.k else b
    if a is b:
        return a
    if c.op == 'not':
        return iite(c.a[0], b, a, w)
    lo = min(a.lo, b.lo)
    hi = max(a.hi, b.hi)
    # refine: ite(0<=x, x, y)
    if c.op == 'ge0':
        d = lincomb([(1, a), (-1, c.a[0])], 0, w)
        if d.op == 'c':
            lo = min(max(a.lo, d.k), b.lo)
        d = lincomb([(1, b), (1, c.a[0])], 0, w)  # b = -x + k with x<0 -> b>=k+1
        if d.op == 'c':
            lo = min(a.lo, max(b.lo, d.k + 1))
        d = lincomb([(1, b), (-1, c.a[0])], 0, w)  # b = x + k with x<0 -> b<=k-1
        if d.op == 'c':
            hi = max(a.hi, min(b.hi, d.k - 1))
        d = lincomb([(1, a), (1, c.a[0])], 0, w)  # a = -x + k, x>=0 -> a<=k
        if d.op == 'c':
            hi = max(min(a.hi, d.k), b.hi)
    return _mk('iite', w, (c, a, b), None, lo, hi)


def ge0(e):
    if e.lo >= 0:
        return TRUE
    if e.hi < 0:
        return FALSE
    ts, k = _lin(e)
    if len(ts) == 1 and abs(ts[0][0]) == 1 and ts[0][1].op == 'iite':
        c, x = ts[0]
        it = x.a
        if it[1].op == 'c' or it[2].op == 'c':
            return bite(it[0], ge0(lincomb([(c, it[1])], k, 64)), ge0(lincomb([(c, it[2])], k, 64)))
    g = 0
    for c, x in ts:
        g = math.gcd(g, c)
    if g > 1:
        e = mklin({x.id: (c // g, x) for c, x in ts}, k // g, 64)
        ts, k = _lin(e)
        if e.lo >= 0:
            return TRUE
        if e.hi < 0:
            return FALSE
    else:
        e = mklin({x.id: (c, x) for c, x in ts}, k, 64)
    # canonical sign: first coefficient positive
    if ts[0][0] < 0:
        return bnot(ge0(mklin({x.id: (-c, x) for c, x in ts}, -k - 1, 64)))
    return _mk('ge0', 1, (e,), None, 0, 1)


def ile(a, b):
    return ge0(lincomb([(1, b), (-1, a)], 0, 64))


def ilt(a, b):
    return ge0(lincomb([(1, b), (-1, a)], -1, 64))


def ieq(a, b):
    d = lincomb([(1, a), (-1, b)], 0, 64)
    if d.op == 'c':
        return cb(d.k == 0)
    if d.lo > 0 or d.hi < 0:
        return FALSE
    ts, k = _lin(d)
    if len(ts) == 1 and ts[0][1].op == 'iite':
        c, x = ts[0]
        it = x.a
        if it[1].op == 'c' or it[2].op == 'c':
            z = ci(0, 64)
            return bite(it[0], ieq(lincomb([(c, it[1])], k, 64), z), ieq(lincomb([(c, it[2])], k, 64), z))
    g = 0
    for c, x in ts:
        g = math.gcd(g, c)
    if g > 1:
        if k % g:
            return FALSE
    if ts[0][0] < 0:
        g = -g
    d = mklin({x.id: (c // g, x) for c, x in ts}, k // g, 64)
    return _mk('eq0', 1, (d,), None, 0, 1)


def iult(a, b, w):
    return ilt(tou(a, w), tou(b, w))


def iule(a, b, w):
    return ile(tou(a, w), tou(b, w))


def b2i(c, w):
    """zext i1"""
    if c.op == 'c':
        return ci(1 if c.k else 0, w)
    return iite(c, ci(1, w), ci(0, w), w)


# ---------------------------------------------------------------- floats
def _mulI(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def fneg(a):
    s = a.s
    if a.op == 'c':
        return cf(-a.k, s)
    if a.op == 'fneg':
        return a.a[0]
    return _mk('fneg', s, (a,), None, -a.hi, -a.lo, a.nan)


def _safe(f, *xs):
    try:
        r = f(*xs)
    except (OverflowError, ValueError, ZeroDivisionError):
        return None
    return r


def fadd(a, b):
    s = a.s
    if a.op == 'c' and b.op == 'c':
        return cf(rnd(s, a.k + b.k), s)
    for x, y in ((a, b), (b, a)):
        if x.op == 'c' and x.k == 0 and (math.copysign(1, x.k) < 0 or y.lo > 0 or y.hi < 0 or _nonegzero(y)):
            return y
    if not a.nan and a.lo > -INF and a.hi < INF and (
            (b.op == 'fneg' and b.a[0] is a) or (a.op == 'fneg' and a.a[0] is b)):
        return cf(0.0, s)
    if a.id > b.id:
        a, b = b, a
    lo = rnd(s, a.lo + b.lo) if not (math.isinf(a.lo) and math.isinf(b.lo) and a.lo != b.lo) else -INF
    hi = rnd(s, a.hi + b.hi) if not (math.isinf(a.hi) and math.isinf(b.hi) and a.hi != b.hi) else INF
    nan = a.nan or b.nan or (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF)
    # x + floor-like relations are left to the solver
    return _mk('fadd', s, (a, b), None, lo, hi, nan)


def _nonegzero(e):
    """can e never be -0.0 ?"""
    return e.lo > 0 or e.hi < 0 or e.op in ('fadd', 'i2f') or (e.op == 'var')


def fsub(a, b):
    return fadd(a, fneg(b))


def fmul(a, b):
    s = a.s
    if a.op == 'c' and b.op == 'c':
        return cf(rnd(s, a.k * b.k), s)
    neg = False
    if a.op == 'fneg':
        a = a.a[0]
        neg = not neg
    if b.op == 'fneg':
        b = b.a[0]
        neg = not neg
    for x, y in ((a, b), (b, a)):
        if x.op == 'c':
            if x.k == 1.0:
                return fneg(y) if neg else y
            if x.k == -1.0:
                return y if neg else fneg(y)
            if x.k < 0:
                r = fmul(cf(-x.k, s), y)
                return r if neg else fneg(r)
    if a.id > b.id:
        a, b = b, a
    ps = [_mulI(a.lo, b.lo), _mulI(a.lo, b.hi), _mulI(a.hi, b.lo), _mulI(a.hi, b.hi)]
    lo, hi = rnd(s, min(ps)), rnd(s, max(ps))
    if a is b:
        lo = max(lo, 0.0) if not (a.lo > 0 or a.hi < 0) else lo
    ai = math.isinf(a.lo) or math.isinf(a.hi)
    bi = math.isinf(b.lo) or math.isinf(b.hi)
    nan = a.nan or b.nan or (ai and b.lo <= 0 <= b.hi) or (bi and a.lo <= 0 <= a.hi)
    r = _mk('fmul', s, (a, b), None, lo, hi, nan)
    return fneg(r) if neg else r


def cdiv(x, y):
    if y == 0:
        if x == 0 or x != x or y != y:
            return math.nan
        return math.copysign(INF, x) * math.copysign(1, y)
    return x / y


def fdiv(a, b):
    s = a.s
    if a.op == 'c' and b.op == 'c':
        return cf(rnd(s, cdiv(a.k, b.k)), s)
    neg = False
    if a.op == 'fneg':
        a = a.a[0]
        neg = not neg
    if b.op == 'fneg':
        b = b.a[0]
        neg = not neg
    if b.op == 'c':
        if b.k == 1.0:
            return fneg(a) if neg else a
        if b.k != 0 and not math.isinf(b.k) and b.k == b.k:
            m, e = math.frexp(b.k)
            if abs(m) == 0.5 and abs(e) < 100:  # power of two: exact (no subnormals assumed below)
                r = fmul(a, cf(1.0 / b.k, s))
                return fneg(r) if neg else r
    nan = a.nan or b.nan
    if b.lo > 0 or b.hi < 0:
        if math.isinf(b.lo) or math.isinf(b.hi) or math.isinf(a.lo) or math.isinf(a.hi):
            if (math.isinf(a.lo) or math.isinf(a.hi)) and (math.isinf(b.lo) or math.isinf(b.hi)):
                nan = True
                lo, hi = -INF, INF
            else:
                ps = [x / y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                ps = [p for p in ps if p == p]
                lo, hi = rnd(s, min(ps)), rnd(s, max(ps))
        else:
            ps = []
            for x in (a.lo, a.hi):
                for y in (b.lo, b.hi):
                    try:
                        ps.append(x / y)
                    except OverflowError:
                        ps.append(math.copysign(INF, x) * math.copysign(1, y))
            lo, hi = rnd(s, min(ps)), rnd(s, max(ps))
    else:
        lo, hi = -INF, INF
        if a.lo >= 0 and b.lo >= 0:
            lo = 0.0
        if a.lo <= 0 <= a.hi or math.isinf(a.lo) or math.isinf(a.hi):
            nan = True
    r = _mk('fdiv', s, (a, b), None, lo, hi, nan)
    return fneg(r) if neg else r


def _libm(name):
    return getattr(math, name)


def cround(x):
    if x != x or math.isinf(x):
        return x
    r = math.floor(abs(x))
    if abs(x) - r >= 0.5:
        r += 1
    return math.copysign(float(r), x)


def cfloor(x):
    if x != x or math.isinf(x):
        return x
    return math.copysign(float(math.floor(x)), x) if math.floor(x) == 0 else float(math.floor(x))


def cceil(x):
    if x != x or math.isinf(x):
        return x
    return math.copysign(float(math.ceil(x)), x) if math.ceil(x) == 0 else float(math.ceil(x))


def ctrunc(x):
    if x != x or math.isinf(x):
        return x
    return math.copysign(float(math.trunc(x)), x) if math.trunc(x) == 0 else float(math.trunc(x))


def crint(x):
    if x != x or math.isinf(x):
        return x
    return math.copysign(float(round(x)), x)


ROUNDERS = {'ffloor': cfloor, 'fceil': cceil, 'fround': cround, 'ftrunc': ctrunc, 'frint': crint}


def fround_(op, a):
    f = ROUNDERS[op]
    if a.op == 'c':
        return cf(f(a.k), a.s)
    if a.op in ROUNDERS or a.op == 'i2f':
        return a
    if a.op == 'fneg':
        op2 = {'ffloor': 'fceil', 'fceil': 'ffloor'}.get(op, op)
        return fneg(fround_(op2, a.a[0]))
    return _mk(op, a.s, (a,), None, f(a.lo), f(a.hi), a.nan)


def csqrt(x):
    if x != x or x < 0:
        return math.nan
    return math.sqrt(x)


def fsqrt(a):
    s = a.s
    if a.op == 'c':
        return cf(rnd(s, csqrt(a.k)), s)
    lo = rnd(s, math.sqrt(a.lo)) if a.lo > 0 else 0.0
    hi = rnd(s, math.sqrt(a.hi)) if a.hi > 0 else 0.0
    return _mk('fsqrt', s, (a,), None, lo, hi, a.nan or a.lo < 0)


def fabs_(a):
    if a.op == 'c':
        return cf(abs(a.k), a.s)
    if a.op == 'fneg':
        return fabs_(a.a[0])
    if a.op == 'fabs' or a.lo >= 0:
        return a
    if a.hi <= 0:
        return fneg(a)
    return _mk('fabs', a.s, (a,), None, 0.0, max(-a.lo, a.hi), a.nan)


def fext(a):
    if a.op == 'c':
        return cf(a.k, 'd')
    if a.op == 'fneg':
        return fneg(fext(a.a[0]))
    if a.op == 'i2f' and max(abs(a.lo), abs(a.hi)) <= 2.0 ** 24:
        return i2f(a.a[0], 'd')
    return _mk('fext', 'd', (a,), None, a.lo, a.hi, a.nan)


_DBLRND = {'fadd', 'fmul', 'fdiv', 'fsqrt'}


def _asf(a):
    """a double expression known to be exactly a float value -> float expression, or None"""
    if a.op == 'fext':
        return a.a[0]
    if a.op == 'c' and r32(a.k) == a.k:
        return cf(a.k, 'f')
    if a.op == 'fneg':
        r = _asf(a.a[0])
        return None if r is None else fneg(r)
    return None


def ftrunc_(a):
    """fptrunc double->float"""
    if a.op == 'c':
        return cf(r32(a.k), 'f')
    if a.op == 'fext':
        return a.a[0]
    if a.op == 'fneg':
        return fneg(ftrunc_(a.a[0]))
    if a.op in ('fadd', 'fmul', 'fdiv'):
        # double rounding is innocuous for a single operation on float operands
        x, y = _asf(a.a[0]), _asf(a.a[1])
        if x is not None and y is not None:
            return {'fadd': fadd, 'fmul': fmul, 'fdiv': fdiv}[a.op](x, y)
    if a.op == 'fsqrt' and _asf(a.a[0]) is not None:
        return fsqrt(_asf(a.a[0]))
    if a.op in ROUNDERS and _asf(a.a[0]) is not None:
        return fround_(a.op, _asf(a.a[0]))
    if a.op == 'fabs' and _asf(a.a[0]) is not None:
        return fabs_(_asf(a.a[0]))
    if a.op == 'fite':
        x, y = _asf(a.a[1]), _asf(a.a[2])
        if x is not None and y is not None:
            return fite(a.a[0], x, y)
    if a.op in ('fmax', 'fmin'):
        x, y = _asf(a.a[0]), _asf(a.a[1])
        if x is not None and y is not None:
            return fmax(x, y) if a.op == 'fmax' else fmin(x, y)
    return _mk('fcut', 'f', (a,), None, r32(a.lo), r32(a.hi), a.nan)


def i2f(a, s):
    if a.op == 'c':
        return cf(r32(float(a.k)) if s == 'f' else float(a.k), s)
    lo = float(a.lo)
    hi = float(a.hi)
    return _mk('i2f', s, (a,), None, rnd(s, lo), rnd(s, hi), False)


def f2i(a, w, signed=True):
    if a.op == 'c':
        return ci(int(a.k), w)
    if a.op == 'i2f' and max(abs(a.lo), abs(a.hi)) <= (2.0 ** 24 if a.s == 'f' else 2.0 ** 53):
        return wrap(a.a[0], w)
    h = 1 << (w - 1)
    if a.lo < -h or a.hi >= (h if signed else 2 * h) or a.nan:
        raise Unsupported('float to int conversion may be out of range')
    return wrap(_mk('f2i', 128 if not signed else w, (a,), w, math.trunc(a.lo), math.trunc(a.hi)), w)


def fuf(name, args, s):
    """uninterpreted library function, e.g. log, exp, pow"""
    if all(x.op == 'c' for x in args):
        return cf(libm_eval(name, s, [x.k for x in args]), s)
    lo, hi, nan = -INF, INF, any(x.nan for x in args)
    a = args[0]
    if name == 'exp':
        lo, hi = 0.0, INF
        v = _safe(math.exp, a.lo)
        if v is not None:
            lo = rnd(s, v * (1 - 1e-6))
        v = _safe(math.exp, a.hi)
        if v is not None:
            hi = rnd(s, v * (1 + 1e-6))
    elif name == 'log':
        if a.lo > 0 and a.hi < INF:
            lo = rnd(s, math.log(a.lo) - 1e-6 * abs(math.log(a.lo)) - 1e-30)
            hi = rnd(s, math.log(a.hi) + 1e-6 * abs(math.log(a.hi)) + 1e-30)
        else:
            nan = True
    elif name == 'pow':
        if a.lo >= 0:
            lo = 0.0
        if a.lo > 0 and args[1].lo > -INF and args[1].hi < INF and a.hi < INF:
            vs = [_safe(math.pow, x, y) for x in (a.lo, a.hi, min(max(1.0, a.lo), a.hi)) for y in (args[1].lo, args[1].hi)]
            if all(v is not None for v in vs):
                lo = rnd(s, min(vs) * (1 - 1e-6))
                hi = rnd(s, max(vs) * (1 + 1e-6))
        else:
            nan = True
    else:
        nan = True
    return _mk('fuf', s, tuple(args), name, lo, hi, nan)


def libm_eval(name, s, xs):
    try:
        if name == 'log':
            if xs[0] == 0:
                return -INF
            if not xs[0] > 0:
                return math.nan
        r = {'log': math.log, 'exp': math.exp, 'pow': math.pow, 'log2': math.log2, 'log10': math.log10,
             'fmod': math.fmod, 'log1p': math.log1p, 'expm1': math.expm1, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
             'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'hypot': math.hypot, 'exp2': lambda x: 2.0 ** x,
             'tanh': math.tanh, 'atan': math.atan}[name](*xs)
    except OverflowError:
        return INF
    except ValueError:
        return math.nan
    return rnd(s, r)


# comparisons: 'fle' and 'feq' are over non-NaN operands; NaN handled through isnan()
def isnan(a):
    if a.op == 'c':
        return cb(a.nan)
    if not a.nan:
        return FALSE
    if a.op in ('fneg', 'fabs', 'fext', 'ffloor', 'fceil', 'fround', 'ftrunc', 'frint', 'fcut'):
        return isnan(a.a[0])
    if a.op == 'fite':
        return bite(a.a[0], isnan(a.a[1]), isnan(a.a[2]))
    return _mk('isnan', 1, (a,), None, 0, 1)


def _fle(a, b):
    if a is b:
        return TRUE
    if a.op == 'fneg' and b.op == 'fneg':
        return _fle(b.a[0], a.a[0])
    if a.hi <= b.lo and not a.nan and not b.nan:
        return TRUE
    if a.lo > b.hi and not a.nan and not b.nan:
        return FALSE
    if a.op == 'fext' and b.op == 'fext':
        return _fle(a.a[0], b.a[0])
    if a.op == 'c' and b.op == 'fext' and r32(a.k) == a.k:
        return _fle(cf(a.k, 'f'), b.a[0])
    if b.op == 'c' and a.op == 'fext' and r32(b.k) == b.k:
        return _fle(a.a[0], cf(b.k, 'f'))
    if b.op == 'c' and b.k == 0:
        # sign of subtraction is exact
        if a.op == 'fadd' and not a.nan:
            return _fle(a.a[0], fneg(a.a[1]))
    if a.op == 'c' and a.k == 0:
        if b.op == 'fadd' and not b.nan:
            return _fle(fneg(b.a[0]), b.a[1])
    if b.op == 'fneg' and a.op == 'c':
        return _fle(b.a[0], cf(-a.k, a.s))
    if a.op == 'fneg' and b.op == 'c':
        return _fle(cf(-b.k, b.s), a.a[0])
    if a.op == 'i2f' and b.op == 'i2f' and max(abs(a.lo), abs(a.hi), abs(b.lo), abs(b.hi)) <= 2.0 ** (24 if a.s == 'f' else 53):
        return ile(a.a[0], b.a[0])
    if a.op == 'fmax' and not a.nan:
        return band(_fle(a.a[0], b), _fle(a.a[1], b))
    if b.op == 'fmin' and not b.nan:
        return band(_fle(a, b.a[0]), _fle(a, b.a[1]))
    if a.op == 'fmin' and not a.nan:
        return bor(_fle(a.a[0], b), _fle(a.a[1], b))
    if b.op == 'fmax' and not b.nan:
        return bor(_fle(a, b.a[0]), _fle(a, b.a[1]))
    return _mk('fle', 1, (a, b), None, 0, 1)


def fole(a, b):
    return band(bnot(isnan(a)), bnot(isnan(b)), _fle(a, b))


def folt(a, b):
    return band(bnot(isnan(a)), bnot(isnan(b)), bnot(_fle(b, a)))


def foeq(a, b):
    if a is b:
        return bnot(isnan(a))
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    if a.op == 'fneg' and b.op == 'fneg':
        return foeq(a.a[0], b.a[0])
    if a.op == 'fext' and b.op == 'fext':
        return foeq(a.a[0], b.a[0])
    if a.op == 'c' and b.op == 'fext' and r32(a.k) == a.k:
        return foeq(cf(a.k, 'f'), b.a[0])
    if b.op == 'c' and a.op == 'fext' and r32(b.k) == b.k:
        return foeq(a.a[0], cf(b.k, 'f'))
    if a.op == 'i2f' and b.op == 'i2f' and max(abs(a.lo), abs(a.hi), abs(b.lo), abs(b.hi)) <= 2.0 ** (24 if a.s == 'f' else 53):
        return ieq(a.a[0], b.a[0])
    return band(bnot(isnan(a)), bnot(isnan(b)), _fle(a, b), _fle(b, a))


def funo(a, b):
    return bor(isnan(a), isnan(b))


def fmax(a, b):
    if a is b:
        return a
    if not a.nan and not b.nan:
        if a.lo >= b.hi:
            return a
        if b.lo >= a.hi:
            return b
    if a.id > b.id:
        a, b = b, a
    if a.op == 'fext' and b.op == 'fext':
        return fext(fmax(a.a[0], b.a[0]))
    return _mk('fmax', a.s, (a, b), None, max(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan)


def fmin(a, b):
    if a is b:
        return a
    if not a.nan and not b.nan:
        if a.hi <= b.lo:
            return a
        if b.hi <= a.lo:
            return b
    if a.id > b.id:
        a, b = b, a
    if a.op == 'fext' and b.op == 'fext':
        return fext(fmin(a.a[0], b.a[0]))
    return _mk('fmin', a.s, (a, b), None, min(a.lo, b.lo), min(a.hi, b.hi), a.nan or b.nan)


def fite(c, a, b):
    if c.op == 'c':
        return a if c.k else b
    if a is b:
        return a
    if c.op == 'not':
        return fite(c.a[0], b, a)
    if a.op == 'fneg' and b.op == 'fneg':
        return fneg(fite(c, a.a[0], b.a[0]))
    if c.op == 'fle' and not a.nan and not b.nan:
        x, y = c.a
        if x.s == a.s:
            # value-equal operands: choosing either is the same number (zero signs aside)
            if a is x and b is y:
                return fmin(a, b)
            if a is y and b is x:
                return fmax(a, b)
            # x <= -y style comparisons against canonicalised zero tests are not matched
    if a.op == 'fite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'fite' and b.a[0] is c:
        b = b.a[2]
    lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
    if c.op == 'fle':
        x, y = c.a
        # clamp patterns: ite(x <= k, k', x)
        if y.op == 'c' and b is x and not x.nan:
            lo = min(a.lo, max(b.lo, y.k))
        if y.op == 'c' and a is x and not x.nan:
            hi = max(min(a.hi, y.k), b.hi)
        if x.op == 'c' and b is y and not y.nan:
            hi = max(a.hi, min(b.hi, x.k))
        if x.op == 'c' and a is y and not y.nan:
            lo = min(max(a.lo, x.k), b.lo)
    return _mk('fite', a.s, (c, a, b), None, lo, hi, a.nan or b.nan)


def fsignbit(a):
    """sign bit set; zero sign taken as positive when the value cannot be -0"""
    if a.op == 'c':
        return cb(math.copysign(1, a.k) < 0)
    return bnot(_fle(cf(0.0, a.s), a))


def isfinite_(a):
    if not a.nan and a.lo > -INF and a.hi < INF:
        return TRUE
    return _mk('isfin', 1, (a,), None, 0, 1)


# generic
def ite(c, a, b):
    if a.s == 1:
        return bite(c, a, b)
    if a.s in ('f', 'd'):
        return fite(c, a, b)
    return iite(c, a, b, a.s)


def topo(roots):
    """all nodes reachable, children first"""
    seen = set()
    out = []
    st = [(r, 0) for r in roots]
    while st:
        e, done = st.pop()
        if done:
            out.append(e)
            continue
        if e.id in seen:
            continue
        seen.add(e.id)
        st.append((e, 1))
        for x in e.a:
            if x.id not in seen:
                st.append((x, 0))
    return out


def evaluate(roots, env):
    """concrete IEEE evaluation; env: var name -> value. Returns dict id->value."""
    V = {}
    for e in topo(roots):
        V[e.id] = _ev(e, V, env)
    return V


def _ev(e, V, env):
    op = e.op
    a = [V[x.id] for x in e.a]
    s = e.s
    if op == 'c':
        return e.k
    if op == 'var':
        return env[e.k]
    if op == 'not':
        return not a[0]
    if op == 'and':
        return all(a)
    if op == 'beq':
        return a[0] == a[1]
    if op == 'lin':
        return sum(c * V[x.id] for c, x in e.k[0]) + e.k[1]
    if op == 'wrap':
        h = 1 << (e.k - 1)
        return ((a[0] + h) % (2 * h)) - h
    if op == 'imul':
        return a[0] * a[1]
    if op == 'div':
        return a[0] // e.k
    if op == 'mod2':
        return a[0] % e.k
    if op == 'iite' or op == 'fite':
        return a[1] if a[0] else a[2]
    if op == 'ge0':
        return a[0] >= 0
    if op == 'eq0':
        return a[0] == 0
    if op == 'fneg':
        return -a[0]
    if op == 'fadd':
        return rnd(s, a[0] + a[1])
    if op == 'fmul':
        return rnd(s, a[0] * a[1])
    if op == 'fdiv':
        return rnd(s, cdiv(a[0], a[1]))
    if op in ROUNDERS:
        return ROUNDERS[op](a[0])
    if op == 'fsqrt':
        return rnd(s, csqrt(a[0]))
    if op == 'fabs':
        return abs(a[0])
    if op == 'fext':
        return a[0]
    if op == 'fcut':
        return r32(a[0])
    if op == 'i2f':
        return rnd(s, float(a[0]))
    if op == 'f2i':
        return int(a[0]) if a[0] == a[0] and not math.isinf(a[0]) else 0
    if op == 'fuf':
        return libm_eval(e.k, s, a)
    if op == 'isnan':
        return a[0] != a[0]
    if op == 'isfin':
        return a[0] == a[0] and not math.isinf(a[0])
    if op == 'fle':
        return a[0] <= a[1] if (a[0] == a[0] and a[1] == a[1]) else False
    if op == 'fmax':
        return max(a) if a[0] == a[0] and a[1] == a[1] else math.nan
    if op == 'fmin':
        return min(a) if a[0] == a[0] and a[1] == a[1] else math.nan
    raise Unsupported('evaluate ' + op)


def dump(conj, path):
    import pickle
    ns = topo(conj)
    ix = {e.id: i for i, e in enumerate(ns)}
    rows = []
    for e in ns:
        k = ([(c, ix[x.id]) for c, x in e.k[0]], e.k[1]) if e.op == 'lin' else e.k
        rows.append((e.op, e.s, [ix[x.id] for x in e.a], k, e.lo, e.hi, e.nan))
    pickle.dump((rows, [ix[c.id] for c in conj]), open(path, 'wb'))


def load(path):
    import pickle
    rows, roots = pickle.load(open(path, 'rb'))
    out = []
    for op, s, a, k, lo, hi, nan in rows:
        if op == 'lin':
            k = (tuple((c, out[i]) for c, i in k[0]), k[1])
        out.append(_mk(op, s, tuple(out[i] for i in a), k, lo, hi, nan))
    return [out[i] for i in roots]
