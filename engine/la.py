"""Linear real/integer abstraction of expressions in z3 (sound over-approximation of IEEE rounding).

Used for path feasibility and as the first proof stage: 'unsat' here is a proof
over all values; 'sat' may be spurious and is only ever a hint.
"""
import fractions
import math
import z3
from expr import *

FMAX = {'f': 3.4028234663852886e+38, 'd': 1.7976931348623157e+308}
_Q = {}


def q(x):
    r = _Q.get(x)
    if r is None:
        r = z3.RealVal(str(fractions.Fraction(x)))
        _Q[x] = r
    return r


def minabs(e):
    if e.op in ROUNDERS or e.op == 'i2f':
        return max(1.0, e.lo, -e.hi)      # zero operands give an exact zero
    if e.op == 'c':
        return abs(e.k)
    return max(e.lo, -e.hi, 0.0)


def eta_of(e):
    """absolute error of an underflowing result (0 if it cannot underflow)"""
    if e.s == 'd':
        return 0.0 if e.op in ('fadd',) else 5e-324
    if e.op == 'fadd':
        return 0.0
    if e.op == 'fmul' and minabs(e.a[0]) * minabs(e.a[1]) >= 2.0 ** -126:
        return 0.0
    if e.op == 'fdiv':
        big = max(abs(e.a[1].lo), abs(e.a[1].hi))
        if big and not math.isinf(big) and minabs(e.a[0]) / big >= 2.0 ** -126:
            return 0.0
    if e.op == 'fcut' and minabs(e.a[0]) >= 2.0 ** -126:
        return 0.0
    return 2.0 ** -149


class LA(object):
    ints = False

    def __init__(self, timeout_ms=1500):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.timeout = timeout_ms
        self.enc = {}          # id -> z3 term
        self.nanenc = {}
        self.ax = {}           # id -> list of axioms
        self.scopes = [set()]  # ids whose axioms are asserted per scope
        self.asserted = set()
        self.stack = []        # asserted E ids
        self.keep = []         # keep expressions alive
        self.checks = 0
        self.time = 0.0

    # ---------------------------------------------------------- encoding
    def term(self, e):
        r = self.enc.get(e.id)
        if r is not None:
            return r
        for x in topo([e]):
            if x.id not in self.enc:
                self._enc1(x)
        return self.enc[e.id]

    def fresh(self, e, sort):
        n = 'n%d' % e.id
        return z3.Real(n) if sort == 'r' else (z3.Int(n) if sort == 'i' else z3.Bool(n))

    def nan(self, e):
        """z3 Bool: e is NaN"""
        n = isnan(e)
        return self.term(n)

    def _enc1(self, e):
        op = e.op
        T = self.enc
        a = [T[x.id] for x in e.a]
        ax = []
        s = e.s
        if op == 'c':
            if s == 1:
                r = z3.BoolVal(bool(e.k))
            elif s in ('f', 'd'):
                r = q(e.k) if e.k == e.k and not math.isinf(e.k) else (q(0.0) if e.k != e.k else q(0))
                if e.k == e.k and math.isinf(e.k):
                    r = z3.RealVal(str(fractions.Fraction(2) ** 1030 * (1 if e.k > 0 else -1)))
            else:
                r = z3.IntVal(e.k)
        elif op == 'var':
            if s == 1:
                r = z3.Bool('v_' + e.k)
            elif s in ('f', 'd'):
                r = z3.Real('v_' + e.k)
                self.bounds(e, r, ax)
            else:
                r = z3.Int('v_' + e.k)
                ax += [r >= e.lo, r <= e.hi]
        elif op == 'not':
            r = z3.Not(a[0])
        elif op == 'and':
            r = z3.And(*a)
        elif op == 'beq':
            r = a[0] == a[1]
        elif op == 'lin':
            ps = [T[x.id] if c == 1 else c * T[x.id] for c, x in e.k[0]]
            if e.k[1]:
                ps.append(z3.IntVal(e.k[1]))
            r = z3.Sum(ps) if len(ps) > 1 else ps[0]
        elif op == 'wrap':
            h = 1 << (e.k - 1)
            r = (a[0] + h) % (2 * h) - h
        elif op == 'imul':
            r = self.fresh(e, 'i')
            ax += [r >= e.lo, r <= e.hi, r == a[0] * a[1]]
        elif op == 'div':
            r = self.fresh(e, 'i')
            ax += [e.k * r <= a[0], a[0] < e.k * r + e.k]
        elif op == 'mod2':
            r = a[0] % e.k
        elif op in ('iite', 'fite'):
            r = z3.If(a[0], a[1], a[2])
        elif op == 'ge0':
            r = a[0] >= 0
        elif op == 'eq0':
            r = a[0] == 0
        elif op == 'fle':
            r = a[0] <= a[1]
        elif op == 'isnan':
            r = z3.Bool('nan%d' % e.id)
            x = e.a[0]
            if x.op == 'fsqrt':
                ax.append(r == z3.Or(self.nan(x.a[0]), self.term(x.a[0]) < 0))
            elif x.op == 'fdiv':
                p, d = x.a
                base = z3.Or(self.nan(p), self.nan(d), z3.And(self.term(p) == 0, self.term(d) == 0))
                ax.append(z3.Implies(base, r))
                ax.append(z3.Implies(r, z3.Or(base, z3.And(self.inf(p), self.inf(d)))))
            elif x.op in ('fadd', 'fmul', 'fmax', 'fmin'):
                base = z3.Or(*[self.nan(y) for y in x.a])
                ax.append(z3.Implies(base, r))
                if x.op == 'fadd':
                    ax.append(z3.Implies(r, z3.Or(base, z3.And(self.inf(x.a[0]), self.inf(x.a[1])))))
                elif x.op == 'fmul':
                    ax.append(z3.Implies(r, z3.Or(base, z3.And(self.inf(x.a[0]), self.term(x.a[1]) == 0), z3.And(self.inf(x.a[1]), self.term(x.a[0]) == 0))))
                else:
                    ax.append(z3.Implies(r, base))
        elif op == 'isfin':
            r = z3.Bool('fin%d' % e.id)
        elif op == 'fneg':
            r = -a[0]
        elif op == 'fext':
            r = a[0]
        elif op == 'fabs':
            r = z3.If(a[0] >= 0, a[0], -a[0])
        elif op == 'fmax':
            r = z3.If(a[0] >= a[1], a[0], a[1])
        elif op == 'fmin':
            r = z3.If(a[0] <= a[1], a[0], a[1])
        elif op in ROUNDERS:
            r = z3.Real('n%d' % e.id)
            x = a[0]
            ax += [z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0)]
            if self.ints:
                ax.append(r == z3.ToReal(z3.Int('k%d' % e.id)))
            elif op == 'ffloor':
                ax += [z3.Implies(x < 0, r <= -1), z3.Implies(x < 1, r <= 0), z3.Implies(x >= 1, r >= 1)]
            elif op == 'fceil':
                ax += [z3.Implies(x > 0, r >= 1), z3.Implies(x > -1, r >= 0), z3.Implies(x <= 1, r <= 1)]
            elif op == 'fround':
                ax += [z3.Implies(x >= q(0.5), r >= 1), z3.Implies(x < q(0.5), r <= 0), z3.Implies(x > q(-0.5), r >= 0)]
            if op == 'ffloor':
                ax += [r <= x, x < r + 1]
            elif op == 'fceil':
                ax += [r >= x, x > r - 1]
            elif op == 'fround' or op == 'frint':
                h = q(0.5)
                ax += [r <= x + h, r >= x - h]
            else:
                ax += [z3.Implies(x >= 0, z3.And(r <= x, x < r + 1)), z3.Implies(x <= 0, z3.And(r >= x, x > r - 1))]
            self.bounds(e, r, ax)
        else:
            r = z3.Real('n%d' % e.id) if s in ('f', 'd') else z3.Int('n%d' % e.id)
            if s in ('f', 'd'):
                self.enc[e.id] = r
                self.bounds(e, r, ax)
                self._float(e, r, a, ax)
            elif op == 'f2i':
                x = a[0]
                R = z3.ToReal(r)
                if e.a[0].lo >= 0:
                    ax += [R <= x, x < R + 1]
                else:
                    ax += [z3.Implies(x >= 0, z3.And(R <= x, x < R + 1)), z3.Implies(x <= 0, z3.And(R >= x, x > R - 1))]
                ax += [r >= e.lo, r <= e.hi]
            else:
                raise Unsupported('LA encoding of ' + op)
        self.enc[e.id] = r
        self.keep.append(e)
        if ax:
            self.ax[e.id] = ax

    def bounds(self, e, r, ax):
        if e.nan:
            return
        if e.lo > -INF:
            ax.append(r >= q(e.lo))
        if e.hi < INF:
            ax.append(r <= q(e.hi))

    def _float(self, e, r, a, ax):
        op = e.op
        xs = e.a
        if op == 'fuf':
            return
        guard = None
        # the term of an infinite value is any real beyond the largest finite one
        wide = [x for x in xs + (e,) if x.s in ('f', 'd') and (x.lo == -INF or x.hi == INF)]
        fing = [self.fin(x) for x in wide]
        if wide:
            opf = z3.And([z3.BoolVal(True)] + [self.fin(x) for x in xs if x.s in ('f', 'd')] + [z3.Not(self.nan(e))])
            F = FMAX[e.s]
            big = q(F) * q(1 - 2.0 ** -20)
            if op == 'fadd':
                ax.append(z3.Implies(z3.And(opf, a[0] + a[1] <= big, a[0] + a[1] >= -big), self.fin(e)))
            elif op == 'fdiv':
                ax += [z3.Implies(z3.And(opf, a[1] > 0, a[0] <= big * a[1], a[0] >= -big * a[1]), self.fin(e)),
                       z3.Implies(z3.And(opf, a[1] < 0, a[0] <= -big * a[1], a[0] >= big * a[1]), self.fin(e))]
            elif op == 'fcut':
                ax.append(z3.Implies(z3.And(opf, a[0] <= big, a[0] >= -big), self.fin(e)))
            elif op == 'fmul':
                for i in (0, 1):
                    c, o = xs[i], a[1 - i]
                    m = max(abs(c.lo), abs(c.hi))
                    if not math.isinf(m) and m > 0:
                        ax.append(z3.Implies(z3.And(opf, q(m) * o <= big, q(m) * o >= -big), self.fin(e)))
            if op == 'fdiv' and xs[1].op != 'c':
                pass
        u = 2.0 ** -24 if e.s == 'f' else 2.0 ** -53
        eta = eta_of(e)
        out = []
        if op == 'fadd':
            ex = a[0] + a[1]
            self.round(e, r, ex, u, 0.0, out, lo=xs[0].lo + xs[1].lo, hi=xs[0].hi + xs[1].hi)
            for i in (0, 1):
                x, y, ye = a[i], a[1 - i], xs[1 - i]
                if ye.hi <= 0:
                    out.append(r <= x)
                elif ye.lo >= 0:
                    out.append(r >= x)
                else:
                    out += [z3.Implies(y >= 0, r >= x), z3.Implies(y <= 0, r <= x)]
            out.append(z3.Implies(r == 0, ex == 0))
        elif op == 'fmul':
            c, o = (0, 1) if xs[0].op == 'c' else (1, 0)
            if xs[c].op == 'c':
                k = xs[c].k
                ex = q(k) * a[o]
                ps = (k * xs[o].lo, k * xs[o].hi)
                self.round(e, r, ex, u, eta, out, min(ps), max(ps))
            else:
                x, y = a
                X, Y = xs
                if X is Y:
                    out += [r >= 0, z3.Implies(z3.And(x <= 1, x >= -1), r <= z3.If(x >= 0, x, -x)),
                            z3.Implies(x >= 1, r >= x), z3.Implies(x <= -1, r >= -x)]
                else:
                    self.signs(X, Y, x, y, r, out, True)
                for i in (0, 1):
                    f, fe, g, ge = a[i], xs[i], a[1 - i], xs[1 - i]
                    # |f| <= 1  ->  |r| <= |g|
                    if ge.lo >= 0:
                        if fe.lo >= 0:
                            if fe.hi <= 1:
                                out.append(r <= g)
                            elif fe.lo >= 1:
                                out.append(r >= g)
                            else:
                                out += [z3.Implies(f <= 1, r <= g), z3.Implies(f >= 1, r >= g)]
                    # McCormick from the bounds of f on the sign-known g (rounding is monotone: compare with representable bounds)
                    if ge.lo >= 0 and not math.isinf(fe.hi) and not math.isinf(fe.lo):
                        m = 1 + 2 * u
                        if fe.hi >= 0:
                            out.append(r <= q(fe.hi) * q(m) * g + q(eta))
                        else:
                            out.append(r <= q(fe.hi) / q(m) * g + q(eta))
                        if fe.lo >= 0:
                            out.append(r >= q(fe.lo) / q(m) * g - q(eta))
                        else:
                            out.append(r >= q(fe.lo) * q(m) * g - q(eta))
        elif op == 'fdiv':
            x, y = a
            X, Y = xs
            if Y.op == 'c' and Y.k != 0:
                ex = x / q(Y.k)
                ps = (X.lo / Y.k, X.hi / Y.k)
                self.round(e, r, ex, u, eta, out, min(ps), max(ps))
            else:
                guard = None if (Y.lo > 0 or Y.hi < 0) else (y != 0)
                self.signs(X, Y, x, y, r, out)
                if X.op == 'fmul' and Y.lo > 0 and eta_of(X) == 0:
                    for i in (0, 1):
                        if X.a[i] is Y and not X.a[1 - i].nan:
                            n = self.term(X.a[1 - i])
                            up, dn = q((1 + u) * (1 + 2 * u)), q((1 - u) * (1 - u) * (1 - u))
                            out += [z3.Implies(n >= 0, z3.And(r <= up * n + q(eta), r >= dn * n - q(eta))),
                                    z3.Implies(n <= 0, z3.And(r >= up * n - q(eta), r <= dn * n + q(eta)))]
                if X.lo >= 0 and Y.lo >= 0:
                    out += [z3.Implies(x >= y, r >= 1), z3.Implies(x <= y, r <= 1),
                            z3.Implies(y >= 1, r <= x), z3.Implies(y <= 1, r >= x)]
                    if Y.lo > 0:
                        m = 1 + 2 * u
                        out += [r <= x * q(m) / q(Y.lo) + q(eta)] if math.isinf(Y.hi) else [r <= x * q(m) / q(Y.lo) + q(eta), r >= x / q(m) / q(Y.hi) - q(eta)]
        elif op == 'fsqrt':
            x = a[0]
            out += [r >= 0, z3.Implies(x >= 1, r <= x), z3.Implies(x <= 1, r >= x), z3.Implies(x == 0, r == 0), z3.Implies(r == 0, x <= 0)]
            guard = None if e.a[0].lo >= 0 else x >= 0
        elif op == 'i2f':
            x = z3.ToReal(a[0])
            X = xs[0]
            if max(abs(X.lo), abs(X.hi)) <= (2 ** 24 if e.s == 'f' else 2 ** 53):
                out.append(r == x)
            else:
                self.round(e, r, x, u, 0.0, out, X.lo, X.hi)
        elif op == 'fcut':
            X = xs[0]
            self.round(e, r, a[0], u, eta, out, X.lo, X.hi)
        if fing and out:
            out = [z3.Implies(z3.And(*fing), z3.And(*out))]
        if guard is not None:
            out = [z3.Implies(guard, z3.And(*out))] if out else []
        if e.nan:
            n = self.nan(e)
            out = [z3.Implies(z3.Not(n), z3.And(*out))] if out else []
        ax += out

    def fin(self, e):
        if not (math.isinf(e.lo) or math.isinf(e.hi)):
            return z3.BoolVal(True)
        t = self.term(e)
        F = q(FMAX[e.s])
        return z3.And(t <= F, t >= -F)

    def inf(self, e):
        return z3.And(z3.Not(self.nan(e)), z3.Not(self.fin(e)))

    def round(self, e, r, ex, u, eta, out, lo, hi):
        up, dn = q(1 + u), q(1 - u)
        h = q(eta)
        if lo >= 0:
            out += [r <= up * ex + h, r >= dn * ex - h]
        elif hi <= 0:
            out += [r >= up * ex - h, r <= dn * ex + h]
        else:
            out += [z3.Implies(ex >= 0, z3.And(r <= up * ex + h, r >= dn * ex - h, r >= 0)),
                    z3.Implies(ex <= 0, z3.And(r >= up * ex - h, r <= dn * ex + h, r <= 0))]

    def signs(self, X, Y, x, y, r, out, mul=False):
        def pos(E_, t):
            return True if E_.lo >= 0 else (False if E_.hi < 0 else None)
        px, py = pos(X, x), pos(Y, y)
        if px is True and py is True:
            out.append(r >= 0)
        elif px is not None and py is not None:
            out.append(r >= 0 if px == py else r <= 0)
        elif px is True:
            out += [z3.Implies(y >= 0, r >= 0), z3.Implies(y <= 0, r <= 0)]
        elif py is True:
            out += [z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0)]
        else:
            out += [z3.Implies((x >= 0) == (y >= 0), r >= 0), z3.Implies(z3.And(x >= 0, y <= 0), r <= 0), z3.Implies(z3.And(x <= 0, y >= 0), r <= 0)]
        for E_, t in ((X, x), (Y, y)):
            if E_.lo <= 0 <= E_.hi and not (t is y and E_ is Y and False):
                pass
        if X.lo <= 0 <= X.hi:
            out.append(z3.Implies(x == 0, r == 0))
        if mul and Y.lo <= 0 <= Y.hi:
            out.append(z3.Implies(y == 0, r == 0))

    # ---------------------------------------------------------- solving
    def add_axioms(self, e):
        """assert the axioms of everything reachable from e in the current scope"""
        st = [e]
        cur = self.scopes[-1]
        while st:
            x = st.pop()
            if x.id in self.asserted:
                continue
            self.asserted.add(x.id)
            cur.add(x.id)
            self.term(x)
            for f in self.ax.get(x.id, ()):
                self.s.add(f)
            st.extend(x.a)
            if x.nan and x.s in ('f', 'd'):
                n = isnan(x)
                if n.op == 'isnan':
                    self.term(n)
                    if n.id not in self.asserted:
                        self.asserted.add(n.id)
                        cur.add(n.id)
                        for f in self.ax.get(n.id, ()):
                            self.s.add(f)

    def push(self):
        self.s.push()
        self.scopes.append(set())

    def pop(self):
        self.s.pop()
        self.asserted -= self.scopes.pop()

    def sync(self, pc):
        """make the solver stack equal to the list of asserted expressions pc"""
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        while len(st) > n:
            st.pop()
            self.pop()
        for e in pc[n:]:
            self.push()
            st.append(e)
            t = self.term(e)
            self.add_axioms(e)
            self.s.add(t)

    def check(self, pc, extra=None, about=None):
        """'sat' / 'unsat' / 'unknown' of pc and extra"""
        import time
        self.sync(pc)
        t0 = time.time()
        self.checks += 1
        if about is not None and extra is None:
            self.push()
            self.add_axioms(about)      # the model is to give a value of this expression
            r = self.s.check()
            self.model = self.s.model() if r == z3.sat else None
            self.pop()
        elif extra is None:
            r = self.s.check()
            self.model = self.s.model() if r == z3.sat else None
        else:
            self.push()
            t = self.term(extra)
            self.add_axioms(extra)
            self.s.add(t)
            r = self.s.check()
            self.model = self.s.model() if r == z3.sat else None
            self.pop()
        self.time += time.time() - t0
        return str(r)

    def value(self, e):
        v = self.model.eval(self.term(e), model_completion=True)
        if e.s == 1:
            return z3.is_true(v)
        if e.s in ('f', 'd'):
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            try:
                return float(v.as_fraction())
            except OverflowError:
                return math.inf if v.as_fraction() > 0 else -math.inf
        return v.as_long()
