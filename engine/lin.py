"""Incremental linearisation: a sound linear abstraction (la.LA) refined with lemma instances
that the current model violates - monotonicity of correctly rounded operations, tangent planes
of products, quotients and square roots, and integrality splits.  'unsat' is a proof over all
values; a model is only reported if it holds bit-exactly on the expression graph."""
import fractions
import math
import os
import time

import z3
from expr import *
import la
from la import LA, q

DEBUG = int(os.environ.get('VP_DEBUG', '0')) - 1
MONO = set(ROUNDERS) | {'fsqrt', 'fcut', 'i2f'}


class Lin(LA):
    def __init__(self):
        LA.__init__(self, 3000)
        self.ints = False


def fr(v):
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_int_value(v):
        return fractions.Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    return None


def small(f):
    """a nearby double, as a fraction"""
    try:
        return fractions.Fraction(float(f))
    except OverflowError:
        return f


def num(x):
    return z3.RealVal(str(fractions.Fraction(x)))


def solve(conj, inputs_env, accept, tmo, maxit=200):
    """conj: list of boolean expressions -> ('unsat', None) | ('sat', env) | ('unknown', None)"""
    t_end = time.time() + tmo
    L = Lin()
    for c in conj:
        t = L.term(c)
        L.add_axioms(c)
        L.s.add(t)
    seen = set()
    nodes = []
    for e in topo(conj):
        if e.s in ('f', 'd') and e.op in ('fadd', 'fmul', 'fdiv') or e.op in MONO:
            if e.id in L.enc:
                nodes.append(e)
    vs = [e for e in topo(conj) if e.op == 'var']
    T = L.enc
    groups = {}
    for e in nodes:
        if e.op == 'fadd':
            groups.setdefault(('fadd', e.s), []).append(('sum', e))
        elif e.op == 'fmul':
            for i in (0, 1):
                groups.setdefault(('fmul', e.s, e.a[i].id), []).append((1 - i, e))
        elif e.op == 'fdiv':
            groups.setdefault(('fdivd', e.s, e.a[1].id), []).append((0, e))
            groups.setdefault(('fdivn', e.s, e.a[0].id), []).append((1, e))
        else:
            groups.setdefault((e.op, e.s), []).append((0, e))
    # n * y against x / y
    cancel = []
    divs = {}
    for e in nodes:
        if e.op == 'fdiv' and e.a[1].op != 'c':
            divs.setdefault((e.s, e.a[1].id), []).append(e)
    for e in nodes:
        if e.op == 'fmul':
            for i in (0, 1):
                for d in divs.get((e.s, e.a[i].id), ()):
                    if not any(x is e for x in ()) and e.a[1 - i].op != 'c':
                        cancel.append((e, e.a[1 - i], d))
    groups = [(k, g) for k, g in groups.items() if len(g) > 1]
    lemmas = 0
    conf = 0
    tried = 0
    for it in range(maxit):
        left = t_end - time.time()
        if left <= 0:
            return ('unknown', None)
        # z3's run time varies wildly with its seed: short slices over fresh configurations
        r = z3.unknown
        slice_ = 1.0
        while r == z3.unknown:
            left = t_end - time.time()
            if left <= 0:
                break
            L.s.set('timeout', max(50, int(min(left, slice_) * 1000)))
            r = L.s.check()
            L.checks += 1
            if r == z3.unknown:
                conf += 1
                slice_ *= 1.5
                s2 = z3.SimpleSolver() if conf % 4 == 3 else z3.Solver()
                try:
                    s2.set('smt.arith.solver' if conf % 4 != 3 else 'arith.solver', (2, 6)[conf % 2])
                    s2.set('random_seed', conf)
                except z3.Z3Exception:
                    pass
                s2.add(L.s.assertions())
                L.s = s2
        if r == z3.unsat:
            return ('unsat', 'lin')
        if r != z3.sat:
            if DEBUG > 0:
                print('lin: z3', r, L.s.reason_unknown(), 'iteration', it)
            return ('unknown', None)
        m = L.s.model()
        if it % 3 == 0 or it < 4:
            env = {}
            for v in vs:
                x = m.eval(T[v.id], model_completion=True)
                if v.s == 1:
                    env[v.k] = z3.is_true(x)
                elif v.s in ('f', 'd'):
                    env[v.k] = min(max(rnd(v.s, float(fr(x))), v.lo), v.hi)
                else:
                    env[v.k] = x.as_long()
            tried += 1
            if accept(env):
                return ('sat', env)
        val = {}

        def V(e):
            r = val.get(e.id)
            if r is None:
                t = T[e.id]
                r = fr(m.eval(z3.ToReal(t) if t.sort() == z3.IntSort() else t, model_completion=True))
                val[e.id] = r
            return r

        def R(e):
            t = T[e.id]
            return z3.ToReal(t) if t.sort() == z3.IntSort() else t
        new = []

        def ok(*es):
            # lemmas hold only where no operand is NaN
            g = [z3.Not(L.nan(x)) for e in es for x in (e,) + tuple(y for y in e.a if y.s in ('f', 'd')) if x.nan]
            return g

        def add(key, f, *es):
            if key in seen:
                return
            seen.add(key)
            g = ok(*es)
            g += [L.fin(x) for e in es for x in (e,) + tuple(e.a) if x.s in ('f', 'd') and (math.isinf(x.lo) or math.isinf(x.hi))]
            if g:
                for e in es:
                    for x in (e,) + tuple(e.a):
                        if x.s in ('f', 'd') and x.nan:
                            n = isnan(x)
                            L.add_axioms(n)
                f = z3.Implies(z3.And(*g), f)
            new.append(f)
        # monotonicity
        for k, g in groups:
            if k[0] == 'fadd':
                it_ = sorted(((V(e.a[0]) + V(e.a[1]), V(e), e) for _, e in g), key=lambda t: (t[0], -t[1]))
                best = None
                for ex, rv, e in it_:
                    if best is not None and best[1] > rv and best[2] is not e:
                        f = best[2]
                        if True:
                            add(('m', f.id, e.id), z3.Implies(R(f.a[0]) + R(f.a[1]) <= R(e.a[0]) + R(e.a[1]), R(f) <= R(e)), e, f)
                    if best is None or rv > best[1]:
                        best = (ex, rv, e)
                continue
            if k[0] == 'fmul' or k[0] == 'fdivd':
                i0, e0 = g[0]
                sh = e0.a[1 - i0]
                sv = V(sh)
                if k[0] == 'fdivd' and sv == 0:
                    continue
                items = sorted(((V(e.a[i]) * (1 if sv >= 0 else -1), V(e), e, i) for i, e in g), key=lambda t: (t[0], -t[1]))
                best = None
                for xv, rv, e, i in items:
                    if best is not None and best[1] > rv and best[2] is not e:
                        f, j = best[2], best[3]
                        s = R(sh)
                        if k[0] == 'fdivd':
                            add(('m', f.id, e.id, 0), z3.And(z3.Implies(z3.And(s > 0, R(f.a[j]) <= R(e.a[i])), R(f) <= R(e)),
                                                             z3.Implies(z3.And(s < 0, R(f.a[j]) >= R(e.a[i])), R(f) <= R(e))), e, f)
                        else:
                            add(('m', f.id, e.id, 0), z3.And(z3.Implies(z3.And(s >= 0, R(f.a[j]) <= R(e.a[i])), R(f) <= R(e)),
                                                             z3.Implies(z3.And(s <= 0, R(f.a[j]) >= R(e.a[i])), R(f) <= R(e))), e, f)
                    if best is None or rv > best[1]:
                        best = (xv, rv, e, i)
                continue
            if k[0] == 'fdivn':
                n = g[0][1].a[0]
                if V(n) < 0:
                    continue
                items = sorted(((-V(e.a[1]), V(e), e) for _, e in g if V(e.a[1]) > 0), key=lambda t: (t[0], -t[1]))
                best = None
                for xv, rv, e in items:
                    if best is not None and best[1] > rv and best[2] is not e:
                        f = best[2]
                        add(('m', f.id, e.id, 1), z3.Implies(z3.And(R(n) >= 0, R(e.a[1]) > 0, R(f.a[1]) >= R(e.a[1])), R(f) <= R(e)), e, f)
                    if best is None or rv > best[1]:
                        best = (xv, rv, e)
                continue
            items = sorted(((V(e.a[0]), V(e), e) for _, e in g), key=lambda t: (t[0], -t[1]))
            best = None
            for xv, rv, e in items:
                if best is not None and best[1] > rv and best[2] is not e:
                    f = best[2]
                    add(('m', f.id, e.id), z3.Implies(R(f.a[0]) <= R(e.a[0]), R(f) <= R(e)), e, f)
                if best is None or rv > best[1]:
                    best = (xv, rv, e)
        for e, n, d in cancel:
            x, y = d.a
            u = fractions.Fraction(2.0 ** -24 if e.s == 'f' else 2.0 ** -53)
            eta = fractions.Fraction(la.eta_of(e)) 
            etad = fractions.Fraction(la.eta_of(d))
            nv, dv, xv, yv, rv = V(n), V(d), V(x), V(y), V(e)
            if yv <= 0 or xv < 0 or nv < 0:
                continue
            hyp = z3.And(R(y) > 0, R(x) >= 0, R(n) >= 0)
            for c in (0, fractions.Fraction(1, 2), 1):
                if nv <= dv + c and rv > (xv + c * yv) * (1 + 4 * u) + eta + etad * yv:
                    add(('c', e.id, d.id, c, 1), z3.Implies(z3.And(hyp, R(n) <= R(d) + num(c)),
                                                            R(e) <= (R(x) + num(c) * R(y)) * num(1 + 4 * u) + num(eta) + num(etad * 2) * R(y)), e, d)
                    break
                if nv >= dv - c and rv < xv * (1 - 3 * u) - c * yv - eta - etad * yv:
                    add(('c', e.id, d.id, c, 0), z3.Implies(z3.And(hyp, R(n) >= R(d) - num(c)),
                                                            R(e) >= R(x) * num(1 - 3 * u) - num(c) * R(y) - num(eta) - num(etad * 2) * R(y)), e, d)
                    break
        if not new or it > 6:
            for e in nodes:
                rv = V(e)
                u = 2.0 ** -24 if e.s == 'f' else 2.0 ** -53
                eta = fractions.Fraction(la.eta_of(e))
                U1, D1 = 1 + fractions.Fraction(u), 1 - fractions.Fraction(u)
                if e.op in ROUNDERS:
                    if rv.denominator != 1:
                        k0 = rv.numerator // rv.denominator
                        add(('i', e.id, k0), z3.Or(R(e) <= k0, R(e) >= k0 + 1), e)
                    else:
                        x = e.a[0]
                        # fround((u * k) / u) == k while |k| <= 2^22
                        if e.op == 'fround' and x.op == 'fdiv' and x.a[0].op == 'fmul':
                            d = x.a[1]
                            for i in (0, 1):
                                kk = x.a[0].a[1 - i]
                                if x.a[0].a[i] is d and kk.op in ROUNDERS and V(kk) != rv and kk.id in T:
                                    lim = num(2 ** 22 if e.s == 'f' else 2 ** 50)
                                    # no underflow or overflow: u and u*k are normal numbers
                                    if d.lo > 1e-30 and d.hi < 1e30:
                                        add(('g', e.id), z3.Implies(z3.And(R(kk) <= lim, R(kk) >= -lim), R(e) == R(kk)), e)
                elif e.op == 'fmul' and e.a[0].op != 'c' and e.a[1].op != 'c':
                    a, b = e.a
                    x0, y0 = V(a), V(b)
                    p = x0 * y0
                    x, y, r = R(a), R(b), R(e)
                    if rv > max(p * U1, p * D1) + eta or rv < min(p * U1, p * D1) - eta:
                        X0, Y0 = num(small(x0)), num(small(y0))
                        tp = X0 * y + Y0 * x - X0 * Y0
                        up = rv > p
                        sgn = []
                        if a is b:
                            # square: tangents below, and the sign lemma above
                            if not up:
                                add(('t', e.id, float(x0), float(y0), 0), r >= num(D1) * tp - num(eta), e)
                            else:
                                # secant over a neighbourhood of x0
                                w = abs(small(x0)) / 4 + fractions.Fraction(1, 1000)
                                l, h = small(x0) - w, small(x0) + w
                                add(('t', e.id, float(x0), float(y0), 1),
                                    z3.Implies(z3.And(x >= num(l), x <= num(h)), r <= num(U1) * (num(l + h) * x - num(l * h)) + num(eta)), e)
                            continue
                        # products of known sign only, otherwise the rounding direction is open
                        def rb(t, hi):
                            # bound of the rounded value from a bound t of the exact one
                            if hi:
                                return z3.If(t >= 0, num(U1) * t, num(D1) * t) + num(eta)
                            return z3.If(t >= 0, num(D1) * t, num(U1) * t) - num(eta)
                        if up:
                            c = z3.Or(z3.And(x <= X0, y >= Y0), z3.And(x >= X0, y <= Y0))
                            add(('t', e.id, float(x0), float(y0), 1), z3.Implies(c, r <= rb(tp, True)), e)
                        else:
                            c = z3.Or(z3.And(x <= X0, y <= Y0), z3.And(x >= X0, y >= Y0))
                            add(('t', e.id, float(x0), float(y0), 0), z3.Implies(c, r >= rb(tp, False)), e)
                elif e.op == 'fdiv' and e.a[1].op != 'c':
                    a, b = e.a
                    x0, y0 = V(a), V(b)
                    if y0 <= 0:
                        continue
                    p = x0 / y0
                    x, y, r = R(a), R(b), R(e)
                    fin = []
                    rp = max(p * U1, p * D1) + eta
                    rm = min(p * U1, p * D1) - eta
                    if rv > rp or rv < rm:
                        R0, Y0 = num(small(rv)), num(small(y0))
                        tp = R0 * y + Y0 * r - R0 * Y0
                        if rv > p:
                            # r*y <= x(1+-u) + eta*y ; lower estimators of r*y
                            c = z3.Or(z3.And(r <= R0, y <= Y0), z3.And(r >= R0, y >= Y0))
                            hi = z3.If(x >= 0, num(U1) * x, num(D1) * x) + num(eta) * y
                            add(('t', e.id, float(rv), float(y0), 1), z3.Implies(z3.And(y > 0, c, *fin), tp <= hi), e)
                        else:
                            c = z3.Or(z3.And(r <= R0, y >= Y0), z3.And(r >= R0, y <= Y0))
                            lo = z3.If(x >= 0, num(D1) * x, num(U1) * x) - num(eta) * y
                            add(('t', e.id, float(rv), float(y0), 0), z3.Implies(z3.And(y > 0, c, *fin), tp >= lo), e)
                elif e.op == 'fsqrt':
                    x0 = V(e.a[0])
                    if x0 < 0:
                        continue
                    x, r = R(e.a[0]), R(e)
                    if rv * rv > x0 * U1 * U1:
                        r0 = num(small(rv))
                        add(('t', e.id, float(rv), 1), z3.Implies(x >= 0, 2 * r0 * r - r0 * r0 <= num(U1 * U1) * x), e)
                    elif rv * rv < x0 * D1 * D1:
                        # sqrt is concave: secant between l and h lies below
                        w = small(x0) / 4
                        l, h = small(x0) - w, small(x0) + w
                        sl = fractions.Fraction(math.sqrt(float(l))) * fractions.Fraction(1 - 1e-12)
                        sh_ = fractions.Fraction(math.sqrt(float(h))) * fractions.Fraction(1 - 1e-12)
                        if h > l:
                            add(('t', e.id, float(x0), 0), z3.Implies(z3.And(x >= num(l), x <= num(h)),
                                                                      r >= num(D1) * (num(sl) + (x - num(l)) * num((sh_ - sl) / (h - l)))), e)
        if DEBUG > 0:
            print('it', it, [(show(e, 3), float(V(e)), [float(V(y)) if y.s in ('f', 'd') else '' for y in e.a]) for e in nodes], 'new', len(new), new[:2])
        if not new:
            if DEBUG > 0:
                print('lin: no lemma, iteration', it)
            return ('unknown', None)
        lemmas += len(new)
        for f in new:
            L.s.add(f)
    return ('unknown', None)


def bounded(e):
    return not (math.isinf(e.lo) or math.isinf(e.hi)) and not any(x.s in ('f', 'd') and (math.isinf(x.lo) or math.isinf(x.hi)) for x in e.a)
