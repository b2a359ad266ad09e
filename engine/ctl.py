"""Path controller, harness primitives and library models of the symbolic executor."""
import math
import os
import sys
import time

import rt
import lin
import smt
import expr as X
from expr import *
from rt import *
from la import LA
FALSE = X.FALSE if hasattr(X, 'FALSE') else bnot(TRUE)

sys.setrecursionlimit(20000)


class Violation(object):
    def __init__(self, kind, label, env, note=''):
        self.kind, self.label, self.env, self.note = kind, label, env, note


REBUILD = dict(fadd=X.fadd, fmul=X.fmul, fdiv=X.fdiv, fneg=X.fneg, fext=X.fext, fmin=X.fmin, fmax=X.fmax, fite=X.fite, fsqrt=X.fsqrt, fle=X._fle,
               bite=X.bite, isnan=X.isnan, band=X.band, bor=X.bor)
REBUILD['not'] = X.bnot
REBUILD['and'] = X.band


class Ctl(object):
    """one worker: explores paths by re-execution"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.la = LA(cfg.get('la_ms', 2000))
        self.st = dict(paths=0, infeasible=0, checks=0, syntactic=0, la_proved=0, heavy=0, heavy_proved=0, narrow=0,
                       narrow_labels={}, unknown=[], branches=0, la_checks=0, la_time=0.0, smt_queries=0, smt_time=0.0,
                       labels={}, bugs=0, steps=0)
        self.violations = []
        self.witness = []
        self.covered = set()
        self.cover_all = set()
        self.heavy_cache = {}
        self.deadline = cfg.get('deadline')
        rt.S.ctl = self

    # ------------------------------------------------------------- path
    def begin(self, prefix):
        self.dec = list(prefix)
        self.pos = 0
        self.pc = []
        self.known = {}
        self.alts = []
        self.inputs = []
        self.obs = []
        self.pcovers = []
        self.failed_here = False
        self.toks = []
        self.tokix = {}

    def learn(self, c):
        if c.op == 'and':
            for x in c.a:
                self.learn(x)
        self.known[c.id] = True
        self.known[bnot(c).id] = False

    def add(self, c):
        if c.op == 'c':
            return
        self.pc.append(c)
        self.learn(c)

    def lookup(self, c):
        k = self.known.get(c.id)
        if k is not None:
            return k
        if c.op == 'and':
            al = True
            for x in c.a:
                k = self.known.get(x.id)
                if k is False:
                    return False
                if k is None:
                    al = False
            if al:
                return True
        elif c.op == 'not' and c.a[0].op == 'and':
            k = self.lookup(c.a[0])
            return None if k is None else not k
        return None

    def branch(self, c):
        if c.op == 'c':
            return bool(c.k)
        k = self.lookup(c)
        if k is not None:
            return k
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            self.add(c if d[1] else bnot(c))
            return d[1]
        if self.deadline and time.time() > self.deadline:
            raise Timeout()
        self.st['branches'] += 1
        nc = bnot(c)
        r1 = self.la.check(self.pc, c)
        if r1 == 'unsat':
            v, alt = False, False
        else:
            r2 = self.la.check(self.pc, nc)
            v, alt = True, r2 != 'unsat'
        if alt:
            self.alts.append(self.dec[:self.pos] + [('b', False)])
        self.dec.append(('b', v))
        self.pos += 1
        self.add(c if v else nc)
        return v

    def concretize(self, e):
        """fork over all feasible values of an integer expression"""
        if e.op == 'c':
            return e.k
        for n in range(4096):
            if self.pos < len(self.dec):
                d = self.dec[self.pos]
                self.pos += 1
                val = d[2]
                c = X.ieq(e, ci(val, 64))
                self.add(c if d[1] else bnot(c))
                if d[1]:
                    return val
                continue
            r = self.la.check(self.pc, about=e)
            if r == 'unsat':
                raise PathEnd('infeasible')
            if r != 'sat':
                raise Unsupported('cannot enumerate the values of an index')
            val = self.la.value(e)
            c = X.ieq(e, ci(val, 64))
            if c.op == 'c':
                if c.k:
                    return val
                raise Unsupported('enumerating the values of an index')
            if self.la.check(self.pc, bnot(c)) != 'unsat':
                self.alts.append(self.dec[:self.pos] + [('c', False, val)])
            self.dec.append(('c', True, val))
            self.pos += 1
            self.add(c)
            return val
        raise Unsupported('too many values of an index')

    def assume(self, c):
        if c.op == 'c':
            if not c.k:
                raise PathEnd('assume')
            return
        k = self.lookup(c)
        if k is True:
            return
        if k is False:
            raise PathEnd('assume')
        self.add(c)
        if self.pos >= len(self.dec):
            if self.la.check(self.pc) == 'unsat':
                raise PathEnd('assume')

    # ------------------------------------------------------------ inputs
    def input(self, name, s, lo, hi):
        e = X.VARS.get(name)
        if e is not None and (e.s != s or (e.lo, e.hi) != (lo, hi)):
            # another path declared it with other bounds; the suffix is dropped for replays
            name = '%s@%s_%s_%s' % (name, s, lo, hi)
        v = X.var(name, s, lo, hi)
        if v not in self.inputs:
            self.inputs.append(v)
        return v

    def env_from_la(self):
        env = {}
        for v in self.inputs:
            x = self.la.value(v)
            if v.s in ('f', 'd'):
                x = rnd(v.s, x)
                x = min(max(x, v.lo), v.hi)
            elif v.s != 1:
                x = min(max(x, v.lo), v.hi)
            env[v.k] = x
        return env

    def complete(self, env):
        out = {}
        base = getattr(self, 'base_env', None)
        for v in self.inputs:
            if v.k in env:
                out[v.k] = env[v.k]
            elif base and v.k in base:
                out[v.k] = base[v.k]
            else:
                out[v.k] = (v.lo if v.s != 1 else False)
        return out

    def holds(self, conj, env):
        for v in self.inputs:
            if v.s != 1 and v.k in env and not v.lo <= env[v.k] <= v.hi:
                return False
        try:
            V = evaluate(conj, env)
        except (OverflowError, ValueError, ZeroDivisionError, KeyError):
            return False
        return all(V[c.id] for c in conj)

    # ------------------------------------------------------------ checks
    def check(self, c, label, kind='check'):
        st = self.st
        lb = st['labels'].setdefault(label, [0, 0])
        lb[0] += 1
        st['checks'] += 1
        if c.op == 'c' and c.k or self.lookup(c) is True:
            st['syntactic'] += 1
            lb[1] += 1
            return True
        if self.pos < len(self.dec):
            return True   # decided when this prefix was first executed
        if label in self.cfg.get('skip_labels', ()):
            return True
        goals = list(c.a) if c.op == 'and' else [c]
        ok = True
        for g in goals:
            if self.lookup(g) is True:
                continue
            if not self.prove(g, label, kind):
                ok = False
                break
        if ok:
            lb[1] += 1
        return ok

    def rewrite(self, e, memo):
        """e with conditional values decided by known facts of the path replaced"""
        st = [e]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [y for y in x.a if y.id not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            a = [memo[y.id] for y in x.a]
            r = x
            if x.op in ('fite', 'iite', 'bite', 'ite') and len(x.a) == 3:
                k = self.lookup(x.a[0])
                if k is None and a[0].op == 'c':
                    k = bool(a[0].k)
                if k is not None:
                    memo[x.id] = a[1] if k else a[2]
                    continue
            if x.op in ('fmin', 'fmax') and not x.nan:
                u, v = x.a
                k = self.known.get(X._fle(u, v).id)
                if k is None:
                    k = self.known.get(X._fle(v, u).id)
                    k = None if k is None else not k
                if k is not None:
                    memo[x.id] = a[0] if k == (x.op == 'fmin') else a[1]
                    continue
            if any(y is not z for y, z in zip(x.a, a)):
                f = REBUILD.get(x.op)
                if x.op == 'lin':
                    r = X.lincomb([(c, memo[y.id]) for c, y in x.k[0]], x.k[1], x.s)
                else:
                    r = f(*a) if f else X._mk(x.op, x.s, tuple(a), x.k, x.lo, x.hi, x.nan)
            memo[x.id] = r
        return memo[e.id]

    def prove(self, g, label, kind):
        st = self.st
        memo = {}
        g2 = self.rewrite(g, memo)
        if g2.op == 'c' and g2.k or g2 is not g and self.lookup(g2) is True:
            st['syntactic'] += 1
            return True
        if g2.op == 'and':
            return all(self.prove1(x, label, kind, memo) for x in g2.a)
        return self.prove1(g2, label, kind, memo)

    def prove1(self, g, label, kind, memo):
        st = self.st
        ng = bnot(g)
        if g.op == 'c' and g.k:
            return True
        r = self.la.check(self.pc, ng)
        if r == 'unsat':
            st['la_proved'] += 1
            return True
        # quick counterexample from the abstraction
        if r == 'sat':
            env = self.env_from_la()
            self.base_env = env
            if self.holds(self.pc + [ng], env):
                self.violate(label, env, kind)
                return False
        else:
            self.base_env = {}
        st['heavy'] += 1
        if label in [v.label for v in self.violations]:
            return False
        cone = smt.cone([y for y in (self.rewrite(x, memo) for x in self.pc) if y.op != 'c' or not y.k], ng)
        key = (tuple(sorted(x.id for x in cone)), ng.id)
        if os.environ.get('VP_DUMPALL'):
            X.dump(cone + [ng], os.path.join(os.environ['VP_DUMPALL'], 'h%d_%d.pkl' % (os.getpid(), ng.id)))
        res = self.heavy_cache.get(key)
        if res is None:
            res = self.heavy(cone, ng)
            self.heavy_cache[key] = res
        if res[0] == 'unsat':
            st['heavy_proved'] += 1
            return True
        if res[0] == 'narrow':
            st['narrow'] += 1
            n = st['narrow_labels']
            n[label] = n.get(label, 0) + 1
            return True
        if res[0] == 'sat':
            env = self.complete(res[1])
            if self.holds(self.pc + [ng], env):
                self.violate(label, env, kind)
                return False
            env2 = self.fix_rest(res[1], cone)
            if env2 is not None and self.holds(self.pc + [ng], env2):
                self.violate(label, env2, kind)
                return False
            # the other components of the path condition need a model of their own
            r2 = self.heavy(list(self.pc), ng)
            if r2[0] == 'unsat':
                return True
            if r2[0] == 'sat':
                self.violate(label, self.complete(r2[1]), kind)
                return False
        st['unknown'].append(label)
        if os.environ.get('VP_DUMP'):
            X.dump(cone + [ng], os.path.join(os.environ['VP_DUMP'], 'u%d_%d.pkl' % (os.getpid(), ng.id)))
        if os.environ.get('VP_DEBUG'):
            print('UNKNOWN', label, show(ng, 12), 'pc', [show(x, 6) for x in cone], flush=True)
        return False

    def fix_rest(self, env, cone):
        """complete a model of the goal's cone with an abstraction model of the rest"""
        ids = set(x.id for x in cone)
        rest = [x for x in self.pc if x.id not in ids]
        la = LA(1000)
        la.ints = False
        if la.check(rest) != 'sat':
            return None
        out = {}
        for v in self.inputs:
            if v.k in env:
                out[v.k] = env[v.k]
            else:
                x = la.value(v)
                out[v.k] = min(max(rnd(v.s, x), v.lo), v.hi) if v.s in ('f', 'd') else x
        return out

    def heavy(self, cone, ng):
        conj = cone + [ng]

        def accept(env):
            V = self.complete(env)
            return self.holds(conj, V)
        q0, t0 = smt.STATS.queries, smt.STATS.time
        res = ('unknown', None)
        if self.cfg.get('lin_s', 10):
            t1 = time.time()
            res = lin.solve(conj, None, accept, self.cfg.get('lin_s', 10))
            self.st['lin_queries'] = self.st.get('lin_queries', 0) + 1
            self.st['smt_time'] += time.time() - t1
            if os.environ.get('VP_DEBUG'):
                print('   lin', res[0], '%.1fs' % (time.time() - t1), flush=True)
            if res[0] != 'unknown':
                return res
        for stage in self.cfg['plan']:
            tmo_left = (self.deadline - time.time()) if self.deadline else 1e9
            if tmo_left < 2:
                break
            res2 = smt.portfolio(conj, [(k, w, n, min(t, tmo_left)) for k, w, n, t in stage], accept)
            if res2[0] in ('unsat', 'sat'):
                res = res2
                break
            if res2[0] == 'narrow':
                res = res2
        self.st['smt_queries'] += smt.STATS.queries - q0
        self.st['smt_time'] += smt.STATS.time - t0
        return res

    def violate(self, label, env, kind):
        self.violations.append(Violation(kind, label, dict(env)))

    def bug(self, what):
        """abort/UB reached: a violation if the path is feasible"""
        self.st['bugs'] += 1
        label = 'no abort or undefined behaviour'
        if any(v.note == what for v in self.violations):
            return
        r = self.la.check(self.pc)
        if r == 'unsat':
            return
        env = None
        if r == 'sat':
            self.base_env = e0 = self.env_from_la()
            if self.holds(self.pc, e0):
                env = e0
        if env is None:
            res = self.heavy(list(self.pc), TRUE) if self.pc else ('sat', {})
            if res[0] == 'unsat':
                return
            if res[0] == 'narrow':
                self.st['narrow'] += 1
                self.st['narrow_labels'][what] = self.st['narrow_labels'].get(what, 0) + 1
                return
            if res[0] == 'sat':
                env = self.complete(res[1])
                if not self.holds(self.pc, env):
                    env = None
            if env is None:
                self.st['unknown'].append('%s: %s' % (label, what))
                return
        self.violations.append(Violation('bug', label, env, what))

    def end_path(self):
        """try to obtain a concrete witness of this path"""
        new = [c for c in self.pcovers if c not in self.covered]
        self.cover_all |= set(self.pcovers)
        nw = len(self.witness)
        if not new and not (nw < self.cfg.get('witnesses', 3)):
            return
        r = self.la.check(self.pc)
        if r == 'unsat':
            self.st['infeasible'] += 1
            return
        env = None
        if r == 'sat':
            e0 = self.env_from_la()
            self.base_env = e0
            if self.holds(self.pc, e0):
                env = e0
        if env is None and new and self.pc and self.cfg.get('witness_solve', True):
            def accept(m):
                return self.holds(self.pc, self.complete(m))
            res = smt.portfolio(list(self.pc), [('exact', 'z3', None, 4), ('fpn', 'z3', 4, 6), ('fpn', 'cvc5', 6, 6)], accept)
            if res[0] == 'sat':
                env = self.complete(res[1])
        if env is None:
            return
        V = evaluate([e for _, e in self.obs if isinstance(e, E)], env) if self.obs else {}
        obs = []
        for n, e in self.obs:
            obs.append((n, V[e.id] if isinstance(e, E) else e))
        self.covered |= set(new)
        self.witness.append((dict(env), obs, list(self.pcovers)))


class Timeout(Exception):
    pass


# --------------------------------------------------------------- library models
F = {}
NAN = math.nan


def model(*names):
    def deco(f):
        for n in names:
            F[n] = f
        return f
    return deco


@model('_Znwm', '_Znam', 'malloc')
def _new(n, *_):
    return malloc(n)


@model('_ZnwmSt11align_val_t')
def _newal(n, *_):
    return malloc(n)


@model('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t')
def _del(p, *_):
    free(p)


@model('memcmp', 'bcmp')
def _memcmp(a, b, n):
    n = concint(n, 64)
    for i in range(n):
        x = load(a + i, 1)
        y = load(b + i, 1)
        if x.__class__ is E and y is x:
            continue
        if x.__class__ is int and y.__class__ is int:
            if x != y:
                return 1 if x > y else 0xffffffff
            continue
        x, y = concint(x, 8), concint(y, 8)
        if x != y:
            return 1 if x > y else 0xffffffff
    return 0


@model('strlen')
def _strlen(p):
    return len(cstr(p))


@model('strcmp')
def _strcmp(a, b):
    a, b = cstr(a), cstr(b)
    return 0 if a == b else (1 if a > b else 0xffffffff)


@model('memchr')
def _memchr(p, c, n):
    c = concint(c, 32) & 255
    for i in range(concint(n, 64)):
        if concint(load(p + i, 1), 8) == c:
            return p + i
    return 0


@model('memcpy', 'memmove')
def _memcpy(d, s, n):
    memcpy(d, s, n)
    return d


@model('memset')
def _memset(d, v, n):
    memset(d, v & 255, n)
    return d


@model('__assert_fail')
def _assert(e, f, l, fn):
    raise BugFound('assertion failed: %s (%s:%d)' % (cstr(e), os.path.basename(cstr(f)), l))


@model('abort', '_ZSt9terminatev', 'exit', '__cxa_pure_virtual', '__stack_chk_fail')
def _abort(*_):
    raise BugFound('abort')


@model('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort')
def _zero(*_):
    return 0


@model('pthread_mutex_lock')
def _mlock(p):
    if p in S.held:
        raise PathEnd('lock held by a suspended task: not a schedule')
    S.held.add(p)
    return 0


@model('pthread_mutex_trylock')
def _mtrylock(p):
    if p in S.held:
        return 16
    S.held.add(p)
    return 0


@model('pthread_mutex_unlock')
def _munlock(p):
    S.held.discard(p)
    return 0


@model('__cxa_guard_acquire')
def _guard(p):
    if load(p, 1) == 0:
        store(p, 1, 1)
        return 1
    return 0


def libm(name, s, *a):
    cls = {'floor': 'ffloor', 'ceil': 'fceil', 'round': 'fround', 'trunc': 'ftrunc', 'rint': 'frint', 'nearbyint': 'frint', 'roundeven': 'frint'}
    if name in cls:
        op = cls[name]
        x = a[0]
        return ROUNDERS[op](x) if x.__class__ is float else simp(fround_(op, tof(x, s)))
    if name == 'sqrt':
        x = a[0]
        return rnd(s, csqrt(x)) if x.__class__ is float else simp(fsqrt(tof(x, s)))
    if name == 'fabs':
        x = a[0]
        return abs(x) if x.__class__ is float else simp(fabs_(tof(x, s)))
    if name in ('maxnum', 'minnum', 'fmax', 'fmin'):
        x, y = tof(a[0], s), tof(a[1], s)
        r = X.fmax(x, y) if 'max' in name else X.fmin(x, y)
        if x.nan or y.nan:
            r = fite(isnan(x), y, fite(isnan(y), x, r))
        return simp(r)
    if name == 'copysign':
        x, y = tof(a[0], s), tof(a[1], s)
        return simp(fite(fsignbit(y), fneg(fabs_(x)), fabs_(x)))
    if name in ('fmuladd', 'fma'):
        if name == 'fma':
            raise Unsupported('fma')
        m = (fmul32 if s == 'f' else fmul64)(a[0], a[1])
        return (fadd32 if s == 'f' else fadd64)(m, a[2])
    if name == 'powi':
        n = sgn(concint(a[1], 32), 32)
        return libm('pow', s, a[0], float(n))
    xs = [tof(x, s) for x in a]
    if name == 'pow' and xs[1].op == 'c':
        k = xs[1].k
        if k == 1.0:
            return a[0]
        if k == 2.0:
            return simp(X.fmul(xs[0], xs[0]))
        if k == 0.0:
            return 1.0
    return simp(fuf(name, xs, s))


def _reglibm():
    for n in ('log', 'exp', 'pow', 'log2', 'log10', 'exp2', 'sin', 'cos', 'tan', 'fmod', 'log1p', 'expm1', 'cbrt', 'hypot', 'tanh', 'atan',
              'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'sqrt', 'fabs', 'fmax', 'fmin', 'copysign'):
        F[n] = (lambda n: lambda *a: libm(n, 'd', *a))(n)
        F[n + 'f'] = (lambda n: lambda *a: libm(n, 'f', *a))(n)


_reglibm()


def _lround(s, w):
    def f(x):
        if x.__class__ is float:
            return fptosi(cround(x), s, w)
        return fptosi(simp(fround_('fround', tof(x, s))), s, w)
    return f


F['lround'] = F['llround'] = _lround('d', 64)
F['lroundf'] = F['llroundf'] = _lround('f', 64)


def _throw(name):
    def f(*a):
        raise BugFound('throws %s' % name)
    return f


# std::hash support
@model('_ZSt11_Hash_bytesPKvmm')
def _hash_bytes(p, n, seed):
    h = 1469598103934665603
    for b in rdbytes(p, concint(n, 64)):
        h = ((h ^ b) * 1099511628211) & 0xffffffffffffffff
    return h


@model('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def _next_bkt(self, n):
    n = concint(n, 64)
    p = max(n, 2)
    while any(p % d == 0 for d in range(2, int(p ** .5) + 1)):
        p += 1
    store(self + 8, 8, p)
    return p


@model('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def _need(self, nb, ne, ni):
    nb, ne, ni = concint(nb, 64), concint(ne, 64), concint(ni, 64)
    if ne + ni > nb:
        return (True, _next_bkt(self, max(ne + ni, nb * 2)))
    return (False, 0)


# ------------------------------------------------------------- harness primitives
@model('vp_f32')
def vp_f32(name, lo, hi):
    return S.ctl.input(cstr(name), 'f', lo, hi) if lo != hi else lo


@model('vp_f64')
def vp_f64(name, lo, hi):
    return S.ctl.input(cstr(name), 'd', lo, hi) if lo != hi else lo


@model('vp_i64')
def vp_i64(name, lo, hi):
    lo, hi = sgn(lo, 64), sgn(hi, 64)
    return S.ctl.input(cstr(name), 64, lo, hi) if lo != hi else lo & (2 ** 64 - 1)


@model('vp_bool')
def vp_bool(name):
    return S.ctl.input(cstr(name), 1, 0, 1)


@model('vp_choice')
def vp_choice(name, n):
    """a concrete value 0..n-1, forked"""
    v = S.ctl.input(cstr(name), 64, 0, sgn(n, 32) - 1)
    return concint(v, 64) if n > 1 else 0


@model('vp_fork')
def vp_fork(c):
    return branch(asb(c))


@model('vp_concrete')
def vp_concrete(v):
    return concint(v, 64)


@model('vp_assume')
def vp_assume(c):
    S.ctl.assume(tob(asb(c)))


@model('vp_check')
def vp_check(c, label):
    S.ctl.check(tob(asb(c)), cstr(label))


def _same(s):
    def f(a, b, label):
        if a.__class__ is float and b.__class__ is float:
            S.ctl.check(cb(a == b or (a != a and b != b)), cstr(label))
            return
        x, y = tof(a, s), tof(b, s)
        S.ctl.check(TRUE if x is y else foeq(x, y), cstr(label))
    return f


F['vp_same_f'] = _same('f')
F['vp_same_d'] = _same('d')


@model('vp_close')
def vp_close(a, b, tol, label):
    """|a-b| <= tol, doubles"""
    x, y, t = tof(a, 'd'), tof(b, 'd'), tof(tol, 'd')
    if x is y:
        S.ctl.check(TRUE, cstr(label))
        return
    d = X.fsub(x, y)
    S.ctl.check(band(fole(d, t), fole(fneg(t), d)), cstr(label))


@model('vp_eqf')
def vp_eqf(a, b):
    x, y = tof(a, 'f'), tof(b, 'f')
    return simp(TRUE if x is y else foeq(x, y))


@model('vp_and')
def vp_and(a, b):
    return simp(band(tob(asb(a)), tob(asb(b))))


@model('vp_or')
def vp_or(a, b):
    return simp(bor(tob(asb(a)), tob(asb(b))))


@model('vp_ite_f')
def vp_ite_f(c, a, b):
    return select_f(asb(c), a, b, 'f')


@model('vp_ite_d')
def vp_ite_d(c, a, b):
    return select_f(asb(c), a, b, 'd')


@model('vp_ite_i')
def vp_ite_i(c, a, b):
    return select_i(asb(c), a, b, 64)


@model('vp_cover')
def vp_cover(label):
    S.ctl.pcovers.append(cstr(label))


@model('vp_known_i')
def vp_known_i(v):
    return TRUE_I(v)


@model('vp_known_i')
def vp_known_i(v):
    return not hasattr(v, 'op') or v.op == 'c'


@model('vp_symbolic')
def vp_symbolic():
    return True


def _obs(conv):
    def f(name, v):
        S.ctl.obs.append((cstr(name), conv(v)))
    return f


F['vp_observe_f'] = _obs(lambda v: v if v.__class__ is float else tof(v, 'f'))
F['vp_observe_d'] = _obs(lambda v: v if v.__class__ is float else tof(v, 'd'))
F['vp_observe_i'] = _obs(lambda v: sgn(v, 64) if v.__class__ is int else toi(v, 64))
F['vp_observe_b'] = _obs(lambda v: v if v.__class__ is bool else tob(asb(v)))


# text tokens: 4 bytes  \x01 kind lo hi ; the table holds (kind, spec, value)
def intern(kind, spec, v):
    c = S.ctl
    key = (kind, spec, v.id if v.__class__ is E else ('k', repr(v)))
    i = c.tokix.get(key)
    if i is None:
        i = c.tokix[key] = len(c.toks)
        c.toks.append((kind, spec, v))
        if i >= 4096:
            raise Unsupported('too many text tokens')
    return i


def cspec(s):
    s = s.replace('l', '').replace('h', '').replace('j', '').replace('z', '').replace('t', '')
    if s.endswith(('i', 'u')):
        s = s[:-1] + 'd'
    if s.endswith('F'):
        s = s[:-1] + 'f'
    if s == '.6f':
        s = 'f'
    return s


@model('vp_intern_i')
def vp_intern_i(spec, v):
    return intern('i', cspec(cstr(spec)), v)


@model('vp_intern_d')
def vp_intern_d(spec, v):
    if v.__class__ is float:
        v = simp(tof(v, 'd'))
    return intern('f', cspec(cstr(spec)), v)


@model('vp_tok_i')
def vp_tok_i(i):
    return S.ctl.toks[concint(i, 32)][2]


def tokbytes(kind, i):
    return [1, ord(kind), 0x80 + (i & 63), 0x80 + ((i >> 6) & 63)]


def tokat(bs, k):
    return S.ctl.toks[(bs[k + 2] - 0x80) + 64 * (bs[k + 3] - 0x80)]


RAW = ('d', 'r', 'g')


def scan_num(bs, k, fl):
    """one number at bs[k:]: (value or None, next)"""
    n = len(bs)
    if k < n and bs[k] == 1:
        kind, spec, v = tokat(bs, k)
        if kind == 'i' and spec == 'd':
            if not fl:
                return v, k + 4
            return (float(sgn(v, 64)) if v.__class__ is int else sitofp(v, 64, 'd')), k + 4
        if kind == 'f' and fl and spec == 'r':
            return v, k + 4
        raise Unsupported('reading back a formatted value (%s %s)' % (kind, spec))
    j = k
    if j < n and bs[j] in b'+-':
        j += 1
    d0 = j
    while j < n and 48 <= bs[j] < 58:
        j += 1
    nd = j - d0
    if j < n and bs[j] == 1 and nd:
        raise Unsupported('digits next to a value token')
    if not fl:
        if nd == 0:
            return None, k
        v = int(bytes(bs[k:j]))
        return max(min(v, 2 ** 63 - 1), -2 ** 63) & (2 ** 64 - 1), j
    low = bytes(bs[d0:d0 + 8]).lower()
    for w, val in ((b'infinity', math.inf), (b'inf', math.inf), (b'nan', math.nan)):
        if fl == 2 and low.startswith(w):
            return (-val if bs[k] == 45 else val), d0 + len(w)
    if j < n and bs[j] == 46:
        j2 = j + 1
        while j2 < n and 48 <= bs[j2] < 58:
            j2 += 1
        nd += j2 - j - 1
        if nd:
            j = j2
    if nd == 0:
        return None, k
    if j < n and bs[j] in b'eE':
        j2 = j + 1
        if j2 < n and bs[j2] in b'+-':
            j2 += 1
        if j2 < n and 48 <= bs[j2] < 58:
            while j2 < n and 48 <= bs[j2] < 58:
                j2 += 1
            j = j2
    return float(bytes(bs[k:j])), j


def store_num(p, v, kind):
    if kind == 'i8':
        store(p, 8, v)
    elif kind == 'i4':
        store(p, 4, trunc(v, 64, 32) if v.__class__ is not int else v & 0xffffffff)
    elif kind == 'f4':
        store(p, 4, fptrunc(v) if v.__class__ is not float else rnd('f', v))
    else:
        store(p, 8, v)


def _scan(kind, fl):
    def f(p, n, pos, out):
        k = concint(load(pos, 8), 64)
        bs = list(rdbytes(p, concint(n, 64)))
        v, k2 = scan_num(bs, k, fl)
        if v is None:
            return 0
        store(pos, 8, k2)
        store_num(out, v, kind)
        return 1
    return f


F['vp_scan_i'] = _scan('i8', 0)
F['vp_scan_f'] = _scan('f4', 1)
F['vp_scan_d'] = _scan('f8', 1)
BLANK = b' \t\n\r\v\f'


@model('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')
def _sscanf(p, fmt, *args):
    f = cstr(fmt)
    bs = []
    while True:
        b = concint(load(p + len(bs), 1), 8)
        if b == 0:
            break
        bs.append(b)
    k, i, done, ai = 0, 0, 0, 0
    while i < len(f):
        c = f[i]
        if c in ' \t\n':
            while k < len(bs) and bs[k] in BLANK:
                k += 1
            i += 1
            continue
        if c != '%':
            if k < len(bs) and bs[k] == ord(c):
                k += 1
                i += 1
                continue
            return (done if k < len(bs) or done else 0xffffffff) & 0xffffffff
        i += 1
        skip = f[i] == '*'
        if skip:
            i += 1
        ln = ''
        while f[i] in 'lhLjzt' or f[i].isdigit():
            ln += f[i]
            i += 1
        cv = f[i]
        i += 1
        if any(x.isdigit() for x in ln):
            raise Unsupported('sscanf field width')
        if cv == 'n':
            store_num(args[ai], k, 'i8' if 'l' in ln else 'i4')
            ai += 1
            continue
        if cv == 'c':
            if k >= len(bs):
                return done or 0xffffffff
            if not skip:
                store(args[ai], 1, bs[k])
                ai += 1
                done += 1
            k += 1
            continue
        while k < len(bs) and bs[k] in BLANK:
            k += 1
        if k >= len(bs):
            return done or 0xffffffff
        if cv in 'diu':
            v, k2 = scan_num(bs, k, 0)
            kind = 'i8' if ln in ('l', 'll', 'j', 'z', 't') else 'i4'
        elif cv in 'fegaFEG':
            v, k2 = scan_num(bs, k, 2)
            kind = 'f8' if 'l' in ln else 'f4'
        else:
            raise Unsupported('sscanf conversion %' + cv)
        if v is None:
            return done
        k = k2
        if not skip:
            store_num(args[ai], v, kind)
            ai += 1
            done += 1
    return done


def _strto(kind, fl):
    def f(p, endp, *base):
        bs = []
        while True:
            b = concint(load(p + len(bs), 1), 8)
            if b == 0:
                break
            bs.append(b)
        k = 0
        while k < len(bs) and bs[k] in BLANK:
            k += 1
        v, k2 = scan_num(bs, k, fl)
        if v is None:
            v, k2 = (0.0 if fl else 0), 0
        if concint(endp, 64):
            store(endp, 8, p + k2)
        if kind == 'f':
            return fptrunc(v) if v.__class__ is not float else rnd('f', v)
        if kind == 'i4':
            return trunc(v, 64, 32) if v.__class__ is not int else v & 0xffffffff
        return v
    return f


F['strtoll'] = F['strtol'] = F['__isoc23_strtoll'] = F['__isoc23_strtol'] = _strto('i', 0)
F['strtof'] = _strto('f', 2)
F['strtod'] = _strto('d', 2)
F['atoll'] = F['atol'] = lambda p: _strto('i', 0)(p, 0)
F['atoi'] = lambda p: _strto('i4', 0)(p, 0)
F['atof'] = lambda p: _strto('d', 2)(p, 0)


@model('__errno_location')
def _errno():
    o = getattr(S, 'errno', None)
    if o is None or o[0] is not S.mem:
        o = S.errno = (S.mem, malloc(4))
        store(o[1], 4, 0)
    return o[1]


@model('printf', 'fprintf', 'puts', 'fputs', 'putchar', 'fflush', 'vfprintf', 'fwrite', 'fputc')
def _print(*a):
    return 0


def _fmtc(fmt, args):
    """C format string with arguments -> list of bytes (tokens for numbers)"""
    out = []
    ai = 0
    i = 0
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c != '%':
            out.append(ord(c))
            continue
        if fmt[i] == '%':
            out.append(37)
            i += 1
            continue
        sp = ''
        while not fmt[i].isalpha() or fmt[i] in 'lhjzt':
            sp += fmt[i]
            i += 1
        cv = fmt[i]
        i += 1
        a = args[ai]
        ai += 1
        if cv == 's':
            out += list(cstr(a).encode('latin1'))
        elif cv == 'c':
            out.append(concint(a, 32) & 255)
        elif cv in 'diu':
            if 'l' not in sp and 'j' not in sp and 'z' not in sp:
                a = sext(a, 32, 64) if cv != 'u' else zext(a, 32, 64)
            out += tokbytes('i', intern('i', cspec(sp + cv), a))
        elif cv in 'feg':
            out += tokbytes('f', intern('f', cspec(sp + cv), a))
        else:
            raise Unsupported('printf conversion %' + cv)
    return out


@model('snprintf')
def _snprintf(p, n, fmt, *args):
    bs = _fmtc(cstr(fmt), args)
    n = concint(n, 64)
    if n:
        for k, b in enumerate(bs[:n - 1]):
            store(p + k, 1, b)
        store(p + min(len(bs), n - 1), 1, 0)
    return len(bs)


@model('sprintf')
def _sprintf(p, fmt, *args):
    return _snprintf(p, 1 << 20, fmt, *args)


@model('vp_same_text')
def vp_same_text(a, na, b, nb, label):
    x = list(rdbytes(a, concint(na, 64)))
    y = list(rdbytes(b, concint(nb, 64)))
    label = cstr(label)
    i = j = 0
    conj = TRUE
    while i < len(x) or j < len(y):
        if i >= len(x) or j >= len(y):
            conj = FALSE
            break
        if x[i] == 1 and y[j] == 1:
            if x[i:i + 4] != y[j:j + 4]:
                k1, s1, v1 = tokat(x, i)
                k2, s2, v2 = tokat(y, j)
                if k1 != k2 or s1 != s2:
                    conj = FALSE
                    break
                if k1 == 'i':
                    conj = band(conj, X.ieq(toi(v1, 64), toi(v2, 64)))
                else:
                    conj = band(conj, foeq(tof(v1, 'd'), tof(v2, 'd')))
            i += 4
            j += 4
        elif x[i] == 1 or y[j] == 1:
            # a literal number against a value
            k, k2 = (i, j) if x[i] == 1 else (j, i)
            kind, sp, v = tokat(x if x[i] == 1 else y, k)
            o = y if x[i] == 1 else x
            if kind != 'i' or sp != 'd':
                conj = FALSE
                break
            v2, e = scan_num(o, k2, 0)
            if v2 is None:
                conj = FALSE
                break
            conj = band(conj, X.ieq(toi(v, 64), toi(v2, 64)))
            i, j = (i + 4, e) if x[i] == 1 else (e, j + 4)
        else:
            if x[i] != y[j]:
                conj = FALSE
                break
            i += 1
            j += 1
    S.ctl.check(conj, label)


@model('vp_unsupported')
def vp_unsupported(msg):
    raise Unsupported(cstr(msg))


@model('vp_end')
def vp_end():
    raise PathEnd('end')


@model('vp_done')
def vp_done():
    raise PathDone()


def iabs(a, w):
    if a.__class__ is int:
        return abs(sgn(a, w)) & ((1 << w) - 1)
    e = toi(a, w)
    return simpw(X.wrap(iite(X.ile(ci(0, w), e), e, X.lincomb([(-1, e)], 0, w), w), w), w)


def bitcount(k, v, w):
    if k == 'ctlz':
        return w - v.bit_length()
    if k == 'cttz':
        return (v & -v).bit_length() - 1 if v else w
    if k == 'ctpop':
        return bin(v).count('1')
    return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')


def ovf(k, a, b, w):
    sg = k[0] == 's'
    op = k[1:]
    if a.__class__ is int and b.__class__ is int:
        x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        m = r & ((1 << w) - 1)
        return (m, (sgn(m, w) if sg else m) != r)
    x, y = toi(a, w), toi(b, w)
    if not sg:
        x, y = X.tou(x, w), X.tou(y, w)
    if op == 'mul':
        r = X.imul(x, y, 128)
    else:
        r = X.lincomb([(1, x), (1 if op == 'add' else -1, y)], 0, 128)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    ok = band(X.ile(ci(lo, 128), r), X.ile(r, ci(hi, 128)))
    return (simpw(X.wrap(r, w), w), simp(bnot(ok)))


def sat(k, a, b, w):
    sg = k[0] == 's'
    x, y = toi(a, w), toi(b, w)
    if not sg:
        x, y = X.tou(x, w), X.tou(y, w)
    r = X.lincomb([(1, x), (1 if k[1:] == 'add' else -1, y)], 0, 128)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    r = iite(X.ilt(r, ci(lo, 128)), ci(lo, 128), iite(X.ilt(ci(hi, 128), r), ci(hi, 128), r, 128), 128)
    return simpw(X.wrap(r, w), w)


def fsh(k, a, b, c, w):
    c %= w
    x = (a << w) | b
    if k == 'fshl':
        return (x >> (w - c)) & ((1 << w) - 1)
    return (x >> c) & ((1 << w) - 1)


def fpclass(v, mask, s):
    m = concint(mask, 32)
    e = tof(v, s)
    nan = isnan(e)
    if (m & 3) == 3 and m & ~3 == 0:
        return simp(nan)
    if m == 516:   # inf
        return simp(band(bnot(nan), bnot(isfinite_(e))))
    if m == 504:
        return simp(isfinite_(e))
    if m == (1023 & ~516) or m == 507:
        return simp(bor(nan, isfinite_(e)))
    raise Unsupported('is.fpclass %d' % m)


def insval(agg, v, idx):
    if agg is U:
        raise Unsupported('insertvalue into undef')
    i = idx[0]
    if len(idx) > 1:
        v = insval(agg[i], v, idx[1:])
    return agg[:i] + (v,) + agg[i + 1:]


def reduce_(f, vec):
    acc = vec[0]
    for x in vec[1:]:
        acc = f(acc, x)
    return acc


def alloca(fr, n, name):
    p = new_obj(n, 'stack', name)
    fr.append(p >> 32)
    return p


def popframe(fr):
    for o in fr:
        x = S.mem[o]
        x.alive = False
        x.cells = {}


class Program(object):
    """the compiled module; functions are translated to Python on first call"""

    def __init__(self, mod, stubs=()):
        self.mod = mod
        self.fn = {}
        self.used = set()
        self.stubs = dict(stubs)
        env = dict(rt.__dict__)
        env.update(globals())
        env['F'] = self
        env['icall'] = self.icall
        self.env = env
        self.nfn = 0

    def __getitem__(self, name):
        f = self.fn.get(name)
        if f is None:
            f = self.resolve(name)
            self.fn[name] = f
        return f

    def resolve(self, name):
        name = self.mod.aliases.get(name, name)
        s = self.stubs.get(name)
        if s is not None:
            return self[s]
        if name in F and (name.startswith('vp_') or name not in self.mod.fns or llmod_isdecl(self.mod, name)):
            return F[name]
        v = self.mod.fns.get(name)
        if v is None or llmod_isdecl(self.mod, name):
            if '__throw_' in name or name.startswith('__cxa_throw'):
                return _throw(name)

            def missing(*a):
                raise Unsupported('external function %s' % name)
            return missing
        src, consts = self.mod.compile(name)
        if os.environ.get('VP_DUMP'):
            open('/tmp/fn_%s.py' % name[:80], 'w').write(src)
        env = dict(self.env)
        env.update(consts)
        exec(compile(src, name, 'exec'), env)
        self.nfn += 1
        self.used.add(name)
        return env['fn']

    def icall(self, p):
        p = concint(p, 64)
        n = self.mod.fn_by_addr.get(p)
        if n is None:
            raise BugFound('call through an invalid function pointer')
        return self[n]


import llmod as _llmod


def llmod_isdecl(mod, name):
    f = mod.fns.get(name)
    return f is None or bool(_llmod.IsDecl(f))


class Explorer(object):
    def __init__(self, mod, cfg):
        self.mod = mod
        self.cfg = cfg
        self.prog = Program(mod, cfg.get('stubs', {}))
        self.ctl = Ctl(cfg)
        S.globals_init = GlobalInit(mod)

    def run_path(self, entry, prefix):
        ctl = self.ctl
        ctl.begin(prefix)
        S.mem = {}
        S.held = set()
        S.next = self.mod.first_oid
        S.steps = 0
        S.depth = 0
        S.globals_init.fresh()
        st = ctl.st
        st['paths'] += 1
        try:
            for f in self.ctors():
                self.prog[f]()
            try:
                self.prog[entry]()
            except PathDone:
                pass
            ctl.end_path()
        except PathEnd:
            st['infeasible'] += 1
        except BugFound as b:
            ctl.bug(b.what)
        except (TypeError, IndexError, AttributeError, RecursionError, AssertionError) as ex:
            if os.environ.get('VP_TRACE'):
                raise
            import traceback
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            raise Unsupported('engine: %s: %s (%s:%s)' % (type(ex).__name__, ex, tb.filename, tb.lineno))
        st['steps'] += S.steps
        st['la_checks'] = ctl.la.checks
        st['la_time'] = ctl.la.time
        return ctl.alts

    def ctors(self):
        if not hasattr(self, '_ctors'):
            out = []
            g = self.mod.gname.get('llvm.global_ctors')
            if g is not None:
                v = self.mod.glob[g >> 32]
                init = _llmod.GInit(v)
                for j in range(_llmod.ArrLen(_llmod.GValTy(v))):
                    el = _llmod.AggElt(init, j)
                    fn = _llmod.AggElt(el, 1)
                    out.append(_llmod.vname(fn))
            self._ctors = out
        return self._ctors


class GlobalInit(object):
    def __init__(self, mod):
        self.mod = mod
        self.ro = {}

    def fresh(self):
        pass

    def get(self, oid):
        if oid in self.mod.glob:
            return self.make
        return None

    def make(self, oid):
        o = self.ro.get(oid)
        if o is None:
            o = self.mod.init_global(oid)
            if o.ro:
                self.ro[oid] = o
        S.mem[oid] = o
        return o
