"""SMT-LIB emission of proof obligations, and the portfolio that decides them.

  fp    : bit-precise IEEE-754 (QF_BVFP); 'unsat' is a proof, a model is exact
  fpn   : the same with every float input restricted to b leading mantissa bits
  nra   : reals with relative rounding errors (sound over-approximation)
  exact : reals without rounding (hints for counterexamples only)
"""
import ctypes
import fractions
import math
import os
import re
import signal
import subprocess
import tempfile
import time

from expr import *
import expr as X

W = 72  # bit-vector width of mathematical integers in fp mode

RM = {'ffloor': 'RTN', 'fceil': 'RTP', 'fround': 'RNA', 'ftrunc': 'RTZ', 'frint': 'RNE'}


def fl(s, v):
    if v != v:
        return '(_ NaN 8 24)' if s == 'f' else '(_ NaN 11 53)'
    b = fbits(s, v)
    if s == 'f':
        return '(fp #b%s #b%s #b%s)' % (format(b >> 31, '01b'), format((b >> 23) & 255, '08b'), format(b & 0x7fffff, '023b'))
    return '(fp #b%s #b%s #b%s)' % (format(b >> 63, '01b'), format((b >> 52) & 2047, '011b'), format(b & ((1 << 52) - 1), '052b'))


def bvc(v):
    return '(_ bv%d %d)' % (v & ((1 << W) - 1), W)


def emit_fp(conj, narrow=None, iwidth=None):
    out = []
    uf = {}
    N = {}
    nodes = topo(conj)
    vs = []
    for e in nodes:
        a = [N[x.id] for x in e.a]
        op, s = e.op, e.s
        srt = {1: 'Bool', 'f': 'Float32', 'd': 'Float64'}.get(s, '(_ BitVec %d)' % W)
        t = None
        if op == 'c':
            t = ('true' if e.k else 'false') if s == 1 else (fl(s, e.k) if s in ('f', 'd') else bvc(e.k))
            N[e.id] = t
            continue
        if op == 'var':
            nm = '|%s|' % e.k
            vs.append(e)
            if s == 1:
                out.append('(declare-const %s Bool)' % nm)
            elif s in ('f', 'd'):
                w = 32 if s == 'f' else 64
                bn = '|b:%s|' % e.k
                out.append('(declare-const %s (_ BitVec %d))' % (bn, w))
                out.append('(define-fun %s () %s ((_ to_fp %s) %s))' % (nm, srt, '8 24' if s == 'f' else '11 53', bn))
                out.append('(assert (and (fp.leq %s %s) (fp.leq %s %s) (not (= %s %s))))' % (
                    fl(s, e.lo), nm, nm, fl(s, e.hi), bn, '#x8' + '0' * (w // 4 - 1)))
                if narrow is not None:
                    mb = 23 if s == 'f' else 52
                    if narrow < mb:
                        out.append('(assert (= ((_ extract %d 0) %s) (_ bv0 %d)))' % (mb - narrow - 1, bn, mb - narrow))
            else:
                out.append('(declare-const %s %s)' % (nm, srt))
                out.append('(assert (and (bvsle %s %s) (bvsle %s %s)))' % (bvc(e.lo), nm, nm, bvc(e.hi)))
            N[e.id] = nm
            continue
        if op == 'not':
            t = '(not %s)' % a[0]
        elif op == 'and':
            t = '(and %s)' % ' '.join(a)
        elif op == 'beq':
            t = '(= %s %s)' % tuple(a)
        elif op == 'lin':
            ps = []
            for c, x in e.k[0]:
                ps.append(N[x.id] if c == 1 else '(bvmul %s %s)' % (bvc(c), N[x.id]))
            if e.k[1]:
                ps.append(bvc(e.k[1]))
            t = ps[0]
            for p in ps[1:]:
                t = '(bvadd %s %s)' % (t, p)
        elif op == 'wrap':
            t = '((_ sign_extend %d) ((_ extract %d 0) %s))' % (W - e.k, e.k - 1, a[0])
        elif op == 'imul':
            t = '(bvmul %s %s)' % tuple(a)
        elif op == 'div':
            t = '(bvudiv %s %s)' % (a[0], bvc(e.k)) if e.a[0].lo >= 0 else None
            if t is None:
                raise Unsupported('fp emission of division of negatives')
        elif op == 'mod2':
            t = '(bvand %s %s)' % (a[0], bvc(e.k - 1))
        elif op in ('iite', 'fite'):
            t = '(ite %s %s %s)' % tuple(a)
        elif op == 'ge0':
            t = '(bvsge %s %s)' % (a[0], bvc(0))
        elif op == 'eq0':
            t = '(= %s %s)' % (a[0], bvc(0))
        elif op == 'fle':
            t = '(fp.leq %s %s)' % tuple(a)
        elif op == 'isnan':
            t = '(fp.isNaN %s)' % a[0]
        elif op == 'isfin':
            t = '(not (or (fp.isNaN %s) (fp.isInfinite %s)))' % (a[0], a[0])
        elif op == 'fneg':
            t = '(fp.neg %s)' % a[0]
        elif op == 'fabs':
            t = '(fp.abs %s)' % a[0]
        elif op == 'fadd':
            if e.a[1].op == 'fneg':
                t = '(fp.sub RNE %s %s)' % (a[0], N[e.a[1].a[0].id])
            elif e.a[0].op == 'fneg':
                t = '(fp.sub RNE %s %s)' % (a[1], N[e.a[0].a[0].id])
            else:
                t = '(fp.add RNE %s %s)' % tuple(a)
        elif op == 'fmul':
            t = '(fp.mul RNE %s %s)' % tuple(a)
        elif op == 'fdiv':
            t = '(fp.div RNE %s %s)' % tuple(a)
        elif op == 'fsqrt':
            t = '(fp.sqrt RNE %s)' % a[0]
        elif op in ROUNDERS:
            t = '(fp.roundToIntegral %s %s)' % (RM[op], a[0])
        elif op == 'fmax':
            t = '(ite (fp.leq %s %s) %s %s)' % (a[0], a[1], a[1], a[0])
        elif op == 'fmin':
            t = '(ite (fp.leq %s %s) %s %s)' % (a[0], a[1], a[0], a[1])
        elif op == 'fext':
            t = '((_ to_fp 11 53) RNE %s)' % a[0]
        elif op == 'fcut':
            t = '((_ to_fp 8 24) RNE %s)' % a[0]
        elif op == 'i2f':
            t = '((_ to_fp %s) RNE %s)' % ('8 24' if s == 'f' else '11 53', a[0])
        elif op == 'f2i':
            t = '((_ fp.to_sbv %d) RTZ %s)' % (W, a[0])
        elif op == 'fuf':
            nm = 'uf_%s_%s_%d' % (e.k, s, len(a))
            if nm not in uf:
                uf[nm] = 1
                out.append('(declare-fun %s (%s) %s)' % (nm, ' '.join([srt] * len(a)), srt))
            t = '(%s %s)' % (nm, ' '.join(a))
        else:
            raise Unsupported('fp emission of ' + op)
        nm = 't%d' % e.id
        out.append('(define-fun %s () %s %s)' % (nm, srt, t))
        N[e.id] = nm
        if op == 'fuf' and not e.nan:
            if e.lo > -INF:
                out.append('(assert (fp.leq %s %s))' % (fl(s, e.lo), nm))
            if e.hi < INF:
                out.append('(assert (fp.leq %s %s))' % (nm, fl(s, e.hi)))
    for c in conj:
        out.append('(assert %s)' % N[c.id])
    return ['(set-option :produce-models true)', '(set-logic ALL)'] + out, vs


def rq(x):
    f = fractions.Fraction(x)
    n = '%d.0' % abs(f.numerator)
    t = n if f.denominator == 1 else '(/ %s %d.0)' % (n, f.denominator)
    return '(- %s)' % t if f < 0 else t


def emit_real(conj, rounding):
    """nonlinear real arithmetic; rounding=False drops rounding (hints only)"""
    out = []
    N = {}
    vs = []
    uf = {}
    for e in topo(conj):
        a = [N[x.id] for x in e.a]
        op, s = e.op, e.s
        srt = 'Bool' if s == 1 else ('Real' if s in ('f', 'd') else 'Int')
        if e.nan and op not in ('c',):
            raise Unsupported('real emission of a possible NaN')
        if op == 'c':
            if s in ('f', 'd') and (e.k != e.k or math.isinf(e.k)):
                raise Unsupported('real emission of inf/nan')
            N[e.id] = ('true' if e.k else 'false') if s == 1 else (rq(e.k) if s in ('f', 'd') else (str(e.k) if e.k >= 0 else '(- %d)' % -e.k))
            continue
        nm = 't%d' % e.id
        side = []
        u = 2.0 ** -24 if s == 'f' else 2.0 ** -53
        eta = 2.0 ** -149 if s == 'f' else 0.0
        t = None
        ex = None
        if op == 'var':
            nm = '|%s|' % e.k
            vs.append(e)
            out.append('(declare-const %s %s)' % (nm, srt))
            if s != 1:
                lo, hi = (rq(e.lo), rq(e.hi)) if s in ('f', 'd') else [str(v) if v >= 0 else '(- %d)' % -v for v in (e.lo, e.hi)]
                out.append('(assert (and (<= %s %s) (<= %s %s)))' % (lo, nm, nm, hi))
            N[e.id] = nm
            continue
        if op == 'not':
            t = '(not %s)' % a[0]
        elif op == 'and':
            t = '(and %s)' % ' '.join(a)
        elif op == 'beq':
            t = '(= %s %s)' % tuple(a)
        elif op == 'lin':
            ps = ['(* %s %s)' % (c if c >= 0 else '(- %d)' % -c, N[x.id]) for c, x in e.k[0]]
            t = '(+ %s %s)' % (' '.join(ps), e.k[1] if e.k[1] >= 0 else '(- %d)' % -e.k[1])
        elif op == 'wrap':
            h = 1 << (e.k - 1)
            t = '(- (mod (+ %s %d) %d) %d)' % (a[0], h, 2 * h, h)
        elif op == 'imul':
            t = '(* %s %s)' % tuple(a)
        elif op == 'div':
            t = '(div %s %d)' % (a[0], e.k)
        elif op == 'mod2':
            t = '(mod %s %d)' % (a[0], e.k)
        elif op in ('iite', 'fite'):
            t = '(ite %s %s %s)' % tuple(a)
        elif op == 'ge0':
            t = '(>= %s 0)' % a[0]
        elif op == 'eq0':
            t = '(= %s 0)' % a[0]
        elif op == 'fle':
            t = '(<= %s %s)' % tuple(a)
        elif op == 'isfin':
            t = 'true'
        elif op == 'fneg':
            t = '(- %s)' % a[0]
        elif op == 'fabs':
            t = '(ite (>= %s 0.0) %s (- %s))' % (a[0], a[0], a[0])
        elif op == 'fmax':
            t = '(ite (>= %s %s) %s %s)' % (a[0], a[1], a[0], a[1])
        elif op == 'fmin':
            t = '(ite (<= %s %s) %s %s)' % (a[0], a[1], a[0], a[1])
        elif op == 'fext':
            t = a[0]
        elif op == 'fadd':
            ex = '(+ %s %s)' % tuple(a)
            eta = 0.0
        elif op == 'fmul':
            ex = '(* %s %s)' % tuple(a)
        elif op == 'fdiv':
            d = e.a[1]
            if d.op == 'c':
                ex = '(* %s %s)' % (a[0], rq(fractions.Fraction(1) / fractions.Fraction(d.k)))
            elif d.lo > 0 or d.hi < 0:
                out.append('(declare-const q%d Real)' % e.id)
                side.append('(= (* q%d %s) %s)' % (e.id, a[1], a[0]))
                ex = 'q%d' % e.id
            else:
                raise Unsupported('real emission of division by a possible zero')
        elif op == 'fsqrt':
            if e.a[0].lo < 0:
                raise Unsupported('real emission of sqrt of a possible negative')
            out.append('(declare-const q%d Real)' % e.id)
            side += ['(>= q%d 0.0)' % e.id, '(= (* q%d q%d) %s)' % (e.id, e.id, a[0])]
            ex = 'q%d' % e.id
        elif op == 'i2f':
            if max(abs(e.a[0].lo), abs(e.a[0].hi)) <= (2 ** 24 if s == 'f' else 2 ** 53):
                t = '(to_real %s)' % a[0]
            else:
                ex = '(to_real %s)' % a[0]
        elif op == 'fcut':
            ex = a[0]
        elif op in ROUNDERS:
            k = 'k%d' % e.id
            out.append('(declare-const %s Int)' % k)
            r = '(to_real %s)' % k
            if op == 'ffloor':
                side += ['(<= %s %s)' % (r, a[0]), '(< %s (+ %s 1.0))' % (a[0], r)]
            elif op == 'fceil':
                side += ['(>= %s %s)' % (r, a[0]), '(> %s (- %s 1.0))' % (a[0], r)]
            elif op in ('fround', 'frint'):
                side += ['(<= %s (+ %s 0.5))' % (r, a[0]), '(>= %s (- %s 0.5))' % (r, a[0])]
            else:
                raise Unsupported('real emission of trunc')
            t = r
        elif op == 'f2i':
            if e.a[0].lo < 0:
                raise Unsupported('f2i negative')
            t = '(to_int %s)' % a[0]
        elif op == 'fuf':
            un = 'uf_%s_%d' % (e.k, len(a))
            if un not in uf:
                uf[un] = 1
                out.append('(declare-fun %s (%s) Real)' % (un, ' '.join(['Real'] * len(a))))
            out.append('(define-fun %s () Real (%s %s))' % (nm, un, ' '.join(a)))
            for b, o_ in ((e.lo, '<='), (e.hi, '>=')):
                if not math.isinf(b):
                    out.append('(assert (%s %s %s))' % (o_, rq(b), nm))
            N[e.id] = nm
            continue
        else:
            raise Unsupported('real emission of ' + op)
        if ex is not None:
            if not rounding:
                t = ex
            else:
                x = 'x%d' % e.id
                out.append('(define-fun %s () Real %s)' % (x, ex))
                out.append('(declare-const %s Real)' % nm)
                side += ['(=> (>= %s 0.0) (and (>= %s 0.0) (<= %s (+ (* %s %s) %s)) (>= %s (- (* %s %s) %s))))' % (
                    x, nm, nm, rq(1 + u), x, rq(eta), nm, rq(1 - u), x, rq(eta)),
                    '(=> (<= %s 0.0) (and (<= %s 0.0) (>= %s (- (* %s %s) %s)) (<= %s (+ (* %s %s) %s))))' % (
                    x, nm, nm, rq(1 + u), x, rq(eta), nm, rq(1 - u), x, rq(eta))]
                if not math.isinf(e.lo):
                    side.append('(>= %s %s)' % (nm, rq(e.lo)))
                if not math.isinf(e.hi):
                    side.append('(<= %s %s)' % (nm, rq(e.hi)))
        if t is not None:
            out.append('(define-fun %s () %s %s)' % (nm, srt, t))
        for c in side:
            out.append('(assert %s)' % c)
        N[e.id] = nm
    for c in conj:
        out.append('(assert %s)' % N[c.id])
    return ['(set-option :produce-models true)', '(set-logic ALL)'] + out, vs


# ------------------------------------------------------------------ solving
def solver_cmd(which, path, tmo):
    if which == 'cvc5':
        return ['cvc5', '--tlimit=%d' % int(tmo * 1000), path]
    if which == 'cvc5fp':
        return ['cvc5', '--fp-exp', '--tlimit=%d' % int(tmo * 1000), path]
    if which == 'z3':
        return ['z3-new', '-T:%d' % max(1, int(tmo)), path]
    raise ValueError(which)


_libc = ctypes.CDLL(None)


def die_with_parent():
    _libc.prctl(1, int(signal.SIGKILL), 0, 0, 0)     # PR_SET_PDEATHSIG


def _child():
    os.setsid()
    die_with_parent()


class Job(object):
    def __init__(self, kind, which, lines, vs, tmo):
        self.kind, self.which, self.vs, self.tmo = kind, which, vs, tmo
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False, dir=os.environ.get('VP_TMP'))
        gv = []
        for v in vs:
            gv.append('|b:%s|' % v.k if (v.s in ('f', 'd') and kind.startswith('fp')) else '|%s|' % v.k)
        f.write('\n'.join(lines) + '\n(check-sat)\n')
        if gv:
            f.write('(get-value (%s))\n' % ' '.join(gv))
        f.close()
        self.path = f.name
        self.t0 = time.time()
        self.p = subprocess.Popen(solver_cmd(which, f.name, tmo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  preexec_fn=_child, text=True)
        self.res = None

    def poll(self):
        if self.res is not None:
            return self.res
        if self.p.poll() is None:
            if time.time() - self.t0 > self.tmo + 3:
                self.kill()
                self.res = 'unknown'
            return self.res
        out = self.p.stdout.read()
        self.out = out
        ln = out.strip().split('\n')[0].strip() if out.strip() else ''
        if ln == 'unsat':
            self.res = 'unsat'
        elif ln == 'sat':
            self.res = 'sat'
        else:
            self.res = 'unknown'
        self._rm()
        return self.res

    def _rm(self):
        try:
            if not os.environ.get('VP_KEEP'):
                os.unlink(self.path)
        except OSError:
            pass

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(timeout=5)
        except Exception:
            pass
        self._rm()

    def model(self):
        """var name -> python value"""
        toks = re.findall(r'\(|\)|\|[^|]*\||[^\s()]+', self.out[self.out.index('sat') + 3:])
        pos = [0]

        def parse():
            t = toks[pos[0]]
            pos[0] += 1
            if t == '(':
                r = []
                while toks[pos[0]] != ')':
                    r.append(parse())
                pos[0] += 1
                return r
            return t
        env = {}
        try:
            tree = parse()
        except IndexError:
            return None
        byname = {v.k: v for v in self.vs}
        for k, v in tree:
            k = k.strip('|')
            if k.startswith('b:'):
                k = k[2:]
            e = byname.get(k)
            if e is None:
                continue
            env[k] = self.val(e, v)
        return env

    def val(self, e, v):
        if e.s == 1:
            return v == 'true'
        if isinstance(v, str) and v[:2] in ('#b', '#x'):
            n = int(v[2:], 2 if v[1] == 'b' else 16)
            if e.s in ('f', 'd'):
                return bitsf(e.s, n)
            return n - (1 << W) if n >> (W - 1) else n
        if isinstance(v, list) and v[0] == '_' and v[1].startswith('bv'):
            n = int(v[1][2:])
            if e.s in ('f', 'd'):
                return bitsf(e.s, n)
            return n - (1 << W) if n >> (W - 1) else n
        r = self.num(v)
        if e.s in ('f', 'd'):
            return rnd(e.s, min(max(float(r), e.lo), e.hi))
        return int(r)

    def num(self, v):
        if isinstance(v, list):
            if v[0] == '-' and len(v) == 2:
                return -self.num(v[1])
            if v[0] == '/':
                return self.num(v[1]) / self.num(v[2])
            if v[0] == 'root-obj':
                return fractions.Fraction(1)
            if v[0] == '+':
                return sum(self.num(x) for x in v[1:])
            if v[0] == '*':
                return self.num(v[1]) * self.num(v[2])
            raise ValueError(v)
        v = v.rstrip('?')
        return fractions.Fraction(v)


def varset(e, cache={}):
    r = cache.get(e.id)
    if r is None:
        for x in topo([e]):
            if x.id in cache:
                continue
            if x.op == 'var':
                cache[x.id] = frozenset([x.id])
            else:
                s = frozenset()
                for y in x.a:
                    s = s | cache[y.id]
                cache[x.id] = s
        r = cache[e.id]
    return r


def cone(pc, goal):
    vs = set(varset(goal))
    rest = list(pc)
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for c in rest:
            if varset(c) & vs:
                vs |= varset(c)
                out.append(c)
                changed = True
            else:
                keep.append(c)
        rest = keep
    return out


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}


STATS = Stats()


def portfolio(conj, plan, accept):
    """run the jobs of plan concurrently.
    plan: [(kind, solver, narrow, timeout)]; accept(env)->bool validates a model.
    Returns ('unsat', kind) | ('sat', env) | ('narrow', bits) | ('unknown', None)"""
    jobs = []
    narrow_ok = None
    t0 = time.time()
    for kind, which, nar, tmo in plan:
        try:
            if kind == 'fp':
                lines, vs = emit_fp(conj)
            elif kind == 'fpn':
                lines, vs = emit_fp(conj, nar)
            elif kind == 'nra':
                lines, vs = emit_real(conj, True)
            else:
                lines, vs = emit_real(conj, False)
        except Unsupported:
            continue
        j = Job(kind, which, lines, vs, tmo)
        j.nar = nar
        jobs.append(j)
        STATS.queries += 1
    res = ('unknown', None)
    live = list(jobs)
    try:
        while live:
            for j in list(live):
                r = j.poll()
                if r is None:
                    continue
                live.remove(j)
                STATS.by[j.kind + ':' + r] = STATS.by.get(j.kind + ':' + r, 0) + 1
                if os.environ.get('VP_DEBUG'):
                    print('   job', j.kind, j.which, j.nar, r, '%.1fs' % (time.time() - j.t0), (j.out[:150] if r == 'unknown' and hasattr(j, 'out') else ''), flush=True)
                if r == 'unsat' and j.kind in ('fp', 'nra'):
                    return ('unsat', j.kind)
                if r == 'unsat' and j.kind == 'fpn':
                    narrow_ok = max(narrow_ok or 0, j.nar)
                if r == 'sat':
                    try:
                        env = j.model()
                    except Exception:
                        env = None
                    if env is not None and accept(env):
                        return ('sat', env)
            time.sleep(0.01)
    finally:
        for j in live:
            j.kill()
        STATS.time += time.time() - t0
    if narrow_ok is not None:
        return ('narrow', narrow_ok)
    return res
