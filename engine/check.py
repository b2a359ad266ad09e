#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import json
import multiprocessing as mp
import os
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
NPROC = int(os.environ.get('VP_JOBS', '8'))

PLAN = [
    [('fp', 'cvc5', None, 8), ('fpn', 'z3', 4, 8), ('nra', 'z3', None, 8), ('exact', 'z3', None, 4)],
    [('fp', 'cvc5', None, 30), ('fpn', 'cvc5', 6, 30), ('fpn', 'z3', 6, 30), ('nra', 'cvc5', None, 30)],
]
PLAN_T = [
    [('fp', 'cvc5', None, 15), ('fpn', 'z3', 4, 15), ('nra', 'z3', None, 15), ('exact', 'z3', None, 8)],
    [('fp', 'cvc5', None, 120), ('fpn', 'cvc5', 8, 120), ('fpn', 'z3', 8, 120), ('nra', 'cvc5', None, 120)],
]


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            d = a.setdefault(k, {})
            for x, y in v.items():
                if isinstance(y, list):
                    z = d.setdefault(x, [0] * len(y))
                    for i, w in enumerate(y):
                        z[i] += w
                else:
                    d[x] = d.get(x, 0) + y
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
        else:
            a[k] = a.get(k, 0) + v


def diffst(new, old):
    out = {}
    for k, v in new.items():
        if isinstance(v, dict):
            d = {}
            o = old.get(k, {})
            for x, y in v.items():
                if isinstance(y, list):
                    p = o.get(x, [0] * len(y))
                    z = [y[i] - p[i] for i in range(len(y))]
                    if any(z):
                        d[x] = z
                elif y - o.get(x, 0):
                    d[x] = y - o.get(x, 0)
            out[k] = d
        elif isinstance(v, list):
            out[k] = v[len(old.get(k, [])):]
        else:
            out[k] = v - old.get(k, 0)
    return out


def copyst(s):
    return {k: ({x: (list(y) if isinstance(y, list) else y) for x, y in v.items()} if isinstance(v, dict) else (list(v) if isinstance(v, list) else v)) for k, v in s.items()}


def plain(env):
    return {k.split('@')[0]: v for k, v in env.items()}


def worker(conn, mod, entry, cfg):
    import expr as X
    import ctl
    import smt
    smt.die_with_parent()
    try:
        os.setsid()
    except OSError:
        pass
    ex = None
    last = {}
    while True:
        msg = conn.recv()
        if msg is None:
            break
        stack = msg
        err = None
        if ex is None:
            ex = ctl.Explorer(mod, cfg)
            last = copyst(ex.ctl.st)
        t0 = time.time()
        nv, nw = len(ex.ctl.violations), len(ex.ctl.witness)
        try:
            while stack:
                p = stack.pop()
                alts = ex.run_path(entry, p)
                stack.extend(alts)
                if time.time() - t0 > cfg['slice'] or len(ex.ctl.violations) > nv:
                    break
        except ctl.Timeout:
            err = 'timeout'
        except X.Unsupported as e:
            err = 'unsupported: %s' % e
            if os.environ.get('VP_TRACE'):
                import traceback
                traceback.print_exc()
        now = copyst(ex.ctl.st)
        d = diffst(now, last)
        last = now
        conn.send((stack, d, [(v.kind, v.label, plain(v.env), v.note) for v in ex.ctl.violations[nv:]], [(plain(w[0]),) + tuple(w[1:]) for w in ex.ctl.witness[nw:]], err,
                   dict(smt.STATS.by), sorted(ex.prog.used), sorted(ex.ctl.covered)))
        smt.STATS.by.clear()


class Result(object):
    def __init__(self):
        self.st, self.viol, self.wit, self.err, self.by, self.used, self.complete = {}, [], [], [], {}, set(), True
        self.pending = 0


def explore(mod, entry, cfg, budget, on_violation=None):
    """parallel exploration of all paths of one entry"""
    res = Result()
    ctx = mp.get_context('fork')
    cfg = dict(cfg)
    cfg.setdefault('slice', 0.6)
    t_end = time.time() + budget
    cfg['deadline'] = t_end
    queue = [[]]
    ws = []
    busy = {}
    for i in range(NPROC):
        a, b = ctx.Pipe()
        c = dict(cfg)
        c['witnesses'] = cfg.get('witnesses', 2) if i < 2 else 0
        p = ctx.Process(target=worker, args=(b, mod, entry, c), daemon=True)
        ws.append([p, a, False, b])
    started = set()
    stop = False
    try:
        while True:
            idle = [w for w in ws if not w[2]]
            # start workers lazily, only while there is work for them
            for w in idle:
                if not queue or stop:
                    break
                if w[0] not in started:
                    w[0].start()
                    w[3].close()
                    started.add(w[0])
                n = max(1, len(queue) // (2 * NPROC))
                batch = [queue.pop(0) for _ in range(min(n, len(queue)))]
                batch.reverse()
                w[1].send(batch)
                w[2] = True
            act = [w for w in ws if w[2]]
            if not act:
                break
            left = t_end - time.time()
            if left < -20:
                res.complete = False
                res.err.append('time budget')
                break
            rl = mp.connection.wait([w[1] for w in act], timeout=max(0.1, min(left + 20, 5)))
            for w in act:
                if w[1] not in rl:
                    if not w[0].is_alive():
                        res.err.append('worker died')
                        res.complete = False
                        w[2] = False
                        stop = True
                    continue
                try:
                    stack, d, viol, wit, err, by, used, cov = w[1].recv()
                except EOFError:
                    res.err.append('worker died')
                    res.complete = False
                    w[2] = False
                    stop = True
                    continue
                w[2] = False
                merge(res.st, d)
                merge(res.by, by)
                res.used |= set(used)
                res.wit += wit
                if err:
                    res.err.append(err)
                    res.complete = False
                    if err == 'timeout':
                        stop = True
                queue.extend(stack)
                if len(res.err) > 50:
                    stop = True
                for v in viol:
                    if on_violation is None or on_violation(entry, v):
                        res.viol.append(v)
                        stop = True
            if time.time() > t_end:
                stop = True
            if stop and queue:
                res.pending += len(queue)
                queue = []
                if not res.viol:
                    res.complete = False
    finally:
        for w in ws:
            if w[0] in started:
                try:
                    if not w[2] and w[0].is_alive():
                        w[1].send(None)
                except OSError:
                    pass
        t = time.time()
        for w in ws:
            if w[0] in started:
                w[0].join(timeout=max(0.1, 0.5 - (time.time() - t)))
                if w[0].is_alive():
                    try:
                        os.killpg(w[0].pid, signal.SIGKILL)
                    except OSError:
                        w[0].kill()
    return res


def hexval(v):
    if isinstance(v, bool):
        return '%x' % int(v)
    if isinstance(v, float):
        return '%016x' % struct.unpack('<Q', struct.pack('<d', v))[0]
    return '%016x' % (v & (2 ** 64 - 1))


class Replayer(object):
    def __init__(self, tmp, harness, spec, defs):
        import build
        self.tmp = tmp
        self.nat = build.Native(tmp, harness, spec, defs)
        self.asan = None
        self.mk = lambda: build.Native(tmp, harness, spec, defs, asan=True)
        self.th = threading.Thread(target=self.nat.build)
        self.th.daemon = True
        self.th.start()
        self.n = 0

    def wait(self):
        self.th.join()
        if self.nat.exe is None:
            raise RuntimeError('native replay cannot be built: %s' % (self.nat.err or '')[-3000:])

    def run(self, entry, env, asan=False):
        self.wait()
        nat = self.nat
        if asan:
            if self.asan is None:
                self.asan = self.mk().build()
            if self.asan.exe:
                nat = self.asan
        self.n += 1
        d = tempfile.mkdtemp(dir=self.tmp, prefix='run')
        path = os.path.join(d, 'in.txt')
        with open(path, 'w') as f:
            for k, v in sorted(env.items()):
                f.write('%s %s\n' % (k, hexval(v)))
        try:
            e = dict(os.environ)
            e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1'
            p = subprocess.run([nat.exe, entry, path], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=e)
            return p.returncode, p.stdout.decode('latin-1')
        except subprocess.TimeoutExpired:
            return 'hang', ''
        finally:
            shutil.rmtree(d, ignore_errors=True)


def main():
    t_start = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:] or None
    import checks
    spec = checks.get(pid, tier)
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    os.environ['VP_TMP'] = tmp
    rc = 3
    try:
        rc = run_check(pid, tier, spec, tmp, t_start, only)
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('ERROR property=%s %s' % (pid, str(e)[:300]))
        rc = 3
    finally:
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    try:
        return json.load(open(p)).get('findings', [])
    except (OSError, ValueError):
        return []


def run_check(pid, tier, spec, tmp, t_start, only):
    import build
    import llmod
    evid = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    reports = []
    viols = []
    known = []
    bad = []
    mism = []
    budget_total = spec.get('budget', 300 if tier == 'quick' else 840)
    samples = []
    for unit in spec['units']:
        harness, defs = unit['harness'], ['-D%s=%s' % kv for kv in sorted(unit.get('defs', {}).items())]
        nspec = dict(spec.get('native_spec', {}), **unit.get('native_spec', {}))
        utmp = os.path.join(tmp, unit.get('name', harness.replace('.cc', '') + '_' + '_'.join(defs).replace('-D', '').replace('=', '')))
        os.makedirs(utmp, exist_ok=True)
        entries = [e for e in unit['entries'] if not only or e in only]
        if not entries:
            continue
        t0 = time.time()
        rep = Replayer(utmp, harness, nspec, defs)
        modp = build.build_ir(utmp, harness, defs, unit['entries'] + sorted(set(dict(spec.get('cfg', {}).get('stubs', {}), **unit.get('cfg', {}).get('stubs', {})).values())))
        t_build = time.time() - t0
        for entry in entries:
            mod = llmod.Module(modp)
            cfg = dict(spec.get('cfg', {}))
            cfg.update(unit.get('cfg', {}))
            cfg.update(unit.get('ecfg', {}).get(entry, {}))
            cfg.setdefault('plan', PLAN if tier == 'quick' else PLAN_T)
            left = budget_total - (time.time() - t_start)
            unconf = set()

            def confirm(entry, v, rep=rep, unconf=unconf):
                kind, label, env, note = v
                if (label, note) in unconf:
                    return False
                if kind == 'bug':
                    rcode, out = rep.run(entry, env)
                    how = ''
                    ok = rcode == 'hang' or (isinstance(rcode, int) and rcode not in (0, 4, 5))
                    if not ok:
                        rcode, out = rep.run(entry, env, asan=True)
                        ok = rcode == 'hang' or (isinstance(rcode, int) and rcode not in (0, 4, 5)) or 'ERROR: AddressSanitizer' in out or 'runtime error' in out
                    tail = note
                else:
                    rcode, out = rep.run(entry, env)
                    ok = ('VP_FAIL %s\n' % label) in out
                    if not ok and isinstance(rcode, int) and rcode not in (0, 4, 5):
                        ok = True
                if os.environ.get('VP_DEBUG'):
                    print('replay', entry, v, '->', rcode, out[-600:], flush=True)
                if not ok:
                    unconf.add((label, note))
                    bad.append('%s: "%s" %s not reproduced by the real code (exit %s)' % (entry, label, note, rcode))
                    return False
                for kf in known_findings():
                    if kf.get('property') == pid and kf.get('entry') == entry and re.search(kf['match'], label + ' ' + note + '\n' + out):
                        known.append(kf)
                        return False
                viols.append((entry, unit, v, out))
                return True
            r = explore(mod, entry, cfg, max(5, left), confirm)
            d = dict(entry=entry, unit=harness, defs=defs, complete=r.complete, errors=sorted(set(r.err))[:10], pending=r.pending,
                     stats=r.st, smt=r.by, functions=sorted(x for x in r.used), wall_s=0)
            d['covers'] = []
            # validate the executor itself: the real code must give the same observations
            nval = 0
            nobs = 0
            if not r.viol:
                for env, obs, cov in r.wit[:unit.get('max_wit', 6)]:
                    rcode, out = rep.run(entry, env)
                    d['covers'] = sorted(set(d['covers']) | set(cov))
                    if rcode == 4 or 'VP_ASSUME' in out or rcode == 5:
                        mism.append('%s: witness rejected natively (%s)' % (entry, rcode))
                        continue
                    if rcode != 0:
                        mism.append('%s: witness run exits %s: %s' % (entry, rcode, out[-300:]))
                        continue
                    got = re.findall(r'^VP_OBS (\S+) (\S+)$', out, re.M)
                    want = []
                    for n, v in obs:
                        if isinstance(v, bool):
                            v = int(v)
                        h = hexval(v)
                        if isinstance(v, float) and v != v:
                            h = '7ff8000000000000'
                        want.append((n, h.rjust(16, '0')))
                    if got != want:
                        k = [i for i in range(min(len(got), len(want))) if got[i] != want[i]]
                        mism.append('%s: observation differs: native %s, executor %s' % (entry, got[k[0]] if k else len(got), want[k[0]] if k else len(want)))
                        if os.environ.get('VP_DEBUG'):
                            print('MISMATCH', env, got, want)
                    elif [x for x in re.findall(r'VP_FAIL (.*)', out)
                          if not any(kf.get('property') == pid and kf.get('entry') == entry and re.search(kf['match'], x) for kf in known_findings())]:
                        mism.append('%s: a check that was proved fails natively: %s' % (entry, re.findall(r'VP_FAIL.*', out)[0]))
                    else:
                        nval += 1
                        nobs += len(want)
                    if len(samples) < 6:
                        samples.append(dict(entry=entry, kind='witness of an explored path, replayed against the real code', inputs={k: (repr(v) if isinstance(v, float) else v) for k, v in sorted(env.items())[:60]}, observed_natively=['%s=%s' % g for g in got[:20]], agrees=got == want))
            d['witnesses_replayed'] = nval
            d['observations_compared'] = nobs
            d['wall_s'] = round(time.time() - t0, 2)
            d['build_s'] = round(t_build, 2)
            d['unreached_covers'] = [c for c in unit.get('covers', {}).get(entry, []) if c not in d['covers']]
            reports.append(d)
            if r.viol:
                break
        try:
            rep.th.join(timeout=120)
        except Exception:
            pass
        if viols:
            break
    for entry, unit, (kind, label, env, note), out in viols[:1]:
        samples.append(dict(entry=entry, kind='counterexample, replayed against the real code', check=label, note=note, inputs={k: (repr(v) if isinstance(v, float) else v) for k, v in sorted(env.items())[:80]}))
    tot = {}
    for d in reports:
        merge(tot, d['stats'])
    wall = time.time() - t_start
    replay_path = None
    if viols:
        rd = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        entry, unit, (kind, label, env, note), out = viols[0]
        replay_path = os.path.join(rd, '%s.json' % pid)
        with open(replay_path, 'w') as f:
            json.dump(dict(property=pid, entry=entry, harness=unit['harness'], defs=unit.get('defs', {}), label=label, kind=kind, note=note,
                           inputs={k: (v if not isinstance(v, float) else repr(v)) for k, v in env.items()},
                           inputs_hex={k: hexval(v) for k, v in env.items()}, native_output=out[-4000:]), f, indent=1)
    ev = evidence(pid, tier, spec, reports, tot, viols, bad, mism, known, wall, replay_path, samples)
    with open(evid, 'w') as f:
        json.dump(ev, f, indent=1)
    unk = tot.get('unknown', [])
    incomplete = [d for d in reports if not d['complete']]
    print('%s %s: %d entries, %d paths (%d infeasible), %d obligations (%d by simplification, %d linear, %d by solver portfolio of which %d in narrowed precision), '
          '%d solver queries, %.1fs solver time, %d witnesses replayed, %.1fs' % (
              pid, tier, len(reports), tot.get('paths', 0), tot.get('infeasible', 0), tot.get('checks', 0), tot.get('syntactic', 0), tot.get('la_proved', 0),
              tot.get('heavy_proved', 0) + tot.get('narrow', 0), tot.get('narrow', 0), tot.get('smt_queries', 0) + tot.get('la_checks', 0),
              tot.get('smt_time', 0) + tot.get('la_time', 0), sum(d['witnesses_replayed'] for d in reports), wall))
    for kf in {k['id']: k for k in known}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, kf.get('what', kf['id'])))
    for d in incomplete:
        print('INCOMPLETE %s: %s, %d paths left' % (d['entry'], '; '.join(d['errors']), d['pending']))
    for x in sorted(set(unk)):
        print('UNDECIDED %s (%d)' % (x, unk.count(x)))
    for x in bad:
        print('UNCONFIRMED %s' % x)
    for x in mism[:5]:
        print('MISMATCH %s' % x)
    for d in reports:
        if d['unreached_covers']:
            print('NOT REACHED %s: %s' % (d['entry'], d['unreached_covers']))
    if viols:
        entry, unit, (kind, label, env, note), out = viols[0]
        print('counterexample of %s: "%s" %s' % (entry, label, note))
        for k, v in sorted(env.items()):
            print('   %s = %r' % (k, v))
        for ln in out.splitlines():
            if ln.startswith('VP_DIFF') or 'ssert' in ln:
                print('   ' + ln[:300])
        print('VIOLATION property=%s replay=%s' % (pid, replay_path))
        return 1
    hard = [d for d in incomplete if any('unsupported' in e or 'died' in e for e in d['errors'])]
    dec = tot.get('checks', 0)
    if mism:
        print('NO ANSWER: the symbolic executor disagrees with the real code')
        return 3
    if hard and not [d for d in reports if d['complete']] and dec == 0:
        return 3
    if dec == 0:
        print('NO ANSWER: nothing was decided')
        return 3
    return 0


def evidence(pid, tier, spec, reports, tot, viols, bad, mism, known, wall, replay_path, samples):
    import checks
    fns = sorted(set(f for d in reports for f in d['functions']))
    repo_fns = [f for f in demangle(fns) if 'trader::' in f]
    cov = dict(
        explanation=spec.get('explanation') or checks.EXPL,
        functions_encoded=[f for f in repo_fns][:200],
        functions_encoded_total=len(fns),
        bounds=spec.get('bounds', ''),
        outside_bounds=spec.get('outside', ''),
        samples=samples, witnesses_replayed_natively=sum(d['witnesses_replayed'] for d in reports), branches_decided=tot.get('branches', 0),
        paths=tot.get('paths', 0), infeasible_paths=tot.get('infeasible', 0), instructions_executed=tot.get('steps', 0),
        obligations=tot.get('checks', 0), by_simplification=tot.get('syntactic', 0), by_linear_solver=tot.get('la_proved', 0),
        by_portfolio=tot.get('heavy_proved', 0), narrowed_precision_only=tot.get('narrow_labels', {}),
        undecided=sorted(set(tot.get('unknown', []))), unconfirmed_counterexamples=bad, executor_mismatches=mism,
        linear_solver_queries=tot.get('la_checks', 0), portfolio_queries=tot.get('smt_queries', 0),
        solver_time_s=round(tot.get('smt_time', 0) + tot.get('la_time', 0), 2),
        observations_compared_with_native=sum(d['observations_compared'] for d in reports),
        entries=[dict(entry=d['entry'], harness=d['unit'], defs=d['defs'], complete=d['complete'], errors=d['errors'], paths=d['stats'].get('paths', 0),
                      obligations=d['stats'].get('labels', {}), covers=d['covers'], unreached=d['unreached_covers'], wall_s=d['wall_s'], smt=d['smt']) for d in reports],
        known_findings=sorted(set(k['id'] for k in known)),
    )
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=spec.get('level', checks.LEVEL), coverage=cov, wall_s=round(wall, 2),
              assumptions=spec.get('assumptions', []) + checks.ASSUME)
    ev['violations'] = len(viols)
    if viols:
        cov['violation'] = [dict(entry=e, label=v[1], note=v[3], replay=replay_path) for e, u, v, o in viols]
    return ev


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True, timeout=20)
        return p.stdout.split('\n')
    except Exception:
        return names


if __name__ == '__main__':
    main()
