#!/usr/bin/env python3
"""Development aid: turns the specs in tools/seedspec.py into /verif/seeded/<id>/ and confirms each in a scratch copy.
   mkseed.py [ID...]     mkseed.py --check ID   (runs the property's quick check on the patched copy)"""
import json, os, subprocess, sys, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
import seedspec
SC = '/tmp/wt_seed%d' % os.getpid()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def inns(cmd):
    return sh("unshare -rm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (SC, cmd))


def fresh():
    if os.path.isdir(SC):
        shutil.rmtree(SC)
    subprocess.check_call(['cp', '-a', '/repo', SC])


def edit(s):
    for f, old, new in s['edits']:
        p = os.path.join(SC, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))


def failing():
    r = inns('bash /opt/vp/test.sh /tmp/seed_out%d.json > /dev/null 2>&1; true' % os.getpid())
    o = json.load(open('/tmp/seed_out%d.json' % os.getpid()))
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = base['stable']
    return [t for t in want if t not in o['passed']]


def make(s):
    d = os.path.join(H, 'seeded', s['id'])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(os.path.join(d, 'demo.cc'), 'w').write(s['demo'].lstrip('\n'))
    srcs = s['srcs'].split()
    protos = ['base/base', 'eval/eval', 'traders/trader_config']
    need = ' '.join('_build/gen/%s.pb.cc' % p for p in (protos if s.get('allprotos') else ['base/base']))
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'find "$tmp" -mindepth 1 -delete; rmdir "$tmp"' EXIT
g++ -std=c++17 -O1 -DHAVE_ZLIB %s -I. -I_build/gen -o "$tmp/demo" "$here/demo.cc" %s %s -lprotobuf -lz %s -lpthread || exit 3
cd "$tmp" && timeout 60 ./demo
''' % (s.get('flags', ''), ' '.join(srcs), need, '-Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so /usr/lib/x86_64-linux-gnu/libabsl_*.a 2>/dev/null | sed -E "s#.*/lib(absl_[a-z0-9_]*)\\..*#\\1#" | sort -u | grep -vE "test|mock|flags_parse_main" | sed "s/^/-l/") -Wl,--end-group' if s.get('absl') else ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    fresh()
    base = inns('bash %s/demo.sh' % d)
    edit(s)
    p = sh('git -C %s diff' % SC).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(p)
    bad = failing()
    dem = inns('bash %s/demo.sh' % d)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = base.returncode == 0 and dem.returncode not in (0, 3) and not bad
    print(s['id'], 'OK' if ok else 'BAD', 'base', base.returncode, 'patched', dem.returncode, 'failing tests', bad[:3], (base.stdout[-900:] if base.returncode else '') + (dem.stdout[-600:] if not ok else ''), flush=True)
    return ok


def check(s, quiet=False):
    fresh()
    d = os.path.join(H, 'seeded', s['id'])
    subprocess.check_call(['git', '-C', SC, 'apply', os.path.join(d, 'patch.diff')])
    r = inns('cd %s && timeout 890 python3-vt engine/check.py %s quick' % (H, s['prop']))
    v = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'counterexample'))]
    print(s['id'], s['prop'], 'CAUGHT' if r.returncode == 1 and any(l.startswith('VIOLATION property=%s ' % s['prop']) for l in v) else 'MISSED', 'rc', r.returncode, v[:1], r.stdout.splitlines()[0][-60:] if r.stdout else '', flush=True)
    if r.returncode != 1:
        print(r.stdout[-1500:])


a = sys.argv[1:]
chk = '--check' in a
a = [x for x in a if not x.startswith('--')]
try:
    for s in seedspec.S:
        if a and s['id'] not in a and s['prop'] not in a:
            continue
        if chk:
            check(s)
        else:
            make(s)
finally:
    if os.path.isdir(SC):
        shutil.rmtree(SC)
