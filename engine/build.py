"""Builds the symbolic IR module and the native replay binary from /repo's working tree."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

import protogen

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SHIM = os.path.join(HERE, 'shim')
HARN = os.path.join(HERE, 'harness')
NAT = os.path.join(HERE, 'native')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
IRFLAGS = ['-std=c++17', '-O1', '-c', '-emit-llvm', '-fno-exceptions', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize',
           '-fno-unroll-loops', '-fno-math-errno', '-include', os.path.join(SHIM, 'vp_pre.h'), '-DHAVE_ZLIB', '-DVP_SYMBOLIC', '-w', '-U_FORTIFY_SOURCE',
           '-fno-stack-protector', '-fno-threadsafe-statics', '-fno-builtin-memcmp', '-fno-builtin-bcmp']
NFLAGS = ['-std=c++17', '-O1', '-DHAVE_ZLIB', '-DVP_NATIVE', '-w', '-ffp-contract=off']
MAIN_SRC = ('convert.cc', 'trader.cc')
EXCL = re.compile(r'(_test|test_util)\.cc$')


class BuildError(Exception):
    pass


def sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith(('.', '_', 'bazel-')))
        for f in sorted(files):
            if not f.endswith('.cc') or EXCL.search(f):
                continue
            rel = os.path.relpath(os.path.join(root, f), REPO)
            if rel in MAIN_SRC:
                continue
            out.append(rel)
    return out


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def ir_compile(args):
    src, dst, inc, defs = args
    run([CLANG] + IRFLAGS + defs + ['-I' + x for x in inc] + [src, '-o', dst])
    return dst


def build_ir(tmp, harness, defs=(), entries=(), pool=None, extra=()):
    """-> path of the linked module"""
    d = os.path.join(tmp, 'ir')
    gen = os.path.join(d, 'gen')
    os.makedirs(gen, exist_ok=True)
    protogen.generate(REPO, gen)
    inc = [SHIM, gen, REPO, HARN]
    defs = list(defs)
    jobs = [(os.path.join(HARN, harness), os.path.join(d, 'harness.bc'), inc, defs),
            (os.path.join(SHIM, 'support.cc'), os.path.join(d, 'support.bc'), inc, defs),
            (os.path.join(SHIM, 'support_fut.cc'), os.path.join(d, 'support_fut.bc'), inc, defs)]
    for i, s in enumerate(sources()):
        jobs.append((os.path.join(REPO, s), os.path.join(d, 'r%d.bc' % i), inc, defs))
    def one(j):
        try:
            return ir_compile(j)
        except BuildError as e:
            if not j[0].startswith(REPO + os.sep):
                raise
            # a source the harness may not even need: calling into it is then reported as unsupported
            print('NOT ENCODED %s: %s' % (j[0], str(e)[-600:]))
            return None
    with cf.ThreadPoolExecutor(8) as ex:
        bcs = [b for b in ex.map(one, jobs) if b]
    out = os.path.join(d, 'all.bc')
    run([LINK] + bcs + ['-o', out])
    out2 = os.path.join(d, 'mod.bc')
    run([OPT, '--passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(entries), out, '-o', out2])
    return out2


def native_compile(args):
    src, dst, inc, flags = args
    run(['g++'] + flags + ['-I' + x for x in inc] + ['-c', src, '-o', dst])
    return dst


def pkg_libs():
    out = ['-lprotobuf', '-lz']
    try:
        libs = sorted(set(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so') + glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a')))
    except OSError:
        libs = []
    names = []
    for l in libs:
        n = re.sub(r'^lib|\.(so|a)$', '', os.path.basename(l))
        if n not in names and 'test' not in n and 'mock' not in n and n != 'absl_flags_parse_main':
            names.append(n)
    return out + ['-Wl,--start-group'] + ['-l' + n for n in names] + ['-Wl,--end-group', '-lpthread', '-ldl']


class Native(object):
    """the harness linked with the real sources and the real libraries"""

    def __init__(self, tmp, harness, spec, defs=(), asan=False):
        self.dir = os.path.join(tmp, 'native' + ('_asan' if asan else ''))
        os.makedirs(os.path.join(self.dir, 'gen'), exist_ok=True)
        self.harness, self.spec, self.defs, self.asan = harness, spec, list(defs), asan
        self.exe = None
        self.err = None

    def build(self):
        try:
            self._build(self.spec.get('native') or sources())
        except BuildError as e:
            try:
                self._build(sources())      # code may have moved to another file
            except BuildError as e2:
                self.err = str(e2)
        return self

    def _build(self, srcs):
        d = self.dir
        gen = os.path.join(d, 'gen')
        protos = []
        for root, dirs, files in os.walk(REPO):
            dirs[:] = [x for x in dirs if not x.startswith(('.', '_'))]
            protos += [os.path.relpath(os.path.join(root, f), REPO) for f in files if f.endswith('.proto')]
        protos = [p for p in protos if not p.startswith('util/')]
        run(['protoc', '-I' + REPO, '--cpp_out=' + gen] + protos, cwd=REPO)
        want = self.spec.get('protos')
        srcs = [s for s in srcs if os.path.exists(os.path.join(REPO, s))]
        flags = NFLAGS + self.defs + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-g'] if self.asan else [])
        inc = [os.path.join(NAT, 'inc')] + ([os.path.join(NAT, 'incfut')] if self.spec.get('fut') else []) + [gen, REPO, HARN, NAT]
        shim_only = os.path.join(SHIM)
        jobs = [(os.path.join(HARN, self.harness), os.path.join(d, 'harness.o'), inc, flags + ['-I' + NAT]),
                (os.path.join(NAT, 'vp_native.cc'), os.path.join(d, 'vp_native.o'), inc, flags)]
        if self.spec.get('fut'):
            jobs.append((os.path.join(SHIM, 'support_fut.cc'), os.path.join(d, 'support_fut.o'), inc, flags))
        for i, s in enumerate(srcs):
            jobs.append((os.path.join(REPO, s), os.path.join(d, 'r%d.o' % i), inc, flags))
        for p in protos:
            if want is None or p in want:
                jobs.append((os.path.join(gen, p.replace('.proto', '.pb.cc')), os.path.join(d, p.replace('/', '_') + '.o'), inc, flags))
        with cf.ThreadPoolExecutor(6) as ex:
            objs = list(ex.map(native_compile, jobs))
        for sym, repl in self.spec.get('wrap', {}).items():
            # calls to sym are answered by the harness (defined there as repl)
            for o in objs:
                if not o.endswith(('vp_native.o',)):
                    run(['objcopy', '--weaken-symbol=' + sym, o])
            run(['objcopy', '--redefine-sym', repl + '=' + sym, os.path.join(d, 'harness.o')])
        exe = os.path.join(d, 'replay')
        run(['g++', '-o', exe] + objs + (['-fsanitize=address,undefined'] if self.asan else []) + pkg_libs())
        self.exe = exe


if __name__ == '__main__':
    print(sources())
