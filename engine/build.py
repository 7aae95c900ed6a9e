"""Builds IR and native binaries from /repo's current sources."""
import os, subprocess, sys, glob, hashlib, threading, concurrent.futures as cf

REPO = os.environ.get('SPECTRE_REPO', '/repo')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))

CFL = ['-include', 'cstdint', '-I' + REPO + '/src', '-I' + V + '/harness']
DEFS = ['-DCOMPILER_NAME="c"', '-DCOMPILER_VERSION="v"', '-DGIT_BRANCH="m"', '-DGIT_COMMIT_HASH="d"',
        '-DGIT_COMMIT_NO="1"']
IRFL = ['-std=c++11', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno',
        '-fno-strict-aliasing', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-unroll-loops', '-w', '-emit-llvm', '-c',
        '-fexceptions', '-fno-pic', '-fno-pie', '-D_GLIBCXX_USE_CXX11_ABI=1']
# production configuration: neither DEBUG nor TESTS


def sources(skip=()):
    """every C++ source of the program except main and the generated parser"""
    r = []
    for d, ds, fs in sorted(os.walk(REPO + '/src')):
        r += [os.path.join(d, f) for f in sorted(fs) if f.endswith(('.cpp', '.cxx', '.cc'))]
    drop = {REPO + '/src/main.cpp'} | {REPO + '/' + x for x in NATIVE_EXTRA}
    return [x for x in r if x not in drop and not any(x.endswith(s) for s in skip)]


def c_sources():
    r = []
    for d, ds, fs in sorted(os.walk(REPO + '/src')):
        r += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.c')]
    return r


NATIVE_EXTRA = ['src/parsers/config_parser.tab.cc', 'src/parsers/lex.yy.cc']


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd)[:300], p.stdout[-3000:]))
    return p.stdout


def obj(path, variant):
    return os.path.join(BUILD, variant, path.replace(REPO + '/', '').replace('/', '_'))


def expand(defs):
    """'SET:NAME=V' compiles against a copy of the current settings.h in which NAME is V"""
    out = []
    sets = [d[4:].split('=') for d in defs if d.startswith('SET:')]
    if sets:
        import re
        t = open(REPO + '/src/settings.h').read()
        for n, v in sets:
            t = re.sub(r'(#define[ \t]+%s[ \t]+)[^\n]*' % n, r'\g<1>' + v, t)
        t = t.replace('#include "validator.h"', '#include "%s/src/validator.h"' % REPO)
        p = os.path.join(BUILD, 'settings_%s.h' % hashlib.md5(repr(sets).encode()).hexdigest()[:8])
        os.makedirs(BUILD, exist_ok=True)
        if not os.path.exists(p) or open(p).read() != t:
            q = p + '.%d.%d' % (os.getpid(), threading.get_ident())
            open(q, 'w').write(t)
            os.replace(q, p)
        out += ['-include', p]
    return out + [d for d in defs if not d.startswith('SET:')]


def compile_ir(src, variant='ir', extra=()):
    extra = expand(extra)
    o = obj(src, variant) + '.bc'
    os.makedirs(os.path.dirname(o), exist_ok=True)
    if src.endswith('.c'):
        fl = [x for x in IRFL if x != '-std=c++11']
        run(['clang-18'] + fl + ['-I' + REPO + '/src'] + list(extra) + [src, '-o', o])
    else:
        run(['clang++-18'] + IRFL + CFL + DEFS + list(extra) + [src, '-o', o])
    return o


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = cf.ThreadPoolExecutor(8)
    return _pool


def drop_pool():
    global _pool
    if _pool is not None:
        _pool.shutdown(wait=True)
        _pool = None


class IR:
    """IR of the whole project, per define-variant"""

    def __init__(self):
        self.base = {}

    def get(self, defs=()):
        defs = tuple(defs)
        if defs not in self.base:
            v = 'ir' + hashlib.md5(repr(defs).encode()).hexdigest()[:6]
            fs = [pool().submit(compile_ir, s, v, defs) for s in sources()]
            fs += [pool().submit(compile_ir, s, v, defs) for s in c_sources()]
            fs.append(pool().submit(compile_ir, V + '/harness/stringinst.cpp', v, defs))
            self.base[defs] = [f.result() for f in fs]
        return self.base[defs]

    def harness(self, hfile, entries, defs=(), hdefs=()):
        """textual IR for a harness file restricted to the given entries"""
        bcs = self.get(defs)
        tag = hashlib.md5(repr((hfile, sorted(entries), defs, hdefs)).encode()).hexdigest()[:10]
        d = os.path.join(BUILD, 'h')
        os.makedirs(d, exist_ok=True)
        hb = os.path.join(d, tag + '.h.bc')
        run(['clang++-18'] + IRFL + CFL + DEFS + ['-fno-access-control'] + expand(defs) + list(hdefs) +
            [os.path.join(V, 'harness', hfile), '-o', hb])
        lb = os.path.join(d, tag + '.l.bc')
        # the harness comes last and overrides (stand-ins for randomness, files...)
        run([LLVM + 'llvm-link'] + bcs + ['--override', hb, '-o', lb])
        ob = os.path.join(d, tag + '.o.bc')
        run([LLVM + 'opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(entries), lb,
             '-o', ob])
        ll = os.path.join(d, tag + '.ll')
        run([LLVM + 'llvm-dis', ob, '-o', ll])
        os.unlink(lb)
        return ll


NFL = ['-O1', '-ftrivial-auto-var-init=pattern', '-g1', '-w', '-fno-omit-frame-pointer', '-ffp-contract=off',
       '-fsanitize=address,float-cast-overflow,signed-integer-overflow,integer-divide-by-zero,bounds,shift',
       '-fsanitize-recover=float-cast-overflow,signed-integer-overflow,integer-divide-by-zero,bounds,shift']


class Native:
    def __init__(self):
        self.objs = {}
        self.bins = {}
        self.lock = threading.Lock()

    def comp(self, src, v, defs):
        o = obj(src, v) + '.o'
        os.makedirs(os.path.dirname(o), exist_ok=True)
        if src.endswith('.c'):
            run(['gcc'] + NFL + ['-I' + REPO + '/src', '-c', src, '-o', o])
        else:
            run(['g++', '-std=c++11'] + NFL + CFL + DEFS + expand(defs) + ['-c', src, '-o', o])
        run(['objcopy', '--weaken', o])
        return o

    def prefetch(self, defs=()):
        defs = tuple(defs)
        with self.lock:
            if defs not in self.objs:
                v = 'nat' + hashlib.md5(repr(defs).encode()).hexdigest()[:6]
                srcs = sources() + [REPO + '/' + s for s in NATIVE_EXTRA] + c_sources()
                self.objs[defs] = [pool().submit(self.comp, s, v, defs) for s in srcs]
        return self.objs[defs]

    def binary(self, hfile, defs=(), hdefs=()):
        key = (hfile, tuple(defs), tuple(hdefs))
        if key in self.bins:
            return self.bins[key]
        fs = self.prefetch(defs)
        tag = hashlib.md5(repr(key).encode()).hexdigest()[:10]
        d = os.path.join(BUILD, 'n')
        os.makedirs(d, exist_ok=True)
        ho = os.path.join(d, tag + '.o')
        ro = os.path.join(d, tag + '.rt.o')
        run(['g++', '-std=c++11', '-DSYM_NATIVE', '-fno-access-control'] + NFL + CFL + DEFS + expand(defs) +
            list(hdefs) + ['-c', os.path.join(V, 'harness', hfile), '-o', ho])
        run(['g++', '-std=c++11', '-DSYM_NATIVE', '-O1', '-w'] + CFL + ['-c', os.path.join(V, 'harness/native_rt.cpp'),
                                                                        '-o', ro])
        b = os.path.join(d, tag + '.bin')
        run(['g++', '-fsanitize=address,undefined', '-o', b, ho, ro] + [f.result() for f in fs] + ['-lpthread'])
        self.bins[key] = b
        return b


def run_native(binary, entry, asg, workdir, timeout=25):
    """returns (status, info): ok / assume / assert:<id> / memory / fp2int / overflow / divzero / crash / timeout"""
    import tempfile
    fd, p = tempfile.mkstemp(dir=workdir, suffix='.in')
    with os.fdopen(fd, 'w') as f:
        for k, v in asg.items():
            if isinstance(v, float):
                f.write('%s %s\n' % (k, repr(v)))
            else:
                f.write('%s %d\n' % (k, v))
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    def unlimit():
        import resource
        h = resource.getrlimit(resource.RLIMIT_AS)[1]
        resource.setrlimit(resource.RLIMIT_AS, (h, h))
    try:
        q = subprocess.run([binary, entry, p], preexec_fn=unlimit, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env,
                           cwd=workdir)
    except subprocess.TimeoutExpired:
        return 'timeout', '', p
    out = q.stdout.decode('latin1')
    err = q.stderr.decode('latin1')
    st = 'ok' if q.returncode == 0 else 'assume' if q.returncode == 77 else 'crash:%d' % q.returncode
    if q.returncode == 42:
        for l in out.splitlines():
            if l.startswith('ASSERT-FAIL '):
                st = 'assert:' + l[12:]
    elif q.returncode == 99:
        st = 'memory'
    elif q.returncode == -14:
        st = 'timeout'
    elif q.returncode in (-8,):
        st = 'divzero'
    elif q.returncode in (-11, -7):
        st = 'memory'
    ub = []
    if 'is outside the range of representable values' in err:
        ub.append('fp2int')
    if 'signed integer overflow' in err:
        ub.append('overflow')
    if 'division by zero' in err:
        ub.append('divzero')
    if 'out of bounds for type' in err:
        ub.append('memory')
    return st, {'out': out, 'err': err[-4000:], 'ub': ub}, p
