#!/usr/bin/env python3
"""check.py ID            run the check of a property (VERIF_SEED, VERIF_TIER)
check.py ID --replay F  run one saved case again
check.py --setup        build every variant once (a smoke test; checks do not rely on it)

Exit 0: the property held on everything explored. Exit 1, with a VIOLATION line:
it is broken. Exit 3: the check could not be carried out.
"""
import collections, concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
T0 = time.time()

# ---------------------------------------------------------------- builds

TOOLCHAIN = '/opt/veriftools/go1.26.10/bin'
WARM_CACHE = '/opt/vp/go/cache'

BUILDS = {
    'host': {},
    'race': {'flags': ['-race']},
    'asan': {'flags': ['-asan']},
    'tsan': {'env': {'CGO_CFLAGS': '-O1 -g -fsanitize=thread', 'CGO_LDFLAGS': '-fsanitize=thread'}},
    'noasm': {'tags': ['noasm'], 'nob': True},
    'nocgo': {'env': {'CGO_ENABLED': '0'}},
    'arm64': {'env': {'GOARCH': 'arm64', 'CC': 'aarch64-linux-gnu-gcc'}},
    'arm64noasm': {'tags': ['noasm'], 'nob': True, 'env': {'GOARCH': 'arm64', 'CC': 'aarch64-linux-gnu-gcc'}},
    'nocgonoasm': {'tags': ['noasm'], 'nob': True, 'env': {'CGO_ENABLED': '0'}},
    'arm': {'env': {'GOARCH': 'arm', 'CC': 'arm-linux-gnueabihf-gcc'}, 'nob': True},
    '386': {'env': {'GOARCH': '386', 'CGO_ENABLED': '0'}, 'nob': True},
    's390x': {'env': {'GOARCH': 's390x', 'CGO_ENABLED': '0'}, 'nob': True},
    'wasm': {'env': {'GOOS': 'js', 'GOARCH': 'wasm', 'CGO_ENABLED': '0'}, 'nob': True},
    # Without optimization; other compilers.
    'noopt': {'flags': ['-gcflags=all=-N -l'], 'env': {'CGO_CFLAGS': '-O0'}},
    'clang': {'env': {'CC': 'clang', 'CGO_CFLAGS': '-O3'}},
    'pie': {'flags': ['-buildmode=pie']},
    'v3': {'env': {'GOAMD64': 'v3', 'CGO_CFLAGS': '-O3 -march=x86-64-v3'}},
    'v4': {'env': {'GOAMD64': 'v4', 'CGO_CFLAGS': '-O3 -march=x86-64-v4 -funroll-loops'}},
    'small': {'env': {'CGO_CFLAGS': '-Os -fno-strict-aliasing -fsigned-char', 'CGO_ENABLED': '1'}, 'flags': ['-trimpath', '-ldflags=-s -w']},
    'arm5': {'env': {'GOARCH': 'arm', 'GOARM': '5', 'CGO_ENABLED': '0'}, 'nob': True},
    '386soft': {'env': {'GOARCH': '386', 'GO386': 'softfloat', 'CGO_ENABLED': '0'}, 'nob': True},
    'go124': {'toolchain': '/opt/veriftools/go1.24.13/bin'},
    'go127': {'toolchain': '/opt/veriftools/go1.27.3/bin'},
}
for _a in ('mips', 'mipsle', 'mips64', 'mips64le', 'ppc64', 'ppc64le', 'riscv64', 'loong64'):
    BUILDS[_a] = {'env': {'GOARCH': _a, 'CGO_ENABLED': '0'}, 'nob': True}
# The C code on targets that there is no C library for: in a process of its own.
BUILDS['cext'] = {'tags': ['cext'], 'env': {'CGO_ENABLED': '0'}, 'nob': True}
CEXT = {
    'mips': ('qemu-mips', ['--target=mips-linux-gnu', '-mno-abicalls', '-G0']),
    's390x': ('qemu-s390x', ['--target=s390x-linux-gnu']),
    'i386': ('qemu-i386', ['--target=i386-linux-gnu']),
    'ppc': ('qemu-ppc', ['--target=powerpc-linux-gnu']),
    'aarch64_be': ('qemu-aarch64_be', ['--target=aarch64_be-linux-gnu']),
    'armeb': ('qemu-armeb', ['--target=armeb-linux-gnueabi', '-march=armv7-a', '-Wl,--be8']),
}
# Compiled only.
OTHERS = ['darwin/arm64', 'darwin/amd64', 'windows/amd64', 'windows/arm64', 'freebsd/amd64', 'wasip1/wasm']
OTHERS_ALL = OTHERS + ['windows/386', 'linux/ppc64', 'linux/riscv64', 'linux/loong64', 'openbsd/arm64', 'netbsd/arm', 'solaris/amd64', 'plan9/amd64', 'aix/ppc64', 'dragonfly/amd64', 'android/arm64']
for _a in OTHERS_ALL:
    for _t in ([], ['noasm']):
        BUILDS[_a + ''.join('+' + t for t in _t)] = {'tags': _t, 'env': dict(zip(('GOOS', 'GOARCH'), _a.split('/')), CGO_ENABLED='0')}

QX = 'qemu-x86_64 -cpu '
QA = 'qemu-aarch64 -L /usr/aarch64-linux-gnu -cpu '
# config -> build, command prefix
CONFIGS = {
    'host': ('host', ''), 'race': ('race', ''), 'asan': ('asan', ''), 'tsan': ('tsan', ''), 'noasm': ('noasm', ''), 'nocgo': ('nocgo', ''),
    'amd64q': ('host', QX + 'max'),
    'arm64': ('arm64', QA + 'max'),
    'arm64noasm': ('arm64noasm', QA + 'max'), 'nocgonoasm': ('nocgonoasm', ''),
    'arm': ('arm', 'qemu-arm -L /usr/arm-linux-gnueabihf -cpu max'),
    '386': ('386', 'qemu-i386 -cpu max'),
    's390x': ('s390x', 'qemu-s390x -cpu max'),
    'wasm': ('wasm', 'node --stack-size=8192 ' + os.path.join(TOOLCHAIN, '../lib/wasm/wasm_exec_node.js')),
    'mips': ('mips', 'qemu-mips'), 'mipsle': ('mipsle', 'qemu-mipsel'), 'mips64': ('mips64', 'qemu-mips64'), 'mips64le': ('mips64le', 'qemu-mips64el'),
    'ppc64': ('ppc64', 'qemu-ppc64'), 'ppc64le': ('ppc64le', 'qemu-ppc64le'), 'riscv64': ('riscv64', 'qemu-riscv64'), 'loong64': ('loong64', 'qemu-loongarch64'),
    'pie': ('pie', ''), 'v3': ('v3', ''), 'v4': ('v4', ''), 'small': ('small', ''), 'arm5': ('arm5', 'qemu-arm -cpu max'), '386soft': ('386soft', 'qemu-i386 -cpu max'),
    'noopt': ('noopt', ''), 'clang': ('clang', ''), 'go124': ('go124', ''), 'go127': ('go127', ''),
}
for c in CEXT:
    CONFIGS['c:' + c] = ('cext', '')
for c in ('max,-sha-ni', 'max,-avx,-avx2', 'max,-ssse3', 'max,-sse4.1', 'max,-pni', 'Denverton', 'Nehalem', 'Conroe', 'qemu64', 'EPYC', 'Haswell',
          'Icelake-Server', 'Snowridge', 'Opteron_G1', 'SapphireRapids', 'IvyBridge', 'max,-avx', 'max,-xsave', 'max,-sse4.2', 'max,-avx2', 'max,-pclmulqdq', 'max,-bmi1,-bmi2'):
    CONFIGS['x86:' + c] = ('host', QX + c)
    CONFIGS['x86nocgo:' + c] = ('nocgo', QX + c)
for c in ('cortex-a53', 'cortex-a57', 'cortex-a72', 'a64fx', 'neoverse-n1', 'neoverse-v1'):
    CONFIGS['a64:' + c] = ('arm64', QA + c)
# An arm64 processor without the SHA-1 instructions, which qemu has no model of: the
# capability is taken from the auxiliary vector (see harness/hwcap_arm64.go), and
# none of the instructions may then be among the code that qemu translates.
CONFIGS['a64:nosha1'] = ('arm64', QA + 'max -d in_asm -D LOG')
SHA1_OPS = ((0xFFE0CC00, 0x5E000000), (0xFFFFEC00, 0x5E280800))


class CheckError(Exception):
    pass


def base_env(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith('GO')}
    path = e.get('PATH', '/usr/bin:/bin')
    if os.path.exists(TOOLCHAIN + '/go'):
        path = TOOLCHAIN + ':' + path
    e.update(PATH=path, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOWORK='off',
             GOENV='off', GOCACHE=gocache(), GOTMPDIR=scratch, TMPDIR=scratch, CGO_ENABLED='1', CC='gcc',
             HOME=e.get('HOME', '/root'))
    return e


def gocache():
    """A build cache of our own, filled from the warm one of the sandbox if there is one."""
    d = os.path.join(VERIF, '.gocache')
    if not os.path.isdir(d):
        tmp = tempfile.mkdtemp(prefix='.gocache-', dir=VERIF)
        if os.path.isdir(WARM_CACHE):
            subprocess.run(['cp', '-a', WARM_CACHE + '/.', tmp], stderr=subprocess.DEVNULL)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def overlay(scratch, name, c, b):
    o = os.path.join(HARNESS, 'overlay')
    rep = {}
    if name == 'cext':
        for n in os.listdir(REPO + '/cgo'):
            if n.endswith('.go'):
                rep[f'{REPO}/cgo/{n}'] = ''
        rep[f'{REPO}/cgo/zz_verif_cgo_ext.go'] = f'{o}/cgo_ext.go'
    elif c:
        for n in ('cgo_hooks.go', 'cgo_hooks2.go'):
            rep[f'{REPO}/cgo/zz_verif_{n}'] = f'{o}/{n}'
    if b:
        for n in ('block_amd64.go', 'block_arm64.go', 'poison_amd64.s', 'poison_arm64.s'):
            rep[f'{REPO}/zz_verif_{n}'] = f'{o}/{n}'
    p = os.path.join(scratch, f'overlay-{name}-{int(c)}{int(b)}.json')
    with open(p, 'w') as f:
        json.dump({'Replace': rep}, f)
    return p


def build_env(name, env):
    spec = BUILDS[name]
    e = dict(env, **spec.get('env', {}))
    if 'toolchain' in spec:
        if not os.path.exists(spec['toolchain'] + '/go'):
            raise CheckError('no ' + spec['toolchain'])
        e['PATH'] = spec['toolchain'] + ':' + e['PATH']
    return e


def build(name, scratch, env):
    """Builds a variant; the hooks are left out if they do not fit the tree."""
    spec = BUILDS[name]
    e = build_env(name, env)
    out = os.path.join(scratch, 'h-' + name)
    log = ''
    if name == 'cext':
        for c in (True, False):
            for t, (q, flags) in CEXT.items():
                log += build_c(t, flags, c, scratch, env)
            if any(os.path.exists(f'{scratch}/cext-{t}') for t in CEXT):
                break
    for c, b in ((True, True), (True, False), (False, True), (False, False)):
        if b and spec.get('nob') or name == 'cext' and not os.path.exists(f'{scratch}/cext-hooks') and c:
            continue
        tags = list(spec.get('tags', [])) + (['verifc'] if c else []) + (['verifb'] if b else [])
        cmd = ['go', 'build', '-overlay', overlay(scratch, name, c, b), '-tags', ','.join(tags), '-o', out] + spec.get('flags', []) + ['.']
        r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return out
        log = r.stdout
    raise CheckError(f'build {name} failed:\n{log[-3000:]}')


def build_c(t, flags, hooks, scratch, env):
    d = os.path.join(HARNESS, 'cext')
    src = sorted(os.path.join(REPO, 'cgo', n) for n in os.listdir(REPO + '/cgo') if n.endswith('.c'))
    cmd = ['clang', '-O2', '-ffreestanding', '-fno-stack-protector', '-fno-pic', '-nostdlib', '-static', '-fuse-ld=lld', '-Wl,-e,__start', '-I', d + '/include',
           '-I', REPO + '/cgo', '-o', f'{scratch}/cext-{t}'] + (['-DVERIF_HOOKS'] if hooks else []) + flags + [d + '/driver.c'] + src
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except OSError as e:
        return str(e)
    if r.returncode == 0 and hooks:
        open(f'{scratch}/cext-hooks', 'w').close()
    return '' if r.returncode == 0 else r.stdout


def literals():
    """The integers written in the sources of the repository (no tests)."""
    out = set()
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in ('.git', 'test', 'testdata')]
        for f in files:
            if not f.endswith(('.go', '.c', '.h', '.s')) or f.endswith('_test.go'):
                continue
            text = open(os.path.join(d, f), errors='replace').read()
            for m in re.finditer(r'\b(0[xX][0-9a-fA-F_]+|[0-9][0-9_]*)(?:[uUlL]*)\b(?:\s*<<\s*([0-9]+))?', text):
                try:
                    x = int(m.group(1).replace('_', ''), 16 if m.group(1)[:2] in ('0x', '0X') else 10)
                except ValueError:
                    continue
                for v in (x, x << int(m.group(2) or 0) if int(m.group(2) or 0) < 64 else x):
                    if v < 1 << 64:
                        out.add(v)
    return sorted(out)


def hints():
    """A dictionary for the generators: it only suggests values to try."""
    try:
        now = literals()
        known = set(json.load(open(os.path.join(HARNESS, 'literals.json'))))
    except (OSError, ValueError):
        return {'ints': [], 'fresh': []}
    return {'ints': [x for x in now if 2 <= x <= 1 << 20], 'fresh': [x for x in now if x not in known][:200]}


# ---------------------------------------------------------------- plans

J = collections.namedtuple('J', 'config shards checks args')


def J_(config, shards, checks, *args):
    return J(config, shards, checks, list(args))


def slow(config, shards, checks, *args):
    return J_(config, shards, checks, '-slow', '-big=false', *args)


X86_QUICK = ['max', 'max,-sha-ni', 'max,-avx,-avx2', 'Denverton', 'Nehalem', 'Conroe', 'qemu64', 'EPYC', 'max,-ssse3', 'max,-pni', 'max,-xsave']
X86_ALL = X86_QUICK + ['max,-sse4.1', 'max,-avx', 'max,-sse4.2', 'max,-avx2', 'max,-pclmulqdq', 'max,-bmi1,-bmi2', 'Haswell', 'Icelake-Server', 'Snowridge', 'Opteron_G1', 'SapphireRapids', 'IvyBridge']
A64_QUICK = ['nosha1', 'cortex-a53', 'cortex-a72', 'neoverse-n1']
A64_ALL = A64_QUICK + ['cortex-a57', 'a64fx', 'neoverse-v1']


def xcfg(c):
    return 'amd64q' if c == 'max' else 'x86:' + c


def plan(pid, thorough):
    m = 20 if thorough else 1      # native multiplier
    q = 12 if thorough else 1      # emulated multiplier
    deep = ['-thorough'] if thorough else []
    std = [J_('host', 6, 40000 * m, *deep), slow('amd64q', 2, 1500 * q, '-fixed', '1' if thorough else '3'), slow('arm64', 2, 1500 * q, '-fixed', '1' if thorough else '3')]
    extra = [slow('arm', 2, 4000), slow('386', 2, 4000), slow('s390x', 2, 4000), slow('wasm', 2, 4000), slow('mips', 2, 2000), J_('noasm', 2, 60000), J_('nocgo', 2, 60000), J_('noopt', 2, 20000, '-big=false'), J_('clang', 2, 60000, '-big=false'), slow('c:mips', 1, 4000), slow('c:s390x', 1, 4000), slow('c:i386', 1, 4000)] if thorough else []
    if pid in ('C01', 'C02', 'C03', 'C04', 'C07', 'C08', 'C09', 'C10', 'C13'):
        return std + extra
    if pid == 'C05':
        return [J_('host', 6, 150000 * m), slow('arm64', 2, 6000 * q), slow('arm', 2, 6000 * q), slow('c:mips', 1, 6000 * q)] + extra
    if pid == 'C06':
        jobs = [J_('host', 1, 0), slow('arm64', 1, 0), slow('arm', 1, 0), slow('c:s390x', 1, 0)]
        return jobs + ([slow('386', 1, 0), slow('s390x', 1, 0), J_('nocgo', 1, 0)] if thorough else [])
    if pid == 'C11':
        return [J_('host', 6, 40000 * m, *deep), slow('arm64', 2, 1200 * q), slow('arm', 2, 1200 * q), slow('amd64q', 1, 600 * q), slow('c:s390x', 1, 1200 * q), slow('c:i386', 1, 1200 * q)] + extra
    if pid == 'C14':
        return [J_('host', 6, 40000 * m), slow('386', 2, 1500 * q)] + extra
    if pid == 'C15':
        return [J_('host', 7, 3000 * m, *deep), slow('386', 1, 500 * q), slow('arm', 1, 500 * q), slow('arm64', 1, 500 * q), slow('c:mips', 1, 500 * q)]
    if pid == 'C16':
        return [J_('race', 4, 2500 * m), J_('tsan', 2, 2500 * m), J_('host', 4, 12000 * m)]
    if pid == 'C17':
        return [J_('host', 5, 16000 * m), slow('amd64q', 2, 700 * q), slow('arm64', 2, 700 * q), J_('asan', 2, 2500 * m)]
    if pid == 'C20':
        return [J_('host', 6, 30000 * m), slow('arm64', 2, 500 * q, '-fixed', '8'), J_('nocgo', 2, 5000 * m)] + extra
    if pid == 'C21':
        return [J_('host', 6, 1000 * m), J_('nocgo', 1, 300 * m), slow('arm64', 1, 20 * q, '-fixed', '9')]
    if pid == 'C18':
        n = 12000 if thorough else 1200
        xs, As = (X86_ALL, A64_ALL) if thorough else (X86_QUICK, A64_QUICK)
        return [slow(xcfg(c), 1, n) for c in xs] + [slow('arm64', 1, n)] + [slow('a64:' + c, 1, n) for c in As] + \
            ([slow('x86nocgo:' + c, 1, n) for c in xs if c != 'max'] if thorough else [])
    if pid == 'C12':
        return None  # two phases, see run_c12
    raise CheckError('no such property: ' + pid)


# ---------------------------------------------------------------- running

# Ends that the code under test brings about.
FATAL = {signal.SIGSEGV, signal.SIGILL, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}
RESOURCE = ('out of memory', 'cannot allocate memory', 'failed to create new OS thread', 'pthread_create failed', 'resource temporarily unavailable', 'no space left')


class Proc:
    """One process of the harness."""

    def __init__(self, ctx, job, shard, args=(), tag=None, stall=90, environ=None):
        self.ctx, self.job, self.shard, self.stall = ctx, job, shard, stall
        self.tag = tag or f'{job.config}-{shard}'.replace(':', '_').replace(',', '_')
        self.build, pre = CONFIGS[job.config]
        self.emulated = bool(pre)
        b = os.path.join(ctx.scratch, self.tag)
        self.out, self.cur, self.err = b + '.out', b + '.cur', b + '.err'
        env = dict(ctx.env)
        if self.emulated:
            env['GODEBUG'] = 'asyncpreemptoff=1'
        if job.config.startswith('c:'):
            env['VERIF_CEXT'] = CEXT[job.config[2:]][0] + f' {ctx.scratch}/cext-' + job.config[2:]
        env['GORACE'] = 'halt_on_error=1 exitcode=66'
        env['GOTRACEBACK'] = 'single'
        env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=67'
        env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=68'
        env.update(environ or {})
        self.env = env
        self.log = None
        if pre.endswith(' LOG'):
            self.log = b + '.log'
            pre = pre[:-3] + self.log
            env['VERIF_HWCAP_CLEAR'] = '0x820'  # SHA1 and CPUID
        self.cmd = pre.split() + [ctx.bins.get(self.build, ''), '-prop', ctx.pid, '-out', self.out, '-cur', self.cur, '-hints', ctx.hints_path] + list(args)
        self.status, self.reason, self.res = None, '', None
        self.args = list(args)
        cold = self.args[self.args.index('-cold') + 1] if '-cold' in self.args else ''
        # What a replay needs besides the case.
        self.about = {'environ': environ or {}, 'fresh': ctx.hints['fresh'], 'cold': cold, 'order': shard % 3 if cold else 0}

    def start(self):
        for p in (self.out, self.cur):
            if os.path.exists(p):
                os.unlink(p)
        self.ef = open(self.err, 'wb')
        self.p = subprocess.Popen(self.cmd, env=self.env, stdin=subprocess.DEVNULL, stdout=self.ef, stderr=self.ef, start_new_session=True)
        self.t0 = time.time()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def stalled(self):
        try:
            last = max(os.stat(self.cur).st_mtime, self.t0)
        except OSError:
            last = self.t0
        age = time.time() - last
        return age > self.stall and age > self.limit(self.case())

    def limit(self, case):
        """How long a case may take: those with messages of several GB much longer."""
        return 300 if case and (case.get('big') or case.get('total')) else self.stall

    def case(self):
        try:
            return json.load(open(self.cur))
        except (OSError, ValueError):
            return None

    def scan(self):
        sym, hits, seen = '', collections.Counter(), 0
        with open(self.log, errors='replace') as f:
            for l in f:
                if l.startswith('IN:'):
                    sym = l[3:].strip()
                elif l.startswith('OBJD-T:'):
                    seen += 1
                    b = bytes.fromhex(l.split()[1])
                    for i in range(0, len(b) - 3, 4):
                        w = int.from_bytes(b[i:i + 4], 'little')
                        if any(w & m == v for m, v in SHA1_OPS):
                            hits[sym] += 1
        if not seen or not self.res['env'].get('hwcap_cleared'):
            self.ctx.notes.append(f'{self.tag}: no record of the instructions executed')
        elif hits:
            self.status = 'fail'
            self.fail = {'case': self.case(), 'error': f'SHA-1 instructions are executed on an arm64 processor that does not have them: {dict(hits)}', **self.about}

    def finish(self):
        """Classifies how the process ended: ok, fail (with self.fail), error."""
        self.ef.close()
        rc = self.p.returncode
        text = open(self.err, 'rb').read().decode('utf-8', 'replace')
        if rc == 0 and os.path.exists(self.out):
            self.res = json.load(open(self.out))
            if self.res['internal']:
                self.status, self.reason = 'error', self.res['internal']
            elif self.res['fail']:
                self.status, self.fail = 'fail', dict(self.about, **self.res['fail'])
            else:
                self.status = 'ok'
                if self.log:
                    self.scan()
            return
        low = text.lower()
        if rc == 3 or any(r in low for r in RESOURCE) or rc in (-signal.SIGKILL, -signal.SIGTERM, 127, 126):
            self.status, self.reason = 'error', f'exit {rc}: {text[-1500:]}'
            return
        # A sanitizer has to have found something, not to have failed itself.
        found = {66: 'WARNING: DATA RACE', 67: 'ERROR: AddressSanitizer', 68: 'WARNING: ThreadSanitizer: data race'}
        if rc in found and found[rc] not in text:
            self.status, self.reason = 'error', f'exit {rc}: {text[-1500:]}'
            return
        # Under emulation a fatal signal ends qemu in the same way.
        if rc in found or -rc in FATAL or rc == 2 or (rc - 128) in FATAL:
            what = {66: 'data race', 67: 'memory error', 68: 'data race in C'}.get(rc, f'process ended with {rc}')
            self.status = 'crash'
            self.fail = {'case': self.case(), 'error': what + ':\n' + text[:3000], **self.about}
            return
        self.status, self.reason = 'error', f'exit {rc}: {text[-1500:]}'


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.env = base_env(self.scratch)
        self.hints = hints()
        self.hints_path = os.path.join(self.scratch, 'hints.json')
        with open(self.hints_path, 'w') as f:
            json.dump(self.hints, f)
        self.bins, self.broken = {}, {}
        self.results = []      # (config, result)
        self.notes = []
        self.jobs_limit = max(2, os.cpu_count() or 4)

    def need(self, configs):
        names = []
        for c in configs:
            n = CONFIGS[c][0]
            if n not in names and n not in self.bins:
                names.append(n)
        errs = []

        def one(n):
            try:
                self.bins[n] = build(n, self.scratch, self.env)
            except Exception as e:
                errs.append((n, e))
        # Hosts first: the go command parallelises by itself.
        ts = [threading.Thread(target=one, args=(n,)) for n in names]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for n, e in errs:
            if n == 'host':
                raise CheckError(str(e))
            # The other properties can do without: that it builds is part of C12.
            self.notes.append(f'no {n} build: ' + str(e)[-300:])
            self.broken[n] = str(e)

    def have(self, config):
        name, prefix = CONFIGS[config]
        if prefix and not (shutil.which(prefix.split()[0]) and (name != 'wasm' or os.path.exists(prefix.split()[-1]))):
            self.notes.append(f'{config} left out: no {prefix.split()[0]}')
            return False
        if name == 'cext':
            q, exe = CEXT[config[2:]][0], f'{self.scratch}/cext-{config[2:]}'
            try:
                ok = subprocess.run([q, exe], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, timeout=60).stdout[:4] == b'veri'
            except (OSError, subprocess.TimeoutExpired):
                ok = False
            if not ok:
                self.notes.append(f'{config} left out: the C code does not build or start there')
                return False
        return name in self.bins

    def sane(self, configs):
        """Leaves out emulated processors and sanitizers with which no Go program runs."""
        built, out = {}, []
        for c in configs:
            name, prefix = CONFIGS[c]
            if not prefix and name in ('host', 'noasm', 'nocgo', 'cext'):
                out.append(c)
                continue
            if name not in built:
                exe = os.path.join(self.scratch, 'sanity-' + name)
                e = build_env(name, self.env)
                r = subprocess.run(['go', 'build', '-o', exe] + BUILDS[name].get('flags', []) + ['./sanity'], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                built[name] = exe if r.returncode == 0 else None
            if not built[name]:
                continue
            for _ in range(2 if prefix else 5):
                try:
                    r = subprocess.run(prefix.replace(' LOG', ' /dev/null').split() + [built[name]], env=dict(self.env, GODEBUG='asyncpreemptoff=1'), stdin=subprocess.DEVNULL,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
                    ok = r.returncode == 0 and 'sane' in r.stdout
                except (OSError, subprocess.TimeoutExpired):
                    ok = False
                if ok:
                    break
            if ok:
                out.append(c)
            else:
                self.notes.append(f'{c} left out: no Go program runs there')
        return out

    def unbuildable(self, name):
        """Why the packages do not build in a configuration; '': they do; None: nothing does."""
        spec = BUILDS[name]
        try:
            e = build_env(name, self.env)
        except CheckError:
            return None

        def ok(pkgs, cwd):
            cmd = ['go', 'build', '-tags', ','.join(spec.get('tags', []))] + spec.get('flags', []) + pkgs
            return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        std = ['crypto/sha1'] + (['runtime/cgo'] if e['CGO_ENABLED'] == '1' else [])
        if ok(std, HARNESS).returncode != 0:
            return None
        r = ok(['github.com/pjbgf/sha1cd', 'github.com/pjbgf/sha1cd/cgo', 'github.com/pjbgf/sha1cd/ubc'], HARNESS)
        return r.stdout if r.returncode != 0 else ''

    def api(self):
        """Whether a program that uses the cgo package compiles with cgo only, or gives other results without."""
        out = {}
        for cgo in '10':
            e = dict(self.env, CGO_ENABLED=cgo)
            exe = os.path.join(self.scratch, 'api' + cgo)
            r = subprocess.run(['go', 'build', '-o', exe, './api'], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                return 'a program that uses the cgo package builds with cgo but not without:\n' + r.stdout if cgo == '0' else None
            out[cgo] = subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
        return None if out['0'] == out['1'] else f'a program that uses the cgo package prints {out["1"]} with cgo and {out["0"]} without'

    def run(self, procs, deadline):
        """Runs processes, at most one per core; returns the first failing one."""
        waiting, running, unsure = list(procs), [], []
        try:
            while waiting or running:
                while waiting and len(running) < self.jobs_limit:
                    p = waiting.pop(0)
                    p.start()
                    running.append(p)
                time.sleep(0.02)
                for p in list(running):
                    if p.p.poll() is None:
                        if time.time() > deadline:
                            raise CheckError('out of time')
                        if p.stalled():
                            p.kill()
                            p.ef.close()
                            running.remove(p)
                            f = self.hang(p)
                            if f:
                                return f
                            raise CheckError(f'{p.tag} stalled')
                        continue
                    running.remove(p)
                    p.finish()
                    if p.status == 'ok':
                        self.results.append((p.job.config, p.res))
                    elif p.status == 'error':
                        if getattr(p, 'retried', 0) < 2:
                            # Resources may have been short: once more.
                            p.retried = getattr(p, 'retried', 0) + 1
                            self.notes.append(f'{p.tag} repeated after: {p.reason[-200:]}')
                            time.sleep(1)
                            waiting.append(p)
                            continue
                        if p.build in ('race', 'asan', 'tsan') and 'Sanitizer' in p.reason:
                            self.notes.append(f'{p.tag} left out: the sanitizer does not run')
                            continue
                        raise CheckError(f'{p.tag}: {p.reason}')
                    else:
                        if self.believe(p):
                            return p
                        p.failed = getattr(p, 'failed', []) + [p.fail['error'].split('\n')[0]]
                        if len(p.failed) == 3:
                            if len(set(p.failed)) == 1:
                                # Not the case alone, but with all that came before it.
                                return p
                            unsure.append(p)
                            continue
                        self.notes.append(f'{p.tag} repeated: {p.fail["error"][:200]}')
                        waiting.append(p)
        finally:
            for p in running:
                p.kill()
        for p in unsure:
            raise CheckError(f'{p.tag}: fails, but not when repeated: {p.fail["error"]}')

    def replay_once(self, config, fail, stall=120):
        path = os.path.join(self.scratch, 'replay.json')
        with open(path, 'w') as f:
            json.dump(fail, f)
        p = Proc(self, J_(config, 1, 0), 0, ['-replay', path], tag='replay', stall=stall, environ=fail.get('environ'))
        p.start()
        while p.p.poll() is None:
            time.sleep(0.02)
            if time.time() - p.t0 > stall:
                p.kill()
                p.ef.close()
                p.status, p.reason = 'hang', 'does not end'
                return p
        p.finish()
        return p

    def believe(self, p):
        """A failure counts if it repeats; natively also if it does not (races)."""
        if p.fail.get('case') is None:
            return not p.emulated
        if p.fail['case'] == {'canary': True}:
            # Before the first case: see whether the process gets further again.
            return not p.emulated or bool(getattr(p, 'failed', None))
        for _ in range(3):
            r = self.replay_once(p.job.config, p.fail)
            if r.status in ('fail', 'crash'):
                if p.status == 'crash' and r.status == 'crash':
                    p.fail = minimise(self, p.job.config, p.fail)
                return True
        return not p.emulated

    def hang(self, p):
        """A case that does not end, twice, although a trivial one does."""
        c = p.case()
        if c is None or c == {'canary': True}:
            return None
        fail = {'case': c, 'error': f'does not end within {p.limit(c)} s', **p.about}
        for _ in range(2 if p.limit(c) < 200 else 1):
            if self.replay_once(p.job.config, fail, p.limit(c)).status != 'hang':
                return None
        p.fail = fail
        return p


def minimise(ctx, config, fail):
    """Shrinks a case that ends the process: drops list elements while it does."""
    best = fail
    end = time.time() + 30

    def lists(x, path=()):
        if isinstance(x, dict):
            for k, v in x.items():
                yield from lists(v, path + (k,))
        elif isinstance(x, list):
            yield path
            for i, v in enumerate(x):
                yield from lists(v, path + (i,))
    again = True
    while again and time.time() < end:
        again = False
        for path in list(lists(best['case'])):
            if path and path[-1] in ('d', 'v'):
                continue
            x = best['case']
            for k in path:
                x = x[k]
            for i in range(len(x)):
                if time.time() > end:
                    return best
                c = json.loads(json.dumps(best['case']))
                y = c
                for k in path:
                    y = y[k]
                del y[i]
                r = ctx.replay_once(config, dict(best, case=c), 30)
                if r.status == 'crash':
                    best = dict(r.fail, case=c)
                    again = True
                    break
            if again:
                break
    return best


def run_c12(ctx, deadline):
    """Cases and transcripts are recorded in the host build and repeated in the others."""
    th = ctx.thorough
    n_host, n_slow, shards = (60000, 6000, 8) if th else (8000, 900, 2)
    native = ['noasm', 'nocgo', 'nocgonoasm', 'noopt', 'clang', 'go127', 'pie', 'v3'] + (['go124', 'v4', 'small'] if th else [])
    emu = ['amd64q', 'arm64', 'arm64noasm', 'arm', '386', 's390x', 'mips', 'wasm', 'c:mips', 'c:s390x', 'c:i386'] + (['arm5', '386soft', 'c:ppc', 'c:aarch64_be', 'c:armeb', 'mipsle', 'mips64', 'mips64le', 'ppc64', 'ppc64le', 'riscv64', 'loong64'] if th else [])
    ctx.need(['host'] + native + emu)
    for n in ctx.broken:
        log = ctx.unbuildable(n)
        if log:
            p = Proc(ctx, J_(n, 1, 0), 0)
            p.fail = {'case': {'build': n}, 'error': f'the packages do not build in configuration {n}:\n{log[-2000:]}'}
            return p
    others = [n for n in BUILDS if '/' in n and (th or n.split('+')[0] in OTHERS)]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        logs = list(ex.map(ctx.unbuildable, others))
    for n, log in zip(others, logs):
        if log:
            p = Proc(ctx, J_('host', 1, 0), 0)
            p.fail = {'case': {'build': n}, 'error': f'the packages do not build for {n}:\n{log[-2000:]}'}
            return p
    ctx.notes.append('compiled only: ' + ', '.join(n for n, l in zip(others, logs) if l == ''))
    api = ctx.api()
    if api:
        p = Proc(ctx, J_('nocgo', 1, 0), 0)
        p.fail = {'case': {'build': 'api'}, 'error': api[-2000:]}
        return p
    native, emu = ctx.sane([c for c in native if ctx.have(c)]), ctx.sane([c for c in emu if ctx.have(c)])
    recs = [os.path.join(ctx.scratch, f'rec{i}') for i in range(shards)]
    job = J_('host', shards, n_host)
    # Small messages, as the other builds are emulated.
    bad = ctx.run([Proc(ctx, job, i, shard_args(ctx, job, i) + ['-record', recs[i], '-slow']) for i in range(shards)], deadline)
    if bad:
        return bad
    procs = []
    for c in emu + native:
        n = n_slow if c in emu else n_host
        for i in range(shards):
            procs.append(Proc(ctx, J_(c, shards, n), i, ['-verify', recs[i], '-checks', str(n), '-slow']))
    # Long writes, which are compared with the model instead.
    for c in [c for c in native if c in ('noasm', 'nocgo')]:
        for i in range(4):
            job = J_(c, 4, 0, *(['-thorough'] if th else []))
            procs.insert(0, Proc(ctx, job, i, shard_args(ctx, job, i), tag=f'{c}-long-{i}'))
    return ctx.run(procs, deadline)


def shard_args(ctx, job, i):
    return ['-seed', str(ctx.seed), '-checks', str(job.checks), '-shard', str(i), '-shards', str(job.shards)] + job.args


# How the Go runtime goes about it should not matter either.
ENVIRONS = [{}, {'GOGC': '3'}, {'GOMAXPROCS': '1'}, {}, {'GOGC': 'off', 'GOMEMLIMIT': '1GiB'}, {}]


def run_plan(ctx, deadline):
    jobs = plan(ctx.pid, ctx.thorough)
    ctx.need([j.config for j in jobs])
    jobs = [j for j in jobs if ctx.have(j.config)]
    usable = ctx.sane(list(dict.fromkeys(j.config for j in jobs)))
    jobs = [j for j in jobs if j.config in usable]
    procs = []
    # Emulated ones take longest: first.
    for j in sorted(jobs, key=lambda j: CONFIGS[j.config][1] == ''):
        for i in range(j.shards):
            # Each configuration explores cases of its own.
            seed = int.from_bytes(hashlib.sha256(f'{ctx.seed}/{j.config}'.encode()).digest()[:6], 'big')
            args = shard_args(ctx, j, i)
            args[1] = str(seed)
            procs.append(Proc(ctx, j, i, args, environ=ENVIRONS[i % len(ENVIRONS)] if j.shards > 3 and j.config == 'host' and ctx.pid not in ('C15', 'C21') else None))
    return ctx.run(procs, deadline) or run_cold(ctx, jobs, deadline)


def run_cold(ctx, jobs, deadline):
    """Processes in which a single case is the first use of the packages."""
    if ctx.pid == 'C21':
        return None  # what is set up on first use stays
    live = {}
    for c, r in ctx.results:
        live.setdefault(c, (r['env']['table_live_go'], r['env']['table_live_c']))
    procs = []
    for j in jobs:
        emu = CONFIGS[j.config][1] or j.config.startswith('c:')
        n = max(2, 36 // len(jobs)) if emu else 100
        for i in range(n * (12 if ctx.thorough else 1)):
            # In some the tables have not been read either.
            g, c = live.get(j.config, (False, False)) if i % 4 else (False, False)
            cold = ('g' if g else '') + ('c' if c else '') or '-'
            args = ['-seed', str(ctx.seed), '-shard', str(i), '-cold', cold, '-big=false'] + [a for a in j.args if a in ('-slow', '-thorough')]
            procs.append(Proc(ctx, j, i, args, tag=f'{j.config}-cold-{i}'.replace(':', '_').replace(',', '_')))
    return ctx.run(procs, deadline)


# ---------------------------------------------------------------- reports

def write_evidence(ctx, violation):
    labels, samples, seen, per = collections.Counter(), [], set(), collections.defaultdict(lambda: collections.Counter())
    evals, rule, envs = 0, '', {}
    for config, r in ctx.results:
        evals += r['evaluations']
        rule = r['rule']
        labels.update(r['labels'])
        seen.update(r['hashes'] or [])
        per[config].update(evaluations=r['evaluations'], enumerated=r['enumerated'])
        per[config]['nontrivial'] += r['nontrivial']
        per[config].update({'budget_hit': int(r['budget_hit'])})
        envs[config] = r['env']
        if r['samples'] and len(samples) < 8:
            samples.append({'config': config, 'case': r['samples'][min(len(samples), len(r['samples']) - 1)]})
    if violation:
        samples.insert(0, {'config': violation['config'], 'violation': violation['case']})
    cov = {'evaluations': evals, 'distinct_nontrivial': len(seen), 'rule': rule, 'samples': samples,
           'labels': dict(labels), 'configurations': {c: dict(v) for c, v in per.items()}, 'environment': envs, 'notes': ctx.notes, 'dictionary': {'integers': len(ctx.hints['ints']), 'fresh': ctx.hints['fresh'][:20]}}
    if ctx.pid == 'C06':
        cov['exhaustive'] = True
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - T0, 2), 'violations': 1 if violation else 0}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, ctx.pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(p + '.tmp', p)


ASSUME = ['the reference model in harness/ref (SHA-1, vector definition, pinned bit conditions) and crypto/sha1 are right',
          'qemu user emulation executes the instructions of the emulated targets correctly',
          'attack blocks other than the published ones are made by substituting message differences in the live vector table']


def report(ctx, p):
    rec = dict(property=ctx.pid, config=p.job.config, seed=ctx.seed, search=p.args, **p.fail)
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(rec.get('case'), sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{ctx.pid}-{h}.json')
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
        f.write('\n')
    print(f'{ctx.pid} in configuration {p.job.config}: {p.fail["error"][:1500]}')
    print('case:', json.dumps(rec.get('case'))[:1500])
    write_evidence(ctx, rec)
    print(f'VIOLATION property={ctx.pid} replay={path}', flush=True)
    return 1


def main():
    args = sys.argv[1:]
    if args == ['--literals']:
        # Development: note the integers of the tree the harness was written for.
        with open(os.path.join(HARNESS, 'literals.json'), 'w') as f:
            json.dump(literals(), f)
            f.write('\n')
        return 0
    if args == ['--setup']:
        ctx = Ctx('setup', 'quick', 1)
        try:
            ctx.need(['host', 'race', 'asan', 'tsan', 'noasm', 'nocgo', 'noopt', 'clang', 'go127', 'pie', 'v3', 'arm64', 'arm', '386', 's390x', 'mips', 'wasm'])
        finally:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 0
    pid = args[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in args:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    ctx = Ctx(pid, tier, seed)

    def stop(*_):
        raise CheckError('terminated')
    signal.signal(signal.SIGTERM, stop)
    try:
        if '--replay' in args:
            rec = json.load(open(args[args.index('--replay') + 1]))
            if 'build' in (rec['case'] or {}):
                log = ctx.api() if rec['case']['build'] == 'api' else ctx.unbuildable(rec['case']['build'])
                print(log or 'builds')
                if log:
                    print(f'VIOLATION property={pid} replay={args[args.index("--replay") + 1]}')
                return 1 if log else 0
            if rec['config'] not in CONFIGS:
                raise CheckError('no such configuration')
            ctx.need([rec['config']])
            if not ctx.have(rec['config']):
                raise CheckError('no such configuration here')
            p = ctx.replay_once(rec['config'], rec)
            if p.status == 'ok' and rec.get('search') and not {'-verify', '-record'} & set(rec['search']):
                # With all that came before it.
                p = Proc(ctx, J_(rec['config'], 1, 0), 0, rec['search'], environ=rec.get('environ'))
                p.start()
                p.p.wait()
                p.finish()
            print(p.status, getattr(p, 'fail', {}) and p.fail['error'][:2000] or p.reason)
            if p.status in ('fail', 'crash', 'hang'):
                print(f'VIOLATION property={pid} replay={args[args.index("--replay") + 1]}')
                return 1
            return 0 if p.status == 'ok' else 3
        deadline = T0 + (10800 if ctx.thorough else 840)
        bad = run_c12(ctx, deadline) if pid == 'C12' else run_plan(ctx, deadline)
        if bad:
            return report(ctx, bad)
        write_evidence(ctx, None)
        n = sum(r['evaluations'] for _, r in ctx.results)
        print(f'{pid}: held on {n} cases in {len(set(c for c, _ in ctx.results))} configurations ({time.time() - T0:.1f} s)')
        return 0
    except CheckError as e:
        print(f'{pid}: check not carried out: {e}', file=sys.stderr)
        return 3
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(3)
