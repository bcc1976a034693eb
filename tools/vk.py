"""Shared plumbing of the checks: build, run, TLC, evidence, verdicts."""
import os, sys, re, json, time, hashlib, subprocess, shutil, tempfile, random, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VK_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'

WRAP = '''pthread_create pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast sem_open sem_unlink
sem_close sem_init sem_destroy sem_getvalue sem_post sem_wait sem_trywait sem_timedwait usleep sleep nanosleep gettimeofday
time clock_gettime select read recv accept pthread_setaffinity_np'''.split()
LIBS = '-lfftw3f -lnetcdf -lpthread -lz -lm -lssl -lcrypto -lrt'.split()
CFLAGS = ('-std=c11 -g -w -fPIC -march=haswell -mfpmath=sse -D_GNU_SOURCE -fno-omit-frame-pointer').split()


class Broken(Exception):
    """The machinery (not the code under test) failed."""


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=None, cwd=None, env=None, inp=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env, input=inp)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace') + '\nTIMEOUT'


def inc():
    return ['-I' + REPO + '/headers', '-I' + REPO + '/headers/RadarKit', '-I' + VERIF + '/harness']


def _hash(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def repo_files():
    out = []
    for d in ('source', 'headers', 'headers/RadarKit'):
        p = os.path.join(REPO, d)
        out += [os.path.join(p, f) for f in os.listdir(p) if f.endswith(('.c', '.h', '.cpp'))]
    return out


VARIANTS = {
    # deterministic scheduling: a preemption point in every basic block
    'sched': ['-O1', '-fsanitize-coverage=trace-pc'],
    # the same with a preemption point at every memory access
    'fine': ['-O1', '-fsanitize=thread', '-fno-builtin-memcpy'],
    # plain
    'plain': ['-O1'],
    # memory errors
    'asan': ['-O1', '-fsanitize=address', '-fno-sanitize-recover=all'],
}


def build_lib(variant):
    """Compile /repo's working tree; returns the archive. Cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    flags = CFLAGS + VARIANTS[variant]
    key = _hash(repo_files(), ' '.join(flags))
    d = os.path.join(BUILD, 'lib-%s-%s' % (variant, key))
    with open(os.path.join(BUILD, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        a = os.path.join(d, 'lib.a')
        if os.path.exists(a):
            return a
        for old in os.listdir(BUILD):
            if old.startswith('lib-%s-' % variant):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        os.makedirs(d)
        srcs = [f for f in repo_files() if '/source/' in f and f.endswith('.c') and not f.endswith('/RKTest.c')]

        def cc(s):
            o = os.path.join(d, os.path.basename(s)[:-2] + '.o')
            return o, sh(['gcc'] + flags + inc() + ['-c', s, '-o', o], timeout=300)
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(cc, srcs))
        for o, (rc, out) in rs:
            if rc:
                shutil.rmtree(d)
                raise Broken('compile failed: %s\n%s' % (o, out[-2000:]))
        rc, out = sh(['ar', 'rcs', a + '.tmp'] + [o for o, _ in rs])
        if rc:
            raise Broken('ar failed: ' + out)
        os.rename(a + '.tmp', a)
    return a


def build(name, variant='sched', sources=None, extra=(), wraps=None):
    """Build a harness from harness/<name>.c against the freshly built library."""
    lib = build_lib(variant)
    srcs = [os.path.join(VERIF, 'harness', s) for s in (sources or [name + '.c'])]
    use_sched = variant in ('sched', 'fine')
    if use_sched:
        srcs.append(os.path.join(VERIF, 'harness', 'vsched.c'))
    if variant == 'fine':
        srcs.append(os.path.join(VERIF, 'harness', 'vtsan.c'))
    w = list(wraps or [])
    if use_sched:
        w += WRAP
    hs = [os.path.join(VERIF, 'harness', f) for f in os.listdir(os.path.join(VERIF, 'harness'))]
    key = _hash(hs, lib + ' '.join(extra) + ' '.join(w))
    d = os.path.join(BUILD, 'h-' + name)
    out = os.path.join(d, name + '-' + variant + '-' + key)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, 'lock-h-' + name), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            if f.startswith(name + '-' + variant + '-'):
                os.unlink(os.path.join(d, f))
        san = ['-fsanitize=address', '-fno-sanitize-recover=all'] if variant == 'asan' else []
        cmd = (['gcc'] + CFLAGS + ['-O1'] + san + inc() + list(extra) + srcs + ['-o', out + '.tmp', lib]
               + ['-Wl,--wrap=' + x for x in w] + LIBS)
        rc, o = sh(cmd, timeout=300)
        if rc:
            raise Broken('harness %s does not build:\n%s' % (name, o[-4000:]))
        os.rename(out + '.tmp', out)
    return out


def pmap(fn, items, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vk-', dir='/tmp')
        os.chmod(_scratch, 0o755)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_tlcn = [0]


class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.done = 'Model checking completed. No error has been found.' in out
        self.violated = bool(re.search(r'is violated|Error: Deadlock reached|Temporal properties were violated|The postcondition .* is (false|violated)|PostCondition.*false', out))


def tlc(spec, cfg=None, env=None, workers=None, timeout=600, extra=(), heap='4g'):
    """Run TLC on spec/<spec>.tla."""
    _tlcn[0] += 1
    meta = tempfile.mkdtemp(prefix='tlc%d-' % _tlcn[0], dir=scratch())
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cp = TLAJAR
    cm = os.path.join(os.path.dirname(TLAJAR), 'CommunityModules-deps.jar')
    jars = [os.path.join(os.path.dirname(TLAJAR), f) for f in os.listdir(os.path.dirname(TLAJAR)) if f.endswith('.jar')]
    cp = ':'.join([TLAJAR] + [j for j in jars if j != TLAJAR])
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', cp, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers or NCPU), '-config', cfg or (spec + '.cfg')] + list(extra) + [spec + '.tla']
    rc, out = sh(cmd, timeout=timeout, cwd=os.path.join(VERIF, 'spec'), env=e)
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(rc, out)


def model_check(spec, cfg=None, timeout=600, coverage=False, **kw):
    """Design-level exhaustive check. A failure here is the specification's own fault."""
    r = tlc(spec, cfg, timeout=timeout, **kw)
    if not r.done:
        raise Broken('TLC on %s (%s) failed:\n%s' % (spec, cfg, r.out[-3000:]))
    return r


def validate(spec, traces, cfg=None, timeout=None, batch=None, workers=1, env=None):
    """Check recorded traces against a trace specification.
    traces: list of dict with 'id' and whatever the spec reads. The spec prints <<"ACC", id>> for each
    trace it accepts. Returns (rejected list, generated, distinct, outputs)."""
    if not traces:
        return [], 0, 0, []
    timeout = timeout or (3000 if THOROUGH else 300)
    nb = max(1, min(NCPU, (len(traces) + (batch or 1) - 1) // (batch or 1))) if batch else min(NCPU, len(traces))
    groups = [traces[i::nb] for i in range(nb)]
    d = scratch()

    def one(a):
        i, g = a
        f = os.path.join(d, 'tr-%s-%d-%d.ndjson' % (spec, i, _tlcn[0]))
        with open(f, 'w') as fh:
            for t in g:
                fh.write(json.dumps(t) + '\n')
        ev = {'TRACES': f}
        if env:
            ev.update(env)
        r = tlc(spec, cfg, env=ev, workers=workers, timeout=timeout, heap='3g')
        acc = set(re.findall(r'<<"ACC", "([^"]*)">>', r.out))
        rej = [t for t in g if str(t['id']) not in acc]
        os.unlink(f)
        if not r.done and not r.violated:
            if r.rc == 124:
                return None, r, rej     # too many possibilities: these are looked at one by one
            raise Broken('TLC on %s failed:\n%s' % (spec, r.out[-3000:]))
        return rej, r, []
    res = pmap(one, list(enumerate(groups)))
    left = [t for a, _, t in res for t in t]
    res = [(a or [], r) for a, r, _ in res]
    if left:
        timeout = 1000 if THOROUGH else 40
        again = pmap(one, [(1000 + i, [t]) for i, t in enumerate(left[:40])])
        res += [(a or [], r) for a, r, _ in again]
        if not any(a for a, _ in res) and (len(left) > 40 or any(a is None for a, _, _ in again)):
            raise Broken('TLC on %s does not come to an end: %s' % (spec, [t['id'] for t in left][:10]))
    rej = [t for a, _ in res for t in a]
    return rej, sum(r.generated for _, r in res), sum(r.distinct for _, r in res), [r.out for _, r in res]


def furthest(outs):
    """Optional <<"AT", id, l>> prints -> {id: max l}"""
    m = {}
    for o in outs:
        for i, l in re.findall(r'<<"AT", "([^"]*)", (\d+)>>', o):
            m[i] = max(m.get(i, 0), int(l))
    return m


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.known = []
        self.known_seen = set()
        f = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(f):
            for l in open(f):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
                if m and m.group(1) == pid:
                    self.known.append((m.group(2), m.group(3)))

    def add_model(self, r):
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated

    def traces(self, n, distinct=0, generated=0):
        self.cov['traces_validated_against_impl'] += n
        self.cov['states'] += distinct
        self.cov['transitions'] += generated

    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s if len(json.dumps(s)) < 3000 else json.dumps(s)[:3000])

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def violation(self, key, what, replay):
        """key identifies the specific failing input / site / history."""
        for k, desc in self.known:
            if k == key:
                if k not in self.known_seen:
                    self.known_seen.add(k)
                    log('KNOWN-FINDING: property=%s %s' % (self.pid, desc))
                return
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.pid, len(self.viol)))
        json.dump({'property': self.pid, 'key': key, 'what': what, 'replay': replay}, open(p, 'w'), indent=1)
        self.viol.append(p)
        if len(self.viol) <= 5:
            log('  ' + what[:1500])
            log('VIOLATION property=%s replay=%s' % (self.pid, p))

    def finish(self):
        ev = {'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        log('%s: %s in %.1f s; %s' % (self.pid, 'VIOLATED' if self.viol else 'held', time.time() - self.t0,
                                      {k: v for k, v in self.cov.items() if k != 'samples'}))
        return 1 if self.viol else 0


def must_reach(spec, neg, cfg=None, timeout=300):
    """Vacuity: the negated condition must be violated somewhere."""
    base = open(os.path.join(VERIF, 'spec', (cfg or spec) + ('' if cfg else '.cfg'))).read()
    base = re.sub(r'(?m)^(INVARIANTS?|PROPERT\w+).*\n', '', base)
    f = os.path.join(scratch(), 'reach-%s-%s.cfg' % (spec, neg))
    open(f, 'w').write(base + '\nINVARIANT %s\n' % neg)
    r = tlc(spec, cfg=f, timeout=timeout)
    if 'Invariant %s is violated' % neg not in r.out:
        raise Broken('vacuous: %s never fails in %s\n%s' % (neg, spec, r.out[-1500:]))
