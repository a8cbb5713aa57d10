"""Common machinery of the checks: building /repo's working tree in a scratch directory, running the built programs
through the fork server, worker pools, evidence, known findings and violation reports."""
import atexit, contextlib, json, multiprocessing, os, shutil, struct, subprocess, sys, tempfile, time, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JBV_REPO', '/repo')    # (a development copy; the checks are registered without it)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
NPROC = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()
_main_pid = os.getpid()

# ---------------------------------------------------------------------------------------------------- scratch, build
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='jbv.', dir='/tmp')

        def rm(d=_scratch):
            if os.getpid() == _main_pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(rm)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch


def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)


CLEAN_ENV = {k: v for k, v in os.environ.items()
             if k in ('HOME', 'TMPDIR', 'USER', 'LOGNAME', 'VERIF_TIER', 'VERIF_SEED')}
CLEAN_ENV.update(LC_ALL='C', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')


def start_build(name='plain', cc=None, config=(), targets=('all',)):
    """Copies /repo's working tree (tracked and new files) to scratch/name and starts `make` there."""
    d = os.path.join(scratch(), name)
    os.makedirs(d)
    files = subprocess.run(['git', '-c', 'safe.directory=*', 'ls-files', '-z', '-co', '--exclude-standard'], cwd=REPO,
                           stdout=subprocess.PIPE, check=True).stdout.split(b'\0')
    files = sorted({f for f in files if f and os.path.isfile(os.path.join(REPO.encode(), f))
                    and not f.startswith((b'tests/', b'testing/'))})
    subprocess.run(['rsync', '-rlp', '--from0', '--files-from=-', REPO + '/', d + '/'], input=b'\0'.join(files), check=True)
    log = open(os.path.join(scratch(), name + '.log'), 'wb')
    cmd = 'perl config.pl --prefix=/usr/local %s >/dev/null && make %s %s' % (
        ' '.join(config), ('CC="%s"' % cc) if cc else '', ' '.join(targets))
    p = subprocess.Popen(['bash', '-c', cmd], cwd=d, env=CLEAN_ENV, stdin=subprocess.DEVNULL, stdout=log, stderr=log)
    return d, p, log.name


def finish_build(b):
    d, p, log = b
    if p.wait() != 0:
        sys.stdout.write(open(log, errors='replace').read()[-3000:])
        die('the build of /repo failed')
    return d


def build(*a, **k):
    return finish_build(start_build(*a, **k))


ASAN_CC = ('gcc -g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined '
           '-static-libasan -static-libubsan -Wno-error')


PROGRAMS = ('jbofihe', 'cmafihe', 'vlatai', 'smujajgau', 'jvocuhadju')


def sanitized(plain, name, cc, programs=PROGRAMS, dfasyn=False):
    """Starts building the programs with another compiler in a copy of a finished build; the generators and what they
    generate stay as they are.  Returns a handle for finish_build."""
    d = os.path.join(scratch(), name)
    subprocess.run(['cp', '-a', plain, d], check=True)
    log = open(os.path.join(scratch(), name + '.log'), 'wb')
    cmd = ('make -t all >/dev/null && find . -maxdepth 1 -name "*.o" ! -name "uncom*.o" -delete && rm -f {p} && '
           'make CC="{cc}" -j8 {p}').format(p=' '.join(programs), cc=cc)
    if dfasyn:
        # the generator with that compiler too, apart from the one that the build uses
        cmd += (' && cp -a dfasyn dfasyn_san && cd dfasyn_san && rm -f *.o dfasyn && make -t parse.tab.c scan.c >/dev/null && '
                'make CC="%s" -j4 dfasyn' % cc)
    p = subprocess.Popen(['bash', '-c', cmd], cwd=d, env=dict(CLEAN_ENV, ASAN_OPTIONS='detect_leaks=0'), stdin=subprocess.DEVNULL, stdout=log, stderr=log)
    return d, p, log.name


def fork_server():
    so = os.path.join(scratch(), 'forksrv.so')
    if not os.path.exists(so):
        subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', so, os.path.join(VERIF, 'lib', 'forksrv.c'), '-ldl'], check=True)
    return so


class Result:
    __slots__ = ('status', 'out', 'err')

    def __init__(self, st, out, err):
        self.status, self.out, self.err = st, out, err

    @property
    def timeout(self):
        return self.status == 0xffffffff

    @property
    def code(self):
        """exit code; -N for signal N; None for a time-out"""
        if self.status == 0xffffffff:
            return None
        return os.WEXITSTATUS(self.status) if os.WIFEXITED(self.status) else -os.WTERMSIG(self.status)

    def text(self):
        return self.out.decode('latin-1')

    def etext(self):
        return self.err.decode('latin-1')


class Server:
    """One fork server for one program."""

    def __init__(self, binary, env=None, cwd=None):
        self.binary, self.cwd = binary, cwd or scratch()
        self.env = dict(CLEAN_ENV)
        self.env.update(env or {})
        self.p = None

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(self.env, LD_BIND_NOW='1', LD_PRELOAD=fork_server(), FORKSRV='%d,%d' % (r1, w2))
        self.p = subprocess.Popen([self.binary], env=env, cwd=self.cwd, pass_fds=(r1, w2), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(r1), os.close(w2)
        self.w = w1
        self.r = os.fdopen(r2, 'rb', 1 << 20)

    def close(self):
        if self.p:
            os.close(self.w)
            self.r.close()
            self.p.wait()
            self.p = None

    def run(self, args, text=b'', timeout=5000):
        return self.batch([(args, text)], timeout)[0]

    def batch(self, cases, timeout=5000, retry=60000):
        """cases: list of (args, stdin).  retry: time limit for running timed-out cases again, 0: they are not."""
        if self.p is None:
            self.start()
        res = []
        i = 0
        while i < len(cases):
            buf = bytearray()
            j = i
            while j < len(cases) and j - i < 200 and len(buf) < 30000:
                args, text = cases[j]
                if isinstance(text, str):
                    text = text.encode('latin-1')
                buf += struct.pack('<II', timeout, len(args))
                for a in args:
                    if isinstance(a, str):
                        a = a.encode('latin-1')
                    buf += struct.pack('<I', len(a)) + a
                buf += struct.pack('<I', len(text)) + text
                j += 1
            if len(buf) > 60000:
                import threading
                t = threading.Thread(target=self._write, args=(bytes(buf),))
                t.start()
            else:
                t = None
                self._write(bytes(buf))
            for _ in range(i, j):
                st, lo = struct.unpack('<II', self._read(8))
                out = self._read(lo)
                le, = struct.unpack('<I', self._read(4))
                res.append(Result(st, out, self._read(le)))
            if t:
                t.join()
            i = j
        # a timed-out case is re-run alone with a much longer limit before it counts as one
        for k, r in enumerate(res):
            if r.timeout and timeout < retry:
                res[k] = self.batch([cases[k]], retry, 0)[0]
        return res

    def _write(self, b):
        while b:
            n = os.write(self.w, b)
            b = b[n:]

    def _read(self, n):
        if not n:
            return b''
        b = self.r.read(n)
        if len(b) != n:
            raise RuntimeError('fork server of %s ended' % self.binary)
        return b


_servers = {}


def server(binary, env=None):
    """per-process server"""
    key = (os.getpid(), binary, tuple(sorted((env or {}).items())))
    if key not in _servers:
        _servers[key] = Server(binary, env)
    return _servers[key]


# ---------------------------------------------------------------------------------------------------- worker pool
_fn = None


def _init():
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(s, signal.SIG_DFL)


def _call(chunk):
    return _fn(chunk)


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def pmap(fn, it, n=400, procs=None):
    """Runs fn(chunk) over chunks of the iterable in NPROC forked processes; yields the results in order."""
    global _fn
    _fn = fn
    fork_server()
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs or NPROC, _init) as pool:
        sem = __import__('threading').Semaphore((procs or NPROC) * 6)

        def gen():
            for c in chunks(it, n):
                sem.acquire()
                yield c
        for r in pool.imap(_call, gen()):
            sem.release()
            yield r
        pool.close()
        pool.join()


# ---------------------------------------------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level='model_checking', note=None):
        self.pid, self.level = pid, level
        self.cov = {'samples': []}
        self.viol = []
        self.assumptions = []
        self.findings = []
        self.hit = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('{'):
                    e = json.loads(line)
                    if e.get('property') == pid and 'known' in e:
                        self.findings.append(e)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, cap=6):
        if len(self.cov['samples']) < cap:
            self.cov['samples'].append(x)

    def known(self, key):
        """True if `key` (the exact failing input) is a recorded finding."""
        import re
        for e in self.findings:
            for k in e['known']:
                if k == key or (k.startswith('re:') and re.fullmatch(k[3:], key, re.S)):
                    self.hit.setdefault(e['what'], []).append(key)
                    return True
        return False

    def violation(self, what, replay):
        """what: one line; replay: JSON-able dict describing how to reproduce."""
        self.viol.append((what, replay))

    def finish(self, exhaustive=True):
        cov = self.cov
        cov['exhaustive'] = exhaustive
        ev = {'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2),
              'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for e in self.findings:
            if e['what'] in self.hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, e['what']))
        print('%s: %s' % (self.pid, ', '.join('%s=%s' % (k, v) for k, v in cov.items()
                                              if isinstance(v, (int, float, bool)))))
        print('%s: %.1f s' % (self.pid, time.time() - T0))
        if not self.viol:
            sys.stdout.flush()
            sys.exit(0)
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.json' % self.pid)
        with open(path, 'w') as f:
            json.dump([{'what': w, 'replay': r} for w, r in self.viol[:50]], f, indent=1)
            f.write('\n')
        for w, r in self.viol[:10]:
            print('  ' + w[:600])
        print('  (%d violations)' % len(self.viol))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        sys.stdout.flush()
        sys.exit(1)
