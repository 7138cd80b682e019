"""Client of the simulator job server."""
import os, struct, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CLOX_REPO', '/repo')
OK, HANG, BUDGET, CRASH, SIMERR, ORPHANHANG, HEAP = 1, 2, 3, 4, 5, 6, 7
ONAME = {0: 'none', 1: 'ok', 2: 'hang', 3: 'budget', 4: 'crash', 5: 'simerr', 6: 'orphan-hang', 7: 'heap'}

def build():
    r = subprocess.run([os.path.join(VERIF, 'sim', 'build.sh'), REPO, os.path.join(VERIF, 'build')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise SystemExit('simulator build failed')
    return r.stdout.strip().splitlines()[-1]

class Job:
    def __init__(self, main, cfg=None, files=None, args=None, events=None, decs=None, stdin=None, dirs=None, script=None):
        self.main, self.cfg, self.files, self.args = main, dict(cfg or {}), dict(files or {}), args
        self.events, self.decs, self.stdin, self.dirs = list(events or []), decs, stdin, list(dirs or [])
        self.wantlog = self.wantdecs = False
        self.wantfiles = None
    def encode(self):
        o = []
        w = lambda s: o.append(s.encode() if isinstance(s, str) else s)
        for k, v in self.cfg.items(): w('cfg %s %d\n' % (k, v))
        for d in self.dirs: w('dir %s %o\n' % (d if isinstance(d, tuple) else (d, 0o755)))
        fs = dict(self.files)
        if self.main is not None: fs['/work/main.lox'] = self.main
        for p, d in fs.items():
            mode = 0o644
            if isinstance(d, tuple): d, mode = d
            if isinstance(d, str): d = d.encode()
            w('file %s %d %o\n' % (p, len(d), mode)); w(d); w('\n')
        if self.stdin is not None:
            d = self.stdin.encode() if isinstance(self.stdin, str) else self.stdin
            w('stdin %d\n' % len(d)); w(d); w('\n')
        for a in (self.args if self.args is not None else ['-f', '/work/main.lox']): w('arg %s\n' % a)
        for e in self.events: w('ev %d %d %d %d\n' % tuple(e))
        if self.decs is not None:
            w('cfg scripted 1\n')
            for d in sorted(self.decs): w('dec %d %d %d\n' % tuple(d))
        if self.wantlog: w('wantlog\n')
        if self.wantdecs: w('wantdecs\n')
        if self.wantfiles: w('wantfiles %s\n' % self.wantfiles)
        return b''.join(o)

class Rec:
    __slots__ = ('which', 'seq', 'now', 'pid', 'task', 'data')
    def __repr__(self): return 'Rec(%d,%d,%d,p%d,t%d,%r)' % (self.which, self.seq, self.now, self.pid, self.task, self.data)

class Result:
    def __init__(self):
        self.recs, self.faults, self.procs, self.newcov, self.files = [], {}, [], [], {}
        self.hang = self.anomalies = ''
        self.log = b''; self.decs = None; self.bt = []
    def text(self, which=1, pid=None):
        return b''.join(r.data for r in self.recs if r.which == which and (pid is None or r.pid == pid)).decode('latin-1')
    @property
    def out(self): return self.text(1)
    @property
    def err(self): return self.text(2)
    @property
    def oname(self): return ONAME.get(self.outcome, '?')
    def lines(self, pid=None): return self.text(1, pid).splitlines()
    def key(self): return (self.outcome, self.evhash, self.ilhash, self.now, tuple((r.which, r.seq, r.now, r.data) for r in self.recs))

def parse(b):
    r = Result(); p = 0
    def line():
        nonlocal p
        e = b.index(b'\n', p); s = b[p:e].decode('latin-1'); p = e + 1
        return s
    def blob(n):
        nonlocal p
        d = b[p:p+n]; p += n + 1
        return d
    while p < len(b):
        s = line()
        k, _, v = s.partition(' ')
        if k == 'bt': r.bt = v.split()
        elif k == 'fault':
            n, a, c = v.split(); r.faults[n] = (int(a), int(c))
        elif k == 'proc': r.procs.append(tuple(int(x) for x in v.split()))
        elif k == 'hang': r.hang = blob(int(v)).decode('latin-1')
        elif k == 'anomalies': r.anomalies = blob(int(v)).decode('latin-1')
        elif k == 'newcov': r.newcov = [int(x, 16) for x in v.split()]
        elif k == 'decs': r.decs = [tuple(int(x) for x in line().split()) for _ in range(int(v))]
        elif k == 'out':
            d = blob(int(v)); q = 0
            while q < len(d):
                n, wh, seq, now, pid, task = struct.unpack_from('<IIQqII', d, q); q += 32
                x = Rec(); x.which, x.seq, x.now, x.pid, x.task, x.data = wh, seq, now, pid, task, d[q:q+n]; q += n
                r.recs.append(x)
        elif k == 'log': r.log = blob(int(v))
        elif k == 'files':
            while True:
                s = line()
                if s == 'endfiles': break
                _, path, ty, mode, n = s.split(' ')
                r.files[path] = (int(ty, 8), int(mode), blob(int(n)))
        elif k == 'badkey': raise Exception('bad cfg key ' + v)
        elif k == 'crashaddr': r.crashaddr = v
        else: setattr(r, k, int(v))
    return r

class Simd:
    def __init__(self, binary=None):
        self.binary = binary or build(); self.p = None; self.start()
    def start(self):
        self.p = subprocess.Popen([self.binary, os.path.join(REPO, 'lib'), REPO + '/lib'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd='/', env={})
    def run(self, job):
        d = job.encode()
        try:
            self.p.stdin.write(b'%015d\n' % len(d)); self.p.stdin.write(d); self.p.stdin.flush()
            h = self.p.stdout.read(16)
            if len(h) < 16: raise IOError('simd died')
            return parse(self.p.stdout.read(int(h)))
        except (IOError, OSError):
            self.close(); self.start()
            raise
    def close(self):
        try: self.p.stdin.close(); self.p.kill(); self.p.wait(); self.p.stdout.close()
        except Exception: pass

def symbolize(binary, bt):
    if not bt: return []
    r = subprocess.run(['addr2line', '-f', '-s', '-e', binary] + bt[:14], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    return ['%s (%s)' % (r[i], r[i+1]) for i in range(0, len(r) - 1, 2)]
