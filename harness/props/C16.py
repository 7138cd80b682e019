"""Script loading: the whole file runs, once per require, and failures surface to the requirer."""
from engine import *
LEVEL = 'exploration'
QUICK_RUNS = 6000
ASSUMPTIONS = ['a file is recorded as required when its code starts: a circular or concurrent require returns false at once, also when the script then raises', 'files are told apart by resolved path', 'script text without NUL bytes', 'a constant used while another thread is still inside the autoloaded file may be undefined']
PRE = '''var z = 0;
fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i)]; } return n; }
class Cx { req(p) { return requireScript(p); } lod(p) { return loadScript(p); } }
fun deepr(n, p, q) { if (n == 0) { if (q) { return requireScript(p); } return loadScript(p); } return deepr(n - 1, p, q); }
'''
DIRS = ['/work/lib', '/work/lib2', '/work', '/work/sub.lox/x']
SIZES = [0, 0, 0, 0, 0, 300, 1000, 4090, 4095, 4096, 4097, 8192, 12000, 60000]
KINDS = ['plain'] * 6 + ['cls'] * 4 + ['raise', 'raise', 'syntax', 'syntax', 'dir', 'noread', 'empty']
class Gen:
    def __init__(s, r): s.r = r; s.n = 0; s.files = []
    def file(s, i):
        r = s.r; k = r.choice(KINDS)
        f = {'id': i, 'kind': k, 'dir': r.randrange(len(DIRS)), 'base': i, 'ext': int(r.random() < 0.8), 'size': r.choice(SIZES), 'fill': r.randrange(4), 'nl': r.randrange(2), 'ops': [], 'slow': r.randrange(5)}
        if i > 1 and r.random() < 0.15:  # the same name in another directory of the load path
            o = r.choice(s.files)
            if o['dir'] != f['dir'] and o['dir'] < 3 and f['dir'] < 3: f['base'] = o['base']; f['ext'] = o['ext']
        if k == 'empty': f['size'] = 0
        return f
    def op(s, lo=0, raw=False, d=0):
        r = s.r; s.n += 1
        k = r.choice(['req'] * 8 + ['load'] * 4 + ['auto', 'auto', 'auto', 'use', 'use', 'missing', 'long', 'sleep', 'churn', 'sched'] + (['fork'] if d == 0 else []))
        o = {'k': k, 'i': s.n, 'f': 0, 'form': r.choice(['bare', 'bare', 'ext', 'abs', 'abs']), 'ctx': r.choice(['top', 'top', 'fn', 'method', 'blk', 'deep', 'eval', 'closure']), 'raw': int(raw and r.random() < 0.3)}
        if k == 'load': o['f'] = r.randrange(lo, len(s.files)) if lo < len(s.files) else -1
        elif k in ('req', 'auto', 'use'): o['f'] = r.randrange(len(s.files))
        if o['f'] < 0: o['k'] = 'churn'; o['f'] = 0
        if k == 'long': o['len'] = r.choice([250, 255, 300, 4000, 4080, 4095, 4096, 4097, 5000, 9000])
        if k == 'fork': o['ops'] = [s.op(lo, False, 1) for _ in range(r.randrange(1, 4))]; o['wait'] = r.randrange(2)
        return o
def gen(rng, tier):
    g = Gen(rng)
    for i in range(rng.choice([1, 2, 3, 5])): g.files.append(g.file(i))
    for f in g.files:
        if f['kind'] in ('plain', 'cls', 'raise') and rng.random() < 0.4: f['ops'] = [dict(g.op(f['id'] + 1, True, 1), nest=1) for _ in range(rng.choice([1, 1, 2, 3]))]
    main = [g.op() for _ in range(rng.choice([1, 3, 6, 10]))]
    th = [{'ops': [g.op(0, False, 1) for _ in range(rng.choice([1, 2, 4]))]} for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    spec = {'files': g.files, 'body': main, 'threads': th, 'src': rng.choice(['abs', 'abs', 'rel', 'dot', 'stdin', 'stdin']), 'lp': rng.choice([['-'], ['-'], ['.'], ['push'], ['rel']])[0], 'msize': rng.choice(SIZES), 'mnl': rng.randrange(2), 'bad': rng.choice([0] * 12 + ['syntax', 'missing', 'noread', 'dir']), 'early': int(rng.random() < 0.2), 'alias': rng.randrange(2)}
    if not th and rng.random() < 0.5: # the working directory is the process's, so not together with threads
        for ops in [main] + [o['ops'] for o in main if o['k'] == 'fork']:
            for _ in range(rng.choice([1, 1, 2, 3])):
                g.n += 1; ops.insert(rng.randrange(len(ops) + 1), {'k': 'cd', 'i': g.n, 'f': 0, 'd': rng.randrange(4), 'raw': 0})
    c = swarm(rng, gc=True, faults=[('short_read', 700), ('stall', 10), ('spurious_wakeup', 100)])
    if rng.random() < 0.4:
        for k, mx in [('eio_read', 200), ('open_eacces', 200), ('stat_eio', 100), ('emfile', 100), ('cwd_fail', 100)]:
            if rng.random() < 0.4: c['pf.' + k] = rng.choice([mx // 8, mx // 2, mx])
    if spec['early']:
        c['early'] = 1; c['pf.short_write'] = rng.choice([0, 300]); c['pf.enospc'] = rng.choice([0, 0, 100])
        if rng.random() < 0.5: c['fmax'] = rng.choice([1, 2])
    c['max_bb'] = 3000000000; c['p_preempt'] = max(50, c.get('p_preempt', 0))
    if repair(spec) is None: return gen(rng, tier)
    return Case(spec, c)
def repair(spec):
    n = len(spec['files'])
    if len(set(f['base'] for f in spec['files'])) < n: # a nested load could reach the file itself by another's name
        for f in spec['files']:
            for o in f['ops']:
                if o['k'] == 'load': o['k'] = 'req'
    def ok(ops):
        return all(o['f'] < n or o['k'] not in ('req', 'load', 'auto', 'use') for o in ops) and all(ok(o.get('ops', [])) for o in ops)
    if not (ok(spec['body']) and all(ok(t['ops']) for t in spec['threads']) and all(ok(f['ops']) for f in spec['files'])) or n == 0: return None
    for i, f in enumerate(spec['files']):
        if f['id'] != i: return None
    return spec
def fpath(f): return '%s/s%d%s' % (DIRS[f['dir']], f['base'], '.lox' if f['ext'] else '')
def name(f, form):
    if form == 'abs': return fpath(f)
    b = ('x/' if f['dir'] == 3 else '') + 's%d' % f['base']
    return b + ('.lox' if form == 'ext' and f['ext'] else '')
def search(spec, cwd='/work'): # resolved directories in load path order
    return {'-': ['/work/lib', '/work/lib2', '/work', '/work/sub.lox'], '.': ['/work/lib2', cwd, '/work/lib', '/work/sub.lox'], 'push': ['/work/lib', '/work/sub.lox', cwd, cwd + '/lib2'], 'rel': [cwd + '/lib2', cwd + '/lib', cwd, cwd + '/sub.lox']}[spec['lp']]
def lpargs(spec):
    """-L argument, statements that push further entries"""
    return {'-': ('/work/lib:/work/lib2/:/work:/work/sub.lox', ''), '.': ('/work/lib2:.:/work/lib', 'loadPath.push("/work/sub.lox");'), 'push': (None, 'loadPath.push("/work/lib"); loadPath.push("/work/sub.lox/"); loadPath.push("."); loadPath.push("./lib2");'), 'rel': ('./lib2:./lib/:.', 'loadPath.push("./sub.lox");')}[spec['lp']]
def candidates(spec, o, cwd='/work'):
    """ids of the files (or None) the op may reach, in order of preference"""
    f = spec['files'][o['f']]
    paths = {}
    for x in spec['files']: paths.setdefault(fpath(x), x)
    if o['k'] == 'auto' or o['k'] == 'use': form = 'abs'
    else: form = o['form']
    if form == 'abs': return [paths[fpath(f)]] if paths[fpath(f)]['kind'] != 'gone' else [None]
    n = name(f, form); out = []
    for d in search(spec, cwd):
        for e in ['', '.lox']:
            if e and '.lox' in n: continue
            x = paths.get(d + '/' + n + e)
            if x is not None and x['kind'] != 'dir': out.append(x); break
    return out + [None]
def pad(f, i, n):
    if n <= 0: return ''
    L = []; c = 0
    if f == 0:
        while n > 0: k = min(n, 79); L.append('// ' + 'x' * (k - 3) + '\n'); n -= k + 1
        return ''.join(L)
    if f == 1: return '/*' + ('y' * 63 + '\n') * (n // 64) + '*/'
    if f == 2:
        s = 'var p%d = "%s"; if (p%d.size != %d) { print "PAD%d " + String(p%d.size); }\n' % (i, 'w' * n, i, n, i, i); return s
    k = n // 8
    return 'fun pf%d() { var c = 0;\n%s return c; }\nif (pf%d() != %d) { print "PAD%d"; }\n' % (i, 'c += 1;\n' * k, i, k, i)
def op_code(spec, o):
    k, i = o['k'], o['i']
    if k in ('sleep', 'churn', 'sched'): return {'sleep': 'sleep(1 / 1000);', 'churn': 'churn(10);', 'sched': 'Thread.schedule();'}[k]
    if k == 'cd': return 'Dir.chdir("%s");' % CDS[o['d']]
    if k == 'fork':
        return 'print "FK%d"; var q%d = Process.fork(fun() { print "CH%d";\n%s\nprint "CE%d"; _exit(0); }); print "FP%d"; %s' % (i, i, i, '\n'.join(op_code(spec, x) for x in o['ops']), i, i, 'Process.waitpid(q%d);' % i if o['wait'] else '')
    c = 'requireScript' if k in ('req', 'missing', 'long') else 'loadScript'
    if k in ('missing', 'long'):
        p = '"nope%d"' % i if k == 'missing' else '"%s" + "l" * %d' % ('/' if o['form'] == 'abs' else '', o['len'])
        x = '%s(%s)' % (c if o['ctx'] != 'fn' else 'loadScript', p); ctx = 'top'
    elif k in ('req', 'load'):
        p = '"%s"' % name(spec['files'][o['f']], o['form']); x = '%s(%s)' % (c, p); ctx = o['ctx']
        if ctx == 'eval' and o.get('nest'): ctx = 'fn'
        if ctx == 'method': x = 'Cx().%s(%s)' % ('req' if k == 'req' else 'lod', p)
        elif ctx == 'deep': x = 'deepr(7, %s, %s)' % (p, 'true' if k == 'req' else 'false')
        elif ctx == 'blk': x = '[1].map() -> (b) { return %s; }[0]' % x
        elif ctx == 'fn': x = 'fun() { return %s; }()' % x
        elif ctx == 'eval': x = 'eval("return %s;")' % x.replace('"', '\\"')
        elif ctx == 'closure': x = '[fun() { return %s; }][0]()' % x
    else: # use of a constant, with or without an autoload of it before
        f = spec['files'][o['f']]; ctx = o['ctx']
        x = 'K%d().m()' % f['id']
        if ctx in ('fn', 'closure'): x = 'fun() { return %s; }()' % x
        elif ctx == 'blk': x = '[1].map() -> (b) { return %s; }[0]' % x
        elif ctx == 'method': x = 'U%d().m()' % f['id']
        if k == 'auto': return 'autoload("K%d", "%s"); %s' % (f['id'], fpath(f), guard(o, x))
    return guard(o, x)
def guard(o, x):
    i = o['i']
    if o.get('nest'): # globals of a script that may run several times at once
        if o['raw']: return 'print "O%d"; print "R%d " + String(%s);' % (i, i, x)
        return 'print "O%d"; try { print "R%d " + String(%s); } catch (LoadError e) { print "R%d LE"; } catch (SyntaxError e) { print "R%d SE"; } catch (NameError e) { print "R%d NE"; } catch (Error e) { print "R%d E " + e.message; }' % (i, i, x, i, i, i, i)
    if o['raw']: return 'print "O%d"; var r%d = %s; print "R%d " + String(r%d);' % (i, i, x, i, i)
    return 'print "O%d"; try { var r%d = %s; print "R%d " + String(r%d); } catch (LoadError e) { print "R%d LE"; } catch (SyntaxError e) { print "R%d SE"; } catch (NameError e) { print "R%d NE"; } catch (Error e) { print "R%d E " + e.message; }' % (i, i, x, i, i, i, i, i, i)
def file_text(spec, f):
    i, k = f['id'], f['kind']
    if k == 'empty': return ''
    L = ['print "S%d";\n' % i, {0: '', 1: 'Thread.schedule();\n', 2: 'sleep(1 / 1000);\n', 3: 'churn(20);\n', 4: ''}[f['slow']]]
    body = ''.join(op_code(spec, o) + '\n' for o in f['ops'])
    if k == 'cls': L.append('class K%d { m() { return "k%d"; } }\n' % (i, i))
    tail = {'plain': '', 'cls': '', 'noread': '', 'raise': 'throw ArgumentError("r%d");' % i, 'syntax': 'var = 3;', 'dir': ''}[k] or 'print "E%d";' % i
    fixed = ''.join(L) + body + tail
    return ''.join(L) + pad(f['fill'], i, f['size'] - len(fixed)) + body + tail + ('\n' if f['nl'] else '')
def main_text(spec):
    L = [PRE, 'print "@0";', lpargs(spec)[1]]
    used = set()
    def us(ops):
        for o in ops:
            if o['k'] in ('auto', 'use'): used.add(o['f'])
            us(o.get('ops', []))
    us(spec['body']); [us(t['ops']) for t in spec['threads']]; [us(f['ops']) for f in spec['files']]
    for i in sorted(used): L.append('class U%d { m() { return K%d().m(); } }' % (i, i))
    L.append('var fd0 = File.read("/sim/fds");')
    for n, t in enumerate(spec['threads']): L.append('var t%d = newThread(fun() { print "@%d";\n%s\nprint "T%d"; });' % (n + 1, n + 1, '\n'.join(op_code(spec, o) for o in t['ops']), n + 1))
    L += [op_code(spec, o) for o in spec['body']]
    L += ['joinThread(t%d);' % (n + 1) for n in range(len(spec['threads']))]
    L.append('print "FD " + String(fd0 == File.read("/sim/fds"));')
    if spec['bad'] == 'syntax': L.append('var = 4;')
    L = '\n'.join(L); tail = '\nprint "DONE";'
    return L + '\n' + pad(0, 0, spec['msize'] - len(L) - len(tail)) + tail + ('\n' if spec['mnl'] else '')
def render(spec):
    files = {}; dirs = [d for d in DIRS if d != '/work'] + ['/work/sub.lox', '/tmp', '/work/main.d']
    for f in spec['files']:
        p = fpath(f)
        if p in files or p in dirs: continue
        if f['kind'] == 'dir': dirs.append(p)
        else: files[p] = (file_text(spec, f), 0o000 if f['kind'] == 'noread' else 0o644)
    m = main_text(spec); a = []; stdin = None; b = spec['bad']
    lp = lpargs(spec)[0]
    if lp: a += ['-L', lp]
    if spec['src'] == 'stdin' and b in (0, 'syntax'): a.append('-'); stdin = m; m = None
    else:
        p = {'abs': '/work/main.lox', 'rel': 'main.lox', 'dot': './main.lox', 'stdin': 'main.lox'}[spec['src']]
        if b == 'missing': p = '/work/nomain.lox'
        elif b == 'dir': p = 'main.d'
        elif b == 'noread': files['/work/nr.lox'] = (m, 0); p = 'nr.lox'
        a += ['-f', p]
    return Job(m if m is not None else None, files=files, dirs=list(dict.fromkeys(dirs)), args=a, stdin=stdin)
CDS = ['/work/lib', '/work/lib2', '/work', '/work/sub.lox']
class Bad(Exception): pass
FAULTS = ['eio_read', 'open_eacces', 'stat_eio', 'emfile', 'cwd_fail', 'enospc', 'eio_write']
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    fired = sum(r.faults.get(k, (0, 0))[0] for k in FAULTS)
    def fk(*ks): return any(r.faults.get(k, (0, 0))[0] for k in ks)
    st = r.rootstatus
    if spec['bad'] or (fired and spec['early'] and not r.out):
        if r.out: return [('bad-ran', 'main script is %s but printed %r' % (spec['bad'], r.out[:200]))]
        if st != 1 << 8: return [('bad-status', 'main script is %s, exit status %#x, stderr %r' % (spec['bad'] or 'unreadable', st, r.err[-200:]))]
        if not r.err: return [('bad-silent', 'main script is %s and nothing was reported' % (spec['bad'] or 'unreadable'))]
        return []
    if st: return [('status', 'exit status %#x: %s' % (st, r.err[-400:]))]
    F = {f['id']: f for f in spec['files']}
    rec = {}
    def dup(f):
        """the file that really holds the path of f"""
        for x in spec['files']:
            if fpath(x) == fpath(f): return x
    streams = {}
    for x in r.recs:
        if x.which == 1:
            t = x.data.decode('latin-1'); streams.setdefault((x.pid, x.task), []).append([t, x.seq])
    toks = {}
    for k, rs in streams.items():
        out = []; buf = ''; s0 = 0
        for t, q in rs:
            for c in t.split('\n')[:-1] if t.endswith('\n') and not buf else [None]:
                if c is None: break
                out.append((c, q))
            else: continue
            for ch in t:
                if not buf: s0 = q
                if ch == '\n': out.append((buf, q)); buf = ''
                else: buf += ch
        if buf: out.append((buf, s0))
        toks[k] = out
    starts = []   # (file id, how, pid, seq)
    reqfalse = [] # (file ids possible, pid, seq op, seq res)
    errs = []     # requires that failed before the code ran
    defs = []     # (file id, pid, seq of start, seq of end)
    forks = {}    # child marker -> (pid, seq)
    uses = []; cwd = ['/work']; cwdat = {}
    def run(T, p, ops, key):
        """consumes the tokens of ops; returns (next position, error or None)"""
        def tok(): return T[p] if p < len(T) else ('<end>', 1 << 60)
        for o in ops:
            k, i = o['k'], o['i']
            if k in ('sleep', 'churn', 'sched'): continue
            if k == 'cd': cwd[0] = CDS[o['d']]; continue
            if k == 'fork':
                if tok()[0] != 'FK%d' % i: raise Bad('%s where FK%d was due' % (tok()[0], i))
                q = tok()[1]; p += 1
                if tok()[0] != 'FP%d' % i: raise Bad('%s where FP%d was due' % (tok()[0], i))
                forks[i] = (key[0], q, tok()[1]); cwdat['CH%d' % i] = cwd[0]; p += 1; continue
            if tok()[0] != 'O%d' % i: raise Bad('%s where O%d was due' % (tok()[0], i))
            q0 = tok()[1]; p += 1
            if k in ('missing', 'long'): res = 'LE'
            elif k in ('req', 'load', 'auto', 'use'):
                res = None; cands = candidates(spec, o, cwd[0])
                allowed = cands if fk('stat_eio', 'cwd_fail') else cands[:1]
                via = 'load' if k == 'load' else 'req'
                t = tok()[0]
                if k in ('auto', 'use'):
                    kid = F[o['f']]['id']
                    if t[:1] != 'S' or not t[1:].isdigit(): res = ('use', kid); uses.append((kid, key[0], q0, tok()[1], t))
                if res is None and t[:1] == 'S' and t[1:].isdigit():
                    f = F.get(int(t[1:]))
                    if f is None or f not in allowed: raise Bad('op %d ran file %s, expected one of %s' % (i, t, [x and x['id'] for x in allowed]))
                    if f['kind'] not in ('plain', 'cls', 'raise'): raise Bad('file %d (%s) ran' % (f['id'], f['kind']))
                    qs = tok()[1]; p += 1
                    starts.append((f['id'], via, key[0], qs, q0))
                    p, e = run(T, p, f['ops'], key)
                    if e is None:
                        if f['kind'] == 'raise': e = 'E r%d' % f['id']
                        else:
                            if tok()[0] != 'E%d' % f['id']: raise Bad('%s where E%d was due' % (tok()[0], f['id']))
                            p += 1
                    defs.append((f['id'], key[0], qs, tok()[1]))
                    if e is not None: res = e
                    elif k in ('auto', 'use'): res = ('k%d' % F[o['f']]['id']) if f['id'] == F[o['f']]['id'] and f['kind'] == 'cls' else 'NE'
                    else: res = 'true'
                elif res is None: # nothing ran
                    alts = set(); ids = []
                    for f in allowed:
                        if f is None: alts.add('LE'); continue
                        kd = f['kind']
                        if via == 'req' and kd in ('plain', 'cls', 'raise', 'empty'): alts.add('false'); ids.append(f['id'])
                        if kd == 'empty': alts.add('true')
                        if kd == 'syntax': alts.add('SE')
                        if kd in ('dir', 'noread'): alts.add('LE')
                    if fk('eio_read', 'open_eacces', 'emfile', 'stat_eio', 'cwd_fail'): alts.add('LE')
                    got = t[len('R%d ' % i):] if t.startswith('R%d ' % i) else None
                    if o['raw'] and got is None:
                        es = [a for a in alts if a not in ('true', 'false')]
                        if not es: raise Bad('%s where the result of op %d was due' % (t, i))
                        return p, es[0] if len(es) == 1 else '*' + '|'.join(es)
                    if got not in alts: raise Bad('op %d (%s of file %s) gave %s, expected one of %s' % (i, k, o['f'], t, sorted(alts)))
                    if got == 'false': reqfalse.append((ids, key[0], q0, tok()[1]))
                    if got == 'true' and via == 'req': starts.append((next(x['id'] for x in allowed if x and x['kind'] == 'empty'), 'req', key[0], tok()[1], q0))
                    res = got
            if isinstance(res, tuple):
                alts = ['k%d' % res[1], 'NE']
                if k == 'auto' or k == 'use': alts += ['LE', 'SE']
                got = tok()[0][len('R%d ' % i):] if tok()[0].startswith('R%d ' % i) else None
                if got is None and o['raw']: return p, '*LE|SE|NE'
                if got not in alts: raise Bad('use of constant gave %s' % tok()[0])
                p += 1; continue
            if res in ('true', 'false') or res[0] == 'k':
                if tok()[0] != 'R%d %s' % (i, res): raise Bad('%s where R%d %s was due' % (tok()[0], i, res))
                p += 1; continue
            if o['raw']: return p, res
            got = tok()[0]
            ok = got.startswith('R%d ' % i) and (got[len('R%d ' % i):] in res[1:].split('|') if res[0] == '*' else got == 'R%d %s' % (i, res))
            if not ok: raise Bad('%s where R%d %s was due' % (got, i, res))
            p += 1
        return p, None
    seen = {}
    children = {}
    def kids(ops):
        for o in ops:
            if o['k'] == 'fork': children['CH%d' % o['i']] = o
    kids(spec['body'])
    try:
        for key, T in toks.items():
            if not T: continue
            h = T[0][0]; cwd[0] = cwdat.get(h, '/work')
            if h == '@0':
                p, e = run(T, 1, spec['body'], key)
                rest = [t for t, _ in T[p:]]
                if rest != ['FD true', 'DONE']: raise Bad('main script ended with %s' % rest[:4])
            elif h[:1] == '@':
                n = int(h[1:]); p, e = run(T, 1, spec['threads'][n - 1]['ops'], key)
                rest = [t for t, _ in T[p:]]
                if rest != ['T%d' % n]: raise Bad('thread %d ended with %s' % (n, rest[:4]))
            elif h in children:
                o = children[h]; p, e = run(T, 1, o['ops'], key)
                rest = [t for t, _ in T[p:]]
                if rest != ['CE%d' % o['i']]: raise Bad('child ended with %s' % rest[:4])
            else: raise Bad('stray output %s' % h)
            if h in seen: raise Bad('%s twice' % h)
            seen[h] = key
        for h in ['@0'] + ['@%d' % (n + 1) for n in range(len(spec['threads']))]:
            if h not in seen: raise Bad('no output of %s' % h)
        for i, (pid, a, b) in forks.items():
            if 'CH%d' % i not in seen: raise Bad('no output of child %d' % i)
    except Bad as e:
        return [('trace', str(e) + ' ' + r.err[-300:])]
    # once per process, over the process and what it inherited
    par = {seen['CH%d' % i][0]: (pid, a, b) for i, (pid, a, b) in forks.items()}
    root = seen['@0'][0]
    for pid in set(k[0] for k in toks):
        mine = [s for s in starts if s[2] == pid and s[1] == 'req']
        if pid in par: # certainly inherited: started before the fork was asked for
            mine += [s for s in starts if s[2] == par[pid][0] and s[1] == 'req' and s[3] < par[pid][1] and F[s[0]]['kind'] != 'empty']
        maybe = mine + ([s for s in starts if s[2] == par[pid][0] and s[1] == 'req' and s[4] <= par[pid][2]] if pid in par else [])
        cnt = {}
        for s in mine: cnt.setdefault(s[0], []).append(s)
        for f, l in cnt.items():
            if len(l) > 1: return [('twice', 'file %d (%s) was run by %d requires in process %d: %s' % (f, fpath(F[f]), len(l), pid, l))]
        for ids, p, q0, q1 in reqfalse:
            if p != pid: continue
            if any(F[x]['kind'] == 'empty' for x in ids) and any(u[0] in ids for u in uses): continue
            if not any(s[0] in ids and s[4] < q1 for s in maybe): return [('not-run', 'require of file %s returned false at %d but nothing had run it' % (ids, q1))]
        # a constant that was there before is used, one that can be loaded is
        for kid, p, q0, q1, t in uses:
            if p != pid or t.startswith('R') and ' k' in t: continue
            ds = [d for d in defs if d[0] == kid and (d[1] == pid and d[3] < q0 or pid in par and d[1] == par[pid][0] and d[3] < par[pid][1])]
            if ds and F[kid]['kind'] == 'cls' and not any(o['raw'] for o in F[kid]['ops']): return [('constant-lost', 'constant K%d was defined at %s but its use at %d gave %s' % (kid, ds, q0, t))]
    return []
def tags(spec, r):
    t = ['src:' + spec['src'], 'lp:' + spec['lp']] + ['kind:' + f['kind'] for f in spec['files']]
    for ops in [spec['body']] + [x['ops'] for x in spec['threads']] + [f['ops'] for f in spec['files']]:
        t += ['op:' + o['k'] for o in ops]
    return t
