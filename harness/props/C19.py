"""Directories: listing, glob, mkdir, chdir (with and without a block) against a small file-system model; injected failures must surface as errors and leave the process in the directory the program is told it is in."""
from engine import *
from props.C11 import Err, Sys, Node, FS
import random, os, re, errno as EN
LEVEL = 'exploration'
QUICK_RUNS = 6000
WANTLOG = True
import sim
ROOTDIRS = ['dev', 'sim', 'tmp', sim.REPO.strip('/').split('/')[0]]   # what the simulated root holds besides /work: the last is where the scripts of lib/ are seen
ASSUMPTIONS = ['the current directory belongs to the process: only one thread of a process changes it, its other threads use absolute paths', 'directories are not renamed or removed (Lox has no call that removes one)', 'a directory that may not be read has no matching names for glob, as in a shell', 'listing order is not specified, so names are compared as a multiset']
LONG = 'n' * 300
DIRS = ['.', '..', 'sub', 'sub', 'sub/in', 'em', 'ro', 'nx', 'k1', 'k2', 'k1/k2', 'ld', 'ld', '../d1', '../d1/sub', '@', '@/sub', '@/k1', 'no', 'b', 'dl', LONG, 'no/x', 'nx/y', 'sub/../em', 'lp']
MK = ['k1', 'k1', 'k2', 'k2', 'k1/k2', 'k1/k3', 'sub/k4', '@/k5', '@/k1/k6', '../k7', 'b', 'sub', 'no/k', 'ro/k', 'nx/k', 'dl', LONG, '.', 'k8/', 'ld/k9', 'b/k']
MKP = ['p1', 'p1/p2', 'p1/p2/p3', '@/p1/p4', '@/q1/q2/q3', 'b/z', 'sub/p5/p6', 'ro/p7', 'k1/k2/p8', '/work', '@', 'p1/../p9', 'em/']
COMP = ['*', '*', '*', '?', '??', '[ab]*', '[!a]*', 'k*', '*.txt', '.*', 's?b', '[a-c]', '*k*', '{a,b}', '{a,k1,sub}', '{b,zz}', '[x]', 'f{1,2}.txt', '*[0-9]*']
MODES = [0o777, 0o755, 0o700, 0o500, 0o300, 0o100, 0, 0o555]
class Gen:
    def __init__(s, r, solo): s.r = r; s.n = 0; s.ok = (lambda L: L) if solo else lambda L: [x for x in L if not x.startswith('..')]
    def dname(s, absd): return s.r.choice(s.ok(DIRS))
    def pat(s):
        r = s.r; cs = [r.choice(COMP + s.ok(['..', '..']) + ['sub', 'k1', 'em', '.', 'ld', 'ro', 'b', 'a', 'no', 'nx', 'in']) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        if not any(c in COMP for c in cs) and r.random() < 0.7: cs[-1] = r.choice(COMP)
        return ('@/' if r.random() < 0.25 else '') + '/'.join(cs)
    def op(s, depth, child, main):
        r = s.r; s.n += 1
        k = r.choice(['mkdir'] * 4 + ['mkdirp', 'mkdirp'] + (['chdir'] * 3 + ['chdirb'] * 5 if main else []) + ['pwd'] * (3 if main else 0) + ['glob'] * 5 + ['dopen'] * 5 + ['list'] * 4 + ['next'] * 3 + ['rewind'] * 2 + ['dclose'] * 2 + ['mkfile'] * 2 + ['rmfile', 'chmod', 'isdir', 'lose', 'init', 'gc', 'churn', 'sched', 'bad', 'ls'] + ([] if child else ['fork']))
        if k == 'chdirb' and depth >= 3: k = 'pwd'
        o = {'k': k, 'i': s.n, 's': r.randrange(3), 'ab': 0 if main else 1}
        if k in ('dopen', 'chdir', 'chdirb', 'lose', 'isdir', 'ls'): o['p'] = r.choice(s.ok(DIRS))
        if k == 'chmod': o['p'] = r.choice(['sub', 'em', 'k1', 'k2', 'k1/k2', 'ld', 'sub/in']); o['m'] = r.choice(MODES)
        if k == 'mkdir': o['p'] = r.choice(s.ok(MK)); o['m'] = r.choice([None, None] + MODES)
        if k == 'mkdirp': o['p'] = r.choice(MKP)
        if k == 'mkfile': o['p'] = r.choice(['a', 'f%d.txt' % (s.n % 3), 'sub/f%d' % (s.n % 4), 'em/.h', 'k1/z', '.dot', 'e%d' % s.n])
        if k == 'rmfile': o['p'] = r.choice(['a', 'b', 'f1.txt', 'sub/s1', 'sub/f1', 'em/.h', 'e%d' % max(1, s.n - 3)])
        if k == 'glob': o['p'] = s.pat()
        if k == 'next': o['c'] = r.choice([1, 1, 2, 3, 8])
        if k == 'bad': o['v'] = r.randrange(7)
        if k == 'fork': o['ops'] = s.ops(r.randrange(1, 6), depth, True, main)
        if k == 'chdirb': o['body'] = s.ops(r.choice([0, 1, 1, 2, 3]), depth + 1, child, main); o['e'] = r.choice(['ret', 'ret', 'nil', 'err', 'err', 'ens', 'brk', 'fn', 'nest'])
        return o
    def episode(s, depth, child, main):
        r = s.r; f = lambda k, **kw: dict({'k': k, 'i': s.nx(), 's': i, 'ab': 0 if main else 1}, **kw); i = r.randrange(3); p = r.choice(s.ok(DIRS[:12]))
        if r.random() < 0.5: L = [f('dopen', p=p), f('mkfile', p='e%d' % s.n), f(r.choice(['list', 'next']), c=r.choice([1, 2, 3])), f(r.choice(['rewind', 'rewind', 'gc', 'list'])), f('list'), f('next', c=1), f('dclose'), f(r.choice(['list', 'next', 'rewind', 'dclose']), c=1)]
        else: L = [f('mkdir', p='k1', m=r.choice([None, 0o700, 0o500, 0o300])), f('mkdir', p='k1/k2', m=None), f('glob', p='k1/*'), f('glob', p='*/k2'), f('dopen', p='k1'), f('list')]
        return [o for o in L if r.random() < 0.9]
    def nx(s): s.n += 1; return s.n
    def ops(s, n, depth, child, main):
        L = []
        while len(L) < n: L += s.episode(depth, child, main) if s.r.random() < 0.15 else [s.op(depth, child, main)]
        return L
def gen(rng, tier):
    nt = rng.choice([1, 1, 1, 2, 3]); g = Gen(rng, nt == 1)
    spec = {'threads': [{'id': t + 1, 'ops': g.ops(rng.choice([4, 8, 15, 25] if nt == 1 else [3, 6, 10]), 0, False, t == 0)} for t in range(nt)]}
    c = swarm(rng, gc=True, faults=[('stall', 10), ('mkdir_fail', 120), ('chdir_fail', 120), ('opendir_fail', 120), ('eio_read', 60), ('cwd_fail', 120), ('fork_eagain', 100)])
    if rng.random() < 0.15: c['nofile'] = rng.choice([4, 5, 6])
    c['max_bb'] = 3000000000; c['p_preempt'] = max(50, min(c.get('p_preempt', 0), 300))
    if 'fine_bb' in c: c['fine_bb'] = max(c['fine_bb'], 100)
    return Case(spec, c)
def pth(t, p, ab=0):
    d = '/work/d%d' % t['id']
    if p.startswith('@'): return d + p[1:]
    if p.startswith('/'): return p
    return d + '/' + p if ab else p
BAD = ['Dir.mkdir(3)', 'Dir.glob(nil)', 'Dir.chdir([])', 'Dir(7)', 'Dir.mkdir("zz", "x")', 'Dir.chdir("/no/where")', 'Dir("/work/none")']
BADC = ['ArgumentError', 'ArgumentError', 'ArgumentError', 'ArgumentError', 'ArgumentError', 'SystemError::ENOENT', 'ArgumentError']
def flat(ops):
    for o in ops:
        yield o
        yield from flat(o.get('ops', [])); yield from flat(o.get('body', []))
def stmts(t, o):
    k = o['k']; P = '"%s"' % pth(t, o.get('p', ''), o['ab']); H = 'h[%d]' % o['s']
    def w(x): return 'if (%s == nil) { r = "NOH"; } else { %s }' % (H, x)
    if k == 'mkdir': return 'r = Dir.mkdir(%s%s);' % (P, '' if o['m'] is None else ', 0c%o' % o['m'])
    if k == 'mkdirp': return 'r = FileUtils.mkdir_p(%s);' % P
    if k == 'chdir': return 'r = Dir.chdir(%s);' % P
    if k == 'pwd': return 'r = Dir.pwd();'
    if k == 'glob': return 'r = Dir.glob(%s).join("^");' % P
    if k == 'dopen': return 'drop(h, %d); h[%d] = Dir(%s); r = "H";' % (o['s'], o['s'], P)
    if k == 'init': return w('%s.init("."); r = 1;' % H)
    if k == 'lose': return 'var d = Dir(%s); d = nil; r = 1;' % P
    if k == 'list': return w('var l = [];  try { foreach (x in %s) { l << x; } } catch (Error e) { l << ("*" + String(classof(e))); } r = l.join("^");' % H)
    if k == 'ls': return 'var l = []; var d = Dir(%s); try { foreach (x in d) { l << x; } } catch (Error e) { l << ("*" + String(classof(e))); } d.close(); r = l.join("^");' % P
    if k == 'next': return w('var l = []; for (var i = 0; i < %d; i += 1) { var x = nil; try { x = %s.iterNext(); } catch (Error e) { x = "*" + String(classof(e)); } l << String(x); } r = l.join("^");' % (o['c'], H))
    if k == 'rewind': return w('r = %s.rewind();' % H)
    if k == 'dclose': return w('r = %s.close();' % H)
    if k == 'mkfile': return 'var f = File.create(%s); f.close(); r = 1;' % P
    if k == 'rmfile': return 'var f = File.open(%s, File::O_RDONLY); f.close(); f.unlink(); r = 1;' % P
    if k == 'chmod': return 'var f = File.open(%s, File::O_RDONLY); f.close(); r = f.chmod(0c%o);' % (P, o['m'])
    if k == 'isdir': return 'r = File.isDir(%s);' % P
    if k == 'bad': return 'r = %s;' % BAD[o['v']]
    return {'gc': 'GC.collect();', 'churn': 'churn(30);', 'sched': 'Thread.schedule();'}[k] + ' r = 1;'
def body(t, o):
    """the op as a function oN(h)"""
    i = o['i']; tail = 'print "#%d=" + String(r) + "<E>"; } catch (Error e) { print "#%d!" + String(classof(e)) + "|" + e.message + "<E>"; } }' % (i, i)
    if o['k'] == 'fork': return 'fun o%d(h) { print "#%d>"; try { var p = Process.fork(fun() { %s exit(0); }); if (p < 0) { print "#%d!fork<E>"; } else { print "#%d=" + String(Process.waitpid(p)) + "<E>"; } } catch (Error e) { print "#%d!" + String(classof(e)) + "|" + e.message + "<E>"; } }' % (i, i, ' '.join('o%d(h);' % x['i'] for x in o['ops']), i, i, i)
    if o['k'] != 'chdirb': return 'fun o%d(h) { print "#%d>"; var r = nil; try { %s %s' % (i, i, stmts(t, o), tail)
    P = '"%s"' % pth(t, o['p'], o['ab']); e = o['e']; ins = ' '.join('o%d(h);' % x['i'] for x in o['body'])
    end = {'ret': 'return "v%d";' % i, 'nil': '', 'err': 'throw TypeError("b%d");' % i, 'ens': 'try { throw ArgumentError("b%d"); } ensure { churn(5); }' % i, 'brk': 'break;', 'fn': 'return "v%d";' % i, 'nest': 'return nested(%d);' % i}[e]
    blk = 'print "#%d<"; %s print "#%d~"; %s' % (i, ins, i, end)
    if e == 'fn': return 'fun o%d(h) { print "#%d>"; var r = nil; try { r = Dir.chdir(%s, &fun() { %s }); %s' % (i, i, P, blk, tail)
    return 'fun o%d(h) { print "#%d>"; var r = nil; try { r = Dir.chdir(%s) -> () { %s }; %s' % (i, i, P, blk, tail)
def render(spec):
    L = ['fun req() { try { requireScript("fileutils"); } catch (Error e) { req(); } } req();', 'fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i)]; } return n; }',
         'fun nested(n) { try { Dir.chdir("/work") -> () { throw Error("deep"); }; } catch (Error e) { return "n" + String(n) + e.message; } return "none"; }' ,
         'fun drop(h, i) { if (h[i] != nil) { var d = h[i]; h[i] = nil; d.close(); } }',
         'fun fds() { while (true) { try { return File.read("/sim/fds"); } catch (Error e) { churn(1); } } }']
    for t in spec['threads']:
        for o in flat(t['ops']): L.append(body(t, o))
        L.append('fun th%d() { var h = [nil, nil, nil]; %s for (var i = 0; i < 3; i += 1) { drop(h, i); } }' % (t['id'], ' '.join('o%d(h);' % o['i'] for o in t['ops'])))
    for t in spec['threads']:
        for n, x in LINKS: L.append('File.symlink("%s", "/work/d%d/%s");' % (x, t['id'], n))
    L.append('fun start() { try { Dir.chdir("/work/d1"); } catch (Error e) { start(); } } var f0 = fds(); var ths = []; start();')
    for t in spec['threads'][1:]: L.append('ths << newThread(fun() { th%d(); });' % t['id'])
    if spec['threads']: L.append('th%d();' % spec['threads'][0]['id'])
    L.append('for (var i = 0; i < ths.size; i += 1) { joinThread(ths[i]); } GC.collect(); GC.collect(); print "#FDS " + f0 + " " + fds(); print "#END";')
    files = {}; dirs = []
    for t in spec['threads']:
        d = '/work/d%d' % t['id']; dirs += [d, d + '/sub', d + '/sub/in', d + '/em', (d + '/ro', 0o500), (d + '/nx', 0o600)]
        for x in ('a', 'b', 'f1.txt', 'f2.txt', 'sub/s1', 'sub/.s2', 'sub/in/a', 'ro/a', 'ro/k'): files[d + '/' + x] = x
    j = Job('\n'.join(L), files=files, dirs=dirs); j.wantfiles = '/work'; return j
LINKS = [('ld', 'sub'), ('dl', 'gone'), ('lp', 'lp')]
# ------------------------------------------------------------------ the model
def comp_re(c):
    out = ''; n = 0
    while n < len(c):
        x = c[n]
        if x == '*': out += '[^/]*'
        elif x == '?': out += '[^/]'
        elif x == '[': e = c.index(']', n + 2); b = c[n + 1:e]; out += '[' + ('^' + b[1:] if b[0] == '!' else b) + ']'; n = e
        else: out += re.escape(x)
        n += 1
    return re.compile(out + r'\Z')
def braces(p):
    m = re.search(r'\{([^{}]*)\}', p)
    if not m: return [p]
    return [x for a in m.group(1).split(',') for x in braces(p[:m.start()] + a + p[m.end():])]
class Proc:
    def __init__(s, cwd, H): s.cwd, s.H = cwd, H
class Hd:
    def __init__(s, node): s.node, s.open = node, True; s.snap()
    def snap(s): s.left = ['.', '..'] + list(s.node.ents)
    def copy(s): h = Hd(s.node); h.open = s.open; h.left = list(s.left); return h
class Model:
    def __init__(s, spec):
        s.fs = FS(); w = Node('d', 0o755, parent=s.fs.root); s.fs.root.ents['work'] = w
        def mk(par, n, ty, mode, data=''): x = Node(ty, mode, data, par); par.ents[n] = x; return x
        for t in spec['threads']:
            d = mk(w, 'd%d' % t['id'], 'd', 0o755); sub = mk(d, 'sub', 'd', 0o755); inn = mk(sub, 'in', 'd', 0o755); mk(d, 'em', 'd', 0o755); ro = mk(d, 'ro', 'd', 0o500); mk(d, 'nx', 'd', 0o600)
            for x in ('a', 'b', 'f1.txt', 'f2.txt'): mk(d, x, 'f', 0o644, x)
            mk(sub, 's1', 'f', 0o644, 'sub/s1'); mk(sub, '.s2', 'f', 0o644, 'sub/.s2'); mk(inn, 'a', 'f', 0o644, 'sub/in/a'); mk(ro, 'a', 'f', 0o644, 'ro/a'); mk(ro, 'k', 'f', 0o644, 'ro/k')
            for n, x in LINKS: mk(d, n, 'l', 0o777, x)
        mk(w, 'main.lox', 'f', 0o644)
    def path(s, n):
        if n is s.fs.root: return '/'
        p = ''
        while n is not s.fs.root:
            p = '/' + next(k for k, c in n.parent.ents.items() if c is n) + p; n = n.parent
        return p
    def look(s, pr, path, follow=1): return s.fs.walk(pr.cwd, path, follow)
    def get(s, pr, path, follow=1):
        n, p, l, e = s.look(pr, path, follow)
        if n is None: raise Sys(e)
        return n, p, l
    def fault(s, *kinds):
        for n, e in enumerate(s.ev):
            if e in kinds: s.ev.pop(n); return e
    def mkdir(s, pr, P, m):
        if s.fault('mkdir_fail', 'mkdir') == 'mkdir_fail': raise Sys(EN.ENOSPC)
        n, par, last, e = s.look(pr, P, 0)
        if n is not None: raise Sys(EN.EEXIST)
        if e != EN.ENOENT or par is None: raise Sys(e)
        if not par.may(2): raise Sys(EN.EACCES)
        par.ents[last] = Node('d', m & ~0o022 & 0o1777, parent=par)
    def chdir(s, pr, P):
        if s.fault('chdir_fail', 'chdir') == 'chdir_fail': raise Sys(EN.EACCES)
        n = s.get(pr, P)[0]
        if n.ty != 'd': raise Sys(EN.ENOTDIR)
        if not n.may(1): raise Sys(EN.EACCES)
        pr.cwd = n
    def opendir(s, pr, P):
        if s.fault('opendir_fail', 'emfile'): raise Err('ArgumentError', 'Too many open files')
        n, p, l, e = s.look(pr, P)
        if n is not None and n.ty != 'd': e = EN.ENOTDIR
        elif n is not None and not n.may(4): e = EN.EACCES
        if e: raise Err('ArgumentError', os.strerror(e))
        return n
    def open(s, pr, P):
        if s.fault('emfile'): raise Sys(EN.EMFILE)
        n = s.get(pr, P)[0]
        if not n.may(4): raise Sys(EN.EACCES)
        return n
    def glob(s, pr, P):
        if s.fault('opendir_fail', 'emfile'): raise Sys(EN.EMFILE)
        out = []
        for p in braces(P):
            at = ['/'] if p.startswith('/') else ['']
            cs = [c for c in p.split('/') if c]
            for n, c in enumerate(cs):
                nx = []; magic = any(x in c for x in '*?[')
                for b in at:
                    if not magic:
                        # later parts decide whether it is there, as in glob(3)
                        x = b + ('' if b in ('', '/') else '/') + c
                        if any(y in z for z in cs[n + 1:] for y in '*?[') or s.look(pr, x, 0)[0] is not None or n < len(cs) - 1: nx.append(x)
                        continue
                    d = s.look(pr, b or '.')[0]
                    if d is None or d.ty != 'd' or not d.may(4): continue
                    rx = comp_re(c)
                    for k in sorted(list(d.ents) + ['.', '..']):
                        if k[0] == '.' and c[0] != '.': continue
                        if rx.match(k):
                            x = b + ('' if b in ('', '/') else '/') + k
                            if n < len(cs) - 1:
                                y = s.look(pr, x)[0]
                                if y is None or y.ty != 'd': continue
                            nx.append(x)
                at = nx
            out.append([x for x in at if cs and any(y in cs[-1] for y in '*?[') or s.look(pr, x, 0)[0] is not None])
        return out
    def run(s, t, o, pr, ev, text):
        """the expected text, or a function that judges it"""
        s.ev = list(ev); k = o['k']; P = pth(t, o.get('p', ''), o['ab']); H = pr.H
        if k == 'mkdir': s.mkdir(pr, P, 0o777 if o['m'] is None else o['m']); return 'true'
        if k == 'mkdirp':
            ps = P.split('/')
            if ps[-1] == '': ps.pop()
            for n in range(1, len(ps) + 1):
                q = '/'.join(ps[:n])
                if not q: continue
                x = s.look(pr, q)[0]
                if x is not None and x.ty != 'd': raise Err('Error', 'not a directory')
                if x is None: s.mkdir(pr, q, 0o777)
            return 'true'
        if k == 'chdir': s.chdir(pr, P); return P
        if k == 'pwd':
            if s.fault('cwd_fail'): raise Sys(EN.EACCES)
            return s.path(pr.cwd)
        if k == 'glob': return s.glob(pr, P)
        if k in ('dopen', 'lose', 'ls'):
            if k == 'dopen':
                h = H[o['s']]; H[o['s']] = None
            h = Hd(s.opendir(pr, P))
            if k == 'ls': return s.names(h, None, text)
            if k == 'dopen': H[o['s']] = h; return 'H'
            return '1'
        if k == 'mkfile':
            if s.fault('emfile'): raise Sys(EN.EMFILE)
            n, par, last, e = s.look(pr, P)
            if n is not None: raise Sys(EN.EEXIST)
            if e != EN.ENOENT or par is None: raise Sys(e)
            if not par.may(2): raise Sys(EN.EACCES)
            par.ents[last] = Node('f', 0o644, '', par); return '1'
        if k == 'rmfile':
            s.open(pr, P); n, par, last = s.get(pr, P, 0)
            if n.ty == 'd': raise Sys(EN.EISDIR)
            if not par.may(2): raise Sys(EN.EACCES)
            del par.ents[last]; return '1'
        if k == 'chmod': s.open(pr, P).mode = o['m']; return 'true'
        if k == 'isdir': return ['false', 'true'][s.get(pr, P)[0].ty == 'd']
        if k == 'bad':
            if o['v'] == 5: s.chdir(pr, '/no/where')
            if o['v'] == 6: s.opendir(pr, '/work/none')
            raise Err(BADC[o['v']])
        if k in ('gc', 'churn', 'sched'): return '1'
        h = H[o['s']]
        if h is None: return 'NOH'
        if k == 'init': raise Err('Error')
        if k == 'dclose':
            w = h.open; h.open = False; return ['false', 'true'][w]
        if k == 'rewind':
            if not h.open: return 'false'
            h.snap(); return 'true'
        if k == 'list': return s.names(h, None, text)
        if k == 'next': return s.names(h, o['c'], text)
        raise AssertionError(k)
    def names(s, h, cnt, text):
        """walks over the names given; a problem is returned as the expected text"""
        got = text.split('^') if text else []; bad = []
        if cnt is not None and len(got) != cnt: return '%d names' % cnt
        for n, x in enumerate(got):
            if x.startswith('*'):
                if not h.open and x == '*<class Error>' and (cnt or len(got) == 1): continue
                if h.open and x == '*<class SystemError>' and s.fault('eio_read') and (cnt or n == len(got) - 1): continue
                return 'no error ' + x
            if not h.open: return 'an error for a closed Dir'
            if cnt is not None and s.ev and 0: pass
            if cnt is not None and x == 'nil':
                if h.left: return 'more: %s' % sorted(h.left)
                continue
            if h.node is s.fs.root and x in ROOTDIRS: continue
            if x not in h.left: return 'not %r again or at all; left %s' % (x, sorted(h.left))
            h.left.remove(x)
        if s.fault('eio_read'): return 'an error for the failed read'
        if cnt is None and not (got and got[-1].startswith('*')):
            if not h.open: return 'an error for a closed Dir'
            if h.left: return 'also %s' % sorted(h.left)
        return text
# ------------------------------------------------------------------ judge
LOG = re.compile(rb'E(\d+) \S+ p(\d+) t(\d+) (?:FAULT )?(\w+)')
def windows(r):
    """op id -> [pid, task, windows, kind, text]"""
    S = {}
    for rec in r.recs:
        if rec.which == 1: S.setdefault((rec.pid, rec.task), []).append(rec)
    out = {}
    for (pid, task), recs in S.items():
        txt = ''; at = []
        for x in recs:
            d = x.data.decode('latin-1'); txt += d; at += [x.seq] * len(d)
        for m in re.finditer(r'#(\d+)(?:([><~])|([=!])(.*?)<E>)', txt, re.S):
            i = int(m.group(1)); w = out.setdefault(i, [pid, task, [], None, ''])
            if m.group(2) in ('>', '~'): w[2].append([at[m.start()], None])
            else:
                if w[2]: w[2][-1][1] = at[m.start()]
                if m.group(3): w[3], w[4] = m.group(3), m.group(4)
    return out
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    if r.rootstatus: return [('exit', 'exit status %d: %s' % (r.rootstatus, r.err[-300:]))]
    W = windows(r); E = {}
    for l in (r.log or b'').splitlines():
        m = LOG.match(l)
        if m and (b' FAULT ' in l or m.group(4) in (b'mkdir', b'chdir')): E.setdefault((int(m.group(2)), int(m.group(3))), []).append((int(m.group(1)), m.group(4).decode()))
    M = Model(spec)
    def ev(g, n): a, z = g[2][n] if n < len(g[2]) else (0, 0); return [tok for q, tok in E.get((g[0], g[1]), []) if a < q < (z or 0) and tok not in ('stall',)]
    def cmp(o, g, want, evs):
        kind, text = g[3], g[4]; what = 'op %d %s gave %s%r' % (o['i'], {k: x for k, x in o.items() if k not in ('ops', 'body')}, '' if kind == '=' else 'error ', text[:300])
        if isinstance(want, Err):
            if kind != '!': return ('noerror:' + o['k'], '%s, expected %s %s; events %s' % (what, want.cls, want.text, evs))
            c, msg = text.split('|', 1)
            if c != '<class %s>' % want.cls or want.text and want.text not in msg and LONG not in msg and len(msg) < 200: return ('class:' + o['k'], '%s, expected %s %s; events %s' % (what, want.cls, want.text, evs))
            return None
        if kind != '=': return ('error:' + o['k'], '%s, expected %r; events %s' % (what, want, evs))
        if isinstance(want, list):
            got = text.split('^') if text else []
            exp = [x for g2 in want for x in g2]
            oth = lambda L: sorted(x for x in L if not re.search(r'\b(%s|main\.lox)\b' % '|'.join(ROOTDIRS), x))   # what else the simulated root directory holds
            if oth(got) != oth(exp): return ('result:glob', '%s, expected %s' % (what, exp))
            return None
        if text != want: return ('result:' + o['k'], '%s, expected %r; events %s' % (what, want, evs))
    def one(t, o, pr):
        g = W.get(o['i'])
        if g is None or g[3] is None: return ('lost', 'op %d (%s) has no result' % (o['i'], o['k']))
        if o['k'] == 'fork':
            if g[3] == '!': return None if 'fork_eagain' in ev(g, 0) else ('error:fork', 'op %d: fork failed: %s' % (o['i'], g[4]))
            c = Proc(pr.cwd, [h.copy() if h else None for h in pr.H])
            for x in o['ops']:
                b = one(t, x, c)
                if b: return b
            return None if g[4] == '0' else ('result:fork', 'child of op %d exited with %s' % (o['i'], g[4]))
        if o['k'] != 'chdirb':
            evs = ev(g, 0)
            try: want = M.run(t, o, pr, evs, g[4])
            except Err as e: want = e
            return cmp(o, g, want, evs)
        evs = ev(g, 0); P = pth(t, o['p'], o['ab']); old = pr.cwd
        try:
            M.ev = list(evs)
            if M.fault('cwd_fail'): raise Sys(EN.EACCES)
            M.chdir(pr, P)
        except Err as e: return cmp(o, g, e, evs) or (('block', 'op %d: the block ran though chdir failed' % o['i']) if len(g[2]) > 1 else None)
        if len(g[2]) < 2: return ('block', 'op %d %s: the block did not run: %s%s' % (o['i'], o['p'], g[3], g[4][:100]))
        for x in o['body']:
            b = one(t, x, pr)
            if b: return b
        evs = ev(g, 1); M.ev = list(evs); e = o['e']; want = {'ret': 'v%d' % o['i'], 'fn': 'v%d' % o['i'], 'nil': None, 'brk': 'nil', 'err': Err('TypeError', 'b%d' % o['i']), 'ens': Err('ArgumentError', 'b%d' % o['i']), 'nest': 'n%ddeep' % o['i']}[e]
        if e == 'nest':
            def nested():
                at = pr.cwd
                if M.fault('cwd_fail'): return os.strerror(EN.EACCES)
                try: M.chdir(pr, '/work')
                except Err as x: return x.text
                try: M.chdir(pr, M.path(at))
                except Err: pass
                return 'deep'
            x = nested()
            if x != 'deep': want = None if g[3] == '=' and g[4].startswith('n%d' % o['i']) and x in g[4] else 'n%d..%s' % (o['i'], x)
        try: M.chdir(pr, M.path(old))
        except Err as x:
            if not isinstance(want, Err): want = x
        if want is None and g[3] == '=': return None
        return cmp(o, g, want, evs)
    for n, t in enumerate(spec['threads']):
        pr = Proc(M.fs.root.ents['work'].ents['d1'], [None] * 3)
        for o in t['ops']:
            b = one(t, o, pr)
            if b: return [b]
    m = re.search(r'#FDS (\d+) (\d+)', r.out)
    if not m or '#END' not in r.out: return [('end', 'the end was not reached: %r' % r.out[-200:])]
    if m.group(1) != m.group(2): return [('fdleak', '%s descriptors open at the end, %s at the start' % (m.group(2), m.group(1)))]
    want = {}
    def walk(n, p):
        for k, c in n.ents.items():
            want[p + '/' + k] = c
            if c.ty == 'd': walk(c, p + '/' + k)
    walk(M.fs.root.ents['work'], '/work')
    got = {p: f for p, f in r.files.items() if not p.endswith('.lox') and not p.startswith('/work/lib')}
    want = {p: n for p, n in want.items() if not p.endswith('.lox')}
    if set(want) != set(got): return [('disk:names', 'paths differ: %s' % sorted(set(want) ^ set(got))[:6])]
    for p, n in want.items():
        ty, mode, b = got[p]
        if (ty & 0o170000) != {'d': 0o040000, 'f': 0o100000, 'l': 0o120000}[n.ty]: return [('disk:type', '%s has type %o' % (p, ty))]
        if n.ty != 'l' and mode != n.mode: return [('disk:mode', '%s has mode %o, expected %o' % (p, mode, n.mode))]
    return []
