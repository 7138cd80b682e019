"""Files: every operation's result and the final disk are compared with a small file-system model; injected failures must surface as errors of the right class."""
from engine import *
import random, os, re, errno as EN
LEVEL = 'exploration'
QUICK_RUNS = 6000
WANTLOG = True
ASSUMPTIONS = ['text without NUL bytes (holes in files read as ~ in the simulated kernel)', 'each thread works on its own paths, except for a shared append-only log', 'a failed write may have written a prefix of its data: the prefix the kernel accepted', 'File.exists is false when the file cannot be examined']
AL = ''.join(chr(c) for c in range(32, 127) if chr(c) not in '"\\$\'{}#<>^~') + '\n\n\n'
SIZES = [0, 1, 2, 7, 30, 100, 100, 300, 1000, 4091, 4092, 4093, 4095, 4096, 4097, 8184, 8185, 9000]
BIG = [16383, 16384, 16385, 20000, 40000]
LONG = 'n' * 300
NAMES = ['a', 'a', 'a', 'b', 'b', 'c.txt', 'c.txt', 'sub/x', 'sub/../b', 'ln', 'ln', 'lk', 'no/x', 'ro/f', 'ro/g', 'sub', 'a/b', 'ro/no/x', LONG, 'nx/f']
TARGETS = ['a', 'b', 'sub', 'ln', 'lk', 'zz', 'sub/x', 'ro/f', '@/a', 'no/q', '../d1/b']
FL = ['O_RDONLY', 'O_WRONLY', 'O_RDWR']
class Gen:
    def __init__(s, r, big): s.r = r; s.n = 0; s.big = big; s.logs = 0
    def size(s):
        x = s.r.random()
        return s.r.choice(SIZES[:8]) if x < 0.5 else s.r.choice(SIZES) if x < 0.93 or not s.big else s.r.choice(BIG)
    def op(s, child, kind=None, kw={}):
        r = s.r; s.n += 1
        k = kind or r.choice(['open'] * 6 + ['create'] * 4 + ['init', 'init'] + ['write'] * 6 + ['iowrite', 'puts', 'fprint'] + ['read', 'read', 'readn', 'readn', 'nb', 'getline', 'getline', 'getlinen', 'getchar', 'seek', 'seek', 'seek', 'rewind', 'rewind'] + ['close', 'ioclose', 'path', 'unlink', 'rename', 'rename', 'rename', 'stat', 'lstat', 'fstat', 'flstat', 'mode', 'chmod', 'chmod', 'uid', 'gid', 'chown', 'lchown', 'isreg', 'islnk', 'exists', 'isdir', 'fread', 'fread', 'fread', 'flines', 'flines', 'flines', 'mkcp', 'mkcp', 'copy', 'copy', 'copy', 'copyb', 'cpread', 'symlink', 'symlink', 'symlink', 'pure', 'gc', 'yg', 'sched', 'churn', 'log', 'log'] + ([] if child else ['fork', 'fork']))
        o = {'k': k, 'i': s.n, 'n': s.size(), 's': r.choice([0, 0, 0, 1, 1, 2, 3, 4]), 'p': r.choice(NAMES), 'ab': r.randrange(2), 'mu': int(r.random() < 0.3)}
        if k == 'open': o['f'] = r.choice(FL + ['O_RDWR', None]); o['x'] = [x for x in ['O_APPEND', 'O_CREAT', 'O_EXCL', 'O_TRUNC', 'O_CLOEXEC', 'O_NOFOLLOW'] if r.random() < {'O_CREAT': 0.5, 'O_APPEND': 0.25}.get(x, 0.15)]; o['m'] = r.choice([None, None, 0o600, 0o644, 0o400, 0o200, 0, 0o777])
        elif k in ('create', 'mkcp'): o['m'] = r.choice([None, None, 0o600, 0o444, 0])
        elif k == 'chmod': o['m'] = r.choice([0o600, 0o644, 0o400, 0o200, 0, 0o755, 0o500])
        elif k in ('readn', 'nb', 'getlinen'): o['c'] = r.choice([0, 1, 2, 10, 100, 1000, 4091, 4092, 4093, 8185, 20000])
        elif k == 'seek': o['o'] = r.choice([0, 0, 1, 5, 50, 100, 500, 4092, 6000, -1, -5, -50, -4000]); o['w'] = r.choice(['SEEK_SET', 'SEEK_CUR', 'SEEK_END'])
        elif k == 'symlink': o['t'] = r.choice(TARGETS); o['p'] = r.choice(['ln', 'ln', 'lk', 'lk', 'sub/l', 'a', 'no/l', 'ro/l'])
        elif k in ('chown', 'lchown'): o['u'] = r.choice([1000, 1000, 1001]); o['g'] = r.choice([1000, 1001, 5])
        elif k == 'pure': o['v'] = r.randrange(9)
        elif k == 'log': s.logs += 1; o['l'] = s.logs; o['n'] = min(o['n'], 9000)
        elif k == 'fork': o['ops'] = [s.op(True) for _ in range(r.randrange(1, 6))]
        o.update(kw); return o
    def episode(s, child):
        r = s.r; f = lambda k, **kw: s.op(child, k, kw); i = r.randrange(4); p = r.choice(['a', 'b', 'c.txt', 'sub/x', 'e%d' % s.n]); e = r.randrange(6)
        L = [f('open', s=i, p=p, f='O_RDWR', x=['O_CREAT'] + (['O_APPEND'] if r.random() < 0.2 else []), m=None)]
        L += [f(r.choice(['write', 'write', 'write', 'iowrite', 'puts', 'fprint']), s=i) for _ in range(r.randrange(0, 4))]
        if e == 0: L += [f(r.choice(['rewind', 'rewind', 'seek']), s=i), f('mkcp', m=None), f('copy', s=i)] + ([f('write', s=4)] if r.random() < 0.3 else []) + [f('rewind', s=4), f('read', s=4)]
        elif e == 1: L += [f('rewind', s=i)] + [f(r.choice(['getline', 'getlinen', 'readn', 'getchar', 'read', 'nb']), s=i) for _ in range(r.randrange(1, 5))]
        elif e == 2: q = r.choice(['a', 'b', 'sub/x', 'e%d' % s.n]); L += [f('rename', s=i, p=q), f('gc'), f('path', s=i), f('write', s=i), f('fread', p=q), f('fread', p=p), f('unlink', s=i), f('fread', p=q)]
        elif e == 3: L += [f('flines', p=p), f('fread', p=p), f('stat', p=p)]
        elif e == 4: L += [f('chmod', s=i, m=r.choice([0, 0o400, 0o200])), f('mode', s=i), f('write', s=i), f('open', s=(i + 1) % 4, p=p), f('fread', p=p)]
        else: L += [f('symlink', p='ln', t=r.choice(['@/' + p, p])), f('lstat', p='ln'), f('stat', p='ln'), f('open', p='ln', s=(i + 1) % 4, f='O_RDWR', x=[], m=None), f('islnk', s=(i + 1) % 4), f('write', s=(i + 1) % 4), f('fread', p=p), f('unlink', s=(i + 1) % 4), f('fread', p=p), f('fread', p='ln')]
        return [o for o in L if r.random() < 0.93]
    def ops(s, n):
        L = []
        while len(L) < n: L += s.episode(False) if s.r.random() < 0.25 else [s.op(False)]
        return L
def gen(rng, tier):
    g = Gen(rng, tier != 'quick' or rng.random() < 0.2); nt = rng.choice([1, 1, 1, 2, 3])
    spec = {'threads': [{'id': t + 1, 'ops': g.ops(rng.choice([4, 8, 15, 25] if nt == 1 else [3, 6, 10]))} for t in range(nt)], 'spin': rng.randrange(3)}
    c = swarm(rng, gc=True, faults=[('stall', 10), ('short_read', 600), ('short_write', 600), ('eio_read', 60), ('eio_write', 60), ('enospc', 150), ('emfile', 80), ('open_eacces', 80), ('stat_eio', 100), ('close_eio', 200), ('unlink_fail', 300), ('rename_fail', 300), ('seek_fail', 150), ('fork_eagain', 200)])
    if rng.random() < 0.2: c['disk_cap'] = rng.choice([200, 2000, 9000, 40000])
    if rng.random() < 0.15: c['nofile'] = rng.choice([4, 5, 6, 7])
    c['max_bb'] = 3000000000; c['p_preempt'] = max(50, min(c.get('p_preempt', 0), 300))
    if 'fine_bb' in c: c['fine_bb'] = max(c['fine_bb'], 100)
    return Case(spec, c)
def data(i, n):
    rr = random.Random(i * 7919); p = ''.join(rr.choice(AL) for _ in range(rr.choice([3, 37, 53, 81])))
    return (p * (n // len(p) + 1))[:n], 'cut("%s", %d)' % (p.replace('\n', '\\n'), n)
def pth(t, o, n=None):
    n = o['p'] if n is None else n
    if o['ab'] or n.startswith('/'): return '/work/d%d/%s' % (t, n)
    return 'd%d/%s' % (t, n)
PURE = ['a', 'a.b', 'd.e/f', 'x.tar.gz', '.rc', 'a/', '', '/r/s.t', 'q.']
def pure(o):
    v = o['v']; a = PURE[v]; b = PURE[(v * 5 + o['i']) % 9]
    j = a + ('' if a.endswith('/') else '/') + b; j3 = j + ('' if j.endswith('/') else '/') + 'z'
    if a == '': j = '/' + b; j3 = '/' + b + ('' if b.endswith('/') and b else '/') + 'z'
    if b == '' : j3 = j + '/z'
    ext = a.rsplit('/', 1)[-1]; ext = ext.rsplit('.', 1)[1] if '.' in ext else ''
    return ('File.join("%s", "%s") + "|" + File.join("%s", "%s", "z") + "|" + File.extension("%s") + "|" + File.expandPath("%s")' % (a, b, a, b, a, a),
            '|'.join([j, j3, ext, a if a.startswith('/') else '/work/' + a]))
STAT = 'st(%s)'
def expr(t, o):
    """Lox statements that set r"""
    k = o['k']; H = 'h[%d]' % o['s']; P = 'pn' if o.get('mu') else '"%s"' % pth(t, o); d, e = data(o['i'], o['n'])
    def w(x): return 'if (%s == nil) { r = "NOH"; } else { %s }' % (H, x)
    fm = lambda m: '' if m is None else ', 0c%o' % m
    def setr(x): return 'drop(h, %d); h[%d] = %s; r = "H";' % (o['s'], o['s'], x)
    if k == 'open':
        fl = None if o['f'] is None else '|'.join('File::' + x for x in [o['f']] + o['x'])
        return setr('File.open(%s%s%s)' % (P, '' if fl is None else ', ' + fl, fm(o['m']) if fl else ''))
    if k == 'create': return setr('File.create(%s%s)' % (P, fm(o['m'])))
    if k == 'mkcp': return 'drop(h, 4); h[4] = File.create("%s"%s); r = "H";' % (pth(t, o, 'cp%d' % o['i']), fm(o['m']))
    if k == 'init': return setr('File(%s)' % P)
    if k == 'write': return w('r = %s.write(%s);' % (H, e))
    if k == 'iowrite': return w('r = IO.write(%s, %s);' % (H, e))
    if k == 'puts': return w('r = %s.puts(%s);' % (H, e))
    if k == 'fprint': return w('r = %s.print(%s);' % (H, e))
    if k == 'read': return w('r = %s.read();' % H)
    if k == 'readn': return w(['r = %s.read(%d);', 'r = IO.read(%s, %d);'][o['ab']] % (H, o['c']))
    if k == 'nb': return w('r = IO.readNonBlock(%s, %d);' % (H, o['c']))
    if k == 'getline': return w('r = %s.getline();' % H)
    if k == 'getlinen': return w('r = %s.getline(%d);' % (H, o['c']))
    if k == 'getchar': return w('r = %s.getchar();' % H)
    if k == 'seek': return w('r = %s.seek(%s, File::%s);' % (H, '%d' % o['o'], o['w']))
    if k == 'rewind': return w('r = %s.rewind();' % H)
    if k == 'close': return w('r = %s.close();' % H)
    if k == 'ioclose': return w('r = IO.close(%s);' % H)
    if k == 'path': return w('r = %s.path();' % H)
    if k == 'unlink': return w('r = %s.unlink();' % H)
    if k == 'rename': return w('r = %s.rename(%s);' % (H if o['s'] < 4 else 'h[3]', P)) if o['s'] < 4 else 'if (h[3] == nil) { r = "NOH"; } else { r = h[3].rename(%s); }' % P
    if k == 'stat': return 'r = st(File.stat(%s));' % P
    if k == 'lstat': return 'r = st(File.lstat(%s));' % P
    if k == 'fstat': return w('r = st(%s.stat());' % H)
    if k == 'flstat': return w('r = st(%s.lstat());' % H)
    if k in ('mode', 'uid', 'gid'): return w('r = %s.%s();' % (H, k))
    if k == 'isreg': return w('r = %s.isReg();' % H)
    if k == 'islnk': return w('r = %s.isSymlink();' % H)
    if k == 'chmod': return w('r = %s.chmod(0c%o);' % (H, o['m']))
    if k in ('chown', 'lchown'): return w('r = %s.%s("x", %d, %d);' % (H, k, o['u'], o['g']))
    if k == 'exists': return 'r = File.exists(%s);' % P
    if k == 'isdir': return 'r = File.isDir(%s);' % P
    if k == 'fread': return 'r = File.read(%s);' % P
    if k == 'flines': return 'var x = File.readLines(%s); r = String(x.size) + ":" + x.join("^");' % P
    if k == 'copy': s = o['s'] % 4; return 'if (h[%d] == nil) { r = "NOH"; } else { if (h[4] == nil) { r = "NOH"; } else { r = File.copy(h[%d], h[4]); } }' % (s, s)
    if k == 'copyb': s = o['s'] % 4; return 'if (h[%d] == nil) { r = "NOH"; } else { if (h[4] == nil) { r = "NOH"; } else { r = File.copy(h[4], h[%d]); } }' % (s, s)
    if k == 'cpread': return 'r = ""; for (var i = 0; i < cps.size; i += 1) { if (File.exists(cps[i])) { r = r + File.read(cps[i]); } }'
    if k == 'symlink': return 'r = File.symlink("%s", %s);' % (o['t'].replace('@', '/work/d%d' % t), P)
    if k == 'pure': return 'r = %s;' % pure(o)[0]
    if k == 'log': return 'var f = File.open("/work/log", File::O_WRONLY|File::O_CREAT|File::O_APPEND); try { r = f.write("%s" * %d); } catch (Error e) { drop([f], 0); throw e; } drop([f], 0);' % (chr(64 + o['l']), o['n'])
    return {'gc': 'GC.collect();', 'yg': 'GC.collectYoung();', 'sched': 'Thread.schedule();', 'churn': 'churn(30);'}[k] + ' r = 1;'
def flat(ops):
    for o in ops:
        yield o
        if o['k'] == 'fork': yield from o['ops']
def repair(spec):
    n = 0
    for t in spec['threads']:
        for o in flat(t['ops']):
            if o['k'] == 'log': n += 1; o['l'] = n
    return spec
def fix(spec):
    # the copies made so far, per thread, are known to the generator
    for t in spec['threads']:
        t['cps'] = ['d%d/cp%d' % (t['id'], o['i']) for o in flat(t['ops']) if o['k'] == 'mkcp']
    return spec
def render(spec):
    fix(spec)
    L = ['fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i)]; } return n; }',
         'fun cut(p, n) { return (p * ((n / p.size) + 1)).substr(0, n); }' if 0 else 'fun cut(p, n) { var o = p; while (o.size * 2 <= n) { o = o + o; } while (o.size < n) { o = o + p; } if (o.size > n) { return o.substr(0, n); } return o; }',
         'fun drop(h, i) { if (h[i] != nil) { var f = h[i]; h[i] = nil; try { f.close(); } catch (Error e) { print "#d" + String(classof(e)) + "<E>"; } } }',
         'fun st(s) { return String(s.mode) + "," + String(s.uid) + "," + String(s.gid) + "," + String(s.size) + "," + String(s.isReg()) + String(s.isDir()) + String(s.isSymlink()) + String(s.isFifo()) + String(s.isSock()) + String(s.isBlock()) + String(s.isChar()); }',
         'fun fds() { while (true) { try { return File.read("/sim/fds"); } catch (Error e) { churn(1); } } }']
    for t in spec['threads']:
        L.append('var cps%d = [%s];' % (t['id'], ', '.join('"%s"' % x for x in t['cps'])))
        for o in flat(t['ops']):
            if o['k'] == 'fork': continue
            L.append(('fun o%d(h) { MU0 print "#%d>"; var cps = cps%d; var r = nil; try { %s print "#%d=" + String(r) + "<E>"; } catch (Error e) { print "#%d!" + String(classof(e)) + "|" + e.message + "<E>"; } MU1}' % (o['i'], o['i'], t['id'], expr(t['id'], o), o['i'], o['i'])).replace('MU0', 'var pn = "%s" + "";' % pth(t['id'], o) if o.get('mu') else '', 1).replace('MU1', 'pn.push("~/zz"); ' if o.get('mu') else ''))
        for o in t['ops']:
            if o['k'] == 'fork':
                L.append('fun o%d(h) { var p = 0; try { p = Process.fork(fun() { %s exit(0); }); } catch (Error e) { print "#%d!" + String(classof(e)) + "|" + e.message + "<E>"; return 0; } if (p < 0) { print "#%d!<E>"; return 0; } var s = Process.waitpid(p); print "#%d=" + String(Process.WEXITSTATUS(s)) + "<E>"; }' % (o['i'], ' '.join('o%d(h);' % x['i'] for x in o['ops']), o['i'], o['i'], o['i']))
        L.append('fun th%d() { var h = [nil, nil, nil, nil, nil]; %s for (var i = 0; i < 5; i += 1) { drop(h, i); } }' % (t['id'], ' '.join('o%d(h);' % o['i'] for o in t['ops'])))
    L.append('var f0 = fds(); var ths = [];')
    for t in spec['threads'][1:]: L.append('ths << newThread(fun() { th%d(); });' % t['id'])
    if spec['spin'] == 1 and len(spec['threads']) == 1: L.append('ths << newThread(fun() { churn(300); });')
    if spec['threads']: L.append('th%d();' % spec['threads'][0]['id'])
    L.append('for (var i = 0; i < ths.size; i += 1) { joinThread(ths[i]); } print "#FDS " + f0 + " " + fds(); print "#END";')
    files = {}; dirs = []
    for t in spec['threads']:
        d = '/work/d%d' % t['id']; dirs += [d, d + '/sub', (d + '/ro', 0o500), (d + '/nx', 0o600)]
        files[d + '/ro/f'] = 'one\ntwo'; files[d + '/b'] = ('bee\n' * 700, 0o644)
    j = Job('\n'.join(L), files=files, dirs=dirs); j.wantfiles = '/work'; return j
# ------------------------------------------------------------------ the model
class Err(Exception):
    def __init__(s, cls, text=''): s.cls, s.text = cls, text
class Sys(Err):
    REG = ['E2BIG', 'EACCES', 'EADDRINUSE', 'EAGAIN', 'EBADF', 'EBADFD', 'ECONNRESET', 'EEXIST', 'EINTR', 'EINVAL', 'ENOENT', 'EPERM']
    def __init__(s, no): s.no = no; n = EN.errorcode[no]; Err.__init__(s, 'SystemError::' + n if n in s.REG else 'SystemError', os.strerror(no))
class Node:
    def __init__(s, ty, mode, data='', parent=None): s.ty, s.mode, s.data, s.ents, s.parent, s.gid = ty, mode, data, {}, parent, 1000
    def may(s, b): return (s.mode >> 6) & b
    def st(s):
        ty = {'d': 0o040000, 'f': 0o100000, 'l': 0o120000}[s.ty]
        return [str(ty | s.mode), '1000', str(s.gid), str(4096 if s.ty == 'd' else len(s.data)), ''.join(['false', 'true'][s.ty == x] for x in 'fdl') + 'false' * 4]
class FS:
    def __init__(s): s.root = Node('d', 0o755); s.root.parent = s.root
    def walk(s, at, path, follow, depth=0):
        """(node or None, parent or None, last, errno)"""
        if depth > 8: return None, None, '', EN.ELOOP
        cur = s.root if path.startswith('/') else at; par = cur; last = ''
        if not path: return None, par, last, EN.ENOENT
        comps = [c for c in path.split('/') if c]; slash = path.endswith('/')
        if not comps: return cur, cur, '.', 0
        for n, c in enumerate(comps):
            fin = n == len(comps) - 1
            if len(c) > 255: return None, par, last, EN.ENAMETOOLONG
            if cur.ty != 'd': return None, par, last, EN.ENOTDIR
            if not cur.may(1): return None, par, last, EN.EACCES
            if fin: par = cur; last = c
            nx = cur if c == '.' else cur.parent if c == '..' else cur.ents.get(c)
            if nx is None: return None, (par if fin else None), last, EN.ENOENT
            if nx.ty == 'l' and (not fin or follow or slash):
                nx, p2, l2, e = s.walk(cur, nx.data, 1, depth + 1)
                if fin: par, last = p2, l2
                if nx is None: return None, (par if fin else None), last, e
            if fin:
                if slash and nx.ty != 'd': return None, par, last, EN.ENOTDIR
                return nx, par, last, 0
            cur = nx
    def look(s, path, follow=1): return s.walk(s.root.ents['work'], path, follow)
    def get(s, path, follow=1):
        n, p, l, e = s.look(path, follow)
        if n is None: raise Sys(e)
        return n, p, l
class Ofd:
    def __init__(s, node, fl): s.node, s.fl, s.off = node, fl, 0
class Hd:
    def __init__(s, ofd, name, fl): s.ofd, s.name, s.fl, s.open = ofd, name, fl, True
    def copy(s): h = Hd(s.ofd, s.name, s.fl); h.open = s.open; return h
class Model:
    def __init__(s, spec):
        s.fs = FS(); s.log = {}; w = Node('d', 0o755, parent=s.fs.root); s.fs.root.ents['work'] = w
        for t in spec['threads']:
            d = Node('d', 0o755, parent=w); w.ents['d%d' % t['id']] = d
            for n, m in (('sub', 0o755), ('ro', 0o500), ('nx', 0o600)): d.ents[n] = Node('d', m, parent=d)
            d.ents['ro'].ents['f'] = Node('f', 0o644, 'one\ntwo', d.ents['ro']); d.ents['b'] = Node('f', 0o644, 'bee\n' * 700, d)
    def fault(s, kinds):
        for n, e in enumerate(s.ev):
            if e[0] in kinds:
                s.ev.pop(n); return e[0]
        return None
    def take(s, kind, stop):
        """the next event of a call: its kind or a fault of that call"""
        for n, e in enumerate(s.ev):
            if e[0] == kind or e[0] in stop: return s.ev.pop(n)
        return None
    # system calls
    def sys_open(s, path, fl, mode):
        e = s.take('open', ('emfile', 'open_eacces'))
        if e and e[0] != 'open': raise Sys(EN.EMFILE if e[0] == 'emfile' else EN.EACCES)
        def nat(no):
            if e: s.ev.insert(0, e)
            return Sys(no)
        n, par, last, er = s.fs.look(path, 'O_NOFOLLOW' not in fl)
        if n is None:
            if er != EN.ENOENT or 'O_CREAT' not in fl or par is None: raise nat(er)
            if path.endswith('/'): raise nat(EN.EISDIR)
            if not par.may(2): raise nat(EN.EACCES)
            n = Node('f', mode & ~0o022 & 0o7777, parent=par); par.ents[last] = n
        else:
            if 'O_CREAT' in fl and 'O_EXCL' in fl: raise nat(EN.EEXIST)
            wr = 'O_WRONLY' in fl or 'O_RDWR' in fl
            if n.ty == 'd' and (wr or 'O_CREAT' in fl): raise nat(EN.EISDIR)
            if n.ty == 'l': raise nat(EN.ELOOP)
            if 'O_WRONLY' not in fl and not n.may(4): raise nat(EN.EACCES)
            if wr and not n.may(2): raise nat(EN.EACCES)
            if 'O_TRUNC' in fl and n.ty == 'f': n.data = ''
        return Ofd(n, fl)
    def sys_read(s, ofd, want, line=False):
        """want None = all"""
        if 'O_WRONLY' in ofd.fl: raise Sys(EN.EBADF)
        if ofd.node.ty == 'd' : raise Sys(EN.EISDIR)
        rest = ofd.node.data[ofd.off:] if want is None else ofd.node.data[ofd.off:ofd.off + want]
        if line: z = rest.find('\n'); rest = rest if z < 0 else rest[:z + 1]
        got = 0
        while True:
            e = s.take('FREAD', ('eio_read',))
            if e is None: break
            if e[0] == 'eio_read': ofd.off += got; raise Sys(EN.EIO)
            got += e[1]
            if got >= len(rest) and not ((want is None or len(rest) < want) and not (line and rest.endswith('\n'))): break
        ofd.off += len(rest); return rest
    def sys_write(s, ofd, text):
        if not text: return 0
        if 'O_RDONLY' in ofd.fl: raise Sys(EN.EBADF)
        done = 0
        while done < len(text):
            e = s.take('FWRITE', ('eio_write', 'enospc'))
            if e is None: s.put(ofd, text[done:]); return len(text)   # nothing recorded: judged by the outcome
            if e[0] == 'eio_write': raise Sys(EN.EIO)
            if e[0] == 'enospc':
                if any(x[0] == 'FWRITE' for x in s.ev): continue   # part of it fit
                raise Sys(EN.ENOSPC)
            s.put(ofd, text[done:done + e[1]]); done += e[1]
        return done
    def put(s, ofd, b):
        n = ofd.node
        if 'O_APPEND' in ofd.fl: ofd.off = len(n.data)
        d = n.data
        if ofd.off > len(d): d = d + '~' * (ofd.off - len(d))
        n.data = d[:ofd.off] + b + d[ofd.off + len(b):]; ofd.off += len(b)
    def sys_close(s):
        e = s.take('close', ('close_eio',))
        if e and e[0] == 'close' and s.ev and s.ev[0][0] == 'close_eio': s.ev.pop(0); raise Sys(EN.EIO)
    def sys_stat(s, path, follow=1):
        e = s.take('STAT', ('stat_eio',))
        if e and e[0] == 'stat_eio': raise Sys(EN.EIO)
        return s.fs.get(path, follow)[0]
    # operations
    def close(s, h):
        if h.open: h.open = False; s.sys_close()
    def drop(s, H, i):
        if H[i] is not None:
            h = H[i]; H[i] = None
            try: s.close(h)
            except Sys: pass
    def rd(s, h, want, line=False):
        if not h.open: raise Err('Error', 'closed')
        return s.sys_read(h.ofd, want, line)
    def wr(s, h, text):
        if not h.open: raise Err('Error', 'closed')
        return s.sys_write(h.ofd, text)
    def run(s, t, o, H, ev):
        s.ev = [e for e in ev if e[0] not in ('short_read', 'short_write', 'stall')]
        k = o['k']; i = o['s']; P = pth(t['id'], o); d = data(o['i'], o['n'])[0]
        if k in ('open', 'create', 'init', 'mkcp'):
            if k == 'mkcp': i = 4; P = pth(t['id'], o, 'cp%d' % o['i'])
            s.drop(H, i)
            if k in ('create', 'mkcp'): fl = ['O_CREAT', 'O_EXCL', 'O_RDWR']; m = 0o664 if o['m'] is None else o['m']
            elif k == 'init' or o['f'] is None: fl = ['O_RDWR']; m = 0o644
            else: fl = [o['f']] + o['x']; m = 0o644 if o['m'] is None else o['m']
            H[i] = Hd(s.sys_open(P, fl, m), P, fl); return 'H'
        if k in ('fread', 'flines'):
            try: s.sys_stat(P)
            except Sys: raise Err('ArgumentError')
            f = s.sys_open(P, ['O_RDONLY'], 0)
            x = s.sys_read(f, None)
            if k == 'fread': return x
            ls = x.split('\n'); ls = [y + '\n' for y in ls[:-1]] + ([ls[-1]] if ls[-1] else [])
            return '%d:%s' % (len(ls), '^'.join(ls))
        if k == 'cpread':
            x = ''
            for p in t['cps']:
                try: s.sys_stat(p)
                except Sys: continue
                try: s.sys_stat(p)
                except Sys: raise Err('ArgumentError')
                x += s.sys_read(s.sys_open(p, ['O_RDONLY'], 0), None); s.take('close', ())
            return x
        if k == 'stat': return ','.join(s.sys_stat(P).st())
        if k == 'lstat': return ','.join(s.sys_stat(P, 0).st())
        if k == 'exists':
            try: s.sys_stat(P); return 'true'
            except Sys: return 'false'
        if k == 'isdir': return ['false', 'true'][s.sys_stat(P).ty == 'd']
        if k == 'symlink':
            n, par, last, e = s.fs.look(P, 0)
            if n is not None: raise Sys(EN.EEXIST)
            if e != EN.ENOENT or par is None: raise Sys(e)
            if not par.may(2): raise Sys(EN.EACCES)
            par.ents[last] = Node('l', 0o777, o['t'].replace('@', '/work/d%d' % t['id']), par); return 'true'
        if k == 'pure': return pure(o)[1]
        if k in ('gc', 'yg', 'sched', 'churn'): return '1'
        if k == 'log':
            f = s.sys_open('/work/log', ['O_WRONLY', 'O_CREAT', 'O_APPEND'], 0o644); before = len(f.node.data); clean = len([e for e in s.ev if e[0] in ('FWRITE',)]) <= 1
            c = chr(64 + o['l'])
            try: s.sys_write(f, c * o['n'])
            finally: s.log[c] = (len(f.node.data) - before, clean)
            return str(o['n'])
        if k in ('copy', 'copyb'):
            a, b = H[o['s'] % 4], H[4]
            if a is None or b is None: return 'NOH'
            if k == 'copyb': a, b = b, a
            if not a.open or not b.open: raise Err('Error', 'not open')
            if 'O_WRONLY' in a.ofd.fl: raise Sys(EN.EBADF)
            if a.ofd.node.ty == 'd': raise Sys(EN.EISDIR)
            src = a.ofd.node.data[a.ofd.off:]; pos = 0; done = 0
            while True:
                e = s.take('FREAD', ('eio_read',))
                if e is None: break
                if e[0] == 'eio_read': raise Sys(EN.EIO)
                a.ofd.off += e[1]; chunk = src[pos:pos + e[1]]; pos += e[1]
                done += s.sys_write(b.ofd, chunk)
            if pos < len(src): s.put(b.ofd, src[pos:]); a.ofd.off += len(src) - pos
            return str(len(src))
        if k == 'rename': i = min(i, 3)
        h = H[i]
        if h is None: return 'NOH'
        if k == 'write':
            if not h.open or not ('O_RDWR' in h.fl or 'O_WRONLY' in h.fl): raise Err('Error')
            return str(s.wr(h, d))
        if k == 'iowrite': return str(s.wr(h, d))
        if k == 'puts': s.wr(h, d); s.wr(h, '\n'); return 'nil'
        if k == 'fprint': s.wr(h, d); return d
        if k == 'read': return s.rd(h, None)
        if k in ('readn', 'nb'): return s.rd(h, o['c'] or None)
        if k == 'getline': return s.rd(h, 4091, True)
        if k == 'getlinen': return s.rd(h, min(o['c'], 4091) or 4091, True)
        if k == 'getchar': return s.rd(h, 1)
        if k in ('seek', 'rewind'):
            if not h.open: raise Err('Error')
            if s.fault(('seek_fail',)): raise Sys(EN.EIO)
            off, w = (o['o'], o['w']) if k == 'seek' else (0, 'SEEK_SET')
            b = {'SEEK_SET': 0, 'SEEK_CUR': h.ofd.off, 'SEEK_END': 0 if h.ofd.node.ty == 'd' else len(h.ofd.node.data)}[w] + off
            if b < 0: raise Sys(EN.EINVAL)
            h.ofd.off = b; return str(b)
        if k in ('close', 'ioclose'): s.close(h); return 'nil'
        if k == 'path': return h.name
        if k == 'unlink':
            if s.fault(('unlink_fail',)): raise Sys(EN.EACCES)
            n, par, last = s.fs.get(h.name, 0)
            if n.ty == 'd': raise Sys(EN.EISDIR)
            if not par.may(2): raise Sys(EN.EACCES)
            del par.ents[last]; h.open = False; return 'true'
        if k == 'rename':
            if s.fault(('rename_fail',)): raise Sys(EN.EACCES)
            n, par, last = s.fs.get(h.name, 0); q, qp, ql, e = s.fs.look(P, 0)
            if q is None and (e != EN.ENOENT or qp is None): raise Sys(e)
            if q is not n:
                if n.ty == 'd':
                    x = qp
                    while x is not s.fs.root:
                        if x is n: raise Sys(EN.EINVAL)
                        x = x.parent
                if not par.may(2) or not qp.may(2): raise Sys(EN.EACCES)
                if q is not None:
                    if q.ty == 'd' and n.ty != 'd': raise Sys(EN.EISDIR)
                    if q.ty != 'd' and n.ty == 'd': raise Sys(EN.ENOTDIR)
                    if q.ty == 'd' and q.ents: raise Sys(EN.ENOTEMPTY)
                    q.ents = {}
                del par.ents[last]; qp.ents[ql] = n; n.parent = qp
            h.name = P; return 'true'
        if k == 'fstat': return ','.join(s.sys_stat(h.name).st())
        if k == 'flstat': return ','.join(s.sys_stat(h.name, 0).st())
        if k == 'mode': return s.sys_stat(h.name).st()[0]
        if k == 'uid': s.sys_stat(h.name); return '1000'
        if k == 'gid': return str(s.sys_stat(h.name).gid)
        if k == 'isreg': return ['false', 'true'][s.sys_stat(h.name, 0).ty == 'f']
        if k == 'islnk': return ['false', 'true'][s.sys_stat(h.name, 0).ty == 'l']
        if k == 'chmod': s.fs.get(h.name)[0].mode = o['m']; return 'true'
        if k in ('chown', 'lchown'):
            n = s.fs.get(h.name, k == 'chown')[0]
            if o['u'] != 1000 or o['g'] not in (1000, 1001): raise Sys(EN.EPERM)
            n.gid = o['g']; return 'true'
        raise AssertionError(k)
# ------------------------------------------------------------------ judge
LOG = re.compile(rb'E(\d+) \S+ p(\d+) t(\d+) (FAULT (\w+)|FREAD (\d+)|STAT|FWRITE (\d+)|open \S.* = (\d+)|close (\d+))')
def segs(r):
    """op id -> (pid, task, seq at start, seq at end, kind, text)"""
    S = {}
    for rec in r.recs:
        if rec.which == 1: S.setdefault((rec.pid, rec.task), []).append(rec)
    out = {}
    for (pid, task), recs in S.items():
        txt = ''; at = []
        for x in recs:
            d = x.data.decode('latin-1'); txt += d; at += [x.seq] * len(d)
        starts = {m.group(1): at[m.start()] for m in re.finditer(r'#(\d+)>', txt)}
        for m in re.finditer(r'#(\d+)([=!])(.*?)<E>', txt, re.S):
            out[int(m.group(1))] = (pid, task, starts.get(m.group(1), 0), at[m.start()], m.group(2), m.group(3))
    return out
def judge(spec, r, binary):
    fix(spec)
    v = health(binary, r)
    if v: return v
    if r.rootstatus: return [('exit', 'exit status %d: %s' % (r.rootstatus, r.err[-300:]))]
    S = segs(r); E = {}
    for l in (r.log or b'').splitlines():
        m = LOG.match(l)
        if m:
            q, p, t = int(m.group(1)), int(m.group(2)), int(m.group(3)); x = m.group(4)
            tok = (m.group(5).decode(), 1) if m.group(5) else ('FREAD', int(m.group(6))) if m.group(6) else ('FWRITE', int(m.group(7))) if m.group(7) else (x.split()[0].decode(), 1)
            E.setdefault((p, t), []).append((q, tok))
    M = Model(spec)
    def one(t, o, H):
        if o['k'] == 'fork':
            g = S.get(o['i'])
            if g is None: return ('lost', 'op %d (fork) has no result' % o['i'])
            if g[4] == '!': return None
            H2 = [h.copy() if h else None for h in H]
            for c in o['ops']:
                b = one(t, c, H2)
                if b: return b
            if g[5] != '0': return ('result:fork', 'child of op %d exited with %s' % (o['i'], g[5]))
            return None
        g = S.get(o['i'])
        if g is None: return ('lost', 'op %d (%s) has no result' % (o['i'], o['k']))
        pid, task, a, z, kind, text = g
        ev = [tok for q, tok in E.get((pid, task), []) if a < q < z]
        try: want = ('=', M.run(t, o, H, ev))
        except Err as e: want = ('!', e)
        if want[0] == '=':
            if kind != '=' : return ('error:' + o['k'], 'op %d %s raised %r, expected %r; events %s' % (o['i'], o, text[:200], want[1][:100], ev[:20]))
            if text != want[1]: return ('result:' + o['k'], 'op %d %s gave %r (%d), expected %r (%d); events %s' % (o['i'], o, text[:200], len(text), want[1][:200], len(want[1]), ev[:20]))
        else:
            e = want[1]
            if kind == '=': return ('noerror:' + o['k'], 'op %d %s gave %r, expected %s %s; events %s' % (o['i'], o, text[:200], e.cls, e.text, ev[:20]))
            c, msg = text.split('|', 1)
            if c != '<class %s>' % e.cls or isinstance(e, Sys) and e.text not in msg and LONG not in msg and o['p'] != LONG and len(msg) < 200: return ('class:' + o['k'], 'op %d %s raised %s %r, expected %s %s; events %s' % (o['i'], o, c, msg[-150:], e.cls, e.text, ev[:20]))
        return None
    for t in spec['threads']:
        H = [None] * 5
        for o in t['ops']:
            b = one(t, o, H)
            if b: return [b]
    m = re.search(r'#FDS (\d+) (\d+)', r.out)
    if not m or '#END' not in r.out: return [('end', 'the end was not reached: %r' % r.out[-200:])]
    if m.group(1) != m.group(2): return [('fdleak', '%s descriptors open at the end, %s at the start' % (m.group(2), m.group(1)))]
    for x in re.findall(r'#d(.*?)<E>', r.out):
        if x not in ('<class SystemError>',): return [('class:close', 'close raised %s' % x)]
    # the disk
    want = {}
    def walk(n, p):
        for k, c in n.ents.items():
            want[p + '/' + k] = c
            if c.ty == 'd': walk(c, p + '/' + k)
    walk(M.fs.root.ents['work'], '/work')
    got = {p: f for p, f in r.files.items() if not p.endswith('.lox')}
    log = got.pop('/work/log', None); want.pop('/work/log', None)
    if set(want) != set(got): return [('disk:names', 'paths differ: %s' % sorted(set(want) ^ set(got))[:6])]
    for p, n in want.items():
        ty, mode, b = got[p]; b = b.decode('latin-1')
        if (ty & 0o170000) != {'d': 0o040000, 'f': 0o100000, 'l': 0o120000}[n.ty]: return [('disk:type', '%s has type %o' % (p, ty))]
        if n.ty != 'l' and mode != n.mode: return [('disk:mode', '%s has mode %o, expected %o' % (p, mode, n.mode))]
        if n.ty != 'd' and b != n.data:
            z = next((i for i, (x, y) in enumerate(zip(b, n.data)) if x != y), min(len(b), len(n.data)))
            return [('disk:bytes', '%s holds %d bytes, expected %d, different from %d: %r expected %r' % (p, len(b), len(n.data), z, b[z:z + 60], n.data[z:z + 60]))]
    lb = log[2].decode('latin-1') if log else ''
    for c, (n, clean) in M.log.items():
        if lb.count(c) != n or clean and c * n not in lb: return [('log', 'log has %d of %d %r%s' % (lb.count(c), n, c, ', in pieces' if c * n not in lb else ''))]
    if len(lb) != sum(n for n, _ in M.log.values()): return [('log', 'log has %d bytes' % len(lb))]
    return []
