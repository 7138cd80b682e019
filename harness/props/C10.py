"""Pipes and standard input: every byte read is compared with the byte streams written, per reader operation."""
from engine import *
import random
LEVEL = 'exploration'
QUICK_RUNS = 6000
ASSUMPTIONS = ['readNonBlock is not used on a pipe end that several processes read: O_NONBLOCK belongs to the shared open file', 'text without NUL bytes', 'when several writers share a pipe each writes characters of its own, and order is claimed per writer']
NPIPE = 3
def base(w, multi):
    rr = random.Random(977 + w * 2 + multi)
    if multi: al = ['ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'abcdefghijklmnopqrstuvwxyz', '0123456789!#%&()*+,-./:;<=>?@', ''.join(chr(c) for c in range(0xc0, 0xfe))][w % 4]; n = 463
    else: al = ''.join(chr(c) for c in range(32, 127) if chr(c) not in '"\\${}\'') + '\n\n' + ''.join(chr(c) for c in range(0xa1, 0xff)); n = 997
    return ''.join(rr.choice(al) for _ in range(n))
SIZES = [0, 1, 2, 3, 5, 17, 60, 100, 300, 1000, 4090, 4091, 4092, 4093, 4095, 4096, 4097, 8184, 8192, 9000]
BIG = [20000, 65535, 65536, 65537, 70000]
class Gen:
    def __init__(s, r, big): s.r = r; s.big = big
    def size(s, small):
        r = s.r; x = r.random()
        if small: return r.choice(SIZES[:9])
        if x < 0.5: return r.choice(SIZES[:10])
        if x < 0.9 or not s.big and x < 0.97: return r.choice(SIZES)
        return r.choice(BIG)
    def writer(s, small):
        return {'where': s.r.choice(['thread', 'thread', 'fork', 'main']), 'ops': [{'m': s.r.choice(['write', 'write', 'write', 'puts', 'print', 'IO.write', 'pieces']), 'n': s.size(small), 'gap': s.r.choice(['', '', '', 'sched', 'sleep', 'churn', 'gc'])} for _ in range(s.r.randrange(0, 12 if s.big else 7))]}
    def reader(s, small):
        r = s.r; ks = ['read', 'read', 'ioread', 'nb', 'all', 'nball'] if not small else ['read', 'getline', 'getline', 'getlinen', 'getchar', 'nb', 'read1', 'all', 'ioread']
        return {'where': r.choice(['thread', 'thread', 'fork', 'main']), 'steps': [{'k': r.choice(ks), 'n': r.choice([1, 2, 3, 10, 50]) if small else r.choice([100, 300, 4091, 4092, 4093, 8184, 8185, 65536, 100000]), 'gap': r.choice(['', '', 'sched', 'sleep', 'churn', 'yg'])} for _ in range(r.randrange(1, 6))], 'early': r.randrange(1, 6) if r.random() < 0.08 else 0}
def gen(rng, tier):
    g = Gen(rng, tier != 'quick'); pipes = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        small = rng.random() < 0.6
        nw = rng.choice([1, 1, 1, 2, 3]); nr = rng.choice([1, 1, 1, 1, 2])
        pipes.append({'writers': [g.writer(small) for _ in range(nw)], 'readers': [g.reader(small) for _ in range(nr)]})
        if nr > 1:
            for x in pipes[-1]['readers']: x['early'] = 0
        ws = [x['where'] == 'fork' for x in pipes[-1]['readers']]
        if len(ws) > 1 and any(ws):   # O_NONBLOCK is shared by the processes: readNonBlock is not claimed there
            for x in pipes[-1]['readers']:
                for t in x['steps']: t['k'] = {'nb': 'read', 'nball': 'all'}.get(t['k'], t['k'])
    sin = None
    if rng.random() < 0.2:
        small = rng.random() < 0.7; d = g.reader(small); d['where'] = rng.choice(['thread', 'main']); d['early'] = 0; d['steps'] = [s for s in d['steps'] if s['k'] not in ('nb', 'nball')] or [{'k': 'all', 'n': 1, 'gap': ''}]
        sin = {'n': rng.choice(SIZES[:9] if small else SIZES + BIG), 'reader': d}
    spec = {'pipes': pipes, 'stdin': sin, 'order': rng.getrandbits(20), 'trap': rng.randrange(2)}
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 100), ('stall', 20), ('short_read', 700), ('short_write', 700)] + ([('eio_read', 30), ('eio_write', 30)] if rng.random() < 0.2 else []) + [('pipe_fail', 300), ('emfile', 20)])
    c['pipe_cap'] = rng.choice([4096, 4096, 5000, 8192, 65536]); c['max_bb'] = 3000000000; c['p_preempt'] = min(c['p_preempt'], 200)
    if 'fine_bb' in c: c['fine_bb'] = max(c['fine_bb'], 300)
    if spec['trap']: spec['items'] = [rng.choice([0, 1, 7, 30, 200]) for _ in range(rng.randrange(0, 6))]
    if any(x['early'] for p in pipes for x in p['readers']): spec['pipetrap'] = 1
    return Case(spec, c)
def sec(p, small): return [x for x in p]
def lit(s): return '"' + s.replace('\n', '\\n') + '"'
GAP = {'': '', 'sched': 'Thread.schedule();', 'sleep': 'sleep(1 / 1000);', 'churn': 'churn(20);', 'gc': 'GC.collect();', 'yg': 'GC.collectYoung();'}
def write_code(p, w, me, multi):
    L = []; off = 0
    L.append('var st = 0; try {')
    for o in w['ops']:
        n = o['n']; s = 'cut(%d, %d, %d)' % (me, off % p['len'], n)
        if o['m'] == 'write': L.append(' if (wr.write(%s) != %d) { print "BADCOUNT"; }' % (s, n))
        elif o['m'] == 'IO.write': L.append(' if (IO.write(wr, %s) != %d) { print "BADCOUNT"; }' % (s, n))
        elif o['m'] == 'print': L.append(' wr.print(%s);' % s)
        elif o['m'] == 'puts': L.append(' wr.puts(%s);' % s)
        elif o['m'] == 'pieces': L.append(' var z%d = %s; for (var i = 0; i < z%d.size; i += 97) { wr.write(z%d.substr(i, 97)); }' % (len(L), s, len(L), len(L)))
        off += n; L.append(' st = st + 1; ' + GAP[o['gap']])
    L.append('} catch (Error e) { print "WERR %d " + String(st) + " " + e.message; }' % me)
    return '\n'.join(L)
def read_code(rd, rid):
    L = ['var data = []; var sz = []; var k = 0; var lim = %d; var x = nil; var u = 0; var bad = 0;' % (rd['early'] * len(rd['steps']) if rd['early'] else 100000000), 'while (k < lim) { try {']
    for s in rd['steps']:
        k, n = s['k'], s['n']
        if k == 'read': e = 'rd.read(%d)' % n
        elif k == 'read1': e = 'rd.read(1)'
        elif k == 'ioread': e = 'IO.read(rd, %d)' % n
        elif k == 'getline': e = 'rd.getline()'
        elif k == 'getlinen': e = 'rd.getline(%d)' % n
        elif k == 'getchar': e = 'rd.getchar()'
        elif k == 'all': e = 'rd.read()'
        elif k == 'nb': e = 'IO.readNonBlock(rd, %d)' % n
        elif k == 'nball': e = 'IO.readNonBlock(rd)'
        L.append(' x = %s; if (x == IO::EWouldBlock) { u = u + 1; sleep(1 / 1000); } else { sz << x.size; data << x; if (x == "") { return done(%d, data, sz, bad, u); } } %s k = k + 1;' % (e, rid, GAP[s['gap']]) if k in ('nb', 'nball') else
                 ' x = %s; sz << x.size; data << x; if (x == "") { return done(%d, data, sz, bad, u); } %s k = k + 1;' % (e, rid, GAP[s['gap']]))
    L.append('} catch (Error e) { print "RERR %d " + e.message; bad = bad + 1; } }' % rid)
    L.append('rd.close(); return done(%d, data, sz, -1 - bad, u);' % rid)
    return '\n'.join(L)
def roles(spec):
    R = []
    for i, p in enumerate(spec['pipes']):
        for j, w in enumerate(p['writers']): R.append(('w', i, j, w))
        for j, d in enumerate(p['readers']): R.append(('r', i, j, d))
    if spec['stdin']: R.append(('r', 9, 0, spec['stdin']['reader']))
    random.Random(spec['order']).shuffle(R)
    # one role at most runs on the main thread, after the others were started
    seen = 0; out = []
    for k, i, j, x in R:
        wh = x['where']
        if wh == 'main':
            if seen: wh = 'thread'
            seen = 1
        if i == 9 and wh == 'fork': wh = 'thread'
        out.append((k, i, j, x, wh))
    return sorted(out, key=lambda y: y[4] != 'fork')   # forked first: a child must not find its end already closed
def render(spec):
    R = roles(spec); np = len(spec['pipes'])
    L = ['var base = %{}; var res = []; var cnt = 0; var ths = []; var kids = [];',
         'fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i), %{"k": i}]; } return n; }',
         'fun cut(w, off, n) { var b = base[w]; return (b * (((off + n) / b.size) + 1)).substr(off, n); }',
         'fun mkpipe() { while (true) { try { return IO.pipe(); } catch (Error e) { churn(1); } } }',
         'fun done(id, data, sz, bad, u) { return [id, data.join(""), sz, bad]; }',
         'fun show(r) { print "<<R " + String(r[0]) + " " + String(r[3]) + " " + r[2].join(",") + ">>" + r[1] + "<<E>>"; }',
         'fun addr(r) { res << r; }']
    if spec['trap']: L.append('Signal.trap(Signal::USR1, fun() { cnt = cnt + 1; });')
    if spec.get('pipetrap'): L.append('Signal.trap(Signal::PIPE, fun() { cnt = cnt + 1; });')
    for i, p in enumerate(spec['pipes']):
        multi = int(len(p['writers']) > 1)
        for j, w in enumerate(p['writers']): L.append('base[%d] = %s;' % (i * 10 + j, lit(base(i * 3 + j, multi))))
        L.append('var p%d = mkpipe(); var rd%d = p%d[0]; var wr%d = p%d[1]; var wd%d = [];' % (i, i, i, i, i, i))
    for k, i, j, x, wh in R:
        nm = '%s%d_%d' % (k, i, j)
        if k == 'w': p = spec['pipes'][i]; L.append('fun f%s(wr) {\n%s\n}' % (nm, write_code({'len': 997 if len(p['writers']) == 1 else 463}, x, i * 10 + j, 0)))
        else: L.append('fun f%s(rd) {\n%s\n}' % (nm, read_code(x, i * 10 + j)))
    # ends whose users are all forked (or that end early) are closed by the parent once everybody is started
    late = []
    for i, p in enumerate(spec['pipes']):
        inw = [x for x in R if x[0] == 'w' and x[1] == i and x[4] != 'fork']; inr = [x for x in R if x[0] == 'r' and x[1] == i and x[4] != 'fork']
        if not inw: late.append('wr%d.close();' % i)
        if not inr: late.append('rd%d.close();' % i)
    if spec.get('items'):   # a child that interrupts the others' system calls
        L.append('kids << Process.fork(fun() { %s %s exit(0); });' % (' '.join('rd%d.close(); wr%d.close();' % (y, y) for y in range(np)), ' '.join('sleep(%d / 1000); Process.signal(Process.ppid(), Signal::USR1);' % n for n in spec['items'])))
    mainrole = ''
    for k, i, j, x, wh in R:
        nm = '%s%d_%d' % (k, i, j)
        if k == 'w':
            nin = len([y for y in R if y[0] == 'w' and y[1] == i and y[4] != 'fork'])
            call = 'fw%d_%d(wr%d);' % (i, j, i)
            local = '%s wd%d << 1; if (wd%d.size == %d) { wr%d.close(); }' % (call, i, i, nin, i)
        else: call = 'addr(fr%d_%d(%s));' % (i, j, 'stdin' if i == 9 else 'rd%d' % i); local = call
        if wh == 'thread': L.append('ths << newThread(fun() { %s });' % local)
        elif wh == 'fork':
            cl = ' '.join(('' if k == 'w' and y == i else 'wr%d.close();' % y) + ('' if k == 'r' and y == i else ' rd%d.close();' % y) for y in range(np))
            L.append('kids << Process.fork(fun() { res = []; %s %s for (var i = 0; i < res.size; i += 1) { show(res[i]); } print "KID"; exit(0); });' % (cl, call))
        else: mainrole = local
    L += late
    if mainrole: L.append(mainrole)
    L.append('for (var i = 0; i < ths.size; i += 1) { joinThread(ths[i]); }')
    L.append('for (var i = 0; i < kids.size; i += 1) { Process.waitpid(kids[i]); }')
    L.append('for (var i = 0; i < res.size; i += 1) { show(res[i]); }')
    L.append('print "END";')
    j = Job('\n'.join(L).encode('latin-1'))
    if spec['stdin']: b = base(5, 0); n = spec['stdin']['n']; j.stdin = (b * (n // len(b) + 1))[:n].encode('latin-1')
    return j
def message(spec, i, j):
    """list of the texts of the operations of writer j of pipe i"""
    p = spec['pipes'][i]; multi = int(len(p['writers']) > 1); b = base(i * 3 + j, multi); off = 0; out = []
    for o in p['writers'][j]['ops']:
        n = o['n']; s = off % len(b); t = (b * ((s + n) // len(b) + 1))[s:s + n]; off += n
        out.append(t + ('\n' if o['m'] == 'puts' else ''))
    return out
def subseq(a, b):
    it = iter(b); return all(c in it for c in a)
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    pids = sorted(set(x.pid for x in r.recs if x.which == 1)); got = {}; werr = {}; rerr = {}; kid = 0; end = 0
    R = roles(spec)
    for pid in pids:
        t = r.text(1, pid)
        while t:
            if t.startswith('<<R '):
                h, _, rest = t[4:].partition('>>'); a = h.split(' '); ix = rest.find('<<E>>\n')
                if ix < 0: return [('output', 'cut result %r' % t[:80])]
                if int(a[0]) in got: return [('output', 'reader %s reported twice' % a[0])]
                got[int(a[0])] = (rest[:ix], [int(x) for x in a[2].split(',') if x], int(a[1])); t = rest[ix + 6:]
            else:
                l, _, t = t.partition('\n'); w = l.split(' ')
                if w[0] == 'WERR': werr[int(w[1])] = (int(w[2]), l)
                elif w[0] == 'RERR': rerr[int(w[1])] = l
                elif w[0] == 'KID': kid += 1
                elif w[0] == 'END': end += 1
                else: return [('output', 'unexpected line %r' % l)]
    nk = len([x for x in R if x[4] == 'fork'])
    eio = r.faults.get('eio_read', (0, 0))[0] + r.faults.get('eio_write', (0, 0))[0]
    if end != 1 or kid != nk: return [('no-end', 'script did not finish: %d of %d children, %r' % (kid, nk, r.err[-400:]))]
    early = {i for i, p in enumerate(spec['pipes']) for x in p['readers'] if x['early']}
    for w, (st, l) in werr.items():
        if w // 10 in early or r.faults.get('eio_write', (0, 0))[0]: continue
        return [('write-error', 'a write failed although no fault was injected: ' + l)]
    for d, l in rerr.items():
        if not r.faults.get('eio_read', (0, 0))[0]: return [('read-error', 'a read failed although no fault was injected: ' + l)]
    srcs = [(i, p['readers'], len(p['writers'])) for i, p in enumerate(spec['pipes'])] + ([(9, [spec['stdin']['reader']], 0)] if spec['stdin'] else [])
    for i, rds, nw in srcs:
        for j in range(len(rds)):
            if i * 10 + j not in got: return [('no-result', 'reader %d has no result %s' % (i * 10 + j, r.err[-300:]))]
        if i == 9: b = base(5, 0); n = spec['stdin']['n']; streams = [(b * (n // len(b) + 1))[:n]]; fails = [None]
        else: streams = []; fails = []
        for j in range(nw):
            ms = message(spec, i, j); f = werr.get(i * 10 + j)
            streams.append(''.join(ms)); fails.append(None if f is None else len(''.join(ms[:f[0]])))
        data = [got[i * 10 + j][0] for j in range(len(rds))]
        lossy = any((i * 10 + j) in rerr for j in range(len(rds))) or i in early
        for w, s in enumerate(streams):
            if len(streams) == 1: parts = data
            else:
                al = set(base(i * 3 + w, 1)); parts = [''.join(c for c in d if c in al) for d in data]
                ms = message(spec, i, w); nl = sum(o['m'] == 'puts' for o in spec['pipes'][i]['writers'][w]['ops']); s = s.replace('\n', '')
                if fails[w] is not None: fails[w] = len(''.join(ms[:werr[i * 10 + w][0]]).replace('\n', ''))
            if len(parts) == 1 and not lossy:
                g = parts[0]
                if fails[w] is None:
                    if g != s:
                        k = next((k for k in range(min(len(g), len(s))) if g[k] != s[k]), min(len(g), len(s)))
                        return [('bytes', 'pipe %d: the %d bytes of writer %d arrived as %d, first difference at %d: %r instead of %r' % (i, len(s), w, len(g), k, g[k:k+30], s[k:k+30]))]
                elif not (s.startswith(g) and len(g) >= fails[w]): return [('bytes-prefix', 'pipe %d: writer %d failed after %d bytes, %d arrived, prefix: %s' % (i, w, fails[w], len(g), s.startswith(g)))]
            else:
                for g in parts:
                    if not subseq(g, s): return [('bytes-order', 'pipe %d: a reader got bytes of writer %d that are not a subsequence of what it wrote' % (i, w))]
                if not lossy:
                    tot = ''.join(sorted(''.join(parts)))
                    if fails[w] is None and tot != ''.join(sorted(s)): return [('bytes-conserved', 'pipe %d: %d readers got %d bytes of writer %d, which wrote %d' % (i, len(parts), len(tot), w, len(s)))]
        if len(streams) > 1 and not lossy:
            nl = sum(d.count('\n') for d in data); e = sum(o['m'] == 'puts' for w in spec['pipes'][i]['writers'] for o in w['ops'])
            if nl > e or nl < e and not any(f is not None for f in fails): return [('bytes-newlines', 'pipe %d: %d newlines arrived of %d' % (i, nl, e))]
        # what each single operation may return
        if len(rds) == 1 and (i * 10) not in rerr:
            d, sz, bad = got[i * 10]; rd = rds[0]; pos = 0; k = 0; st = rd['steps']
            if sum(sz) != len(d): return [('sizes', 'sizes %r do not add up to %d' % (sz, len(d)))]
            if any(s['k'] in ('nb', 'nball') for s in st): continue   # the log does not tell which operation read nothing
            for n in sz:
                s = st[k % len(st)]; k += 1; rest = d[pos:]; kk = s['k']
                if kk in ('read', 'ioread', 'read1'): e = min(1 if kk == 'read1' else s['n'], len(rest))
                elif kk == 'all': e = len(rest)
                elif kk == 'getchar': e = min(1, len(rest))
                else:
                    m = 4091 if kk == 'getline' else s['n']; x = rest.find('\n'); e = min(m, len(rest) if x < 0 else x + 1)
                if n != e and not (i in early and k == len(sz)): return [('op-size', 'pipe %d: operation %d (%s %d) returned %d bytes instead of %d' % (i, k, kk, s['n'], n, e))]
                pos += n
    if 'Uncaught' in r.err: return [('uncaught', r.err[-400:])]
    return []
def tags(spec, r):
    t = []
    for k, i, j, x, wh in roles(spec):
        t.append('%s:%s' % (k, wh))
        if k == 'w': t += ['w:' + o['m'] for o in x['ops']]
        else: t += ['r:' + s['k'] for s in x['steps']]
    return t
