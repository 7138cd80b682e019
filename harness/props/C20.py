"""Output: what each thread prints or writes arrives exactly once, in program order, and prints are never split by other prints."""
from engine import *
import random
LEVEL = 'exploration'
QUICK_RUNS = 6000
ASSUMPTIONS = ['text without NUL bytes', 'stdout and stderr accept the bytes in the end: no disk error behind them', 'a thread still running when its process ends has written a prefix of its output', 'prints of different processes to one terminal may be split by each other']
PRE = '''var pk = 0;
fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i)]; } return n; }
class Ob { init(s, k) { this.s = s; this.k = k; } toString() { if (this.k == 1) { Thread.schedule(); } if (this.k == 2) { sleep(1 / 5000); } if (this.k == 3) { churn(20); } if (this.k == 4) { print "in" + this.s; } if (this.k == 5) { GC.collect(); } if (this.k == 6) { throw Error("ts"); } if (this.k == 7) { stdout.write("tw" + this.s); } if (this.k == 8) { for (var i = 0; i < 300; i += 1) { this.k = 8; } } return "<" + this.s + ">"; } }
class Sub < Ob { init(s, k) { super.init(s, k); } toString() { return "+" + super.toString(); } }
class Plain { }
fun rep(s, n) { var o = s; while (o.size * 2 <= n) { o = o + o; } return o + o.substr(0, n - o.size); }
fun pdeep(n, s) { if (n == 0) { print s; return 0; } return 1 + pdeep(n - 1, s); }
'''
AL = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;!?#*+-_/\n'
SIZES = [0, 1, 2, 5, 11, 30, 80, 81, 200, 1000, 1023, 1024, 1025, 4090, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12288, 20000]
class Gen:
    def __init__(s, r): s.r = r; s.n = 0; s.t = 0; s.left = 25
    def op(s, depth, main):
        r = s.r; k = r.choice(['p'] * 7 + ['pv', 'pv', 'pi', 'pi', 'pi', 'pb', 'pt', 'w', 'w', 'puts', 'pr', 'iow', 'ew', 'eputs', 'eior', 'sched', 'sleep', 'churn', 'gc', 'sys', 'sysb', 'pe', 'pd', 'pblk', 'pl'] + (['fork', 'fork'] if depth < 2 and s.left > 8 else []))
        s.n += 1; o = {'k': k, 'i': s.n, 'n': r.choice(SIZES[:8] if r.random() < 0.75 else SIZES), 'v': r.randrange(9), 'sub': r.randrange(2)}
        if k == 'fork': o['proc'] = s.proc(depth + 1); o['wait'] = r.randrange(2)
        return o
    def thread(s, depth, main):
        s.t += 1; s.left -= 1; i = s.t
        return {'id': i, 'ops': [s.op(depth, main) for _ in range(s.r.choice([1, 2, 4, 6, 9]))]}
    def proc(s, depth=0):
        r = s.r; m = s.thread(depth, True)
        th = [dict(s.thread(depth, False), join=int(r.random() < 0.75), err=int(r.random() < 0.15)) for _ in range(r.choice([0, 0, 1, 2, 3]) if depth else r.choice([0, 1, 2, 3, 4]))]
        e = r.choice(['fall', 'fall', 'exit', 'exit', '_exit', 'err', 'exec', 'kill', 'fn', 'blk'] if depth else ['fall', 'fall', 'exit', '_exit', 'err', 'kill', 'exec'])
        s.n += 1
        return {'main': m, 'threads': th, 'end': e, 'hook': s.n if r.random() < 0.4 else 0, 'ei': s.n + 1000}
def gen(rng, tier):
    spec = {'proc': Gen(rng).proc(), 'trap': int(rng.random() < 0.5), 'items': []}
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 100), ('stall', 10), ('short_write', 700), ('sink_block', 400)])
    c['max_bb'] = 3000000000; c['p_preempt'] = max(50, min(c.get('p_preempt', 0), 300))
    if 'fine_bb' in c: c['fine_bb'] = max(c['fine_bb'], 100)
    if spec['trap']: spec['items'] = [rng.choice([0, 1, 7, 30, 100]) for _ in range(rng.randrange(1, 9))]
    return Case(spec, c)
def txt(i, n):
    rr = random.Random(i * 7919); return ('%d' % i + ''.join(rr.choice(AL) for _ in range(60)))[:n] if n < 60 else None
def pat(i): rr = random.Random(i * 7919 + 1); return '%d' % i + ''.join(rr.choice(AL) for _ in range(rr.choice([20, 37, 53])))
def text(i, n):
    s = txt(i, n)
    if s is not None: return s, '"%s"' % s.replace('\n', '\\n')
    p = pat(i); o = p
    while len(o) * 2 <= n: o = o + o
    return o + o[:n - len(o)], 'rep("%s", %d)' % (p.replace('\n', '\\n'), n)
VALS = [('12', '12'), ('nil', 'nil'), ('true', 'true'), ('7 / 2', '3.5'), ('[1, "x", nil]', '[1,x,nil]'), ('[[2], [Ob("z", 3)]]', '[[2],[<z>]]'), ('"a${4}b"', 'a4b'), ('"l1\\nl2"', 'l1\nl2'), ('-1', '-1')]
def op_(o, pc, hooks):
    """Lox code and the expected segments: (channel, text, kind)"""
    k, i, n = o['k'], o['i'], o['n']; s, e = text(i, n)
    if k == 'p': return 'print %s;' % e, [(1, s + '\n', 'p')]
    if k == 'pv': a, b = VALS[o['v']]; return 'print %s;' % a, [(1, b + '\n', 'p')]
    if k in ('pi', 'pb'):
        v = o['v']
        if v == 6: return 'try { print %s(%s, 6); } catch (Error e%d) { print "C" + e%d.message; }' % (['Ob', 'Sub'][o['sub']], e, i, i), [(1, 'Cts\n', 'p')]
        seg = {4: [(1, 'in' + s + '\n', 'p')], 7: [(1, 'tw' + s, 'w')]}.get(v, [])
        x = '%s(%s, %d)' % (['Ob', 'Sub'][o['sub']], e, v); y = ['', '+'][o['sub']] + '<%s>' % s
        if k == 'pb': x = '["%d", %s]' % (i, x); y = '[%d,%s]' % (i, y)
        return 'print %s;' % x, seg + [(1, y + '\n', 'p')]
    if k == 'pt': return 'print "q${Ob("", 1)}" + %s;' % e if 0 else 'print "q${%d}" + %s;' % (i, e), [(1, 'q%d' % i + s + '\n', 'p')]
    if k == 'pe': return 'eval("print \\"ev%d\\";");' % i, [(1, 'ev%d\n' % i, 'p')]
    if k == 'pl': return 'loadScript("/work/ld.lox");', [(1, 'loaded\n', 'p')]
    if k == 'pd': return 'pdeep(%d, %s);' % (o['v'] * 2, e), [(1, s + '\n', 'p')]
    if k == 'pblk': return '[1, 2].each() -> (x) { print %s + String(x); };' % e, [(1, s + '1\n', 'p'), (1, s + '2\n', 'p')]
    if k in ('w', 'pr'): return 'stdout.%s(%s);' % ({'w': 'write', 'pr': 'print'}[k], e), [(1, s, 'w')]
    if k == 'iow': return 'IO.write(stdout, %s);' % e, [(1, s, 'w')]
    if k == 'puts': return 'stdout.puts(%s);' % e, [(1, s, 'w'), (1, '\n', 'w')]
    if k == 'ew': return 'stderr.write(%s);' % e, [(2, s, 'w')]
    if k == 'eior': return 'IO.write(stderr, %s);' % e, [(2, s, 'w')]
    if k == 'eputs': return 'stderr.puts(%s);' % e, [(2, s, 'w'), (2, '\n', 'w')]
    if k == 'sys': return 'Process.system("echo SYS%d!");' % i, [(1, 'SYS%d!\n' % i, 'w')]
    if k == 'sysb': return 'print Process.system("false");', [(1, 'false\n', 'p')]
    if k == 'fork':
        b = proc_(o['proc'], pc, hooks); p = 'pid%d' % i
        return 'var %s = Process.fork(fun() { %s }); %s' % (p, b, 'Process.waitpid(%s);' % p if o['wait'] else ''), [(0, o['proc']['main']['id'], 'f' if o['wait'] else 'n')]
    return {'sched': 'Thread.schedule();', 'sleep': 'sleep(1 / 2000);', 'churn': 'churn(15);', 'gc': 'GC.collect();'}[k], []
def thread_(t, pc, hooks):
    L = ['print "@%d";' % t['id']]; S = [(1, '@%d\n' % t['id'], 'p')]
    for o in t['ops']:
        c, s = op_(o, pc, hooks); L.append(c); S += s
    return L, S
def proc_(p, pc, hooks=()):
    if p['hook']: hooks = (p['hook'],) + tuple(hooks)
    m = p['main']; L, S = thread_(m, pc, hooks); P = []
    if p['hook']: P.append('atExit(fun() { print "HK%d"; });' % p['hook'])
    pc[m['id']] = {'segs': S, 'proc': p, 'main': True}
    for t in p['threads']:
        l, s = thread_(t, pc, hooks)
        if t['err']: l.append('throw Error("thread err");'); s.append((2, None, 'r'))
        pc[t['id']] = {'segs': s, 'proc': p, 'main': False, 't': t}
        P.append('var t%d = newThread(fun() {\n %s\n});' % (t['id'], '\n '.join(l)))
    L = P + L + ['joinThread(t%d);' % t['id'] if not t['err'] else 'try { joinThread(t%d); } catch (Error e) { pk = 1; }' % t['id'] for t in p['threads'] if t['join']]
    e = p['end']; i = p['ei']
    H = [(1, 'HK%d\n' % h, 'p') for h in hooks]
    if e == 'exit': L.append('exit(3);'); S += H
    elif e == '_exit': L.append('_exit(4);')
    elif e == 'kill': L.append('Process.signal(Process.pid(), Signal::KILL); sleep(1);')
    elif e == 'err': L.append('throw Error("end");'); S += [(2, None, 'r')] + H
    elif e == 'exec': L.append('Process.exec("echo", "EXEC%d!");' % i); S.append((1, 'EXEC%d!\n' % i, 'w'))
    elif e == 'fn': L.append('fun z%d() { print "z"; return 5; } return z%d();' % (i, i)); S += [(1, 'z\n', 'p')] + H
    elif e == 'blk': L.append('[1].each() -> (x) { print "y"; exit(0); };'); S += [(1, 'y\n', 'p')] + H
    else: S += H
    return '\n'.join(L)
def render(spec):
    pc = {}; b = proc_(spec['proc'], pc); P = [PRE]
    if spec['trap']:
        P.append('Signal.trap(Signal::USR1, fun() { pk = pk + 1; }); var me = Process.pid();')
        P.append('var hp = Process.fork(fun() { %s _exit(0); });' % ' '.join('sleep(%d / 10000); Process.signal(me, Signal::USR1);' % x for x in spec['items']))
    return Job('\n'.join(P) + '\n' + b, files={'/work/ld.lox': 'print "loaded";\n'})
def flat(which, s): return s if which == 1 else ''.join(chr(256 + ord(c)) for c in s)
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    pc = {}; proc_(spec['proc'], pc)
    tasks = {}; ids = {}
    for x in r.recs:
        if x.which in (1, 2): tasks.setdefault((x.pid, x.task), []).append(x)
    def show(s): return repr(s if len(s) < 120 else s[:60] + '...' + s[-60:])
    fl = {}; toks = []; cuts = {}
    for key, rs in tasks.items():
        s = ''.join(flat(x.which, x.data.decode('latin-1')) for x in rs)
        if s[:1] == '@' and s.split('\n')[0][1:].isdigit(): i = int(s.split('\n')[0][1:])
        else: i = None
        if i is None or i not in pc: toks.append((key, s)); continue
        if i in ids: return [('twice', 'two threads wrote the first line of thread %d: %r and %r' % (i, ids[i], key))]
        ids[i] = key; fl[i] = s
    label = {}; nrec = {}; bound = {}
    for i, p in pc.items():
        if i not in ids:
            continue
        s = fl[i]; pos = 0; rs = tasks[ids[i]]; starts = []; q = 0
        for x in rs: starts.append(q); q += len(x.data)
        def rec_at(o):  # record that holds offset o
            lo = 0
            for j, st in enumerate(starts):
                if st <= o: lo = j
            return rs[lo]
        full = True
        for n, (w, t, kd) in enumerate(p['segs']):
            if kd in ('f', 'n'): bound.setdefault((kd, t), (i, rec_at(pos - 1).seq, rec_at(pos).seq if pos < len(s) else None)); continue
            if kd == 'r':
                e = pos
                while e < len(s) and ord(s[e]) >= 256: e += 1
                rep = ''.join(chr(ord(c) - 256) for c in s[pos:e])
                if rep: pos = e
                if 'err' not in rep:
                    full = False; why = 'error report %s' % show(rep)
                    break
                continue
            t = flat(w, t); g = s[pos:pos + len(t)]
            if g != t:
                j = next((j for j in range(min(len(g), len(t))) if g[j] != t[j]), min(len(g), len(t)))
                if j < len(g) or kd == 'p' and g: return [('order' if kd == 'p' else 'write', 'thread %d wrote %s where %s was due (offset %d of %d; %r)' % (i, show(s[pos:pos + len(t) + 40]), show(t), j, len(t), p['segs'][max(0, n - 2):n + 2]))]
                pos += len(g); full = False; why = 'ends with %s instead of %s' % (show(g), show(t)); break
            for x, st in zip(rs, starts):
                if pos <= st < pos + len(t): label[x.seq] = (i, n, kd); nrec[i, n] = nrec.get((i, n), 0) + 1
            pos += len(t)
        if pos < len(s): return [('extra', 'thread %d wrote %s after all its output %s' % (i, show(s[pos:]), r.err[-300:]))]
        p['full'] = full; p['why'] = '' if full else why
    # completeness
    def complete(p, started):
        m = p['main']['id']
        if m not in ids: return [('missing', 'process of thread %d wrote nothing %s' % (m, r.err[-300:]))]
        if not pc[m]['full']: return [('lost', 'thread %d (main): %s %s' % (m, pc[m]['why'], r.err[-300:]))]
        for t in p['threads']:
            if not t['join']: continue
            if t['id'] not in ids: return [('missing', 'thread %d wrote nothing %s' % (t['id'], r.err[-300:]))]
            if not pc[t['id']]['full']: return [('lost', 'thread %d: %s %s' % (t['id'], pc[t['id']]['why'], r.err[-300:]))]
        for t in [p['main']] + [t for t in p['threads'] if t['join']]:
            for o in t['ops']:
                if o['k'] == 'fork':
                    b = complete(o['proc'], True)
                    if b: return b
    b = complete(spec['proc'], True)
    if b: return b
    for key, s in toks:
        if s: return [('nowhere', 'process %d task %d wrote %s' % (key[0], key[1], show(s)))]
    # a child that was waited for at once wrote between what its parent wrote before and after
    for (kd, t), (i, a, z) in bound.items():
        rs = tasks.get(ids.get(t), [])
        if any(x.seq < a or (z is not None and kd == 'f' and x.seq > z) for x in rs): return [('child-order', 'output of the child with thread %d came at %r, outside of %r' % (t, [x.seq for x in rs], (a, z)))]
    # prints are not split by prints of the same process
    short = r.faults.get('short_write', (0, 0))[0]
    pids = set(k[0] for k in tasks)
    for pid in pids:
        last = None; done = set()
        for x in r.recs:
            if x.pid != pid or x.which != 1: continue
            l = label.get(x.seq)
            if l is None: continue
            if l[2] != 'p':
                if not short and nrec[l[:2]] > 1: return [('split', 'a write of thread %d was done in %d pieces though the first was accepted whole' % (l[0], nrec[l[:2]]))]
                continue
            if l != last:
                if l in done: return [('split', 'a print of thread %d (%s) was split by other output: %s' % (l[0], show(pc[l[0]]['segs'][l[1]][1]), [(y.task, show(y.data.decode('latin-1'))) for y in r.recs if y.pid == pid and abs(y.seq - x.seq) < 6]))]
                if last: done.add(last)
                last = l
    return []
def tags(spec, r):
    t = []
    def go(p):
        t.append('end:' + p['end'])
        for x in [p['main']] + p['threads']:
            for o in x['ops']:
                t.append('op:' + o['k'])
                if o['k'] == 'fork': go(o['proc'])
    go(spec['proc']); return t
