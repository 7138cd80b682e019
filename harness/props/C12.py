"""IO.select: what it reports is compared with the readiness history of the simulated pipes."""
from engine import *
import re
LEVEL = 'exploration'
WANTLOG = True
QUICK_RUNS = 8000
ASSUMPTIONS = ['without a timeout argument, and for a timeout of 0 or less, IO.select polls', 'a descriptor is not closed while a thread has it in IO.select', 'lateness is judged with a slack of 0.5 simulated seconds plus injected stalls', 'sockets in IO.select are exercised by C15']
TMO = [None, '0', '0 - 1', '1 / 1000', '1 / 100', '1 / 20', '1 / 4', '1 / 3', '9999999 / 10000000', '1', '3 / 2', '2', '25 / 10']
def tv(t): return 0.0 if t is None else max(0.0, eval(t))
class Gen:
    def __init__(s, r): s.r = r
    def sel(s):
        r = s.r; n = len(s.P); L = {'k': 'sel', 'r': [], 'w': [], 'e': [], 't': r.choice(TMO), 'sh': 0, 'act': r.choice(['', '', 'drain', 'drain', 'drain', 'sleep', 'churn'])}
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            p = r.randrange(n); m = s.P[p]['mode']; x = r.random()
            if x < 0.08: L['r'].append('f0'); continue
            L['r'].append(('q%d' if m != 'w' else 'w%d') % p)   # a write end in the list of readers is never ready
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            p = r.randrange(n); m = s.P[p]['mode']; x = r.random()
            if x < 0.08: L['w'].append('f0'); continue
            L['w'].append(('w%d' if m != 'r' else 'q%d') % p)
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            p = r.randrange(n); L['e'].append(('q%d' if s.P[p]['mode'] != 'w' else 'w%d') % p)
        if r.random() < 0.12: L['sh'] = 1
        return L
    def thread(s): return {'ops': [s.sel() if s.r.random() < 0.9 else {'k': s.r.choice(['closed', 'nonio', 'nonarr', 'churn', 'sleep'])} for _ in range(s.r.randrange(1, 6))]}
    def actor(s, pipes):
        r = s.r; ops = []
        for _ in range(r.randrange(1, 10)):
            p = r.choice(pipes); m = s.P[p]['mode']
            k = r.choice(['write'] * 4 + ['sleep'] * 5 + ['read', 'read', 'churn'] + ['mut'] * 2)
            if k == 'write':
                n = r.choice([1, 1, 2, 10, 100, 1000, 4000]); n = min(n, s.cap - s.tot[p])
                if n <= 0: continue
                s.tot[p] += n; ops.append({'k': 'write', 'p': p, 'n': n})
            elif k == 'read' and m != 'w' or k == 'read' and r.random() < 0.5: ops.append({'k': 'read', 'p': p, 'n': r.choice([1, 10, 5000])})
            elif k == 'mut': ops.append({'k': 'mut', 'm': r.choice(['push', 'push', 'pop', 'clear', 'x', 'many']), 'p': p})
            elif k in ('sleep', 'churn'): ops.append({'k': k, 'd': r.choice(['1 / 1000', '1 / 100', '1 / 20', '1 / 5', '1 / 2', '1'])})
        for p in pipes:
            if r.random() < 0.35 and s.P[p]['mode'] != 'b':
                if r.random() < 0.5: ops.append({'k': 'sleep', 'd': r.choice(['1 / 100', '1 / 5', '1'])})
                ops.append({'k': 'close', 'p': p})
        return ops
def gen(rng, tier):
    g = Gen(rng); g.cap = rng.choice([4096, 4096, 8192, 65536])
    g.P = [{'mode': rng.choice(['r', 'r', 'r', 'w', 'b', 'b']), 'pre': 0, 'owner': 0} for _ in range(rng.randrange(1, 5))]; g.tot = [0] * len(g.P)
    na = rng.randrange(1, 4); owners = [rng.randrange(na) for _ in g.P]
    for p in range(len(g.P)):
        if rng.random() < 0.4: g.P[p]['pre'] = g.tot[p] = rng.choice([1, 5, 4096])
    acts = []
    for a in range(na):
        mine = [p for p in range(len(g.P)) if owners[p] == a]
        if mine: acts.append({'where': rng.choice(['thread', 'thread', 'fork']), 'ops': g.actor(mine)})
    spec = {'pipes': g.P, 'procs': acts, 'threads': [g.thread() for _ in range(rng.choice([0, 1, 1, 2, 3]))], 'main': g.thread(), 'trap': int(rng.random() < 0.4), 'items': []}
    if spec['trap']: spec['items'] = [rng.choice([1, 10, 50, 300]) for _ in range(rng.randrange(1, 8))]
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 100), ('stall', 30), ('short_read', 200)])
    c['pipe_cap'] = g.cap; c['max_bb'] = 3000000000; c['p_preempt'] = max(50, min(c.get('p_preempt', 0), 200)); c['p_gc_full'] = min(c.get('p_gc_full', 0), 50)
    return Case(spec, c)
PRE = '''var pk = 0; var stop = 0; var nm = Map(); var sl = [];
fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i)]; } return n; }
fun rep(n) { var s = "0123456789"; var o = ""; while (o.size + 10 <= n) { o << s; } return o + s.substr(0, n - o.size); }
fun nms(l) { return l.map() -> (x) { return nm[x.fd()]; }.join(","); }
fun res(i, k, v) { if (typeof(v) == "nil") { print "R ${i} ${k} nil"; return nil; } print "R ${i} ${k} " + String(v.size) + " " + nms(v[0]) + ";" + nms(v[1]) + ";" + nms(v[2]); }
'''
ACT = {'': '', 'sleep': 'sleep(1 / 200);', 'churn': 'churn(20);'}
def thread_(t, i):
    L = []
    for k, o in enumerate(t['ops']):
        if o['k'] == 'sel':
            a = '[%s]' % ', '.join(o['r']); a = 'sl' if o['sh'] else a
            L.append('print "S %d %d"; try { var v%d = IO.select(%s, [%s], [%s]%s); res(%d, %d, v%d); %s } catch (Error e%d) { print "R %d %d err " + e%d.message; }' % (i, k, k, a, ', '.join(o['w']), ', '.join(o['e']), '' if o['t'] is None else ', ' + o['t'], i, k, k,
                ACT.get(o['act'], 'if (v%d) { v%d[0].each() -> (x) { if (nm[x.fd()] != "f0") { IO.readNonBlock(x, 3000); } }; }' % (k, k)), k, i, k, k))
        elif o['k'] in ('closed', 'nonio', 'nonarr'):
            a = {'closed': '[c0], [], [], 1', 'nonio': '[], ["x"], [], 1', 'nonarr': 'nil, [], [], 1'}[o['k']]
            L.append('try { IO.select(%s); print "X %d %d no error"; } catch (Error e%d) { pk = 1; }' % (a, i, k, k))
        else: L.append(ACT[o['k']])
    return '\n '.join(L)
def render(spec):
    P = [PRE]
    for p, d in enumerate(spec['pipes']):
        P.append('var p%d = IO.pipe(); var q%d = p%d[0]; var w%d = p%d[1]; nm[q%d.fd()] = "q%d"; nm[w%d.fd()] = "w%d"; %s' % (p, p, p, p, p, p, p, p, p, 'w%d.write(rep(%d));' % (p, d['pre']) if d['pre'] else ''))
    P.append('var f0 = File.create("/work/f0"); nm[f0.fd()] = "f0"; var cc = IO.pipe(); var c0 = cc[0]; cc[1].close(); c0.close();')
    if spec['trap']:
        P.append('Signal.trap(Signal::USR1, fun() { pk = pk + 1; churn(3); }); var me = Process.pid();')
        P.append('var hp = Process.fork(fun() { %s _exit(0); });' % ' '.join('sleep(%d / 1000); Process.signal(me, Signal::USR1);' % x for x in spec['items']))
    th = []
    for a, d in enumerate(spec['procs']):
        L = []
        for o in d['ops']:
            k = o['k']
            if k == 'write': L.append('w%d.write(rep(%d));' % (o['p'], o['n']))
            elif k == 'read' and d['where'] == 'fork': continue   # O_NONBLOCK is shared by the processes
            elif k == 'read': L.append('IO.readNonBlock(q%d, %d);' % (o['p'], o['n']))
            elif k == 'close': L.append('%s%d.close();' % ('w' if spec['pipes'][o['p']]['mode'] == 'r' else 'q', o['p']))
            elif k == 'mut': L.append({'push': 'sl << %s;' % (('q%d' if spec['pipes'][o['p']]['mode'] != 'w' else 'w%d') % o['p']), 'pop': 'sl.pop();', 'clear': 'sl.clear();', 'x': 'sl << "x";', 'many': 'for (var i = 0; i < 40; i += 1) { sl << f0; }'}[o['m']])
            elif k == 'sleep': L.append('sleep(%s);' % o['d'])
            else: L.append('churn(30);')
        b = '\n '.join(L)
        if d['where'] == 'fork': P.append('var a%d = Process.fork(fun() { %s\n _exit(0); });' % (a, b))
        else: P.append('var a%d = newThread(fun() { %s\n });' % (a, b))
    P.append('var tk = newThread(fun() { while (stop == 0) { sleep(1 / 20); print "T"; } });')
    for i, t in enumerate(spec['threads']): P.append('var t%d = newThread(fun() { %s\n });' % (i, thread_(t, i)))
    P.append('fun mm() { %s\n }\nmm();' % thread_(spec['main'], len(spec['threads'])))
    for i in range(len(spec['threads'])): P.append('joinThread(t%d);' % i)
    P.append('stop = 1; joinThread(tk);')
    for a, d in enumerate(spec['procs']): P.append('joinThread(a%d);' % a if d['where'] != 'fork' else 'Process.waitpid(a%d);' % a)
    P.append('Process.waitpid(hp); print "END";' if spec['trap'] else 'print "END";')
    return Job('\n'.join(P))
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    out = [(x.seq, x.now, x.data.decode('latin-1').rstrip('\n')) for x in r.recs if x.which == 1 and x.pid == 1000]
    if r.rootstatus != 0 or not out or out[-1][2] != 'END': return [('status', 'status %d out %r err %s' % (r.rootstatus, [x[2] for x in out[-3:]], r.err[-800:]))]
    if r.err.strip(): return [('stderr', r.err[:600])]
    np = len(spec['pipes']); ev = []; stall = 0
    for l in r.log.decode('latin-1').split('\n'):
        m = re.match(r'E(\d+) (\d+) p\d+ t\d+ (?:PIPE (\d+) (\d+) (\d+) (\d+) (\d+)|FAULT stall (\d+))$', l)
        if not m: continue
        if m.group(8): stall += int(m.group(8)); continue
        g = [int(x) for x in m.groups()[:7]]
        if g[2] <= np: ev.append((g[0], g[1], g[2] - 1, g[3] > 0 or g[5] == 0, g[4] == 0 or g[6] >= 4096))
    slack = 500000000 + stall
    ths = [(i, t['ops']) for i, t in enumerate(spec['threads'] + [spec['main']])]
    S = {}; R = {}; T = [x[1] for x in out if x[2] == 'T']
    for seq, now, l in out:
        w = l.split(' ')
        if w[0] == 'S': S[int(w[1]), int(w[2])] = (seq, now)
        elif w[0] == 'R': R[int(w[1]), int(w[2])] = (seq, now, ' '.join(w[3:]))
        elif w[0] == 'X': return [('no-error', 'IO.select with %s did not raise an error' % dict(ths)[int(w[1])][int(w[2])]['k'])]
    res = []
    shx = any(o['k'] == 'mut' and o['m'] == 'x' for d in spec['procs'] for o in d['ops'])
    for i, ops in ths:
        for k, o in enumerate(ops):
            if o['k'] != 'sel': continue
            if (i, k) not in S or (i, k) not in R: res.append(('incomplete', 'select %d of thread %d was not reported' % (k, i))); continue
            s0, t0, (s1, t1, txt) = S[i, k][0], S[i, k][1], R[i, k]
            to = int(tv(o['t']) * 1e9)
            desc = 'IO.select(%s, %s, %s, %s) of thread %d' % ('shared list' if o['sh'] else o['r'], o['w'], o['e'], o['t'], i)
            if txt.startswith('err'):
                if o['sh'] and shx: continue
                res.append(('error', '%s raised %s' % (desc, txt))); continue
            nil = txt == 'nil'
            if nil: got = [[], [], []]
            else:
                if not txt.startswith('3 '): res.append(('shape', '%s gave %r' % (desc, txt))); continue
                got = [x.split(',') if x else [] for x in txt[2:].split(';')]
            if nil and t1 - t0 < to: res.append(('early', '%s returned nil after %.6f s' % (desc, (t1 - t0) / 1e9)))
            if not nil and not any(got): res.append(('empty', '%s returned empty lists' % desc))
            # history of readiness during the call
            st = {}
            for x in ev:
                if x[0] < s0: st['q%d' % x[2]], st['w%d' % x[2]] = x[3], x[4]
            def vec(): return [[x for x in o['r'] if x == 'f0' or x[0] == 'q' and st[x]], [x for x in o['w'] if x == 'f0' or x[0] == 'w' and st[x]], []]
            if o['sh']:
                rd = set(got[0]); seen = set(x for x in rd if x == 'f0' or x[0] == 'q' and st[x])
                for x in ev:
                    if s0 <= x[0] <= s1 and x[3]: seen.add('q%d' % x[2])
                if rd - seen: res.append(('not-ready', '%s reported %s, never ready during the call' % (desc, sorted(rd - seen))))
                continue
            states = [[t0, vec()]]
            for x in ev:
                if s0 <= x[0] <= s1: st['q%d' % x[2]], st['w%d' % x[2]] = x[3], x[4]; states.append([x[1], vec()])
            ends = [x[0] for x in states[1:]] + [t1]
            if not any(vv == got and (not nil or e >= t0 + to) for (_, vv), e in zip(states, ends)):
                al = set(x for _, vv in states for y in vv for x in y)
                sig = 'missed' if nil or all(set(x) <= al for x in got) else 'not-ready'
                res.append((sig, '%s reported %s; ready during the call: %s' % (desc, txt, [(('%.6f' % ((t - t0) / 1e9)), vv) for t, vv in states][:8])))
            n = len(states)
            while n and any(states[n - 1][1]): n -= 1
            if n < len(states):
                if t1 - max(t0, states[n][0]) > slack: res.append(('late', '%s returned %.3f s after a descriptor became ready' % (desc, (t1 - states[n][0]) / 1e9)))
            if t1 - t0 > to + slack: res.append(('late-timeout', '%s returned after %.3f s' % (desc, (t1 - t0) / 1e9)))
    for a, b in zip(T, T[1:]):
        if b - a > slack + 50000000: res.append(('blocked', 'another thread was held up for %.3f s while a thread was in IO.select' % ((b - a) / 1e9))); break
    return res[:3]
def tags(spec, r):
    t = []
    for th in spec['threads'] + [spec['main']]:
        for o in th['ops']: t.append(o['k'] + ':' + str(o.get('t', '')))
    for m in re.findall(r'(?m)^R \d+ \d+ (\S+)', r.out): t.append('result:' + m)
    return t
