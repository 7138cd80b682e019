"""Thread-local storage: every thread's storage is compared with its own dictionary; stores by other threads with a register model."""
from engine import *
LEVEL = 'exploration'
QUICK_RUNS = 8000
ASSUMPTIONS = ['a thread stores into another thread\'s storage only under keys of its own, so that every key has one writer']
KEYS = ['"a"', '"b"', '"k" + String(3)', '"k3"', '7', '7 / 2', 'true', 'gk0', 'gk1', 'Kl', '"" + "a"', '"long key number " + String(12) + " of many"']
SAME = {'"k" + String(3)': '"k3"', '"" + "a"': '"a"'}
class Gen:
    def __init__(s, r, big): s.r = r; s.n = 0; s.big = big; s.th = 0
    def val(s): s.n += 1; return {'k': s.r.choice(['num', 'str', 'arr', 'map', 'nil', 'deep']), 'n': s.n}
    def ops(s, d, n):
        r = s.r; L = []
        for _ in range(n):
            k = r.choice(['set', 'set', 'set', 'get', 'get', 'get', 'churn', 'gc', 'sched', 'sleep', 'block', 'fn', 'try', 'spawn', 'fork', 'fset', 'fset', 'fget', 'fget', 'many', 'yg', 'timeout', 'eval', 'hold', 'main'])
            if k in ('spawn', 'fork') and d >= (2 if s.big else 1): k = 'set'
            if k in ('block', 'fn', 'try', 'timeout') and d >= 3: k = 'get'
            o = {'k': k}
            if k in ('set', 'hold'): o['key'] = r.randrange(len(KEYS)); o['v'] = s.val()
            elif k in ('get', 'eval'): o['key'] = r.randrange(len(KEYS))
            elif k in ('block', 'fn', 'try', 'timeout'): o['body'] = s.ops(d + 1, r.randrange(1, 4))
            elif k == 'spawn': o['thread'] = s.thread(d + 1)
            elif k == 'fork': o['proc'] = {'id': s.id(), 'body': s.ops(3, r.randrange(1, 5))}
            elif k in ('fset', 'fget'): o['peer'] = r.randrange(8); o['w'] = r.randrange(8)
            elif k == 'many': o['n'] = r.randrange(1, 40); o['v'] = s.val()
            elif k in ('churn',): o['n'] = r.randrange(1, 60)
            L.append(o)
        return L
    def id(s): s.th += 1; return s.th
    def thread(s, d): return {'id': s.id(), 'body': s.ops(d, s.r.randrange(1, 9 if s.big else 6)), 'end': s.r.choice(['ret', 'ret', 'throw', 'deep'])}
def gen(rng, tier):
    g = Gen(rng, tier != 'quick')
    th = []
    for _ in range(rng.randrange(1, 5)): t = g.thread(1); th.append(t)
    spec = {'threads': th, 'body': g.ops(1, rng.randrange(0, 5)), 'drop': rng.randrange(2)}
    return Case(spec, swarm(rng, gc=True, faults=[('spurious_wakeup', 100), ('stall', 10)]))
def vexp(v): n = v['n']; return {'num': '%d' % n, 'str': '"v" + String(%d)' % n, 'arr': '[%d, "e" + String(%d)]' % (n, n), 'map': '%%{"m": %d}["m"]' % n, 'nil': 'nil', 'deep': '[["x", [%d]], ["y" + String(%d)]]' % (n, n)}[v['k']]
def vtxt(v): n = v['n']; return {'num': '%d' % n, 'str': 'v%d' % n, 'arr': '[%d,e%d]' % (n, n), 'map': '%d' % n, 'nil': 'nil', 'deep': '[[x,[%d]],[y%d]]' % (n, n)}[v['k']]
def code(ops, me, np, ctr, L, ind=1):
    p = '  ' * ind
    for o in ops:
        k = o['k']; u = ctr[0] = ctr[0] + 1
        if me[1] == 'P' and k in ('fset', 'fget'): continue   # the other threads and what they hold are gone there
        if k == 'set': L.append(p + 'Thread.current()[%s] = %s;' % (KEYS[o['key']], vexp(o['v'])))
        elif k == 'hold': L.append(p + 'var c%d = Thread.current(); Thread.schedule(); c%d[%s] = %s; churn(5);' % (u, u, KEYS[o['key']], vexp(o['v'])))
        elif k == 'get': L.append(p + 'say(%s, Thread.current()[%s]);' % (me, KEYS[o['key']]))
        elif k == 'eval': L.append(p + 'var e%d = eval("return Thread.current()[%s];"); say(%s, e%d);' % (u, KEYS[o['key']].replace('"', '\\"'), me, u))
        elif k == 'churn': L.append(p + 'churn(%d);' % o['n'])
        elif k == 'gc': L.append(p + 'GC.collect(); churn(3);')
        elif k == 'yg': L.append(p + 'GC.collectYoung(); churn(3);')
        elif k == 'sched': L.append(p + 'Thread.schedule();')
        elif k == 'main': L.append(p + 'if (Thread.main()["mm"] != "mv1") { say(%s, "MAIN " + String(Thread.main()["mm"])); }' % me)
        elif k == 'sleep': L.append(p + 'sleep(1 / 100);')
        elif k == 'many': L.append(p + 'for (var i = 0; i < %d; i += 1) { Thread.current()["n" + String(i)] = [%d, i]; }' % (o['n'], o['v']['n'])); L.append(p + 'for (var i = 0; i < 45; i += 1) { say(%s, Thread.current()["n" + String(i)]); }' % me)
        elif k == 'block': L.append(p + '[1].each() -> (x%d) {' % u); code(o['body'], me, np, ctr, L, ind + 1); L.append(p + '};')
        elif k == 'fn': L.append(p + 'fun f%d() {' % u); code(o['body'], me, np, ctr, L, ind + 1); L.append(p + '} f%d();' % u)
        elif k == 'try': L.append(p + 'try {'); code(o['body'], me, np, ctr, L, ind + 1); L.append(p + '  bad(); } catch (Error e%d) { churn(2); }' % u)
        elif k == 'timeout': L.append(p + 'Timeout.timeout(50) -> () {'); code(o['body'], me, np, ctr, L, ind + 1); L.append(p + '};')
        elif k == 'spawn':
            t = o['thread']; L.append(p + 'var t%d = newThread(fun() {' % t['id']); body(t, np, ctr, L, ind + 1); L.append(p + '}); joinThread(t%d); churn(4);' % t['id'])
            for kk in range(len(KEYS)): L.append(p + 'sayc("C%d", t%d[%s]);' % (t['id'], t['id'], KEYS[kk]))
        elif k == 'fork':
            q = o['proc']; L.append(p + 'Process.waitpid(Process.fork(fun() {'); code(q['body'], '"P%d"' % q['id'], np, ctr, L, ind + 1)
            L.append(p + '  exit(0); }));')
        elif k == 'fset': L.append(p + 'peer(%d)["f%s"] = num(%s);' % (o['peer'] % np, me.strip('"'), me))
        elif k == 'fget': L.append(p + 'seen(%s, %d, %d, peer(%d)["fT%d"]);' % (me, o['peer'] % np, o['w'] % np + 1, o['peer'] % np, o['w'] % np + 1))
def body(t, np, ctr, L, ind):
    me = '"T%d"' % t['id']; code(t['body'], me, np, ctr, L, ind)
    p = '  ' * ind
    if t['end'] == 'throw': L.append(p + 'throw Error("end");')
    elif t['end'] == 'deep': L.append(p + 'bad();')
def render(spec):
    np = len(spec['threads']); ctr = [0]
    L = ['requireScript("timeout"); class Kl {} var gk0 = Kl(); var gk1 = Kl(); var ths = []; var cnt = %{}; var mx = Mutex();',
         'fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i), %{"k": i}]; } return n; }', 'fun bad() { [1].each() -> (x) { throw Error("b"); }; }',
         'fun say(w, v) { print w + " = " + String(v); }', 'fun sayc(w, v) { print w + " = " + String(v); }', 'fun peer(i) { while (ths.size < %d) { Thread.schedule(); } return ths[i]; }' % np,
         'fun num(w) { mx.lock(); var n = cnt[w]; if (n == nil) { n = 0; } n = n + 1; cnt[w] = n; mx.unlock(); return n; }', 'fun seen(w, p, k, v) { print w + " seen " + String(p) + " " + String(k) + " " + String(v); }', 'Thread.current()["mm"] = "mv" + String(1);']
    for i, t in enumerate(spec['threads']): L.append('fun th%d() {' % i); body(t, np, ctr, L, 1); L.append('}')
    L.append('fun maincode() {'); code(spec['body'], '"T0"', np, ctr, L, 1); L.append('}')
    L.append('fun startall() { var l = [];')
    for i in range(np): L.append('l << newThread(fun() { th%d(); });' % i)
    L.append('return l; } ths = startall();')
    L.append('maincode(); for (var i = 0; i < %d; i += 1) { joinThread(ths[i]); }' % np)
    L.append('GC.collect(); churn(50);')
    for i, t in enumerate(spec['threads']):
        for kk in range(len(KEYS)): L.append('sayc("C%d", ths[%d][%s]);' % (t['id'], i, KEYS[kk]))
        for w in range(0, np + 1): L.append('seen("END", %d, %d, ths[%d]["fT%d"]);' % (i, w, i, w))
    for kk in range(len(KEYS)): L.append('sayc("C0", Thread.current()[%s]);' % KEYS[kk])
    L.append('print "END";')
    return Job('\n'.join(L))
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    np = len(spec['threads']); exp = {}; fin = {}; fsets = {}; nerr = [0]
    def run(ops, me, st, nomany=False):
        out = exp.setdefault(me, [])
        for o in ops:
            k = o['k']
            if k in ('set', 'hold'): st[SAME.get(KEYS[o['key']], KEYS[o['key']])] = vtxt(o['v'])
            elif k in ('get', 'eval'): out.append(st.get(SAME.get(KEYS[o['key']], KEYS[o['key']]), 'nil'))
            elif k == 'many':
                for i in range(o['n']): st[('n', i)] = '[%d,%d]' % (o['v']['n'], i)
                for i in range(45): out.append(st.get(('n', i), 'nil'))
            elif k in ('block', 'fn', 'try', 'timeout'): run(o['body'], me, st)
            elif k == 'spawn':
                t = o['thread']; s2 = {}; thr(t, s2)
                exp.setdefault('C%d' % t['id'], []).extend(s2.get(SAME.get(x, x), 'nil') for x in KEYS)
            elif k == 'fork': run(o['proc']['body'], 'P%d' % o['proc']['id'], dict(st))
            elif k == 'fset': fsets.setdefault(me, []).append(o['peer'] % np)
    def thr(t, st):
        run(t['body'], 'T%d' % t['id'], st)
        if t['end'] != 'ret': nerr[0] += 1
    run(spec['body'], 'T0', fin.setdefault(0, {}))
    for t in spec['threads']: s = {}; thr(t, s); exp.setdefault('C%d' % t['id'], []).extend(s.get(SAME.get(x, x), 'nil') for x in KEYS)
    exp.setdefault('C0', []).extend(fin[0].get(SAME.get(x, x), 'nil') for x in KEYS)
    got = {}; seen = {}; lines = r.lines()
    for l in lines:
        w = l.split(' ')
        if len(w) >= 3 and w[1] == '=': got.setdefault(w[0], []).append(l.split(' = ', 1)[1])
        elif len(w) == 5 and w[1] == 'seen':
            n = 0 if w[4] == 'nil' else int(w[4]) if w[4].isdigit() else -1
            key = (w[0], w[2], w[3]); writer = 'T' + w[3]
            if n < 0: return [('foreign', 'thread %s read %r from storage %s written by %s' % (w[0], w[4], w[2], writer))]
            if n < seen.get(key, 0): return [('foreign', 'thread %s saw value %d after %d under %s in storage of %s' % (w[0], n, seen[key], writer, w[2]))]
            fs = fsets.get(writer, [])
            if n and (n > len(fs) or fs[n - 1] != int(w[2])): return [('foreign', 'thread %s read value %d stored by %s, which stores into %s' % (w[0], n, writer, fs))]
            seen[key] = n
            if w[0] == 'END':
                last = max([i + 1 for i, x in enumerate(fs) if x == int(w[2])], default=0)
                if n != last: return [('foreign-final', 'storage of thread %s ends with value %d of %s, the last stored was %d' % (w[2], n, writer, last))]
        elif l not in ('END', ''): return [('output', 'unexpected line %r' % l)]
    for me in sorted(set(exp) | set(got)):
        if got.get(me, []) != exp.get(me, []):
            a, b = got.get(me, []), exp.get(me, [])
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return [('storage', '%s read %s where its storage holds %s (read %d of %d) %s' % (me, a[i] if i < len(a) else 'nothing', b[i] if i < len(b) else 'nothing', i, len(b), r.err[-300:]))]
    if not lines or lines[-1] != 'END': return [('no-end', 'script did not finish: %r %s' % (lines[-3:], r.err[-400:]))]
    n = r.err.count('Uncaught error')
    if n != nerr[0]: return [('errors', '%d uncaught errors, %d expected: %s' % (n, nerr[0], r.err[-500:]))]
    return []
def tags(spec, r):
    t = []
    def go(ops):
        for o in ops:
            t.append('op:' + o['k'])
            for k in ('body',): go(o.get(k, []))
            if 'thread' in o: go(o['thread']['body']); t.append('end:' + o['thread']['end'])
            if 'proc' in o: go(o['proc']['body'])
    go(spec['body'])
    for x in spec['threads']: go(x['body']); t.append('end:' + x['end'])
    return t
