"""Thread#throw: the error is raised in the target, in no other thread, once, and caught by the innermost matching handler."""
from engine import *
LEVEL = 'exploration'
ASSUMPTIONS = ['at most one thrown error is pending for a thread at any time: throwers take turns, each waits until the previous error was seen', 'targets blocked in a system call other than sleep get the error when the call returns, so the programs complete those calls']
WAITS = ['ensure2', 'lock', 'meth', 'iter', 'select', 'sleep', 'spin', 'sched', 'read', 'join', 'nestcall', 'inner', 'block', 'eval', 'innerwrong', 'ensure', 'longsleep', 'map']
def gen(rng, tier):
    th = []
    for i in range(rng.randrange(1, 4)):
        rounds = [{'w': rng.choice(WAITS), 'cls': rng.choice(['A', 'B', 'Error']), 'pre': rng.random() < 0.3, 'depth': rng.randrange(4), 'wrap': [rng.choice(['each', 'map', 'select', 'each2']) for _ in range(rng.choice([0, 0, 1, 2, 3]))]} for _ in range(rng.randrange(1, 4 if tier == 'quick' else 7))]
        th.append({'steps': rounds, 'last': rng.choice(['none', 'none', 'uncaught', 'wrongclass'])})
    spec = {'threads': th, 'by': rng.randrange(2), 'mainround': rng.choice([0, 0, 1, 2]), 'bystander': rng.random() < 0.5}
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 150), ('stall', 20)])
    c['p_gc_full'] = min(c.get('p_gc_full', 0), 100); c['p_gc_young'] = min(c.get('p_gc_young', 0), 2000); c['max_bb'] = 1000000000; c['sys_ns'] = 5000; c['p_quantum'] = 1000; c['quantum_lo'] = min(20, c.get('quantum_lo', 20)); c['quantum_hi'] = min(800, c.get('quantum_hi', 800))
    return Case(spec, c)
def wrapped(code, layers, key):
    """the code in blocks called by native methods"""
    for n, l in enumerate(layers):
        code = {'each': '[1].each() -> (w%d) { %s };', 'map': 'var z%d = [1].map() -> (w%d) { %s return 1; };', 'select': '[1, 2].select() -> (w%d) { %s return true; };', 'each2': '[[1], [2]].each() -> (w%d) { %s };'}[l] % ((n, n, code) if l == 'map' else (n, code))
    return code
def wait(w, key, d, mark):
    """code that announces itself and goes on until an error arrives"""
    inner = {'inner': 'try { MARK while (on) { sleep(1 / 20); } } catch (Other e) { print "WRONG"; }', 'innerwrong': 'try { MARK sleep(1000); } catch (ArgumentError e) { print "WRONG"; } ensure { log << "i%s"; }' % key,
             'ensure': 'try { MARK while (on) { f(2); } } ensure { log << "i%s"; }' % key, 'ensure2': 'var q = 1; try { try { MARK while (on) { q = f(q); } } ensure { log << "i%s"; } } ensure { log << "j"; }' % key}
    if w in inner: return inner[w].replace('MARK', mark)
    return mark + {'sleep': 'while (on) { sleep(1 / 10); }', 'longsleep': 'sleep(100000);', 'spin': 'while (on) { f(1); }', 'sched': 'while (on) { Thread.schedule(); }', 'read': 'pp%s[0].read(1); while (on) { sleep(1 / 10); }' % key,
            'join': 'joinThread(newThread(fun() { sleep(1 / 10); })); while (on) { sleep(1 / 10); }', 'nestcall': 'deepwait(%d);' % (d + 1), 'lock': 'mx%s.lock(); mx%s.unlock(); while (on) { mx%s.lock(); f(2); mx%s.unlock(); }' % (key, key, key, key),
            'block': '[1].each() -> (x) { while (on) { sleep(1 / 10); } };', 'eval': 'eval("while (on) { sleep(1 / 10); }");', 'map': 'while (on) { m["k"] = [f(3)]; }', 'meth': 'Waiter().run(%d);' % d, 'iter': 'while (on) { foreach (z in [1,2,3]) { f(z); } }', 'catcher': 'while (on) { try { throw B("own"); } catch (B e) { if (e.message != "own") { throw e; } } }',
            'select': 'IO.select([pp%s[0]], [], [], 1 / 10); while (on) { sleep(1 / 10); }' % key}[w]
def render(spec):
    T = spec['threads']
    L = ['class A < Error {} class B < A {} class Other < Error {}', 'var on = 1; var log = []; var m = Map();', 'fun f(q) { return q * 3 % 7; }', 'class Waiter { run(d) { this.d = d; while (on) { this.d = f(this.d); sleep(1 / 20); } } }', 'fun deepwait(d) { if (d == 0) { while (on) { sleep(1 / 10); } } deepwait(d - 1); }',
         'var ready = [%s]; var seen = [%s]; var ths = [];' % (','.join('0' for _ in range(len(T) + 1)), ','.join('0' for _ in range(len(T) + 1))), 'var by = 0;']
    allr = []
    for i, t in enumerate(T):
        L.append('fun t%d() { var loc = %d;' % (i, i * 11 + 5))
        for j, s in enumerate(t['steps']):
            key = '%d_%d' % (i, j)
            if s['w'] == 'lock': L.insert(1, 'var mx%s = Mutex();' % key)
            if s['w'] in ('read', 'select'): L.insert(1, 'var pp%s = IO.pipe();' % key)
            if s['pre']: L.append('  try { throw B("own"); } catch (A e) { f(1); }')
            L.append('  try { %s print "NOERR %s"; } catch (A e) { print "GOT %s " + e.message + " " + String(loc) + " " + String(e.objectId == sent%s); } catch (Error e) { print "GOTE %s " + e.message + " " + String(loc) + " " + String(e.objectId == sent%s); }' % (wrapped(wait(s['w'], key, s['depth'], 'ready[%d] = %d; ' % (i, j + 1)), s.get('wrap', []), key), key, key, key, key, key))
            L.insert(1, 'var sent%s = -1;' % key)
            L.append('  seen[%d] = %d;' % (i, j + 1))
        if t['last'] == 'uncaught': L.append('  ready[%d] = 99; while (on) { sleep(1 / 10); }' % i)
        elif t['last'] == 'wrongclass': L.append('  try { ready[%d] = 99; sleep(1000); } catch (ArgumentError e) { print "WRONG"; }' % i)
        else: L.append('  print "FIN %d " + String(loc);' % i)
        L.append('}')
    if spec['bystander']: L.append('var bt = newThread(fun() { for (var z = 0; z < 50; z += 1) { by = by + f(z); Thread.schedule(); } print "BY"; });')
    for i in range(len(T)): L.append('ths << newThread(fun() { t%d(); });' % i)
    def thrower(i, t, o):
        for j, s in enumerate(t['steps']):
            key = '%d_%d' % (i, j)
            o.append('while (ready[%d] < %d) { sleep(1 / 100); }' % (i, j + 1))
            o.append('sleep(%s);' % ['1 / 100', '0', '1 / 20'][s['depth'] % 3])
            o.append('var e%s = %s("m%s"); sent%s = e%s.objectId; ths[%d].throw(e%s);' % (key, s['cls'], key, key, key, i, key))
            if s['w'] == 'read': o.append('pp%s[1].write("x");' % key)
            o.append('while (seen[%d] < %d) { sleep(1 / 100); }' % (i, j + 1))
        if t['last'] != 'none': o += ['while (ready[%d] < 99) { sleep(1 / 100); }' % i, 'ths[%d].throw(A("last%d"));' % (i, i)]
    if spec['by'] == 0:
        for i, t in enumerate(T):
            o = []; thrower(i, t, o); L.append('var th%d = newThread(fun() { %s });' % (i, '\n  '.join(o)))
        for i in range(len(T)): L.append('joinThread(th%d);' % i)
    else:
        for i, t in enumerate(T): o = []; thrower(i, t, o); L += o
    for k in range(spec['mainround']):  # the main thread as a target
        L.append('var mainT = Thread.current(); var mgo%d = 0; var mt%d = newThread(fun() { while (mgo%d == 0) { Thread.schedule(); } mainT.throw(A("main%d")); });' % (k, k, k, k))
        L.append('try { mgo%d = 1; sleep(1000); print "NOERR main"; } catch (A e) { print "MAIN " + e.message; } joinThread(mt%d);' % (k, k))
    L.append('for (var i = 0; i < ths.size; i += 1) { joinThread(ths[i]); }')
    if spec['bystander']: L.append('joinThread(bt);')
    L.append('joinThreadDone();' if False else 'print "LOG " + String(log.size); print "END";')
    return Job('\n'.join(L))
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    T = spec['threads']; lines = r.lines(); exp = []
    if r.rootstatus != 0 or not lines or lines[-1] != 'END': return [('status', 'status %d, last lines %r, err %s' % (r.rootstatus, lines[-4:], r.err[-700:]))]
    nlog = 0
    for i, t in enumerate(T):
        mine = [l for l in lines if l.split(' ')[0] in ('GOT', 'GOTE', 'NOERR') and l.split(' ')[1].startswith('%d_' % i)] + [l for l in lines if l.startswith('FIN %d' % i)]
        e = []
        for j, s in enumerate(t['steps']):
            e.append('%s %d_%d m%d_%d %d true' % ('GOTE' if s['cls'] == 'Error' else 'GOT', i, j, i, j, i * 11 + 5)); nlog += {'innerwrong': 1, 'ensure': 1, 'ensure2': 2}.get(s['w'], 0)
        if t['last'] == 'none': e.append('FIN %d %d' % (i, i * 11 + 5))
        if mine != e: v.append(('delivery', 'thread %d: expected %r got %r; err %s' % (i, e, mine, r.err[:300])))
        n = r.err.count('last%d"' % i)
        if n != (t['last'] != 'none'): v.append(('uncaught', 'thread %d: its uncaught error was reported %d times' % (i, n)))
    if 'WRONG' in r.out: v.append(('wrong-handler', 'a handler for another class ran'))
    if r.err.count('Uncaught') != sum(t['last'] != 'none' for t in T): v.append(('collateral', 'errors in other threads: ' + r.err[:600]))
    if [l for l in lines if l.startswith('MAIN')] != ['MAIN main%d' % k for k in range(spec['mainround'])]: v.append(('main-delivery', repr([l for l in lines if l.startswith('MAIN') or l.startswith('NOERR')])))
    if spec['bystander'] and lines.count('BY') != 1: v.append(('bystander', 'another thread was disturbed: ' + r.err[:400]))
    if not v and 'LOG %d' % nlog not in lines: v.append(('ensure', 'ensure blocks of targets ran %r times, expected %d' % ([l for l in lines if l.startswith('LOG')], nlog)))
    return v
def tags(spec, r): return ['wrap%d' % len(s.get('wrap', [])) for t in spec['threads'] for s in t['steps']] + ['w:' + s['w'] for t in spec['threads'] for s in t['steps']] + ['last:' + t['last'] for t in spec['threads']]
