"""Signal traps: every delivery runs the handler in force, once, on the main thread, soon; nothing else changes."""
import re
from engine import *
LEVEL = 'exploration'
WANTLOG = True
ASSUMPTIONS = ['a delivery is a run of the process-level handler as the simulator logs it (standard signals coalesce while pending, as on Linux), or a Process.signal to the own process', 'a blocking call of the main thread other than a Lox-level wait restarts (SA_RESTART), so the trap runs at the latest when that call returns']
SIGS = {'QUIT': 3, 'USR1': 10, 'USR2': 12, 'HUP': 1, 'TERM': 15, 'ALRM': 14}
KINDS = ['sum', 'sum', 'sum', 'sleep', 'sleep', 'join', 'read', 'mutex', 'each', 'eval', 'tryc', 'retrap', 'retrap', 'self', 'thsig', 'fork', 'file', 'mapeach', 'str', 'deep', 'system', 'untrapped', 'class']
def gen(rng, tier):
    sigs = rng.sample(sorted(SIGS), rng.randrange(1, 4))
    n = rng.randrange(2, 7 if tier == 'quick' else 14)
    steps = [{'k': rng.choice(KINDS), 's': rng.choice(sigs), 'n': rng.choice([3, 20, 60, 200]), 'd': rng.choice([1, 5, 20, 100])} for _ in range(n)]
    spec = {'sigs': [{'s': s, 'body': rng.choice(['none', 'alloc', 'calls', 'sleep', 'gc', 'try', 'blk'])} for s in sigs], 'steps': steps, 'threads': [{'n': rng.randrange(5, 60), 'd': rng.choice([0, 1, 5])} for _ in range(rng.randrange(0, 3))],
            'sender': [{'s': rng.choice(sigs), 'd': rng.choice([0, 1, 1, 3, 10])} for _ in range(rng.choice([0, 0, 3, 10]))], 'end': 1500}
    est = sum(s['d'] for s in steps) + 60
    ev = [(rng.randrange(300000000, (300 + est) * 1000000), 1, 1000, SIGS[rng.choice(sigs)]) for _ in range(rng.randrange(1, 12 if tier == 'quick' else 30))]
    spec['steps'] = steps
    if rng.random() < 0.3 and ev:  # bursts
        t = ev[0][0]; ev += [(t + rng.randrange(2000000), 1, 1000, SIGS[rng.choice(sigs)]) for _ in range(rng.randrange(2, 10))]
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 200), ('stall', 10), ('sigaction_fail', 200)])
    c['p_gc_full'] = min(c.get('p_gc_full', 0), 100); c['p_gc_young'] = min(c.get('p_gc_young', 0), 2000)
    c['tick_ns'] = rng.choice([50, 200, 500, 1000])
    c['quantum_lo'] = min(20, c.get('quantum_lo', 20)); c['quantum_hi'] = min(800, c.get('quantum_hi', 800)); c['p_quantum'] = 1000; c['fine_bb'] = max(c.get('fine_bb', 60), 20)
    return Case(spec, c, ev)
def sumv(n): return sum(q * 3 % 7 for q in range(n))
def code(s, j):
    """(lines, expected value or None)"""
    n, d, k = s['n'], s['d'], s['k']
    P = lambda e: 'print "V %d " + String(%s);' % (j, e)
    if k == 'sum': return ['var s%d = 0; for (var q = 0; q < %d; q += 1) { s%d = s%d + f(q); }' % (j, n * 5, j, j), P('s%d' % j)], str(sumv(n * 5))
    if k == 'sleep': return ['sleep(%d / 1000);' % d, P('1')], '1'
    if k == 'join': return ['var r%d = [0]; joinThread(newThread(fun() { sleep(%d / 1000); r%d[0] = f(%d); }));' % (j, d, j, n), P('r%d[0]' % j)], str(n * 3 % 7)
    if k == 'read': return ['var p%d = IO.pipe(); var w%d = newThread(fun() { sleep(%d / 1000); p%d[1].write("hello"); }); var t%d = p%d[0].read(5); joinThread(w%d); p%d[0].close(); p%d[1].close();' % (j, j, d, j, j, j, j, j, j), P('t%d' % j)], 'hello'
    if k == 'mutex': return ['var c%d = 0; for (var q = 0; q < %d; q += 1) { mx.lock(); c%d = c%d + 1; mx.unlock(); }' % (j, n, j, j), P('c%d' % j)], str(n)
    if k == 'each': return ['var e%d = [0]; [1,2,3,4].each() -> (x) { e%d[0] = e%d[0] + f(x) + x; };' % (j, j, j), P('e%d[0]' % j)], str(sum(x * 3 % 7 + x for x in (1, 2, 3, 4)))
    if k == 'eval': return ['var v%d = eval("var z = 0; while (z < %d) { z = z + 1; } z * 2;");' % (j, n), P('1')], '1'
    if k == 'tryc': return ['var c%d = ""; for (var q = 0; q < 5; q += 1) { try { f(q); throw ArgumentError("x"); } catch (ArgumentError e) { c%d = c%d + e.message; } ensure { c%d = c%d + "."; } }' % (j, j, j, j, j), P('c%d' % j)], 'x.' * 5
    if k == 'fork': return ['var k%d = Process.fork(fun() { sleep(%d / 1000); var z = 0; for (var q = 0; q < %d; q += 1) { z = z + f(q); } exit(z %% 50); });' % (j, d, n), 'var st%d = Process.waitpid(k%d);' % (j, j), P('Process.WEXITSTATUS(st%d)' % j)], str(sumv(n) % 50)
    if k == 'file': return ['var h%d = File.create("/work/f%d"); h%d.write("abc%d"); h%d.close();' % (j, j, j, n, j), P('File.read("/work/f%d")' % j)], 'abc%d' % n
    if k == 'mapeach': return ['var g%d = [0]; %%{"a": 1, "b": 2}.each() -> (k, v) { g%d[0] = g%d[0] + v + f(v); };' % (j, j, j), P('g%d[0]' % j)], str(1 + 3 + 2 + 6)
    if k == 'str': return ['var o%d = ""; for (var q = 0; q < %d; q += 1) { o%d = o%d + String(q %% 10); }' % (j, min(n, 60), j, j), P('o%d' % j)], ''.join(str(q % 10) for q in range(min(n, 60)))
    if k == 'deep': return [P('deep(%d)' % min(n, 60))], str(min(n, 60))
    if k == 'class': return ['var ob%d = Acc(%d); ob%d.run(%d);' % (j, n, j, n), P('ob%d.total' % j)], str(n + sumv(n))
    if k == 'system': return ['Process.system("exit 0");', P('1')], '1'
    if k == 'self': return ['print "SELF %d"; Process.signal(1000, %d);' % (SIGS[s['s']], SIGS[s['s']]), P('1')], '1'
    if k == 'thsig': return ['joinThread(newThread(fun() { print "SELF %d"; Process.signal(1000, %d); }));' % (SIGS[s['s']], SIGS[s['s']]), P('1')], '1'
    if k == 'untrapped': return ['Process.signal(1000, Signal::WINCH);', P('1')], '1'
    return None, None
HB = {'none': '', 'alloc': 'var a = []; for (var i = 0; i < 8; i += 1) { a << ("s" + String(i)); } hz = a.join("");', 'calls': 'f(3); deep(6);', 'sleep': 'sleep(1 / 500);', 'gc': 'GC.collectYoung();', 'try': 'try { throw Error("in handler"); } catch (Error e) { hz = e.message; }', 'blk': '[1,2].each() -> (x) { f(x); };'}
def render(spec):
    body = {s['s']: s['body'] for s in spec['sigs']}
    def trap(name, ver):
        num = SIGS[name]
        return 'print "TRAPPING %d %d"; var tr%d_%d = false; while (!tr%d_%d) { try { Signal.trap(%d, fun() { print "H %d %d " + String(Thread.current()["m"]); %s }); tr%d_%d = true; } catch (Error e) { print "TRAPFAIL %d %d"; } } print "TRAPPED %d %d";' % (num, ver, num, ver, num, ver, num, num, ver, HB[body[name]], num, ver, num, ver, num, ver)
    L = ['var tm0 = Timer(); var hz = ""; var mx = Mutex(); var lst = 0; Thread.current()["m"] = "main"; var bg = [];', 'fun f(q) { return q * 3 % 7; } fun deep(n) { if (n == 0) { return 0; } return 1 + deep(n - 1); }',
         'class Acc { init(t) { this.total = t; } run(n) { for (var q = 0; q < n; q += 1) { this.total = this.total + f(q); } } }', 'fun now() { return File.read("/sim/now"); }', 'fun main() {']
    ver = {}
    for s in spec['sigs']: ver[s['s']] = 1; L.append(trap(s['s'], 1))
    L.append('while ((Timer() - tm0).seconds() < 3 / 10) { sleep(1 / 100); }')
    for i, t in enumerate(spec['threads']): L.append('bg << newThread(fun() { var z = 0; for (var q = 0; q < %d; q += 1) { z = z + f(q); %s } });' % (t['n'], 'sleep(%d / 1000);' % t['d'] if t['d'] else 'Thread.schedule();'))
    if spec['sender']: L.append('var sp = Process.fork(fun() { ' + ' '.join('Process.signal(1000, %d); %s' % (SIGS[s['s']], 'sleep(%d / 1000);' % s['d'] if s['d'] else '') for s in spec['sender']) + ' _exit(0); });')
    for j, s in enumerate(spec['steps']):
        if s['k'] == 'retrap':
            ver[s['s']] = ver.get(s['s'], 0) + 1
            if s['s'] in body: L.append('{ ' [:0] + trap(s['s'], ver[s['s']]))
        else: L += code(s, j)[0]
    if spec['sender']: L.append('Process.waitpid(sp);')
    L += ['for (var i = 0; i < bg.size; i += 1) { joinThread(bg[i]); }', 'while ((Timer() - tm0).seconds() < %d) { sleep(1 / 50); }' % (spec['end'] // 1000 + 1), '}', 'main();', 'print "END";']
    return Job('\n'.join(L))
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    if r.procs and any(p[0] == 1000 and p[2] == 2 for p in r.procs): return []
    recs = [(rc.seq, rc.now, rc.task, l) for rc in r.recs if rc.which == 1 and rc.pid == 1000 for l in rc.data.decode('latin-1').splitlines()]
    lines = [x[3] for x in recs]
    n0 = len(spec['sigs'])
    trapped = [l for l in lines if l.startswith('TRAPPED') and l.endswith(' 1')]
    if len(trapped) < n0 and r.rootstatus & 127: return []  # the default action of a signal before its first trap
    if r.rootstatus != 0 or not lines or lines[-1] != 'END': return [('status', 'status %d out %r err %s' % (r.rootstatus, lines[-3:], r.err[-800:]))]
    if r.err.strip(): return [('stderr', r.err[:800])]
    got = dict(l.split(' ', 2)[1:] for l in lines if l.startswith('V ') and l.count(' ') >= 2)
    for j, s in enumerate(spec['steps']):
        _, want = code(s, j)
        if want is not None and got.get(str(j)) != want: v.append(('value:' + s['k'], 'step %d (%s) gave %r instead of %r' % (j, s['k'], got.get(str(j)), want)))
    deliv = {}
    for t, sig in re.findall(r'(?m)^E\d+ (\d+) p\d+ t\d+ handler (\d+) pid 1000$', r.log.decode('latin-1')): deliv.setdefault(int(sig), []).append(int(t) // 1000)
    runs = {}; lo = {}; hi = {}
    for seq, now, task, l in recs:
        w = l.split(' ')
        if w[0] == 'TRAPPING': hi[int(w[1])] = int(w[2])
        elif w[0] == 'TRAPPED': lo[int(w[1])] = int(w[2])
        elif w[0] == 'SELF': deliv.setdefault(int(w[1]), []).append(now // 1000)
        elif w[0] == 'H':
            s, ver = int(w[1]), int(w[2])
            if not lo.get(s, 0) <= ver <= hi.get(s, 0): v.append(('version', 'a handler of version %d ran for signal %d, in force: %d..%d' % (ver, s, lo.get(s, 0), hi.get(s, 0))))
            if w[3] != 'main' or task != 0: v.append(('thread', 'handler ran on another thread: %s' % l))
            runs.setdefault(s, []).append(now // 1000)
    stall = r.faults.get('stall', (0, 0))[0] > 0
    maxblk = max([s['d'] for s in spec['steps']] + [20]) * 1000 * 4
    for s in sorted(set(runs) | set(deliv)):
        d, h = sorted(deliv.get(s, [])), runs.get(s, [])
        if len(d) != len(h): v.append(('lost' if len(h) < len(d) else 'extra', 'signal %d: delivered %d times, its handler ran %d times' % (s, len(d), len(h)))); continue
        for a, b in zip(d, h):
            if b < a - 1: v.append(('early', 'signal %d: handler ran at %d us, delivery at %d' % (s, b, a)))
            if not stall and b > a + maxblk + 1500000: v.append(('late', 'signal %d: delivered at %d us, handler at %d' % (s, a, b)))
    return v
def tags(spec, r): return [s['k'] for s in spec['steps']] + ['h-' + s['body'] for s in spec['sigs']]
