"""Thread ends, joins, detach and process exit in bounded time."""
from engine import *
LEVEL = 'exploration'
ASSUMPTIONS = ['no thread spins for ever while it holds a Mutex (the holder of a Mutex keeps the VM lock by design)', 'bound for process exit after the main thread finishes: 3 simulated seconds plus the step budget of the simulator']
KINDS = ['quick', 'work', 'error', 'errdeep', 'sleepthen', 'sched', 'nest', 'catch', 'yielder', 'forever', 'tick', 'longsleep', 'blockread', 'joinother', 'holdsleep', 'cls', 'selfexit', 'selfjoin']
ENDLESS = ('forever', 'tick', 'longsleep', 'blockread', 'holdsleep')
def gen(rng, tier):
    th = []
    for i in range(rng.randrange(1, 5 if tier == 'quick' else 7)):
        k = rng.choice(KINDS)
        if k in ENDLESS: fate = rng.choice(['leave', 'leave', 'detach', 'detachjoin'])
        else: fate = rng.choice(['join', 'join', 'join', 'joiner', 'leave', 'detach', 'late', 'twice'])
        th.append({'k': k, 'n': rng.randrange(1, 30), 'fate': fate})
    spec = {'threads': th, 'status': rng.choice([None, None, 0, 3, 7]), 'err': rng.random() < 0.15, 'hooks': rng.randrange(3), 'pause': rng.choice([0, 0, 0, 1, 2]), 'hookdo': rng.randrange(3)}
    if spec['pause'] or spec['hookdo'] == 2 or any(t['k'] in ('sleepthen', 'joinother') for t in th):
        for t in th:
            if t['k'] == 'forever': t['k'] = 'tick'
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 150), ('stall', 30), ('thread_eagain', 60)])
    if any(t['k'] in ('forever', 'tick') for t in th): c['p_gc_full'] = 0; c['p_gc_young'] = min(c.get('p_gc_young', 0), 200)
    return Case(spec, c)
def bodyof(t, i):
    n = t['n']
    b = {'quick': '', 'work': 'var r = 0; for (var q = 0; q < %d; q += 1) { r = r + f(q); }' % n, 'error': 'mark(%d, "pre"); throw Error("die%d");' % (i, i), 'errdeep': 'deep(%d, "die%d");' % (n % 6, i),
         'sleepthen': 'sleep(%d / 10);' % n, 'sched': 'for (var q = 0; q < 4; q += 1) { Thread.schedule(); }', 'nest': 'var inn = newThread(fun() { mark(%d, "inner"); }); joinThread(inn); if (got[%d].size != 1) { print "EARLY inner %d"; }' % (i, i, i),
         'catch': 'try { deep(3, "c"); } catch (Error e) { mark(%d, "caught"); }' % i, 'yielder': 'got.each() -> (x) { Thread.schedule(); };', 'forever': 'while (on) { f(3); }', 'tick': 'while (on) { for (var q = 0; q < 20; q += 1) { f(q); } sleep(1 / 20); }', 'longsleep': 'sleep(100000);',
         'blockread': 'pp[0].read(1);', 'joinother': 'var inn = newThread(fun() { sleep(1); mark(%d, "inner"); }); joinThread(inn);' % i, 'holdsleep': 'var m = Mutex(); m.lock(); f(%d); m.unlock(); sleep(100000);' % n,
         'cls': 'class Z%d { init(n) { this.n = n; } v() { return this.n; } } mark(%d, "z" + String(Z%d(%d).v()));' % (i, i, i, n), 'selfexit': 'mark(%d, "pre"); exit(5);' % i,
         'selfjoin': 'try { joinThread(Thread.current()); } catch (Error e) { mark(%d, e.message); } Thread.schedule(); f(%d);' % (i, n),
         'mutual': 'try { newThread(fun() { var me = Thread.current(); try { var inn = newThread(fun() { %s try { joinThread(me); } catch (Error e) { mark(%d, e.message); } }); %s joinThread(inn); } catch (Error e) { mark(%d, e.message); } }); } catch (Error e) { mark(%d, e.message); } while (got[%d].size < 1) { sleep(1 / 50); }' % ('Thread.schedule();' * (n % 3), i, 'Thread.schedule();' * (n // 3 % 3), i, i, i)}[t['k']]
    return 'fun t%d() { %s done[%d] = done[%d] + 1; print "DONE %d"; }' % (i, b, i, i, i)
def ends(t): return t['k'] not in ENDLESS
def completes(t): return ends(t) and t['k'] not in ('error', 'errdeep', 'selfexit')
def render(spec):
    T = spec['threads']
    L = ['fun f(q) { return q * 3 % 7; }', 'fun mark(i, s) { got[i] << s; }', 'fun deep(d, s) { if (d == 0) { throw Error(s); } deep(d - 1, s); }', 'var on = 1; var pp = IO.pipe();',
         'var done = [%s]; var got = [%s]; var ths = [];' % (','.join('0' for _ in T), ','.join('[]' for _ in T))]
    for h in range(spec['hooks']): L.append('atExit(fun() { %s print "HOOK %d"; });' % (['', 'Thread.schedule();', 'sleep(1);'][spec['hookdo']], h))
    for i, t in enumerate(T): L.append(bodyof(t, i))
    L.append('fun start(i, f) { try { var t = newThread(f); ths << t; return 1; } catch (Error e) { print "NOSTART ${i} ${e.message}"; ths << nil; return 0; } }')
    for i, t in enumerate(T): L.append('start(%d, fun() { t%d(); });' % (i, i))
    for i, t in enumerate(T):
        if t['fate'] == 'detach': L.append('if (ths[%d] != nil) { ths[%d].detach(); }' % (i, i))
        elif t['fate'] == 'detachjoin': L.append('if (ths[%d] != nil) { ths[%d].detach(); try { joinThread(ths[%d]); print "BADJOIN %d"; } catch (Error e) { print "JOINERR %d ${e.message}"; Thread.schedule(); } }' % (i, i, i, i, i))
        elif t['fate'] in ('join', 'twice'): L.append('if (ths[%d] != nil) { joinThread(ths[%d]); print "JOINED %d ${done[%d]} " + got[%d].join(","); }' % (i, i, i, i, i))
        elif t['fate'] == 'joiner': L.append('if (ths[%d] != nil) { start(%d, fun() { joinThread(ths[%d]); print "JOINED %d ${done[%d]} " + got[%d].join(","); }); }' % (i, 100 + i, i, i, i, i))
        if t['fate'] == 'twice': L.append('if (ths[%d] != nil) { try { joinThread(ths[%d]); print "AGAIN %d"; } catch (Error e) { print "AGAIN %d"; } }' % (i, i, i, i))
    if spec['pause']: L.append('sleep(%d);' % spec['pause'])
    for i, t in enumerate(T):
        if t['fate'] == 'late': L.append('if (ths[%d] != nil) { joinThread(ths[%d]); print "JOINED %d ${done[%d]} " + got[%d].join(","); }' % (i, i, i, i, i))
    L.append('print "MAINEND";')
    if spec['err']: L.append('throw Error("maindies");')
    elif spec['status'] is not None: L.append('exit(%d);' % spec['status'])
    return Job('\n'.join(L))
def marks(t, i):
    k = t['k']
    return {'error': ['pre'], 'nest': ['inner'], 'catch': ['caught'], 'joinother': ['inner'], 'cls': ['z%d' % t['n']], 'selfexit': ['pre'], 'selfjoin': ['Error joining thread'], 'mutual': ['Error joining thread']}.get(k, [])
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    T = spec['threads']; lines = r.lines()
    nostart = set(int(l.split()[1]) for l in lines if l.startswith('NOSTART'))
    fault = r.faults.get('thread_eagain', (0, 0))[0] > 0
    if nostart and not fault: return [('nostart', 'thread creation failed without a fault')]
    innerfail = fault and sum(1 for l in lines if l.startswith('NOSTART')) < r.faults['thread_eagain'][0]
    # a thread body's own newThread may fail: those threads die with that error
    mainend = [i for i, l in enumerate(lines) if l == 'MAINEND']
    if len(mainend) != 1: return [('main', 'main thread did not finish once: %r err %s' % (lines[-6:], r.err[-600:]))]
    me = mainend[0]
    dn = [l for l in lines if l.startswith('DONE')]
    if len(set(dn)) != len(dn): v.append(('twice', 'a thread body ran twice: %r' % dn))
    if any(l.startswith('EARLY') for l in lines[:me]): v.append(('early-join', 'joinThread returned before the joined thread had finished'))
    for li, l in enumerate(lines):
        if l.startswith('JOINED'):
            if li > me: continue   # the joined thread may have been ended by the exit
            p = l.split(' ', 3); i = int(p[1]); t = T[i]; inner = innerfail and t['k'] in ('nest', 'joinother', 'mutual')
            exp = '1' if completes(t) else '0'
            if p[2] != exp and not inner: v.append(('early-join', 'thread %d (%s) joined with completion count %s, expected %s' % (i, t['k'], p[2], exp)))
            elif p[3] != ','.join(marks(t, i)) and not inner: v.append(('visibility', 'thread %d (%s): results seen after join %r, expected %r' % (i, t['k'], p[3], marks(t, i))))
    for i, t in enumerate(T):
        if i in nostart: continue
        j = [n for n, l in enumerate(lines) if l.startswith('JOINED %d ' % i)]
        if t['fate'] in ('join', 'late', 'twice') and len(j) != 1: v.append(('join', 'thread %d joined %d times' % (i, len(j))))
        if t['fate'] == 'detachjoin' and [l for l in lines if l.startswith(('JOINERR %d ' % i, 'BADJOIN %d' % i))] != ['JOINERR %d Error joining thread' % i]: v.append(('join-detached', 'joining detached thread %d: %r' % (i, [l for l in lines if 'JOIN' in l])))
        if t['fate'] == 'twice' and lines.count('AGAIN %d' % i) != 1: v.append(('join-again', 'joining thread %d again did not return once' % i))
        if t['k'] in ENDLESS and 'DONE %d' % i in lines: v.append(('endless', 'thread %d (%s) finished' % (i, t['k'])))
        if t['fate'] in ('join', 'late', 'twice') and t['k'] in ('error', 'errdeep') and 'die%d' % i not in r.err: v.append(('report', 'uncaught error of joined thread %d not reported: %s' % (i, r.err[:400])))
    exp = spec['status'] or 0
    if spec['err']:
        if r.rootstatus == 0: v.append(('status', 'status 0 after an uncaught error in the main thread'))
    elif r.rootstatus != exp << 8: v.append(('status', 'exit status %d expected %d; err %s' % (r.rootstatus, exp, r.err[-500:])))
    hooks = [l for l in lines if l.startswith('HOOK')]
    if hooks != ['HOOK %d' % h for h in reversed(range(spec['hooks']))]: v.append(('hooks', 'exit hooks %r' % hooks))
    tme = [x.now for x in r.recs if x.which == 1 and b'MAINEND' in x.data]
    stalls = r.faults.get('stall', (0, 0))[0]
    if tme and not stalls and r.now - tme[0] > (3 + 3 * spec['hooks']) * 10**9: v.append(('slow-exit', 'exit took %.3f simulated seconds after the main thread finished' % ((r.now - tme[0]) / 1e9)))
    return v
def tags(spec, r): return ['%s/%s' % (t['k'], t['fate']) for t in spec['threads']]
