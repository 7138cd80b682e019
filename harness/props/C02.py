"""Mutex: exclusion and progress, judged on the printed history of critical sections."""
from engine import *
LEVEL = 'exploration'
ASSUMPTIONS = ['mutexes are taken in one global order, so the generated programs cannot deadlock by themselves', 'no program blocks on another thread while it holds a Mutex: the VM keeps its lock for the holder of any Mutex']
INNER = ['none', 'sched', 'sleep', 'loop', 'print', 'throw', 'alloc', 'call', 'eval', 'pipe', 'spawn', 'gc']
ENDS = ['normal', 'normal', 'normal', 'hold', 'errhold', 'holdtwo', 'callhold', 'outoforder', 'ooomid']
def gen(rng, tier):
    nm = rng.randrange(1, 4); th = []
    big = tier != 'quick'
    for _ in range(rng.randrange(2, 6 if big else 5)):
        st = []
        for _ in range(rng.randrange(1, 7 if big else 4)):
            k = rng.randrange(1, nm + 1)
            st.append({'m': sorted(rng.sample(range(nm), k)) if rng.random() < 0.3 else [rng.randrange(nm)], 'in': rng.choice(INNER), 'n': rng.randrange(1, 40), 'un': rng.randrange(2), 'gap': rng.choice(['none', 'none', 'sched', 'sleep', 'loop'])})
        th.append({'steps': st, 'end': rng.choice(ENDS), 'em': rng.randrange(nm)})
    spec = {'nm': nm, 'threads': th, 'mainsteps': rng.random() < 0.3, 'opsty': rng.randrange(3), 'detach': rng.random() < 0.15}
    return Case(spec, swarm(rng, gc=True, faults=[('spurious_wakeup', 200), ('stall', 30)]))
def gaps(k, n):
    return {'none': '', 'sched': 'Thread.schedule();', 'sleep': 'sleep(%d / 100);' % n, 'loop': 'for (var q = 0; q < %d; q += 1) { work(q); }' % n}[k]
def inner(k, n, uid):
    return {'none': '', 'sched': 'Thread.schedule(); Thread.schedule();', 'sleep': 'sleep(%s);' % ('%d / 100' % n if n % 2 else '1'), 'loop': 'for (var q = 0; q < %d; q += 1) { work(q); }' % (n * 3),
            'print': 'print "p%d";' % uid, 'throw': 'try { bad(%d); } catch (Error e) { work(1); }' % n, 'alloc': 'for (var q = 0; q < %d; q += 1) { var g = [q, "s${q}"]; }' % n,
            'call': 'rec(%d);' % (n % 9), 'eval': 'eval("work(%d);");' % n, 'pipe': 'pp[1].write("x"); pp[0].read(1);', 'spawn': 'aux << newThread(fun() { work(%d); });' % n, 'gc': 'GC.collect();'}[k]
def section(ind, t, s, j, uid):
    o = []
    for m in s['m']: o.append('mx[%d].lock(); own[%d] << "%d.%d"; if (own[%d].size != 1) { print "OVERLAP %d"; } print "L %d %d";' % (m, m, t, j, m, m, m, t))
    o.append(inner(s['in'], s['n'], uid))
    for m in s['m']: o.append('if (own[%d].size != 1 or own[%d][0] != "%d.%d") { print "STOLEN %d"; } cnt[%d] = cnt[%d] + 1;' % (m, m, t, j, m, m, m))
    for m in (s['m'] if s['un'] else s['m'][::-1]): o.append('own[%d].pop(); print "U %d %d"; mx[%d].unlock();' % (m, m, t, m))
    o.append(gaps(s['gap'], s['n']))
    return '\n'.join('  ' * ind + x for x in o if x)
def render(spec):
    L = ['fun work(q) { var z = q * 2; return z; }', 'fun rec(k) { if (k == 0) { return 0; } return rec(k - 1) + 1; }', 'fun bad(n) { if (n > 0) { throw Error("bad"); } }',
         'var mx = []; var own = []; var cnt = [];', 'for (var i = 0; i < %d; i += 1) { mx << Mutex(); own << []; cnt << 0; }' % spec['nm'], 'var pp = IO.pipe(); var aux = []; var ths = [];', 'var ended = 0;']
    uid = 0
    for t, th in enumerate(spec['threads']):
        L.append('fun t%d() {' % t)
        for j, s in enumerate(th['steps']): uid += 1; L.append(section(1, t, s, j, uid))
        e, m = th['end'], th['em']
        take = lambda k: 'mx[%d].lock(); if (own[%d].size != 0) { print "OVERLAP %d"; } print "L %d %d";' % (k, k, k, k, t)
        if e == 'hold': L.append('  %s print "U %d %d";' % (take(m), m, t))
        elif e == 'errhold': L.append('  %s print "U %d %d"; throw Error("die%d");' % (take(m), m, t, t))
        elif e == 'callhold': L.append('  %s print "U %d %d"; bad(1);' % (take(m), m, t))
        elif e == 'holdtwo':
            for k in range(m, spec['nm']): L.append('  ' + take(k))
            for k in range(m, spec['nm']): L.append('  print "U %d %d";' % (k, t))
        elif e in ('outoforder', 'ooomid'):
            for k in range(m, spec['nm']): L.append('  ' + take(k))
            mid = m if e == 'outoforder' else (m + spec['nm'] - 1) // 2
            L.append('  print "U %d %d"; mx[%d].unlock(); Thread.schedule();' % (mid, t, mid))
            for k in range(m, spec['nm']):
                if k != mid: L.append('  print "U %d %d";' % (k, t))
            if th['steps'][0]['n'] % 2: L.append('  bad(1);')
        L.append('}')
    for t in range(len(spec['threads'])): L.append('ths << newThread(fun() { t%d(); });' % t)
    if spec['mainsteps']: L.append(section(0, 99, {'m': [0], 'in': 'sched', 'n': 3, 'un': 0, 'gap': 'none'}, 0, 999))
    L.append('for (var i = 0; i < ths.size; i += 1) { joinThread(ths[i]); }')
    L.append('for (var i = 0; i < aux.size; i += 1) { joinThread(aux[i]); }')
    L.append('for (var i = 0; i < %d; i += 1) { mx[i].lock(); print "C ${cnt[i]}"; mx[i].unlock(); }' % spec['nm'])
    L.append('print "END";')
    return Job('\n'.join(L))
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    held = {}; seen = {}; got = []
    for l in r.lines():
        w = l.split(' ')
        if w[0] in ('OVERLAP', 'STOLEN'): v.append(('exclusion', l)); break
        if w[0] == 'L':
            if w[1] in held: v.append(('exclusion', 'thread %s entered mutex %s while thread %s was inside' % (w[2], w[1], held[w[1]]))); break
            held[w[1]] = w[2]; seen[(w[1], w[2])] = seen.get((w[1], w[2]), 0) + 1
        elif w[0] == 'U':
            if held.pop(w[1], None) != w[2]: v.append(('exclusion', 'thread %s left mutex %s without being inside' % (w[2], w[1]))); break
        elif w[0] == 'C': got.append(int(w[1]))
    exp = {}; tot = [0] * spec['nm']
    for t, th in enumerate(spec['threads']):
        for s in th['steps']:
            for m in s['m']: exp[(str(m), str(t))] = exp.get((str(m), str(t)), 0) + 1; tot[m] += 1
        e, m = th['end'], th['em']
        for k in ([] if e == 'normal' else range(m, spec['nm']) if e in ('holdtwo', 'outoforder', 'ooomid') else [m]): exp[(str(k), str(t))] = exp.get((str(k), str(t)), 0) + 1
    if spec['mainsteps']: exp[('0', '99')] = 1; tot[0] += 1
    if not v:
        if r.rootstatus != 0 or not r.out.rstrip().endswith('END'): v.append(('status', 'status %d out tail %r err %s' % (r.rootstatus, r.out[-80:], r.err[-500:])))
        elif seen != exp: v.append(('turns', 'critical sections run %r, expected %r' % (sorted(seen.items()), sorted(exp.items()))))
        elif got != tot: v.append(('counter', 'counts %r expected %r' % (got, tot)))
        else:
            nerr = sum(1 for t in spec['threads'] if t['end'] in ('errhold', 'callhold') or t['end'] in ('outoforder', 'ooomid') and t['steps'][0]['n'] % 2)
            if r.err.count('Uncaught') != nerr and r.err.count('uncaught') != nerr: v.append(('reports', 'expected %d uncaught error reports: %s' % (nerr, r.err[:600])))
    return v
def tags(spec, r): return ['end:' + t['end'] for t in spec['threads']] + ['in:' + s['in'] for t in spec['threads'] for s in t['steps']]
