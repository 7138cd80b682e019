"""Sleep and Timeout against the simulated clock."""
from engine import *
LEVEL = 'exploration'
ASSUMPTIONS = ['the wall clock is not set while a sleep is pending (sleep uses a CLOCK_REALTIME deadline)', 'the upper bounds are judged only in runs without stalls; slack 0.3 simulated seconds plus 0.7 per computing thread']
DUR = ['0', '1 / 3', '1 / 20', '999 / 1000', '1', '3 / 2', '1 / 1000', '25 / 10', '1 / 7', '99 / 100', '2', '0 - 1', '1 / 100000', '5 / 4']
def dv(s): return max(0.0, eval(s))
def step(rng):
    k = rng.choice(['sleep', 'sleep', 'sleep', 'timeout', 'timeout', 'timeout', 'timer', 'nested', 'work'])
    s = {'k': k, 'd': rng.choice(DUR), 'cold': rng.randrange(1, 30)}
    if k in ('timeout', 'nested'): s.update(lim=rng.choice(['1 / 2', '1', '1 / 10', '3 / 4', '2']), lim2=rng.choice(['1 / 3', '1', '2']), blk=rng.choice(['sleep', 'sleep', 'sleep', 'sleeps', 'error', 'spin', 'call', 'ret', 'sched', 'ens']), after=rng.choice(['0', '5 / 2', '1']))
    if s.get('blk') == 'spin': s['lim'] = rng.choice(['1 / 10', '1 / 3', '1 / 20'])
    return s
def gen(rng, tier):
    th = [{'steps': [step(rng) for _ in range(rng.randrange(1, 4 if tier == 'quick' else 7))]} for _ in range(rng.randrange(1, 4 if tier == 'quick' else 6))]
    spec = {'threads': th, 'main': [step(rng) for _ in range(rng.randrange(0, 3))], 'busy': rng.choice([0, 0, 0, 1]), 'sig': rng.random() < 0.25}
    ev = []
    if spec['sig']: ev = [(rng.randrange(5000000, 6000000000), 1, 1000, 3) for _ in range(rng.randrange(1, 6))]
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 400), ('stall', 20)])
    c['p_quantum'] = 1000; c['quantum_lo'] = min(20, c.get('quantum_lo', 20)); c['quantum_hi'] = min(600, c.get('quantum_hi', 600))
    c['p_gc_full'] = min(c.get('p_gc_full', 0), 20); c['p_gc_young'] = min(c.get('p_gc_young', 0), 300)
    c['rt_base'] = 1700000000000000000 + rng.choice([0, 999999999, 999000000, rng.randrange(10**9)]); c['sys_ns'] = 5000; c['tick_ns'] = 20
    return Case(spec, c, ev)
def code(s, tid, j):
    P = '%d.%d' % (tid, j); o = []
    body = {'sleep': 'sleep(%s);' % s['d'], 'sleeps': 'sleep(%s); sleep(%s);' % (s['d'], s['d']), 'error': 'sleep(%s); throw ArgumentError("own");' % s['d'], 'spin': 'while (on) { f(1); }', 'call': 'nap(%s);' % s['d'], 'ret': 'sleep(%s); f(3);' % s['d'],
            'sched': 'while (on) { sleep(1 / 50); }', 'ens': 'try { sleep(%s); } ensure { ens[%d] = ens[%d] + 1; }' % (s['d'], tid, tid)}
    if s['k'] == 'sleep': o.append('a = now(); sleep(%s); print "S %s ${a} ${now()}";' % (s['d'], P))
    elif s['k'] == 'timer': o.append('a = now(); var t%d = Timer(); sleep(%s); var u%d = Timer() - t%d; print "T %s ${a} ${now()} ${u%d.seconds()}";' % (j, s['d'], j, j, P, j))
    elif s['k'] == 'work': o.append('for (var q = 0; q < %d; q += 1) { f(q); }' % s['cold'])
    elif s['k'] == 'timeout':
        o.append('a = now(); var w%d = "none"; try { Timeout.timeout(%s) -> () { %s }; w%d = "ok"; } catch (Timeout::Error e) { w%d = "to"; } catch (ArgumentError e) { w%d = e.message; } print "O %s ${w%d} ${a} ${now()}";' % (j, s['lim'], body[s['blk']], j, j, j, P, j))
        o.append('try { sleep(%s); } catch (Error e) { print "STRAY %s"; }' % (s['after'], P))
    elif s['k'] == 'nested':
        o.append('a = now(); var w%d = "none"; try { Timeout.timeout(%s) -> () { Timeout.timeout(%s) -> () { sleep(%s); }; }; w%d = "ok"; } catch (Timeout::Error e) { w%d = "to"; } print "N %s ${w%d} ${a} ${now()}";' % (j, s['lim'], s['lim2'], s['d'], j, j, P, j))
        o.append('try { sleep(%s); } catch (Error e) { print "STRAY %s"; }' % (s['after'], P))
    return o
def render(spec):
    n = len(spec['threads'])
    L = ['requireScript("timeout");', 'var on = 1; var stop = 0; var ens = [%s]; var sigs = 0; var ths = [];' % ','.join('0' for _ in range(n + 1)), 'fun f(q) { return q * 3 % 7; }', 'fun now() { return File.read("/sim/now"); }', 'fun nap(d) { if (d > 0) { sleep(d); } return 5; }']
    if spec['sig']: L.append('Signal.trap(Signal::QUIT, fun() { sigs = sigs + 1; });')
    for b in range(spec['busy']): L.append('var bt%d = newThread(fun() { while (stop == 0) { for (var q = 0; q < 50; q += 1) { f(q); } sleep(1 / 500); } });' % b)
    for i, t in enumerate(spec['threads']):
        L.append('fun t%d() { var a = nil;' % i)
        for j, s in enumerate(t['steps']): L += code(s, i, j)
        L.append('}')
        L.append('ths << newThread(fun() { t%d(); });' % i)
    L.append('fun mm() { var a = nil;')
    for j, s in enumerate(spec['main']): L += code(s, n, j)
    L += ['}', 'mm();', 'for (var i = 0; i < ths.size; i += 1) { joinThread(ths[i]); }', 'stop = 1;', 'print "ENS " + ens.join(","); print "END";']
    return Job('\n'.join(L))
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    lines = r.lines()
    if r.rootstatus != 0 or not lines or lines[-1] != 'END': return [('status', 'status %d out %r err %s' % (r.rootstatus, lines[-3:], r.err[-800:]))]
    if 'Uncaught' in r.err: return [('uncaught', r.err[:800])]
    stall = r.faults.get('stall', (0, 0))[0] > 0
    allt = [(i, t['steps']) for i, t in enumerate(spec['threads'])] + [(len(spec['threads']), spec['main'])]
    spins = sum(s.get('blk') == 'spin' and s['k'] == 'timeout' for _, t in allt for s in t)
    slack = 0.3 + 0.7 * (spec['busy'] + spins)
    rec = {}
    for l in lines:
        w = l.split(' ')
        if w[0] == 'STRAY': v.append(('stray', 'a timeout error reached its caller after Timeout.timeout had returned (%s)' % l))
        elif w[0] in 'STON' and len(w) > 3: rec.setdefault(w[1], []).append(w)
    ens = {}
    for i, t in allt:
        for j, s in enumerate(t):
            if s['k'] == 'work': continue
            w = rec.get('%d.%d' % (i, j), [])
            if len(w) != 1: v.append(('missing', 'step %d.%d reported %d times' % (i, j, len(w)))); continue
            w = w[0]; d = dv(s['d'])
            if w[0] in 'ST':
                el = (int(w[3]) - int(w[2])) / 1e6
                if el < d - 2e-6: v.append(('early', 'sleep(%s) returned after %.6f s' % (s['d'], el)))
                if not stall and el > d + slack: v.append(('late', 'sleep(%s) took %.6f s' % (s['d'], el)))
                if w[0] == 'T':
                    tm = float(w[4])
                    if tm < d * 0.99999 - 2e-6 or tm > el + 1e-5 * max(1, el): v.append(('timer', 'Timer measured %s, the clock %.6f, the sleep was %s' % (w[4], el, s['d'])))
            else:
                res = w[2]; el = (int(w[4]) - int(w[3])) / 1e6; lim = dv(s['lim'])
                if w[0] == 'N': lim = min(lim, dv(s['lim2'])); blk = 'sleep'
                else: blk = s['blk']
                if blk == 'sleeps': d *= 2
                if blk in ('spin', 'sched'): d = 1e9
                if blk == 'ens': ens[i] = ens.get(i, 0) + 1
                good = 'own' if blk == 'error' else 'ok'
                if res not in (good, 'to'): v.append(('result', 'timeout step ended with %r' % res))
                elif res == 'to':
                    if el < lim - 2e-6: v.append(('early-timeout', 'timed out after %.6f s, limit %s' % (el, lim)))
                    elif not stall and d + slack < lim: v.append(('false-timeout', 'a block of %.4f s timed out with limit %s' % (d, lim)))
                    elif not stall and el > lim + slack: v.append(('late-timeout', 'timed out after %.6f s, limit %s' % (el, lim)))
                else:
                    if el < d - 2e-6: v.append(('early', 'block of %.6f s ended after %.6f s' % (d, el)))
                    if not stall and d > lim + slack: v.append(('no-timeout', 'a block of %.4f s was not stopped by limit %s' % (d, lim)))
                    if not stall and el > d + slack: v.append(('late', 'block of %.4f s took %.6f' % (d, el)))
    e = [l for l in lines if l.startswith('ENS ')]
    want = 'ENS ' + ','.join(str(ens.get(i, 0)) for i in range(len(allt)))
    near = any(s.get('blk') == 'ens' and abs(dv(s['d']) - dv(s['lim'])) < slack for _, t in allt for s in t)
    if (stall or near) and len(e) == 1:  # the thread may be stopped before it enters the try, or within the ensure body
        got = e[0][4:].split(',')
        if all(g.isdigit() and int(g) <= ens.get(i, 0) for i, g in enumerate(got)): want = e[0]
    if e != [want] and not v: v.append(('ensure', 'ensure counts %r expected %r' % (e, want)))
    return v
def tags(spec, r): return [s['k'] + ('-' + s['blk'] if 'blk' in s and s['k'] == 'timeout' else '') for t in spec['threads'] for s in t['steps']]
