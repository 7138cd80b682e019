"""Schedule independence: threads that share nothing but mutex-protected commutative updates compute what they compute alone."""
from engine import *
from bodygen import *
LEVEL = 'exploration'
def gen(rng, tier):
    nt = rng.randrange(1, 5 if tier == 'quick' else 7)
    th = [{'ops': gen_ops(rng, rng.randrange(1, 7 if tier == 'quick' else 14)), 'sh': [rng.randrange(1, 50) for _ in range(rng.randrange(0, 4))]} for _ in range(nt)]
    spec = {'threads': th, 'main': {'ops': gen_ops(rng, rng.randrange(0, 4))}, 'nest': rng.random() < 0.2, 'lockstyle': rng.randrange(3)}
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 200), ('stall', 20)])
    return Case(spec, c)
def render(spec):
    src = [PRELUDE, 'var res = [%s]; var tot = 0; var items = []; var mx = Mutex();' % ','.join('nil' for _ in spec['threads'])]
    for i, t in enumerate(spec['threads']):
        b, _ = body(t['ops'], i, 'b%d' % i); src.append(b)
        src.append('fun u%d() {' % i)
        for vi, v in enumerate(t['sh']):
            mid = ['', 'Thread.schedule();', 'for (var z = 0; z < 5; z += 1) { tmp = tmp + 0; }'][spec['lockstyle']]
            src.append('  mx.lock(); var tmp = tot; %s tot = tmp + %d; items << %d; mx.unlock();' % (mid, v, v) if vi == 0 else '  mx.lock(); tmp = tot; %s tot = tmp + %d; items << %d; mx.unlock();' % (mid, v, v))
        src.append('}')
    mb, _ = body(spec['main']['ops'], 99, 'bm'); src.append(mb)
    src.append('var ths = [];')
    for i, t in enumerate(spec['threads']):
        if spec['nest'] and i % 2 == 1:
            src.append('ths << newThread(fun() { var inner = newThread(fun() { res[%d] = b%d(); u%d(); }); joinThread(inner); });' % (i, i, i))
        else: src.append('ths << newThread(fun() { res[%d] = b%d(); u%d(); });' % (i, i, i))
    src.append('var rm = bm();')
    src.append('for (var i = 0; i < ths.size; i += 1) { joinThread(ths[i]); }')
    src.append('for (var i = 0; i < res.size; i += 1) { print "T${i}:" + res[i].join("|"); }')
    src.append('print "M:" + rm.join("|"); print tot; print items.size; print items.sum();')
    return Job('\n'.join(src))
def expected(spec):
    o = []
    for i, t in enumerate(spec['threads']): o.append('T%d:' % i + '|'.join(body(t['ops'], i, 'x')[1]))
    o.append('M:' + '|'.join(body(spec['main']['ops'], 99, 'x')[1]))
    al = [v for t in spec['threads'] for v in t['sh']]
    return o + [str(sum(al)), str(len(al)), str(sum(al))]
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    if r.rootstatus != 0: v.append(('status', 'exit status %d, stderr %s' % (r.rootstatus, r.err[:600])))
    e, g = expected(spec), r.lines()
    if not v and e != g:
        d = next((i for i in range(min(len(e), len(g))) if e[i] != g[i]), min(len(e), len(g)))
        v.append(('result', 'line %d: expected %r got %r (stderr %s)' % (d, e[d:d+1], g[d:d+1], r.err[:300])))
    elif not v and r.err: v.append(('stderr', r.err[:800]))
    return v
def tags(spec, r): return ['threads=%d' % len(spec['threads'])]
