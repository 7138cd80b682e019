"""Exit paths: hooks run once each, last registered first, and the status is the documented one, for every process of a run."""
from engine import *
LEVEL = 'exploration'
ASSUMPTIONS = ['a hook that exits or raises: the remaining hooks still run and the process status becomes its exit code, or 1 for an error', 'a forked child starts with the hooks registered in its parent at that moment', '_exit in a hook ends the process there']
PRE = '''requireScript("timeout"); var pk = 0; var mx = Mutex(); var mh = Mutex(); var mw = Mutex(); var bgr = []; var bg = []; var z = 0; var hid = 0;
fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i)]; } return n; }
fun deep(n, f) { if (n == 0) { f(); return 0; } return 1 + deep(n - 1, f); }
fun ydeep(n, &blk) { if (n == 0) { blk.yield(1); return 0; } return 1 + [1].map() -> (x) { blk.yield(x); }.size; }
class Ob { init(f) { this.f = f; } m() { var g = this.f; g(); return 1; } toString() { this.m(); return "ob"; } opIndexGet(i) { this.m(); return 2; } opAdd(o) { this.m(); return this; } gt { this.m(); return 3; } }
class Sub < Ob { init(f) { super.init(f); } m() { return super.m(); } }
class It < Iterator { init(f) { this.f = f; } iterNext() { var g = this.f; g(); return nil; } }
fun say(s) { print "P" + String(pk) + " " + s; }
fun reg(i, f) { mx.lock(); say("REG " + String(i)); atExit(f); mx.unlock(); }
'''
WRAPS = ['top', 'fn', 'deep', 'method', 'super', 'each', 'each', 'map', 'eachdeep', 'try', 'catch', 'ensure', 'tryfn', 'foreach', 'eval', 'mutex', 'load', 'toStr', 'index', 'plus', 'getter', 'yield', 'fin', 'trap', 'timeout', 'closure', 'send', 'mapeach', 'trydeep', 'join', 'interp']
ACTS = ['none', 'none', 'none', 'churn', 'gc', 'raise', 'raisedeep', 'exit', 'exitblk', 'try', 'reg', 'reg', 'thread', 'sleep', 'eval', '_exit', 'each', 'raiseblk', 'lock', 'lockheld', 'joinbg', 'nontxt']
class Gen:
    def __init__(s, rng): s.r = rng; s.h = 0; s.p = 0
    def code(s): return s.r.choice([0, 0, 1, 2, 3, 7, 42, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000, -1, -2, -300])
    def hook(s, d=0):
        s.h += 1; a = s.r.choice(ACTS); h = {'id': s.h, 'a': a}
        if a in ('exit', 'exitblk', '_exit'): h['n'] = s.code()
        if a == 'reg': h['a'] = 'reg' if d < 3 else 'none'
        if h['a'] == 'reg': h['procs'] = []; h['ops'] = [s.hook(d + 1) for _ in range(s.r.randrange(1, 3))]
        return h
    def proc(s, d=0):
        r = s.r; acts = []; me = s.p; s.p += 1
        for _ in range(r.choice([0, 1, 2, 4, 7])):
            k = r.choice(['reg'] * 6 + ['threg', 'threg', 'bg', 'bg', 'churn', 'gc', 'fork', 'therr', 'thexit', 'blkreg'])
            if k == 'fork' and d >= 2: k = 'reg'
            a = {'k': k}
            if k in ('reg', 'threg', 'blkreg'): a['hook'] = s.hook()
            elif k == 'fork': a['proc'] = s.proc(d + 1); a['thr'] = int(r.random() < 0.15)
            elif k == 'bg': a['b'] = r.choice(['spin', 'sleep', 'read', 'lockwait', 'hold', 'sched'])
            elif k == 'thexit': a['n'] = s.code()
            elif k == 'threg': a['j'] = r.randrange(2)
            acts.append(a)
        e = {'e': r.choice(['fall', 'exit', 'exit', 'exit', 'err', 'err', '_exit', 'mainthrow']), 'w': r.choice(WRAPS), 'n': s.code()}
        return {'id': me, 'body': acts, 'end': e}
def gen(rng, tier):
    spec = {'root': Gen(rng).proc(), 'tty': rng.randrange(2)}
    if repair(spec) is None: return gen(rng, tier)
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 200), ('stall', 10)])
    # a process may wait 500 ms for blocked threads while another spins: keep the scheduler fair and the bound wide
    c['p_preempt'] = max(c.get('p_preempt', 0), 100); c['max_bb'] = 4000000000
    return Case(spec, c)
def repair(spec):
    # a main thread that holds a Mutex keeps the VM lock: no thread can run for the hooks to join
    H = {}; hooks_of(spec['root'], H)
    def held(p): return p['end']['w'] == 'mutex' and p['end']['e'] in ('exit', 'err', '_exit') or any(held(a['proc']) for a in p['body'] if 'proc' in a)
    return None if held(spec['root']) and any(h['a'] in ('thread', 'joinbg') for h in H.values()) else spec
def hook_fn(h):
    a = h['a']; i = h['id']
    b = {'none': '', 'churn': 'churn(30);', 'gc': 'GC.collect(); churn(3);', 'raise': 'throw Error("h%d");' % i, 'raisedeep': 'deep(4, fun() { nil.foo(); });', 'raiseblk': '[1, 2].each() -> (x) { throw TypeError("h"); };', 'try': 'try { throw Error("q"); } catch (Error e) { churn(2); } ensure { churn(1); }', 'thread': 'joinThread(newThread(fun() { churn(5); }));', 'sleep': 'sleep(1 / 100);', 'eval': 'eval("churn(3);");',
         'each': '[1, 2, 3].map() -> (x) { x + 1; };', 'lock': 'mx.lock(); churn(2); mx.unlock();', 'lockheld': 'mh.lock(); churn(1); mh.unlock();', 'joinbg': 'for (var i = 0; i < bg.size; i += 1) { try { joinThread(bg[i]); } catch (Error e) { z = 9; } }', 'nontxt': 'var w = %{"a": [1]}; String(w);'}
    if a in b: body = b[a]
    elif a == 'exit': body = 'exit(%d); say("AFTER");' % h['n']
    elif a == 'exitblk': body = '[1, 2].each() -> (x) { deep(2, fun() { exit(%d); }); }; say("AFTER");' % h['n']
    elif a == '_exit': body = '_exit(%d); say("AFTER");' % h['n']
    elif a == 'reg': body = ' '.join('reg(%d, %s);' % (x['id'], hook_fn(x)) for x in h['ops'])
    return 'fun() { say("HOOK %d"); %s say("DONE %d"); }' % (i, body, i)
def wrap(w, x, i):
    """statements that reach the call of function variable x (which does not return)"""
    c = '%s();' % x
    return {'top': c, 'fn': 'fun w%d() { %s return 1; } w%d();' % (i, c, i), 'deep': 'deep(20, %s);' % x, 'method': 'Ob(%s).m();' % x, 'super': 'Sub(%s).m();' % x, 'each': '[1, 2].each() -> (q) { %s };' % c, 'map': '[1, 2].map() -> (q) { [3].each() -> (y) { %s }; };' % c, 'eachdeep': '[1].each() -> (q) { deep(5, %s); };' % x,
        'try': 'try { %s } catch (ZError e) { say("AFTER"); }' % c, 'trydeep': 'try { deep(4, %s); say("AFTER"); } catch (ZError e) { say("AFTER"); }' % x, 'tryfn': 'fun w%d() { try { %s } catch (ZError e) { say("AFTER"); } } w%d();' % (i, c, i), 'catch': 'try { throw Error("c"); } catch (Error e) { %s }' % c, 'ensure': 'try { z = 1; } ensure { %s }' % c, 'foreach': 'foreach (q in It(%s)) { z = 2; }' % x,
        'eval': 'gx%d = %s; eval("gx%d();");' % (i, x, i), 'mutex': 'mw.lock(); %s mw.unlock();' % c, 'load': 'gx%d = %s; loadScript("/work/ld%d.lox");' % (i, x, i), 'toStr': 'String(Ob(%s));' % x, 'index': 'Ob(%s)[1];' % x, 'plus': 'Ob(%s) + 1;' % x, 'getter': 'Ob(%s).gt;' % x, 'yield': 'ydeep(1) -> (q) { %s };' % c, 'closure': 'var w%d = fun(a) { return fun() { a(); }; }; w%d(%s)();' % (i, i, x), 'send': 'Ob(%s).send("m");' % x, 'mapeach': '%%{"a": 1}.each() -> (k, v) { %s };' % c,
        'fin': 'GC.off(); var w%d = fun() { var o = Ob(nil); GC.setFinalizer(o, fun(p) { %s }); return 1; }; w%d(); Ob(nil); GC.collect();' % (i, c, i), 'trap': 'Signal.trap(Signal::USR1, fun() { %s }); Process.signal(Process.pid(), Signal::USR1); sleep(5);' % c, 'timeout': 'Timeout.timeout(5) -> () { %s };' % c, 'join': 'joinThread(newThread(fun() { churn(2); })); %s' % c, 'interp': 'var w%d = "a${Ob(%s)}b";' % (i, x)}[w]
def end_code(e, pid):
    k, i = e['e'], pid
    if k == 'fall': return 'say("END");'
    if k == 'mainthrow': return 'say("END"); newThread(fun() { sleep(1 / 100); Thread.main().throw(Error("mt")); }); sleep(100); say("AFTER");'
    x = {'exit': 'exit(%d);' % e['n'], '_exit': '_exit(%d);' % e['n'], 'err': 'throw ArgumentError("main err");'}[k]
    return 'gf%d = fun() { say("END"); %s say("AFTER"); };\n%s\nsay("AFTER");' % (i, x, wrap(e['w'], 'gf%d' % i, i))
def proc_code(p, pre, ids, top):
    L = []; bgn = 0
    for a in p['body']:
        k = a['k']
        if k == 'reg': L.append('reg(%d, %s);' % (a['hook']['id'], hook_fn(a['hook'])))
        elif k == 'blkreg': L.append('[1].each() -> (q) { reg(%d, %s); };' % (a['hook']['id'], hook_fn(a['hook'])))
        elif k == 'threg': n = 'tr%d' % a['hook']['id']; L.append('var %s = newThread(fun() { reg(%d, %s); });%s' % (n, a['hook']['id'], hook_fn(a['hook']), ' joinThread(%s);' % n if a.get('j') else ''))
        elif k == 'bg': L.append('%s << newThread(fun() { %s });' % ('bgr' if a['b'] == 'read' else 'bg', {'spin': 'while (true) { churn(3); }', 'sched': 'while (true) { Thread.schedule(); }', 'sleep': 'sleep(10000);', 'read': 'var p = IO.pipe(); p[0].read(3);', 'lockwait': 'mh.lock(); sleep(1 / 100); mh.unlock();', 'hold': 'mh.lock(); churn(9); mh.unlock(); sleep(9999);'}[a['b']]))
        elif k == 'churn': L.append('churn(25);')
        elif k == 'gc': L.append('GC.collect();')
        elif k == 'therr': L.append('joinThread(newThread(fun() { throw Error("t"); }));')
        elif k == 'thexit': L.append('joinThread(newThread(fun() { exit(%d); say("AFTER"); }));' % a['n'])
        elif k == 'fork':
            c = a['proc']; ids.append(c['id'])
            f = 'fun ch%d() {\n mx.unlock(); pk = %d; bg = [];\n%s\n}' % (c['id'], c['id'], '\n'.join(proc_code(c, pre, ids, False)))
            pre.append(f)
            L.append('mx.lock(); say("FORK %d"); var fk%d = Process.fork(ch%d); mx.unlock(); say("STATUS %d " + String(Process.waitpid(fk%d)));' % (c['id'], c['id'], c['id'], c['id'], c['id']))
    L.append(end_code(p['end'], p['id']))
    return L
def render(spec):
    pre = []; ids = [spec['root']['id']]
    L = proc_code(spec['root'], pre, ids, True)
    g = ['class ZError < Error {}'] + ['var gx%d = nil; var gf%d = nil;' % (i, i) for i in ids]
    j = Job('\n'.join([PRE] + g + pre + L))
    for i in ids: j.files['/work/ld%d.lox' % i] = 'z = 3; gx%d(); z = 4;' % i
    return j
def hooks_of(p, d):
    for a in p['body']:
        if 'hook' in a: walk(a['hook'], d)
        if 'proc' in a: hooks_of(a['proc'], d)
def walk(h, d):
    d[h['id']] = h
    for x in h.get('ops', []): walk(x, d)
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    H = {}; hooks_of(spec['root'], H)
    by = {}
    for l in r.lines():
        if not l: continue
        p = l.split(' ')
        if p[0][:1] != 'P': return [('output', 'unexpected line %r' % l)]
        by.setdefault(int(p[0][1:]), []).append(p[1:])
    errs = [0]
    def sim(p, stack, status):
        """check one process's lines; status is the wait status observed by its parent (or the kernel for the root)"""
        L = by.get(p['id'], []); e = p['end']; pos = 0; kids = {a['proc']['id']: a['proc'] for a in p['body'] if a['k'] == 'fork'}
        for a in p['body']:
            if a['k'] == 'therr': errs[0] += 1
        ended = None
        for i, w in enumerate(L):
            if w[0] == 'REG': stack.append(int(w[1]))
            elif w[0] == 'FORK': at[int(w[1])] = list(stack)
            elif w[0] == 'STATUS':
                k = int(w[1])
                bad = sim(kids[k], at[k], int(w[2]))
                if bad: return bad
            elif w[0] == 'END': ended = i; break
            elif w[0] in ('HOOK', 'DONE', 'AFTER'): return ('hook-early', 'process %d: %s before the process ended: %r' % (p['id'], w, L))
        if ended is None: return ('no-end', 'process %d never reached its end: %r %s' % (p['id'], L, r.err[-300:]))
        rest = L[ended + 1:]
        st = {'fall': 0, 'exit': e['n'] & 255, '_exit': e['n'] & 255, 'err': 1, 'mainthrow': 1}[e['e']]
        if e['e'] in ('err', 'mainthrow'): errs[0] += 1
        exp = []; stop = e['e'] == '_exit'; late = [w for w in rest]
        # registrations by threads that were still running when the main thread ended are taken where they show
        out = []; j = 0
        while not stop:
            while j < len(rest) and rest[j][0] == 'REG' and not out: stack.append(int(rest[j][1])); j += 1
            if not stack: break
            h = H[stack.pop()]
            def need(*w):
                nonlocal j
                if j >= len(rest) or rest[j] != list(w): return ('hooks', 'process %d: expected %s after its end, got %s: %r' % (p['id'], ' '.join(w), ' '.join(rest[j]) if j < len(rest) else 'nothing', L))
                j += 1
            bad = need('HOOK', str(h['id']))
            if bad: return bad
            a = h['a']; out.append(1)
            if a == 'reg':
                for x in h['ops']:
                    bad = need('REG', str(x['id']))
                    if bad: return bad
                    stack.append(x['id'])
            if a in ('raise', 'raisedeep', 'raiseblk'): st = 1; errs[0] += 1
            elif a in ('exit', 'exitblk'): st = h['n'] & 255
            elif a == '_exit': st = h['n'] & 255; stop = True
            else:
                bad = need('DONE', str(h['id']))
                if bad: return bad
        if j < len(rest) and not (e['e'] == '_exit' and all(w[0] == 'REG' for w in rest[j:])): return ('hooks', 'process %d: %r after all hooks: %r' % (p['id'], rest[j], L))
        if status != st << 8: return ('status', 'process %d ended with wait status %d instead of exit code %d (end %s, lines %r) %s' % (p['id'], status, st, e, L, r.err[-200:]))
    at = {}
    bad = sim(spec['root'], [], r.rootstatus)
    if bad: return [bad]
    n = r.err.count('Uncaught error')
    if n != errs[0]: return [('error-reports', '%d uncaught errors reported, %d happened: %s' % (n, errs[0], r.err[-400:]))]
    return []
def tags(spec, r):
    t = []
    def go(p):
        t.append('end:%s' % p['end']['e'])
        if p['end']['e'] in ('exit', '_exit', 'err'): t.append('from:' + p['end']['w'])
        for a in p['body']:
            t.append('act:' + a['k'])
            if 'hook' in a: t.append('hook:' + a['hook']['a'])
            if 'proc' in a: go(a['proc'])
    go(spec['root']); return t
