"""Processes: a model of the process tree against what every process of it reports."""
from engine import *
LEVEL = 'exploration'
QUICK_RUNS = 8000
ASSUMPTIONS = ['commands run by system and exec are stubs of the simulator with known results', 'no thread calls waitall while another one waits or runs a command']
CMDS = [('true', 0), ('false', 256), ('exit 0', 0), ('exit 3', 768), ('exit 255', 255 << 8), ('selfkill 9', 9), ('selfkill 15', 15), ('nosuchcommand', 127 << 8), ('sleep 0.2', 0), ('echo OUT', 0)]
ENDS = ['ret', 'ret', 'exit', 'exit', 'err', 'errdeep', '_exit', 'kill9', 'kill15', 'exec', 'execbad', 'hang', 'thexit']
class Gen:
    def __init__(s, r, big): s.r = r; s.n = 0; s.u = 0; s.big = big
    def u1(s): s.u += 1; return s.u
    def proc(s, d):
        s.n += 1; me = s.n - 1; r = s.r
        e = {'e': r.choice(ENDS) if d else r.choice(['ret', 'ret', 'exit', 'err']), 'n': r.choice([0, 1, 2, 7, 42, 127, 128, 255, 256, 259, -1]), 'c': r.randrange(len(CMDS))}
        ops = []
        for _ in range(r.randrange(0 if d else 2, (8 if s.big else 6) if d < 1 else 4)):
            k = r.choice(['mut', 'mut', 'show', 'fork', 'fork', 'fork', 'wait', 'wait', 'wait2', 'waitbad', 'nohang', 'waitall', 'system', 'churn', 'bg', 'sleep', 'gc', 'tw', 'sig', 'hangkill'])
            if k == 'fork' and (d >= 2 or s.n > (14 if s.big else 8)): k = 'mut'
            if e['e'] == 'hang' and k in ('fork', 'waitall'): k = 'mut'
            if k == 'sig' and not d: k = 'show'
            o = {'k': k, 'u': s.u1(), 'i': r.randrange(6)}
            if k == 'fork': o['proc'] = s.proc(d + 1); o['fn'] = r.choice([1, 1, 0]); o['from'] = r.choice(['main', 'main', 'thread', 'deep', 'block', 'try', 'tryens', 'evalled', 'local'])
            elif k == 'system': o['c'] = r.randrange(len(CMDS))
            elif k == 'bg': o['b'] = r.choice(['spin', 'sleep', 'sched'])
            ops.append(o)
        return {'id': me, 'ops': ops, 'end': e}
def gen(rng, tier):
    spec = {'root': Gen(rng, tier != 'quick').proc(0)}
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 100), ('stall', 20), ('fork_eagain', 300), ('system_fail', 200)])
    c['max_bb'] = 4000000000; c['p_preempt'] = max(c['p_preempt'], 100)
    return Case(spec, c)
def mut(o):
    u = o['u']; return ['gN = %d;' % u, 'gA << %d;' % u, 'gM["k%d"] = %d;' % (o['i'], u), 'gS = gS + "-%d";' % u, 'gA[0] = %d;' % u, 'gO.v = %d;' % u][o['i'] % 6]
def render(spec):
    F = []
    def proc(p, d):
        me = p['id']; L = []; live = []; dead = []
        L.append(' me = %d; gbg = [];' % me)
        if d: L.append(' say("PID " + String(Process.pid()) + " " + String(Process.ppid())); show();')
        def kill(c):
            if c['end']['e'] == 'hang' or c.get('mustkill'): L.append(' if (kid[%d] != -1) { Process.signal(kid[%d], %d); }' % (c['id'], c['id'], [9, 15][c['id'] % 2]))
        for o in p['ops']:
            k = o['k']
            if k == 'mut': L.append(' ' + mut(o))
            elif k == 'show': L.append(' show();')
            elif k == 'churn': L.append(' churn(30);')
            elif k == 'gc': L.append(' GC.collect(); churn(3);')
            elif k == 'sleep': L.append(' sleep(%d / 100);' % (o['i'] * 4))
            elif k == 'bg': L.append(' gbg << newThread(fun() { %s });' % {'spin': 'while (true) { churn(3); }', 'sleep': 'sleep(10000);', 'sched': 'while (true) { Thread.schedule(); }'}[o['b']])
            elif k == 'sig': L.append(' Process.signal(Process.ppid(), Signal::USR1);')
            elif k == 'system': L.append(' say("SYS %d " + String(Process.system("%s")));' % (o['u'], CMDS[o['c']][0]))
            elif k == 'waitbad': L.append(' say("WB " + String(Process.waitpid(%d)));' % (77000 + o['i']))
            elif k == 'fork':
                c = o['proc']; i = c['id']; live.append(c); proc(c, d + 1)
                fk = ('kid[%d] = Process.fork(ch%d);' % (i, i)) if o['fn'] else 'kid[%d] = Process.fork(); if (kid[%d] == nil) { ch%d(); exit(0); }' % (i, i, i)
                fr = o['from']
                if fr == 'main': L.append(' ' + fk)
                elif fr == 'thread': L.append(' joinThread(newThread(fun() { %s }));' % fk)
                elif fr == 'deep': L.append(' deep(4, fun() { %s });' % fk)
                elif fr == 'block': L.append(' [1, 2].each() -> (x%d) { if (x%d == 2) { %s } };' % (i, i, fk))
                elif fr == 'try': L.append(' try { %s } catch (Error e%d) { say("CAUGHT " + e%d.message); }' % (fk, i, i) if o['fn'] else ' ' + fk)
                elif fr == 'tryens': L.append(' try { %s } catch (TypeError e%d) { say("CAUGHT"); } ensure { churn(2); }' % (fk, i) if o['fn'] else ' ' + fk)
                elif fr == 'evalled': L.append(' eval("kid[%d] = Process.fork(ch%d);");' % (i, i))
                elif fr == 'local':
                    L.append(' var lo%d = "L" + String(%d); kid[%d] = Process.fork(fun() { me = %d; say("LOC " + lo%d); lo%d = "changed"; ch%d(); }); say("LOC " + lo%d);' % (i, i, i, i, i, i, i, i))
                L.append(' if (kid[%d] == -1) { say("FORKFAIL %d"); }' % (i, i))
            elif k in ('wait', 'nohang', 'hangkill') and live:
                c = live.pop(o['i'] % len(live)); dead.append(c); i = c['id']; kill(c)
                if k == 'nohang': L.append(' if (kid[%d] != -1) { say("W %d " + stat(nohang(kid[%d]))); }' % (i, i, i))
                else: L.append(' if (kid[%d] != -1) { say("W %d " + stat(Process.waitpid(kid[%d]))); }' % (i, i, i))
            elif k == 'wait2' and dead: c = dead[o['i'] % len(dead)]; L.append(' if (kid[%d] != -1) { say("W2 %d " + stat(Process.waitpid(kid[%d]))); }' % (c['id'], c['id'], c['id']))
            elif k == 'tw' and len(live) >= 2:
                for c in live: kill(c)
                a, b = live[-1], live[0]
                L.append((' if (kid[%d] != -1 and kid[%d] != -1) { var ta%d = newThread(fun() { tw[%d] = Process.waitpid(kid[%d]); }); var tb%d = newThread(fun() { tw[%d] = Process.waitpid(kid[%d]); }); churn(5); HOLD joinThread(ta%d); joinThread(tb%d); say("W %d " + stat(tw[%d])); say("W %d " + stat(tw[%d])); }' % (a['id'], b['id'], o['u'], a['id'], a['id'], o['u'], b['id'], b['id'], o['u'], o['u'], a['id'], a['id'], b['id'], b['id'])).replace('HOLD', ('for (var zz%d = 0; zz%d < 9; zz%d += 1) { Thread.schedule(); } gmx.lock(); sleep(1 / 5); gmx.unlock();' % (o['u'], o['u'], o['u']) if o['i'] % 2 else '')))
                L.append(' else { if (kid[%d] != -1) { say("W %d " + stat(Process.waitpid(kid[%d]))); } if (kid[%d] != -1) { say("W %d " + stat(Process.waitpid(kid[%d]))); } }' % (a['id'], a['id'], a['id'], b['id'], b['id'], b['id']))
                live.remove(a); live.remove(b); dead += [a, b]
            elif k == 'waitall': waitall(L, live, kill); dead += live; live = []
        waitall(L, live, kill)
        L.append(' show();')
        e = p['end']; k = e['e']
        L.append(' ' + {'ret': 'return 1;', 'exit': 'exit(%d);' % e['n'], 'err': 'throw Error("e%d");' % me, 'errdeep': 'deep(3, fun() { nil.foo(); });', '_exit': '_exit(%d);' % e['n'], 'kill9': 'Process.signal(Process.pid(), 9); sleep(9);', 'kill15': 'kill15();',
            'exec': 'Process.exec("%s");' % '", "'.join(CMDS[e['c']][0].split(' ')), 'execbad': 'say("EX " + String(Process.exec("nosuchcommand", "x"))); exit(9);', 'hang': 'say("HANG"); sleep(1000000); say("AFTER");', 'thexit': 'joinThread(newThread(fun() { exit(%d); })); say("AFTER");' % e['n']}[k])
        if k == 'thexit': L[-1] = ' newThread(fun() { throw Error("t"); }); exit(%d);' % e['n']
        L.append(' say("AFTER");')
        F.append('fun ch%d() {\n%s\n}' % (me, '\n'.join(L)))
    def waitall(L, live, kill):
        for c in live: kill(c)
        L.append(' say("A " + allstat(Process.waitall()));')
    proc(spec['root'], 0)
    P = ['class Ob { init() { this.v = 0; } } var me = 0; var gN = 0; var gA = [0]; var gM = %{}; var gS = "s"; var gO = Ob(); var kid = %{}; var tw = %{}; var gbg = []; var us = 0; var ppd = 0; var gmx = Mutex();',
         'Signal.trap(Signal::USR1, fun() { us = us + 1; });',
         'fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i), %{"k": i}]; } return n; }', 'fun deep(n, f) { if (n == 0) { f(); return 0; } return 1 + deep(n - 1, f); }',
         'fun say(s) { print "P" + String(me) + " " + s; }',
         'fun show() { var m = []; for (var i = 0; i < 6; i += 1) { m << gM["k" + String(i)]; } say("S " + String(gN) + " " + String(gA) + " " + String(m) + " " + gS + " " + String(gO.v)); }',
         'fun stat(s) { if (s == -1) { return "none"; } if (Process.WIFEXITED(s)) { return "exit " + String(Process.WEXITSTATUS(s)); } if (Process.WIFSIGNALED(s)) { return "sig " + String(Process.WTERMSIG(s)); } return "odd " + String(s); }',
         'fun allstat(a) { var o = []; for (var i = 0; i < a.size; i += 1) { var e1 = String(a[i][0]) + "=" + stat(a[i][1]); o << e1; } return o.join(","); }',
         'fun nohang(p) { var w = Process.waitpid(p, Process::WNOHANG); while (w == nil) { sleep(1 / 100); w = Process.waitpid(p, Process::WNOHANG); } return w; }',
         'fun kill15() { var me15 = Process.pid(); var k15 = -1; while (k15 == -1) { k15 = Process.fork(fun() { Process.signal(me15, 15); }); } sleep(1000000); }']
    return Job('\n'.join(P + F + ['ch0();']))
def status(p):
    e = p['end']; k = e['e']
    return {'ret': 'exit 0', 'exit': 'exit %d' % (e['n'] & 255), '_exit': 'exit %d' % (e['n'] & 255), 'thexit': 'exit %d' % (e['n'] & 255), 'err': 'exit 1', 'errdeep': 'exit 1', 'kill9': 'sig 9', 'kill15': 'sig 15', 'hang': 'sig %d' % [9, 15][p['id'] % 2], 'execbad': 'exit 9',
        'exec': None}[k] or (lambda s: 'exit %d' % (s >> 8) if not s & 127 else 'sig %d' % s)(CMDS[e['c']][1])
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    by = {}; pidof = {}
    for x in sorted(set(x.pid for x in r.recs if x.which == 1)):
        for l in r.text(1, x).splitlines():
            if l == 'OUT': l = 'Px OUT'
            w = l.split(' ', 1)
            if w[0][:1] != 'P' or len(w) < 2: return [('output', 'unexpected line %r' % l)]
            if w[0] == 'Px': by.setdefault(('out', x), []).append(1); continue
            i = int(w[0][1:]); by.setdefault(i, []).append(w[1])
            if pidof.setdefault(i, x) != x: return [('wrong-process', 'process %d (pid %d) ran code of process P%d: %r' % (x, x, i, l))]
    sysfail = r.faults.get('system_fail', (0, 0))[0]; forkfail = r.faults.get('fork_eagain', (0, 0))[0]
    nerr = [0]; bad = []; outs = {}
    def walk(p, st, d, ppid):
        me = p['id']; got = by.get(me, []); exp = []; live = []; dead = []; failed = set(); hang = p['end']['e'] == 'hang'
        st = {'N': st['N'], 'A': list(st['A']), 'M': dict(st['M']), 'S': st['S'], 'O': st['O']}
        pos = [0]
        def show(): return 'S %d [%s] [%s] %s %d' % (st['N'], ','.join(str(x) for x in st['A']), ','.join(str(st['M'].get(i, 'nil')) for i in range(6)), st['S'], st['O'])
        def need(*alts):
            if bad: return None
            if pos[0] >= len(got):
                if not hang: bad.append(('missing', 'process P%d ended its output after %r instead of %r %s' % (me, got[-3:], alts[0], r.err[-300:])))
                return None
            g = got[pos[0]]; pos[0] += 1
            for a in alts:
                if a == g or a.endswith('*') and g.startswith(a[:-1]): return g
            bad.append(('report', 'process P%d reported %r instead of %r' % (me, g, alts[0]))); return None
        if d:
            if d == 'local': need('LOC L%d' % me)
            g = need('PID *')
            if g and not bad:
                w = g.split(' ')
                if int(w[1]) != pidof.get(me) or int(w[2]) != ppid: bad.append(('pid', 'process P%d has pid %s, parent %s, but reported %r' % (me, pidof[me], ppid, g)))
            need(show())
        def waited(c, word='W'):
            if c['id'] in failed: return
            need('%s %d %s' % (word, c['id'], 'none' if word == 'W2' else status(c)))
        def waitall():
            g = need('A *')
            if not g or bad: return
            a = [x for x in g[2:].split(',') if x]; ex = {}
            for c in live:
                if c['id'] in failed: continue
                if c['id'] not in pidof:
                    if c['end']['e'] == 'hang': continue
                    bad.append(('missing', 'process P%d never reported' % c['id'])); return
                ex['%d=%s' % (pidof[c['id']], status(c))] = 1
            # a child that was killed before it said anything is known by its status only
            silent = [c for c in live if c['id'] not in failed and c['id'] not in pidof]
            rest = [x for x in a if x not in ex]; miss = [x for x in ex if x not in a]
            if len(a) != len(set(a)) or miss or len(rest) != len(silent) or any(x.split('=')[1] not in [status(c) for c in silent] for x in rest): bad.append(('waitall', 'process P%d: waitall returned %s, its children ended as %s' % (me, a, sorted(ex) + [status(c) for c in silent])))
        for o in p['ops']:
            k = o['k']; u = o['u']
            if k == 'mut':
                i = o['i'] % 6
                if i == 0: st['N'] = u
                elif i == 1: st['A'].append(u)
                elif i == 2: st['M'][o['i']] = u
                elif i == 3: st['S'] += '-%d' % u
                elif i == 4: st['A'][0] = u
                else: st['O'] = u
            elif k == 'show': need(show())
            elif k == 'system':
                c, s = CMDS[o['c']]; need('SYS %d %s' % (u, 'true' if s == 0 else 'false'), *(['SYS %d false' % u] if sysfail else []))
                if c == 'echo OUT': outs[me] = outs.get(me, 0) + 1
            elif k == 'waitbad': need('WB -1')
            elif k == 'fork':
                c = o['proc']; live.append(c)
                if o['from'] == 'local': need('LOC L%d' % c['id'])
                if forkfail and pos[0] < len(got) and got[pos[0]] == 'FORKFAIL %d' % c['id']: pos[0] += 1; failed.add(c['id'])
                else: walk(c, st, 'local' if o['from'] == 'local' else 'fork', pidof.get(me))
            elif k in ('wait', 'nohang', 'hangkill') and live: c = live.pop(o['i'] % len(live)); dead.append(c); waited(c)
            elif k == 'wait2' and dead: waited(dead[o['i'] % len(dead)], 'W2')
            elif k == 'tw' and len(live) >= 2: a, b = live[-1], live[0]; waited(a); waited(b); live.remove(a); live.remove(b); dead += [a, b]
            elif k == 'waitall': waitall(); dead += live; live = []
        waitall(); need(show())
        e = p['end']['e']
        if e == 'execbad': need('EX -1')
        elif e == 'hang': need('HANG')
        elif e in ('err', 'errdeep'): nerr[0] += 1
        elif e == 'exec' and CMDS[p['end']['c']][0] == 'echo OUT': outs[me] = outs.get(me, 0) + 1
        elif e == 'exec' and CMDS[p['end']['c']][0] == 'nosuchcommand': need('AFTER')
        if e == 'ret' or e == 'exec' and CMDS[p['end']['c']][0] == 'nosuchcommand': pass
        if not bad and pos[0] < len(got): bad.append(('extra', 'process P%d went on with %r' % (me, got[pos[0]:])))
    walk(spec['root'], {'N': 0, 'A': [0], 'M': {}, 'S': 's', 'O': 0}, None, None)
    if bad: return [bad[0]]
    return []
def repair(spec):
    def fix(p):
        if p['end']['e'] == 'exec' and CMDS[p['end']['c']][0] == 'nosuchcommand': p['end']['e'] = 'execbad'
        for o in p['ops']:
            if 'proc' in o: fix(o['proc'])
    fix(spec['root']); return spec
_gen = gen
def gen(rng, tier):
    c = _gen(rng, tier); repair(c.spec); return c
def tags(spec, r):
    t = []
    def go(p):
        t.append('end:' + p['end']['e'])
        for o in p['ops']:
            t.append('op:' + o['k'])
            if 'proc' in o: t.append('from:%s:%d' % (o['from'], o['fn'])); go(o['proc'])
    go(spec['root']); return t
