"""Sockets: every conversation over a connection is compared with the texts its two ends exchange, every connection with the listener it was made to."""
from engine import *
import random
LEVEL = 'exploration'
QUICK_RUNS = 6000
ASSUMPTIONS = ['stream sockets of the families INET and UNIX over the simulated network', 'text without NUL bytes', 'not more than 50 connections wait on a listener']
DEEP = '/work/' + 'd' * 50
LONG = DEEP + '/' + 'p' * 44 + '-sock'   # 106 bytes
PATHS = ['/work/a.sock', 'b.sock', '/tmp/c.sock', LONG, LONG + 'x']   # the last one has the longest length there is
ADDRS = ['127.0.0.1', '127.0.0.2', '0.0.0.0', '127.0.1.1']
PORTS = [5000, 5001, 34835, 8080, 65535, 1024]   # 34835 is 5000 with its bytes swapped
def base(w):
    rr = random.Random(4111 + w); al = ''.join(chr(c) for c in range(32, 127) if chr(c) not in '"\\${}\'') + ''.join(chr(c) for c in range(0xa1, 0xff))
    return ''.join(rr.choice(al) for _ in range(211))
SZ = [1, 2, 3, 17, 60, 211, 300, 1000, 3000]
BIG = [4091, 4092, 4096, 4097, 8184, 9000, 20000, 65536, 70000]
class Gen:
    def __init__(s, r, big): s.r = r; s.big = big; s.ncl = 0
    def half(s, echo):
        r = s.r; n = r.choice(SZ) if echo or r.random() < 0.75 else r.choice(BIG if r.random() < 0.4 else BIG[:6]); rk = r.choice([0, 0, 1, 2, 3, 5, 6])
        if n <= 300 and r.random() < 0.25: rk = 4
        if n <= 1000 and r.random() < 0.3: rk = 7
        return {'n': n, 'm': 0 if rk == 7 and False else r.choice([0, 0, 1, 1, 2, 3, 5, 6]), 'rk': rk}
    def conv(s, i):
        r = s.r; cid = s.ncl; s.ncl += 1
        return {'cid': cid, 'to': i, 'steps': [{'d': r.choice(['cs', 'cs', 'sc', 'sc', 'dup']), 'a': s.half(0), 'b': s.half(0), 'gap': r.choice(['', '', '', 'sched', 'sleep', 'churn', 'gc', 'yg'])} for _ in range(r.randrange(0, 6 if not s.big else 9))],
                'end': r.choice(['cclose', 'sclose']), 'tail': r.choice([0, 0, 1, 50, 300, 4092, 9000]), 'how': r.choice(['0', '1', '2']), 'wc': r.randrange(2)}
BAD = ['noport', 'nolistener', 'nopath', 'longpath', 'portbig', 'portneg', 'badaddr', 'bindpriv', 'binddef', 'bindused', 'bindaddr', 'bindlong', 'binddir', 'bindbad', 'bindexists', 'acceptnb', 'readnc', 'writenc', 'closedconn', 'closedsend', 'closedread', 'closedaccept', 'closedbind', 'badfam', 'isconn', 'twice', 'uninit', 'portnan', 'refused2', 'badargs', 'addrinfo', 'addrinfo', 'aibad']
def gen(rng, tier):
    g = Gen(rng, tier != 'quick'); ls = []; used = set()
    for i in range(rng.choice([1, 1, 2, 3])):
        for _ in range(20):
            fam = rng.choice(['inet', 'unix']); a = rng.choice(PATHS) if fam == 'unix' else (rng.choice(ADDRS), rng.choice(PORTS))
            k = [a] if fam == 'unix' else [(x, a[1]) for x in (ADDRS if a[0] == '0.0.0.0' else [a[0], '0.0.0.0'])]
            if not used & set(k): break
        else: continue
        used |= set(k)
        ls.append({'fam': fam, 'addr': a if fam == 'unix' else list(a), 'late': int(rng.random() < 0.25), 'mux': int(rng.random() < 0.2), 'acc': [{'where': rng.choice(['thread', 'thread', 'fork', 'main']), 'how': rng.choice(['plain', 'plain', 'select', 'nonblock']), 'hand': rng.choice(['inline', 'thread', 'thread', 'fork'])} for _ in range(rng.choice([1, 1, 1, 2, 3]))]})
        if ls[-1]['mux']: ls[-1]['acc'] = ls[-1]['acc'][:1]
    procs = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])): procs.append({'where': rng.choice(['thread', 'thread', 'thread', 'fork', 'main']), 'ops': [g.conv(rng.randrange(len(ls))) for _ in range(rng.choice([1, 1, 2, 3]))]})
    spec = {'ls': ls, 'procs': procs, 'order': rng.getrandbits(20), 'alt': [[rng.choice(BAD), rng.randrange(100)] for _ in range(rng.choice([0, 0, 1, 3, 6]))], 'trap': rng.randrange(2)}
    if spec['trap']: spec['items'] = [rng.choice([0, 1, 7, 30, 200]) for _ in range(rng.randrange(0, 6))]
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 100), ('stall', 20), ('short_read', 700), ('short_write', 700), ('conn_refused', 300), ('emfile', 30), ('socket_fail', 200), ('net_delay', 700)] + ([('conn_reset', 30)] if rng.random() < 0.2 else []))
    if rng.random() < 0.5: c['net_delay'] = rng.choice([1000, 1000000, 100000000])
    c['pipe_cap'] = rng.choice([4096, 5000, 8192, 65536]); c['max_bb'] = 3000000000; c['p_preempt'] = min(c['p_preempt'], 200)
    if 'fine_bb' in c: c['fine_bb'] = max(c['fine_bb'], 300)
    return Case(spec, c)
def plan(spec):
    """acceptors (listener, number, role, how many connections) and clients, with the place each one runs at"""
    cnt = [0] * len(spec['ls'])
    for p in spec['procs']:
        for o in p['ops']: cnt[o['to']] += 1
    R = []
    for i, l in enumerate(spec['ls']):
        n = max(1, len(l['acc'])); acc = l['acc'] or [{'where': 'thread', 'how': 'plain', 'hand': 'inline'}]
        for j, a in enumerate(acc):
            k = cnt[i] // n + (j < cnt[i] % n); R.append(['a', i, j, a, a['where'], k])
    for q, p in enumerate(spec['procs']): R.append(['c', q, 0, p, p['where'], 0])
    random.Random(spec['order']).shuffle(R); seen = 0
    for x in R:
        if x[4] == 'main':
            if seen: x[4] = 'thread'
            seen = 1
        if x[0] == 'a':
            x.append(x[3]['how'] if len(spec['ls'][x[1]]['acc']) < 2 else 'plain')
            x.append(x[3]['hand'] if x[3]['hand'] != 'fork' or x[4] == 'fork' else 'thread')
            if spec['ls'][x[1]]['late'] and len(spec['ls'][x[1]]['acc']) > 1: pass
    return sorted(R, key=lambda y: y[4] != 'fork')
def late(l): return l['late'] and len(l['acc']) < 2
def lit(s): return '"' + s.replace('\n', '\\n') + '"'
def text(w, pos, h): 
    b = base(w); n = h['n'] - (h['rk'] == 7); s = pos % len(b); return (b * ((s + n) // len(b) + 1))[s:s + n] + ('\n' if h['rk'] == 7 else '')
def expr(w, pos, h): return '(cut(%d, %d, %d) + "\\n")' % (w, pos % 211, h['n'] - 1) if h['rk'] == 7 else 'cut(%d, %d, %d)' % (w, pos % 211, h['n'])
GAP = {'': '', 'sched': 'Thread.schedule();', 'sleep': 'sleep(1 / 1000);', 'churn': 'churn(20);', 'gc': 'GC.collect();', 'yg': 'GC.collectYoung();'}
def messages(spec, o):
    """what each side receives, turn by turn: {'c': [...], 's': [...]}"""
    ex = {'c': [], 's': []}; cw, sw = o['cid'] * 2, o['cid'] * 2 + 1; pos = 0
    for t in o['steps']:
        if mux(spec, o): a = {'n': min(t['a']['n'], 1500), 'rk': 0, 'm': t['a']['m']}; ex['c'].append(text(cw, pos, a)); pos += a['n']; continue
        if t['d'] in ('cs', 'dup'): ex['s'].append(text(cw, pos, t['a']))
        if t['d'] in ('sc', 'dup'): ex['c'].append(text(sw, pos, t['b']))
        pos += t['a']['n']
    h = {'n': o['tail'], 'rk': 0}
    if not mux(spec, o): ex['s' if o['end'] == 'cclose' else 'c'].append(text(cw if o['end'] == 'cclose' else sw, pos, h))
    return ex
def mux(spec, o): return spec['ls'][o['to']]['mux']
def side(spec, o, me):
    """the code of one end of a conversation, in a function of the socket k"""
    L = []; cw, sw = o['cid'] * 2, o['cid'] * 2 + 1; pos = 0; mw, ow = (cw, sw) if me == 'c' else (sw, cw)
    for t in o['steps']:
        if mux(spec, o):
            a = {'n': min(t['a']['n'], 1500), 'rk': 0}; L.append(' snd(k, %d, %s); d << rcv(k, %d, %d); st = st + 1;' % (t['a']['m'], expr(cw, pos, a), [t['a']['rk'], 0][t['a']['rk'] == 7], a['n'])); pos += a['n']; continue
        for dr, h in (('cs', t['a']), ('sc', t['b'])):
            if t['d'] == dr: L.append((' snd(k, %d, %s);' % (h['m'], expr(mw, pos, h))) if dr[0] == me else ' d << rcv(k, %d, %d);' % (h['rk'], h['n']))
        if t['d'] == 'dup':
            ho, hi = (t['a'], t['b']) if me == 'c' else (t['b'], t['a'])
            L.append(' d << both(k, %d, %s, %d, %d);' % (ho['m'], expr(mw, pos, ho), hi['rk'], hi['n']))
        pos += t['a']['n']; L.append(' st = st + 1; ' + GAP[t['gap']])
    if mux(spec, o): L.append(' k.close();')
    elif o['end'][0] == me:
        if o['tail']: L.append(' snd(k, 1, %s);' % expr(mw, pos, {'n': o['tail'], 'rk': 0}))
        L.append(' k.close();')
    else:
        L.append(' d << k.read();' if o['how'] == '0' else ' d << rest(k, %d);' % [0, 0, 700][int(o['how'])])
        L.append(' if (k.read(10) != "") { print "AFTEREOF"; }')
        if o['wc'] and spec['ls'][o['to']]['fam'] == 'unix': L.append(' try { k.write("x"); print "NOEPIPE"; } catch (Error e2) { if (ecode(e2) != "SystemError::Broken pipe" and ecode(e2) != "SystemError::Connection reset by peer") { print "BADEPIPE " + ecode(e2); } }')
        L.append(' k.close();')
    return 'fun %s%d(k) {\n var d = []; var st = 0; var er = "";\n try {\n%s\n } catch (Error e) { er = ecode(e); k.close(); }\n rep("%s", %d, er, d);\n}' % (me, o['cid'], '\n'.join(L), me, o['cid'])
def sockexpr(l): return 'Socket(Socket::%s, Socket::SOCK_STREAM)' % ('AF_INET' if l['fam'] == 'inet' else 'AF_UNIX')
def addrargs(l, conn):
    if l['fam'] == 'unix': return '"%s"' % l['addr']
    a, p = l['addr']; return '"%s", %d' % ('127.0.0.9' if conn and a == '0.0.0.0' else a, p)
PRE = ['var base = %{}; var ths = []; var kids = []; var cnt = 0; var ls = %{}; var hths = [];',
 'fun ecode(e) { var c = String(classof(e)); c = c.substr(7, c.size - 8); if (c == "SystemError") { var m = e.message.split(": "); c = "SystemError::" + m[m.size - 1]; } return c; }',
 'fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i), %{"k": i}]; } return n; }',
 'fun cut(w, off, n) { var b = base[w]; return (b * (((off + n) / b.size) + 1)).substr(off, n); }',
 'fun fds() { while (true) { try { return File.read("/sim/fds"); } catch (Error e) { churn(1); } } }',
 'fun rep(sd, cid, er, d) { var z = []; for (var i = 0; i < d.size; i += 1) { z << d[i].size; } print "<<R " + sd + " " + String(cid) + " " + z.join(",") + " " + er + ">>" + d.join("") + "<<E>>"; }',
 'fun snd(k, m, s) { var n = s.size; var w = n; if (m == 0 or m == 4) { w = k.write(s); } if (m == 1) { w = k.send(s); } if (m == 2) { w = IO.write(k, s); } if (m == 3) { k.print(s); } if (m == 5) { for (var i = 0; i < n; i += 977) { k.write(s.substr(i, 977)); } } if (m == 6) { k.send(s.substr(0, n / 2)); k.write(s.substr(n / 2, n)); } if (w != n) { print "BADCOUNT " + String(w) + " " + String(n); } return n; }',
 'fun nbr(k, n) { while (true) { var x = IO.readNonBlock(k, n); if (x != IO::EWouldBlock) { return x; } sleep(1 / 1000); } }',
 'fun selr(k, n) { while (true) { IO.select([k], [], [], 1); var x = IO.readNonBlock(k, n); if (x != IO::EWouldBlock) { return x; } } }',
 'fun one(k, m, n) { if (m == 2) { if (n > 297) { return k.read(297); } return k.read(n); } if (m == 3) { return nbr(k, n); } if (m == 4) { return k.getchar(); } if (m == 5) { return selr(k, n); } if (n > 1) { return k.read(n / 2); } return k.read(n); }',
 'fun rcv(k, m, n) { if (m == 0) { return k.read(n); } if (m == 1) { return IO.read(k, n); } if (m == 7) { return k.getline(); } var o = []; var got = 0; while (got < n) { var x = one(k, m, n - got); if (x == "") { return o.join(""); } got = got + x.size; o << x; } return o.join(""); }',
 'fun rest(k, n) { var o = []; while (true) { var x = ""; if (n > 0) { x = k.read(n); } else { x = selr(k, 5000); } if (x == "") { return o.join(""); } o << x; } }',
 'fun both(k, m, s, rm, n) { var we = []; var t = newThread(fun() { try { snd(k, m, s); } catch (Error e) { we << e; } }); var x = ""; var re = nil; try { x = rcv(k, rm, n); } catch (Error e) { re = e; } joinThread(t); if (re) { throw re; } if (we.size > 0) { throw we[0]; } return x; }',
 'fun mks(i) { while (true) { try { if (i) { return Socket(Socket::AF_INET, Socket::SOCK_STREAM); } return Socket(Socket::AF_UNIX, Socket::SOCK_STREAM); } catch (Error e) { if (ecode(e) != "SystemError::Too many open files") { print "SOCKERR " + e.message; } churn(1); } } }',
 
 'fun conn(i, a, p) { while (true) { var k = mks(i); try { if (i) { k.connect(a, p); } else { k.connect(a); } return k; } catch (Error e) { print "CERR " + ecode(e); k.close(); } sleep(1 / 100); } }',
 'fun acc1(l, how) { try { if (how == 1) { while (true) { var r = IO.select([l], [], [], 1); if (r) { return l.accept(); } } } return l.accept(); } catch (Error e) { if (how != 2 or ecode(e) != "SystemError::EAGAIN") { print "AERR " + ecode(e); } if (how == 2) { sleep(1 / 1000); } } return nil; }',
 'fun getid(k) { try { return k.read(8); } catch (Error e) { return "E " + ecode(e) + "."; } }',
]
def render(spec):
    R = plan(spec); L = list(PRE); nl = len(spec['ls'])
    if spec['trap']: L.append('Signal.trap(Signal::USR1, fun() { cnt = cnt + 1; });')
    L.append('Signal.trap(Signal::PIPE, fun() { cnt = cnt + 1; });')
    convs = [o for p in spec['procs'] for o in p['ops']]
    for o in convs:
        L.append('base[%d] = %s; base[%d] = %s;' % (o['cid'] * 2, lit(base(o['cid'] * 2)), o['cid'] * 2 + 1, lit(base(o['cid'] * 2 + 1))))
        L.append(side(spec, o, 'c'))
        if not mux(spec, o): L.append(side(spec, o, 's'))
    L.append('fun handle(k, l, n) { var id = getid(k); print "ACC " + String(l) + " " + String(n) + " " + id.substr(0, id.size - 1);')
    for o in convs:
        if not mux(spec, o): L.append(' if (id == "C%06d\\n") { return s%d(k); }' % (o['cid'], o['cid']))
    L.append(' k.close(); }')
    L += ['fun spawn(k, l, n) { hths << newThread(fun() { handle(k, l, n); }); }',
          'fun forkh(k, l, n) { var p = Process.fork(fun() { handle(k, l, n); print "KID"; exit(0); }); if (p == -1) { handle(k, l, n); } else { kids << p; k.close(); } }',
          'fun serve(s, l, c, how, hand) { var n = 0; if (how == 2) { s.fcntl(4, 2048 | s.fcntl(3)); } while (n < c) { var k = acc1(s, how); if (k != nil) { n = n + 1; if (hand == 0) { handle(k, l, n); } if (hand == 1) { spawn(k, l, n); } if (hand == 2) { forkh(k, l, n); } } } s.close(); }',
          'fun mstep(k, bufs, ids, i, l) { var x = IO.readNonBlock(k, 5000); if (x == IO::EWouldBlock) { return true; } if (x == "") { return false; } if (ids[i] < 8) { bufs[i] = bufs[i] + x; ids[i] = ids[i] + x.size; if (ids[i] < 8) { return true; } x = bufs[i]; print "ACC " + String(l) + " " + String(i + 1) + " " + x.substr(0, 7); } k.write(x); return true; }',
          'fun mtry(k, bufs, ids, i, l) { try { return mstep(k, bufs, ids, i, l); } catch (Error e) { print "MERR " + ecode(e); if (ids[i] < 8) { print "ACC " + String(l) + " " + String(i + 1) + " E " + ecode(e); } return false; } }',
          'fun muxs(s, l, c) { var cs = []; var bufs = []; var ids = []; var open = 0; while (cs.size < c or open > 0) { var rs = []; if (cs.size < c) { rs << s; } for (var i = 0; i < cs.size; i += 1) { if (cs[i]) { rs << cs[i]; } } var r = IO.select(rs, [], [], 2); if (r) { r = r[0]; } else { r = []; } var fdm = %{}; for (var i = 0; i < r.size; i += 1) { fdm[r[i].fd] = 1; }'
          ' for (var i = 0; i < cs.size; i += 1) { if (cs[i]) { if (fdm[cs[i].fd] == 1) { if (mtry(cs[i], bufs, ids, i, l) == false) { cs[i].close(); cs[i] = nil; open = open - 1; } } } } if (cs.size < c and fdm[s.fd] == 1) { var k = acc1(s, 0); if (k != nil) { cs << k; bufs << ""; ids << 0; open = open + 1; } } } s.close(); }',
          'fun client(k, id) { print "CON " + id + " " + String(k.fd); try { k.write("C" + id + "\\n"); } catch (Error e) { print "IDERR " + id + " " + ecode(e); } }',
          'fun muxid(k) { try { var x = k.read(8); print "MID " + x.substr(0, 7); } catch (Error e) { print "MIDERR " + ecode(e); } }']
    L.append('var fd0 = fds();')
    L.append('fun mkl(i, n, a, p) { var s = mks(i); while (true) { try { if (i) { s.bind(a, p); } else { s.bind(a); } ls[n] = s; return s; } catch (Error e) { print "BINDERR " + ecode(e); exit(7); } } }')
    for i, l in enumerate(spec['ls']):
        b = 'mkl(%s, %d, %s);' % (str(l['fam'] == 'inet').lower(), i, addrargs(l, 0) + (', 0' if l['fam'] == 'unix' else ''))
        if not late(l): L.append(b)
    if spec.get('items'):   # a child that interrupts the others' system calls
        L.append('kids << Process.fork(fun() { %s exit(0); });' % ' '.join('sleep(%d / 1000); Process.signal(Process.ppid(), Signal::USR1);' % n for n in spec['items']))
    mainrole = ''
    for x in R:
        if x[0] == 'a':
            l = spec['ls'][x[1]]
            b = ('mkl(%s, %d, %s);' % (str(l['fam'] == 'inet').lower(), x[1], addrargs(l, 0) + (', 0' if l['fam'] == 'unix' else ''))) if late(l) else ''
            if len(l['acc']) > 1: sv = 'serve2(ls[%d], %d, %d, %d);' % (x[1], x[1], x[5], {'inline': 0, 'thread': 1, 'fork': 2}[x[7]])
            elif l['mux']: sv = 'muxs(ls[%d], %d, %d);' % (x[1], x[1], x[5])
            else: sv = 'serve(ls[%d], %d, %d, %d, %d);' % (x[1], x[1], x[5], {'plain': 0, 'select': 1, 'nonblock': 2}[x[6]], {'inline': 0, 'thread': 1, 'fork': 2}[x[7]])
            code = b + ' ' + sv
        else:
            code = ''
            for o in x[3]['ops']:
                l = spec['ls'][o['to']]; a = addrargs(l, 1) + (', 0' if l['fam'] == 'unix' else '')
                v = 'k%d' % o['cid']; code += ' var %s = conn(%s, %s); client(%s, "%06d");%s c%d(%s);' % (v, str(l['fam'] == 'inet').lower(), a, v, o['cid'], ' muxid(%s);' % v if l['mux'] else '', o['cid'], v)
        x.append(code)
    L.append('fun serve2(s, l, c, hand) { for (var n = 0; n < c; n += 1) { var k = nil; while (k == nil) { k = acc1(s, 0); } if (hand == 0) { handle(k, l, 0); } if (hand == 1) { spawn(k, l, 0); } if (hand == 2) { forkh(k, l, 0); } } }')
    wait = 'for (var i = 0; i < hths.size; i += 1) { joinThread(hths[i]); } for (var i = 0; i < kids.size; i += 1) { Process.waitpid(kids[i]); }'
    for x in R:
        if x[4] == 'fork':
            keep = [x[1]] if x[0] == 'a' else []
            L.append('kids << Process.fork(fun() { kids = []; %s %s %s print "KID"; exit(0); });' % (' '.join('if (ls[%d]) { ls[%d].close(); }' % (i, i) for i in range(nl) if i not in keep and not late(spec['ls'][i])), x[-1], wait))
    # listeners that only children serve are closed here
    for i, l in enumerate(spec['ls']):
        if not late(l) and all(x[4] == 'fork' for x in R if x[0] == 'a' and x[1] == i): L.append('ls[%d].close();' % i)
    for x in R:
        if x[4] == 'thread': L.append('ths << newThread(fun() { %s });' % x[-1])
        elif x[4] == 'main': mainrole = x[-1]
    for n, (b, u) in enumerate(spec['alt']): L.append(bad(spec, n, b, u))
    if mainrole: L.append('fun mainrole() { %s }\nmainrole();' % mainrole)
    L.append('for (var i = 0; i < ths.size; i += 1) { joinThread(ths[i]); }')
    L.append(wait)
    for i, l in enumerate(spec['ls']):
        if len(l['acc']) > 1: L.append('ls[%d].close();' % i)
    L.append('print "FDS " + fd0 + " " + fds();')
    L.append('print "END";')
    return Job('\n'.join(L).encode('latin-1'), dirs=[DEEP])
# one wrong use each: (set up, statement that has to fail, classes it may fail with)
def AI(n, u):
    host = ['127.0.0.1', '127.0.0.77', 'localhost'][u % 3]; port = 1000 + u; ty = [None, 1, 2][u // 3 % 3]; svc = [str(port), '"%d"' % port][u // 9 % 2]
    ip = '127.0.0.1' if host == 'localhost' else host; e = ['#<AddrInfo %s:%d (%s)> %s' % (ip, port, t, ip) for t, k in (('TCP', 1), ('UDP', 2)) if ty in (None, k)]
    return ('nil', 'AddrInfo.getaddrinfo("%s", %s%s)' % (host, svc, '' if ty is None and u % 2 else ', nil' if ty is None else ', %d' % ty), re.escape(','.join(e)))
def wrong(spec, n, b, u):
    S = lambda i: 'mks(%s)' % ('true' if i else 'false'); up = '/work/u%d' % n; pt = 6000 + n; A = 'ArgumentError'; E = 'Error'
    fam = u % 2; ad = '"127.0.0.1", %d' % pt if fam else '"%s"' % up
    return {
     'noport': (S(1), 'k.connect("127.0.0.1");', A), 'nolistener': (S(1), 'k.connect("127.0.0.1", %d);' % (7000 + u), 'SystemError::ECONNREFUSED'), 'nopath': (S(0), 'k.connect("/work/nosuch%d");' % u, 'SystemError::ENOENT'),
     'longpath': (S(0) + '; var q = mks(false); q.bind("%s"); z << q' % (DEEP + '/' + 'l' * 48 + '%02d' % n), 'k.connect("%s");' % (DEEP + '/' + 'l' * 48 + '%02d' % n + 'y' * (1 + u % 9)), 'SystemError::E(NAMETOOLONG|INVAL)' ),
     'portbig': (S(1), 'k.connect("127.0.0.1", %d);' % (65536 + [0, 5000, 8080, 4294967296][u % 4]), A), 'portneg': (S(1), 'k.connect("127.0.0.1", -%d);' % (65536 - [5000, 8080, 1][u % 3]), A), 'portnan': (S(1), 'k.bind("127.0.0.1", %d);' % [65536 + pt, -1, 131072, 4294967296 + pt][u % 4], A),
     'badaddr': (S(1), 'k.connect("%s", 5000);' % ['', '127.0.0', '127.0.0.256', 'localhost', 'x', '::1'][u % 6], A),
     'bindpriv': (S(1), 'k.bind("127.0.0.1", %d);' % [1, 79, 1023][u % 3], 'SystemError::EACCES'), 'binddef': (S(1), 'k.bind("127.0.0.1");', 'SystemError::EACCES'),
     'bindused': (S(1) + '; var q = mks(true); q.bind("127.0.0.1", %d); z << q' % pt, 'k.bind("%s", %d);' % (['127.0.0.1', '0.0.0.0'][fam], pt), 'SystemError::EADDRINUSE'),
     'bindaddr': (S(1), 'k.bind("8.8.8.8", %d);' % pt, 'SystemError::EADDRNOTAVAIL'), 'bindlong': (S(0), 'k.bind("%s/%s");' % (DEEP, 'm' * (51 + u % 9)), 'SystemError::E(NAMETOOLONG|INVAL)'), 'binddir': (S(0), 'k.bind("/work/nodir/s");', 'SystemError::ENOENT'),
     'bindbad': (S(1), 'k.bind("nonsense", %d);' % pt, 'ArgumentError|SystemError::EADDRNOTAVAIL'), 'bindexists': (S(0) + '; var q = mks(false); q.bind("%s"); z << q' % up, 'k.bind("%s");' % up, 'SystemError::EADDRINUSE'),
     'acceptnb': (S(fam), 'k.accept();', 'SystemError::EINVAL'), 'readnc': (S(fam), 'k.read(3);', 'SystemError::(ENOTCONN|EINVAL)'), 'writenc': (S(fam), 'k.write("x");', 'SystemError::(ENOTCONN|EPIPE)'),
     'closedconn': (S(fam) + '; k.close(); var q = %s; z << q' % S(fam), 'k.connect(%s);' % ad, E), 'closedsend': (S(fam) + '; k.close(); var q = %s; z << q' % S(fam), 'k.send("x");', E), 'closedread': (S(fam) + '; k.close(); var q = %s; z << q' % S(fam), 'k.read(2);', E),
     'closedaccept': (S(fam) + '; k.bind(%s); k.close(); var q = %s; z << q' % (ad, S(fam)), 'k.accept();', E), 'closedbind': (S(fam) + '; k.close(); var q = %s; z << q' % S(fam), 'k.bind(%s);' % ad, E),
     'badfam': ('nil', 'Socket(%d, Socket::SOCK_STREAM);' % [97, 3, 250][u % 3], 'SystemError::(EAFNOSUPPORT|EMFILE)'),
     'isconn': (S(fam) + '; var q = mks(%s); q.bind(%s); z << q; var k2 = conn(%s, %s); k.close(); k = k2' % (str(bool(fam)).lower(), ad, str(bool(fam)).lower(), ad if fam else ad + ', 0'), 'k.connect(%s);' % ad, 'SystemError::EISCONN'),
     'twice': (S(fam) + '; k.bind(%s)' % ad, 'k.bind(%s);' % (ad if fam else '"%sx"' % up), 'SystemError::EINVAL'),
     'uninit': ('Unin()', ['k.connect("127.0.0.1", 5000);', 'k.accept();', 'k.bind("x");', 'k.read(1);', 'k.write("x");', 'k.close();'][u % 6], E),
     'refused2': (S(fam) + '; var q = mks(%s); q.bind(%s); q.close()' % (str(bool(fam)).lower(), ad), 'k.connect(%s);' % ad, 'SystemError::ECONNREFUSED'),
     'addrinfo': AI(n, u), 'aibad': ('nil', 'AddrInfo.getaddrinfo(%s);' % ['"no.such.host", 80', '"300.1.1.1", nil', '"", 80', '"127.0.0.1", 80, nil, 10', '5, 80', '"localhost", []', '"localhost", 80, "x"'][u % 7], 'Error|ArgumentError|SystemError::[A-Z]+|Error'),
     'badargs': (S(fam), ['k.connect(5);', 'k.bind(nil);', 'k.connect("127.0.0.1", "80");', 'k.bind(%{}, 8000);', 'k.connect();', 'k.connect(nil, 5000);'][u % 6], 'ArgumentError|SystemError::EINVAL|SystemError::ENOENT' if False else A)}[b]
def bad(spec, n, b, u):
    pre, st, cls = wrong(spec, n, b, u)
    if b == 'addrinfo': return 'fun bad%d() { var a = %s; var o = []; churn(9); GC.collectYoung(); for (var i = 0; i < a.size; i += 1) { var x = a[i].inspect() + " " + a[i].ip(); o << x; } print "BAD %d " + o.join(","); }\nbad%d(); GC.collect();' % (n, st, n, n)
    pre = pre.split('; ', 1)
    return ('class Unin < Socket { init() { this.v = 1; } }\n' if b == 'uninit' and not any(x == 'uninit' for x, _ in spec['alt'][:n]) else '') + \
        'fun bad%d() { var z = []; var k = %s;%s try { %s print "BAD %d none"; } catch (Error e) { print "BAD %d " + ecode(e); } try { if (k) { k.close(); } } catch (Error e3) { churn(1); } for (var i = 0; i < z.size; i += 1) { z[i].close(); } }\nbad%d();' % (n, pre[0], ' ' + pre[1] + ';' if len(pre) > 1 else '', st, n, n, n)
import re, os, errno
NAMES = {os.strerror(n): e for n, e in sorted(errno.errorcode.items(), reverse=True)}; NAMES[os.strerror(errno.EINVAL)] = 'EINVAL'; NAMES[os.strerror(errno.EAGAIN)] = 'EAGAIN'
def errname(c):
    a, _, b = c.partition('::'); return a + '::' + NAMES.get(b, b) if a == 'SystemError' else c
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    R = plan(spec); convs = {o['cid']: o for p in spec['procs'] for o in p['ops']}; res = {}; acc = []; con = {}; kid = end = 0; badr = {}; fdl = None
    fired = lambda n: r.faults.get(n, (0, 0))[0]
    reset = fired('conn_reset')
    for pid in sorted(set(x.pid for x in r.recs if x.which == 1)):
        t = r.text(1, pid)
        while t:
            if t.startswith('<<R '):
                h, _, rest = t[4:].partition('>>'); a = h.split(' ', 3); ix = rest.find('<<E>>\n')
                if ix < 0: return [('output', 'cut result %r' % t[:80])]
                k = (a[0], int(a[1]))
                if k in res: return [('output', 'end %s of conversation %d reported twice' % k)]
                res[k] = (rest[:ix], [int(x) for x in a[2].split(',') if x], a[3]); t = rest[ix + 6:]; continue
            l, _, t = t.partition('\n'); w = l.split(' ')
            if w[0] == 'ACC': acc.append((int(w[1]), int(w[2]), ' '.join(w[3:]), pid))
            elif w[0] == 'CON': con[int(w[1])] = (pid, int(w[2]))
            elif w[0] == 'KID': kid += 1
            elif w[0] == 'END': end += 1
            elif w[0] == 'FDS': fdl = (w[1], w[2])
            elif w[0] == 'BAD': badr[int(w[1])] = errname(' '.join(w[2:]))
            elif w[0] == 'CERR':
                ok = ['SystemError::ECONNREFUSED'] if fired('conn_refused') or any(late(x) for x in spec['ls']) else []
                if any(late(x) for x in spec['ls']): ok.append('SystemError::ENOENT')
                if errname(' '.join(w[1:])) not in ok: return [('connect-error', 'a connection to a listening socket failed: ' + l)]
            elif w[0] == 'AERR':
                if not (fired('emfile') and errname(' '.join(w[1:])) == 'SystemError::EMFILE'): return [('accept-error', 'accept failed although no fault was injected: ' + l)]
            elif w[0] in ('IDERR', 'MERR', 'MIDERR'):
                if not reset: return [('io-error', 'an operation failed although no connection was reset: ' + l)]
            elif w[0] == 'MID': pass
            else: return [('output:' + w[0][:12], 'unexpected line %r' % l[:200])]
    if 'Uncaught' in r.err: return [('uncaught', r.err[-400:])]
    for n, (b, u) in enumerate(spec['alt']):
        pre, st, cls = wrong(spec, n, b, u); g = badr.get(n)
        if g is None: return [('no-end', 'the wrong use %s was not finished' % b)]
        if cls == 'Error' and g != 'none': continue
        okc = cls + ('|SystemError::ECONNREFUSED' if fired('conn_refused') and 'connect' in st else '') + ('|SystemError::EMFILE' if fired('emfile') and 'accept' in st else '')
        if not re.fullmatch('(%s)' % okc, g): return [('wrong-use:' + b, '%s after %s gave %s instead of %s' % (st, pre, g, cls))]
    nk = len([x for x in R if x[4] == 'fork'])
    if end != 1 or kid < nk: return [('no-end', 'script did not finish: %d children, %r' % (kid, r.err[-400:]))]
    if fdl[0] != fdl[1]: return [('descriptors', '%s descriptors open at the start, %s after every socket was closed' % fdl)]
    # who was accepted where, and in which order
    seen = {}
    for l, n, i, pid in acc:
        if not (i[:1] == 'C' and i[1:].isdigit() and int(i[1:]) in convs):
            if reset: continue
            return [('identity', 'listener %d accepted a connection that said %r' % (l, i[:60]))]
        c = int(i[1:])
        if convs[c]['to'] != l: return [('wrong-listener', 'conversation %d, to listener %d %r, reached listener %d %r' % (c, convs[c]['to'], spec['ls'][convs[c]['to']]['addr'], l, spec['ls'][l]['addr']))]
        if c in seen: return [('accepted-twice', 'conversation %d was accepted twice' % c)]
        seen[c] = (l, n)
    if not reset and set(seen) != set(convs): return [('not-accepted', 'conversations %s were not accepted' % sorted(set(convs) - set(seen)))]
    if getattr(r, 'log', None):
        # the moment a connection was made: the last connect of its descriptor before the client said so
        ev = {}
        for line in r.log.split(b'\n'):
            if b' connect ' in line:
                m = LOGC.match(line)
                if m: ev.setdefault((int(m.group(2)), int(m.group(3))), []).append(int(m.group(1)))
        when = {}
        for x in r.recs:
            if x.which == 1:
                for m in CONC.finditer(x.data):
                    q = [s for s in ev.get((x.pid, int(m.group(2))), []) if s <= x.seq]
                    if q: when[int(m.group(1))] = q[-1]
        for i, l in enumerate(spec['ls']):
            if len(l['acc']) > 1: continue
            o = sorted((n, c) for c, (j, n) in seen.items() if j == i); w = [(when[c], c) for n, c in o if c in when]
            if w != sorted(w): return [('accept-order', 'listener %d accepted conversations %s, which connected in the order %s' % (i, [c for _, c in w], [c for _, c in sorted(w)]))]
    # what each end received
    for c, o in sorted(convs.items()):
        ex = messages(spec, o)
        for sd in 'cs':
            if sd == 's' and mux(spec, o): continue
            if (sd, c) not in res:
                if reset: continue
                return [('no-result', 'end %s of conversation %d has no result' % (sd, c))]
            d, sz, er = res[(sd, c)]; e = ex[sd]
            if er:
                if not reset: return [('io-error', 'end %s of conversation %d failed although no connection was reset: %s' % (sd, c, er))]
                if errname(er) not in ('SystemError::ECONNRESET', 'SystemError::EPIPE'): return [('io-error', 'end %s of conversation %d failed with %s' % (sd, c, er))]
            full = ''.join(e)
            if reset:
                if not full.startswith(d): return [('bytes-prefix', 'end %s of conversation %d received %d bytes that are not what was sent' % (sd, c, len(d)))]
            elif d != full:
                k = next((k for k in range(min(len(d), len(full))) if d[k] != full[k]), min(len(d), len(full)))
                return [('bytes', 'end %s of conversation %d received %d bytes of the %d sent, first difference at %d: %r instead of %r' % (sd, c, len(d), len(full), k, d[k:k + 30], full[k:k + 30]))]
            elif sz != [len(x) for x in e]: return [('op-size', 'end %s of conversation %d: the operations read %s bytes instead of %s' % (sd, c, sz, [len(x) for x in e]))]
    return []
LOGC = re.compile(rb'E(\d+) \S+ p(\d+) t\d+ connect (\d+) to')
CONC = re.compile(rb'CON (\d+) (\d+)\n')
WANTLOG = True
def tags(spec, r):
    t = ['bad:' + b for b, _ in spec['alt']]
    for x in plan(spec):
        if x[0] == 'a': t.append('accept:%s:%s:%s' % (x[4], 'mux' if spec['ls'][x[1]]['mux'] else x[6], x[7])); t.append('family:' + spec['ls'][x[1]]['fam'] + (':late' if late(spec['ls'][x[1]]) else ''))
        else:
            t.append('client:' + x[4])
            for o in x[3]['ops']: t.append('end:' + o['end']); t += ['turn:' + y['d'] for y in o['steps']]
    return t
