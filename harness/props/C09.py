"""Reclamation and finalizers. Two kinds of histories: object graphs with finalizers against an exact reachability model (every
finalizer exactly once, never while reachable, by the next full collection once unreachable), and loops over the language's constructs
with bounded live data, whose heap (the bytes live in the simulator's allocator) must stop growing."""
from engine import *
import bodygen
LEVEL = "exploration"; QUICK_S = 60; QUICK_RUNS = 2500; THOROUGH_S = 600
ASSUMPTIONS = ['evaluated and loaded code and property names are kept by design and are not used in the bounded-heap loops', 'threads in the loops are joined or detached',
               'finalizers run at interrupt checks, in GC.collect() and at exit, not inside the collector; a finalizer does not raise']
# ---------------------------------------------------------------- finalizer histories
PRE = '''
class Nd { init(id) { this.id = id; this.pad = ["p", id]; } me() { return this; } }
class Er < Error { init(m) { super.init(m); this.obj = nil; } }
var vh = [nil, nil, nil, nil]; var vm = Map(); var vn = Nd(0); var vk = [nil, nil, nil, nil]; var vb = [nil, nil, nil, nil]; var vq = [[nil], [nil], [nil], [nil]]; var vx = [nil, nil, nil, nil];
var vg0 = nil; var vg1 = nil; var vg2 = nil; var vg3 = nil; var ress = []; var stop = 0; var ths = [];
vn.f0 = nil; vn.f1 = nil; vn.f2 = nil; vn.f3 = nil;
fun settle() { Nd(0); var z = [0]; return 1; }
fun mkc(x) { return fun(w) { return x; }; }
fun mke(x) { var e = Er("e"); e.obj = x; return e; }
fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i), %{"k": i}]; } return n; }
fun idof(o) { var t = typeof(o); if (t == "array") { return o[0]; } if (t == "map") { return o["id"]; } if (t == "string") { return o.substr(2, 9); } return o.id; }
fun pad(o) { var t = typeof(o); if (t == "array") { return o[2].join(""); } if (t == "map") { return o["pad"].join(""); } if (t == "string") { return "p" + o.substr(2, 9); } return o.pad.join(""); }
fun link(o, p) { var t = typeof(o); if (t == "array") { o[1] = p; } else if (t == "map") { o["x"] = p; } else if (t == "instance") { o.x = p; } }
fun finp(o) { print "F ${idof(o)} ${pad(o)}"; }
fun fina(o) { churn(40); print "F ${idof(o)} ${pad(o)}"; }
fun finr(o) { ress << o; print "F ${idof(o)} ${pad(o)}"; }
fun finn(o) { var n = Nd(idof(o)); GC.setFinalizer(n, fun(q) { print "F2 ${idof(q)} ${pad(q)}"; }); print "F ${idof(o)} ${pad(o)}"; }
class Fm { init(k) { this.k = [k]; } fin(o) { print "F ${idof(o)} ${pad(o)}"; if (this.k.size != 1) { print "WRONG ${idof(o)}"; } } }
fun mkf(k) { var z = [k]; return fun(o) { print "F ${idof(o)} ${pad(o)}"; if (z.size != 1) { print "WRONG ${idof(o)}"; } }; }
fun fino(o) { print "WRONG ${idof(o)}"; }
'''
LOCS = [k + str(i) for k in 'HMNKBQXTG' for i in range(4)]
def get(l):
    k, i = l[0], l[1:]
    return {'H': 'vh[%s]', 'M': 'vm["k%s"]', 'N': 'vn.f%s', 'K': 'vk[%s](0)', 'B': 'vb[%s]()', 'Q': 'vq[%s][0]', 'X': 'vx[%s].obj', 'T': 'Thread.current()["t%s"]', 'G': 'vg%s'}[k] % i
def put(l, e):
    k, i = l[0], l[1:]
    return {'H': 'vh[%s] = %s;', 'M': 'vm["k%s"] = %s;', 'N': 'vn.f%s = %s;', 'K': 'vk[%s] = mkc(%s);', 'B': 'vb[%s] = %s.me;', 'Q': 'vq[%s] = [%s];', 'X': 'vx[%s] = mke(%s);', 'T': 'Thread.current()["t%s"] = %s;', 'G': 'vg%s = %s;'}[k] % (i, e)
def clr(l, v):
    k, i = l[0], l[1:]
    return {'H': ['vh[%s] = nil;'], 'M': ['vm.delete("k%s");', 'vm["k%s"] = nil;'], 'N': ['vn.f%s = nil;'], 'K': ['vk[%s] = nil;'], 'B': ['vb[%s] = nil;'], 'Q': ['vq[%s].pop();', 'vq[%s].clear();', 'vq[%s] = nil;'], 'X': ['vx[%s].obj = nil;', 'vx[%s] = nil;'], 'T': ['Thread.current()["t%s"] = nil;'], 'G': ['vg%s = nil;']}[k][v % len({'M': '12', 'Q': '123', 'X': '12'}.get(k, '1'))] % i
def gen_hist(rng, n):
    ops = []; loc = {}; kind = {}; nid = 0
    for _ in range(n):
        full = sorted(loc)
        o = rng.choice(['new'] * 6 + ['clr'] * 5 + ['move'] * 3 + ['copy', 'link', 'link', 'link', 'unlink'] + ['collect', 'collect', 'young', 'churn', 'hold', 'thread', 'tmp', 'over', 'refin', 'refin', 'clrres', 'nest'])
        if o in ('clr', 'move', 'copy', 'link', 'unlink', 'hold', 'thread', 'refin', 'over') and not full: o = 'new'
        op = {'o': o}
        if o in ('new', 'tmp', 'over', 'nest'):
            nid += 1; op.update(id=nid, kind=rng.choice(['nd', 'nd', 'arr', 'map', 'str']), fin=rng.choice(['p', 'p', 'p', 'a', 'r', 'n', 'm', 'k', '', '']))
        if o == 'new':
            op['l'] = rng.choice([l for l in LOCS if l not in loc] or LOCS)
            if op['l'][0] == 'B': op['kind'] = 'nd'
            loc[op['l']] = nid; kind[nid] = op['kind']
        elif o == 'over': op['l'] = rng.choice(full); op['kind'] = 'nd'; loc[op['l']] = nid; kind[nid] = 'nd'
        elif o == 'clr': op['l'] = rng.choice(full); op['v'] = rng.randrange(3); del loc[op['l']]
        elif o in ('move', 'copy'):
            op['l'] = rng.choice(full); op['m'] = rng.choice([l for l in LOCS if l != op['l']]); op['v'] = rng.randrange(3)
            if op['m'][0] == 'B' and kind[loc[op['l']]] != 'nd': op['m'] = 'H' + op['m'][1]
            loc[op['m']] = loc[op['l']]
            if o == 'move' and op['m'] != op['l']: del loc[op['l']]
        elif o == 'link': op['l'] = rng.choice(full); op['m'] = rng.choice(full)
        elif o in ('unlink', 'thread', 'refin'): op['l'] = rng.choice(full); op['w'] = rng.choice('pmk')
        elif o == 'hold':
            op['l'] = rng.choice(full); op['v'] = rng.randrange(3); op['g'] = rng.randrange(3); del loc[op['l']]
        elif o == 'churn': op['n'] = rng.choice([3, 40, 300])
        ops.append(op)
    return ops
def finf(f, n): return {'m': 'Fm(%d).fin' % n, 'k': 'mkf(%d)' % n}.get(f, 'fin' + f)
def mkobj(op):
    e = {'nd': 'Nd(%d)', 'arr': '[%d, nil, ["p", %d]]', 'map': '%%{"id": %d, "pad": ["p", %d]}', 'str': '("st" + String(%d))'}[op['kind']]
    e = e % ((op['id'],) * e.count('%d'))
    return 'var o = %s;%s' % (e, ' GC.setFinalizer(o, %s);' % finf(op['fin'], op['id']) if op['fin'] else '')
class Model:
    """reachability: roots are the locations and RES; objects link to at most one other"""
    def __init__(s): s.loc = {}; s.link = {}; s.fin = {}; s.kind = {}; s.done = set(); s.f2 = set(); s.f2done = set(); s.res = set(); s.roots = set()
    def live(s):
        todo = list(s.loc.values()) + list(s.res) + list(s.roots); seen = set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x); todo += [s.link[x]] if x in s.link else []
        return seen
def hist_src(spec):
    L = [PRE]
    for j in range(spec['bg']): L.append('ths << newThread(fun() { while (stop == 0) { churn(5); Thread.schedule(); } });')
    # the VM keeps the last instance created (thisObj) and the last value popped alive: settle() replaces them
    coll = 'settle(); GC.collect();' if not spec['bg'] else 'settle(); GC.collect(); sleep(1 / 100); GC.collect();'
    calls = []; m = Model()
    for i, op in enumerate(spec['ops']):
        o = op['o']; b = ''
        if o in ('new', 'over'):
            b = mkobj(op) + ' ' + put(op['l'], 'o'); m.loc[op['l']] = op['id']; m.kind[op['id']] = op['kind']
        elif o == 'tmp': b = mkobj(op)
        elif o == 'nest': b = mkobj(op) + ' var f = fun() { var p = [o]; churn(9); return p.size; }; f();'
        elif o == 'collect': b = coll
        elif o == 'young': b = 'GC.collectYoung();'
        elif o == 'churn': b = 'churn(%d);' % op['n']
        elif o == 'clrres': b = 'ress.clear();'
        elif op['l'] in m.loc:
            if o == 'clr': b = clr(op['l'], op['v']); del m.loc[op['l']]
            elif o in ('move', 'copy') and op['m'] != op['l'] and not (op['m'][0] == 'B' and m.kind[m.loc[op['l']]] != 'nd'):
                b = 'var t = %s; %s' % (get(op['l']), put(op['m'], 't')); m.loc[op['m']] = m.loc[op['l']]
                if o == 'move': b += ' ' + clr(op['l'], op['v']); del m.loc[op['l']]
            elif o == 'link' and op['m'] in m.loc: b = 'link(%s, %s);' % (get(op['l']), get(op['m']))
            elif o == 'unlink': b = 'link(%s, nil);' % get(op['l'])
            elif o == 'refin': b = 'var o = %s; GC.setFinalizer(o, fino); GC.setFinalizer(o, %s);' % (get(op['l']), finf(op.get('w', 'p'), i))
            elif o == 'thread': b = 'var o = %s; joinThread(newThread(fun() { var z = [o]; churn(7); }));' % get(op['l'])
            elif o == 'hold': b = 'var o = %s; %s %s print "U ${idof(o)} ${pad(o)}";' % (get(op['l']), clr(op['l'], op['v']), [coll, 'GC.collectYoung();', 'churn(60);'][op['g']]); del m.loc[op['l']]
        L.append('fun op%d() { %s }' % (i, b)); calls.append('print "@%d"; op%d();' % (i, i))
    L += calls + ['print "@end"; stop = 1; for (var i = 0; i < ths.size; i += 1) { joinThread(ths[i]); }', 'print "@exit";']
    return '\n'.join(L)
def judge_hist(spec, r):
    m = Model(); v = []
    seg = {}; cur = None
    for l in r.lines():
        if l.startswith('@'): cur = l[1:]; seg[cur] = []
        elif cur is None: return [('output', 'unexpected line %r' % l)]
        else: seg[cur].append(l)
    def fin(l, dead_ok, where):
        p = l.split(' ')
        if p[0] == 'F2':
            k = int(p[1])
            if k in m.f2done or k not in m.f2 and where != 'exit': v.append(('finalizer-count', '%s at %s: object %d was not waiting for a finalizer' % (l, where, k)))
            m.f2done.add(k)
        elif p[0] == 'F':
            k = int(p[1])
            if k not in m.fin: v.append(('finalizer-unregistered', '%s at %s: no such finalizer' % (l, where))); return
            if k in m.done: v.append(('finalizer-twice', '%s at %s: finalizer of object %d ran before' % (l, where, k))); return
            if not dead_ok(k): v.append(('finalizer-reachable', '%s at %s: finalizer of object %d ran while it was reachable' % (l, where, k)))
            m.done.add(k)
            if m.fin[k] == 'r': m.res.add(k)
            if m.fin[k] == 'n' and where != 'exit': m.f2.add(k)  # a finalizer set while the program is already exiting need not run
        else: v.append(('output', 'unexpected line %r at %s' % (l, where))); return
        if p[2:] != ['p%s' % p[1]]: v.append(('finalizer-object', '%s at %s: not called with its object intact' % (l, where)))
    for i, op in enumerate(spec['ops']):
        if str(i) not in seg: return v + [('output', 'no output from op %d: %s' % (i, r.err[-300:]))]
        o = op['o']; held = None;
        if o in ('new', 'over', 'tmp', 'nest'):
            m.kind[op['id']] = op['kind']
            if op['fin']: m.fin[op['id']] = op['fin']
            if o in ('new', 'over'): m.loc[op['l']] = op['id']
        elif o == 'clrres': m.res.clear()
        elif 'l' in op and op['l'] in m.loc:
            x = m.loc[op['l']]
            if o == 'clr': del m.loc[op['l']]
            elif o in ('move', 'copy') and op['m'] != op['l'] and not (op['m'][0] == 'B' and m.kind[x] != 'nd'):
                m.loc[op['m']] = x
                if o == 'move': del m.loc[op['l']]
            elif o == 'link' and op['m'] in m.loc:
                if m.kind[x] != 'str': m.link[x] = m.loc[op['m']]
            elif o == 'unlink': m.link.pop(x, None)
            elif o == 'refin':
                if m.fin.get(x) and x in m.done: m.done.discard(x)  # a finalized and resurrected object can be given a finalizer again
                m.fin[x] = 'p'
            elif o == 'hold': held = x; del m.loc[op['l']]
        if held is not None:
            m.roots = {held}; live = m.live(); m.roots = set(); u = 0
            for l in seg[str(i)]:
                if l.startswith('U '):
                    u = 1
                    if l != 'U %d p%d' % (held, held): v.append(('held-object', '%r instead of object %d' % (l, held)))
                else:
                    dead = lambda k: k not in (m.live() if u else live)
                    fin(l, dead, 'op %d' % i)
            if not u: v.append(('output', 'no U line in op %d' % i))
        else:
            dyn = set(m.res)
            for l in seg[str(i)]:
                # an object resurrected by an earlier finalizer of the same batch may hold others that were already found unreachable
                fin(l, lambda k: k not in m.live() or k not in before0(m, dyn), 'op %d' % i)
        if (o == 'collect' or o == 'hold' and op['g'] == 0) and not v:
            keep = live if held is not None else m.live()
            must = [k for k in m.fin if k not in m.done and k not in keep]
            if must: v.append(('not-reclaimed', 'op %d: full collection left object(s) %s unfinalized although unreachable' % (i, must)))
        if v: return v
    for s in ('end', 'exit'):
        if s not in seg: return [('output', 'no @%s: %s' % (s, r.err[-300:]))]
        dyn = set(m.res)
        for l in seg[s]: fin(l, lambda k: s == 'exit' or k not in m.live() or k not in before0(m, dyn), s)
    if not v:
        left = [k for k in m.fin if k not in m.done]; left2 = [k for k in m.f2 if k not in m.f2done]
        if left or left2: v.append(('finalizer-missing', 'at exit, finalizers of %s %s never ran' % (left, left2)))
    return v
def before0(m, dyn):
    r = m.res; m.res = dyn
    try: return m.live()
    finally: m.res = r
# ---------------------------------------------------------------- bounded heap
LPRE = '''
requireScript("timeout"); requireScript("set"); requireScript("openstruct"); class MyArr < Array {} class MyStr < String {}
class It < Iterator { init(p) { this.p = p; this.i = 0; } iterNext() { var r = this.p[this.i]; this.i = this.i + 1; return r; } }
var gcnt = 0; var gmm = Map(); var gll = [[0]]; var gob = Node(1, nil); var gst = ""; class CC { }
fun deep(n) { if (n == 0) { throw Error("d"); } return deep(n - 1); }
fun retb() { [1, 2, 3].each() -> (x) { return x; }; return 9; }
'''
LEX = {
'thread': 'var t = newThread(fun() { var z = [1, 2]; }); joinThread(t);', 'threaderr': 'var t = newThread(fun() { try { throw Error("x"); } catch (Error e) {} }); joinThread(t);', 'threadtls': 'var t = newThread(fun() { Thread.current()["k"] = [1]; }); joinThread(t);',
'detach': 'var t = newThread(fun() { var z = 1; }); t.detach(); sleep(1 / 10);', 'mutex': 'var m = Mutex(); m.lock(); m.unlock();', 'threadthrow': 'var t = newThread(fun() { try { sleep(10); } catch (Error e) {} }); sleep(1 / 10); t.throw(Error("q")); joinThread(t);',
'pipe': 'var p = IO.pipe(); p[1].write("abc"); p[0].read(3); p[1].close(); p[0].close();', 'pipedrop': 'var p = IO.pipe(); p[1].write("abc"); p[0].close(); p[1].close();', 'file': 'var f = File.create("/tmp/x"); f.write("hello"); f.close(); f.unlink();', 'fileread': 'File.read("/work/d");', 'readlines': 'File.readLines("/work/d");', 'fopen': 'var f = File.open("/work/d"); f.read(5); f.close();',
'fopenerr': 'try { File.open("/nope"); } catch (Error e) {}', 'stat': 'File.stat("/work/d");', 'dirg': 'Dir.glob("/work/*");', 'dir': 'var dd = Dir("/work"); dd.close();', 'select': 'var p = IO.pipe(); IO.select([p[0]], [p[1]], [], 0); p[0].close(); p[1].close();',
'regex': 'var m = Regex("(a)(b)").match("xab", true); m.captures();', 'regexnew': 'Regex("a+b|c*");', 'regexerr': 'try { Regex("(a"); } catch (Error e) {}', 'regexpart': 'Regex("a*b+?c").match("xxaabbbc");',
'time': 'var t = Time(); String(t); var a = Timer(); var u = Timer(); (u - a).seconds();', 'timeouterr': 'try { Timeout.timeout(1 / 10) -> () { sleep(1); }; } catch (Timeout::Error e) {}',
'sleep': 'sleep(1 / 100);', 'sys': 'Process.system("true");', 'fork': 'var p = Process.fork(fun() { _exit(0); }); Process.waitpid(p);', 'binding': 'var b = Binding(); b.localVariables();',
'iter': 'foreach (z in It([1, 2, 3])) { gcnt = z; }', 'set': 'var s = Set(); s.add(1); s.add("x");', 'ostruct': 'var o = OpenStruct(); o.a = [1];',
'str': 'var s = "a" + String(gcnt); s.push("b"); s.substr(0, 1); s.split("a"); s.dup(); s.inspect(); s.padRight(20, "x"); s.compact();', 'strprops': 'var s = "abc"; s.zork = [1];', 'strlong': 'var s = "ab" * 40; s = s + s; s.push(s); s.clear();', 'strins': 'var s = "abc".dup(); s.insertAt("zz", 1); s[0] = "q"; s << "t";',
'arr': 'var a = [3, 1, 2]; a.sort(); a.dup(); a.reverse(); a.push(3); a.pushFront(1); a.pop(); a.popFront(); a.delete(3); a.map() -> (x) { [x]; }; a.inspect(); a.join(",");', 'arrgrow': 'var a = []; for (var i = 0; i < 40; i += 1) { a << i; } a.clear(); a << 1;', 'map': 'var m = %{"a": 1, "b": [2]}; m.dup(); m.merge(%{"c": 1}); m.keys(); m.values(); m.delete("a"); m.inspect(); m["z"] = "q"; m.rehash();',
'mapgrow': 'var m = Map(); for (var i = 0; i < 30; i += 1) { m[i] = [i]; } m.clear(); m[1] = 2;', 'mapdyn': 'gcnt = gcnt + 1; var m = Map(); m["k" + String(gcnt)] = 1;', 'gmap': 'gcnt = gcnt + 1; gmm["k" + String(gcnt)] = [1]; gmm.delete("k" + String(gcnt));', 'gmapset': 'gcnt = gcnt + 1; gmm["q" + String(gcnt % 5)] = [gcnt];', 'glist': 'gll << [1, 2]; gll.pop();', 'glq': 'gll.push([1]); gll.popFront();', 'gprop': 'gcnt = gcnt + 1; gob.nxt = [gcnt]; gob.v = "v" + String(gcnt);', 'gstr': 'gst = gst + "x"; if (gst.size > 50) { gst = ""; }',
'singleton': 'var o = Node(1, nil); o.extend(Shout);', 'defmeth': 'Node.defineMethod("dm", fun(a) { return a; });', 'send': 'Acc(3).send("inc", 4);', 'methobj': 'var f = Acc(3).inc; f(2);',
'cls': 'class Lz { init(a) { this.a = a; } m() { return this.a; } } Lz(3).m();', 'fn': 'fun inner(a) { return a; } inner(2);', 'closure': 'var c = mkCounter(1); c(2);', 'closnest': 'var c = fun(a) { return fun(b) { return [a, b]; }; }; c(1)(2);', 'exc': 'try { thrower(5, "z"); } catch (MyErr e) { e.message; }', 'excdeep': 'try { deep(30); } catch (Error e) { e.message; }', 'excnat': 'try { [1].join(2, 3, 4); } catch (Error e) { }', 'excblk': 'try { [1, 2].each() -> (x) { throw Error("b"); }; } catch (Error e) { }', 'excblk2': 'try { [1, 2].map() -> (x) { [3].each() -> (y) { deep(3); }; }; } catch (Error e) { }', 'excens': 'try { try { throw Error("b"); } ensure { gcnt = 2; } } catch (Error e) { }', 'blkret': 'retb();', 'blkbreak': '[1, 2].each() -> (x) { break; };', 'blkcont': '[1, 2].each() -> (x) { continue; };',
'final': 'var o = Node(1, nil); GC.setFinalizer(o, fun(x) { gcnt = 1; });', 'finalres': 'var o = Node(1, nil); GC.setFinalizer(o, fun(x) { gll[0] = [x]; });', 'cycle': 'var a = []; a << a; var n = Node(1, nil); n.nxt = n; var m = Map(); m["s"] = m;', 'trap': 'Signal.trap(Signal::USR1, fun() {});', 'trapsig': 'Signal.trap(Signal::USR2, fun() { gcnt = 1; }); Process.signal(Process.pid(), Signal::USR2);', 'kwsplat': 'kw(1, k: 3); two(*[1, 2]); rest(1, 2, 3);', 'interp': 'var zzz = "s${gcnt}${[1]}";',
'gcstats': 'GC.stats();', 'methmissing': 'Vec(1, 2).foo(1);', 'strcmp': 'var b = "a" == "b"; var c = "x" + "y" == "xy";', 'hashkey': 'Node(1, nil).hashKey(); [1].hashKey(); %{"a": 1}.hashKey();', 'sched': 'Thread.schedule();', 'objid': 'Node(1, nil).objectId;', 'cname': 'Node.name; Node(1, nil).class; Node.ancestors();',
'myarr': 'var a = MyArr(); a << 1; var s = MyStr("x"); s.push("y");', 'blkarg': 'twice() -> (q) { q; };', 'mapforeach': 'foreach (k, v in %{"a": 1}) { gcnt = v; }', 'tryelse': 'try { gcnt = 1; } catch (Error e) { } else { gcnt = 2; }', 'sock': 'var s = Socket(Socket::AF_INET, Socket::SOCK_STREAM); s.close();', 'curry': 'var v = Vec(1, 2) + Vec(2, 3); v.half = 3; v.len;', 'dupo': 'gob.dup(); Acc2(3).dup();', 'freeze': 'var o = Node(1, nil); o.freeze();', 'reduce': '[1, 2].reduce(0) -> (a, x) { a + x; };', 'parse': 'String.parseInt("12");', 'selreject': '[1, 2, 3].select() -> (x) { x > 1; }; [1].reject() -> (x) { x > 1; };', 'yieldb': 'pass(1) -> (q) { gcnt = q; };', 'ens2': 'try { gcnt = 1; } ensure { gcnt = 3; }', 'env': 'ENV["HOME"];', 'rand': 'var t = typeof(gcnt);', 'nilcall': 'try { nil.foo(); } catch (Error e) { }', 'badarg': 'try { two(1); } catch (Error e) { }', 'globalinst': 'gob = Node(2, nil);', 'stringify': 'String(Node(1, nil)); String([Node(1, nil)]);',
}
THREADY = ('thread', 'threaderr', 'threadtls', 'detach', 'threadthrow', 'timeouterr')
def kind_code(k):
    src, _ = bodygen.body([{'k': k, 'a': 7, 'b': 3, 'ops': [{'k': 'num', 'a': 1, 'b': 1}]}], 1, 'b0')
    return src.split('\n', 1)[1].rsplit('}', 1)[0]
KEEP = ('evalret',)
def heap_src(spec):
    L = [bodygen.PRELUDE, LPRE]
    n = spec['n']
    for i, it in enumerate(spec['items']): L.append('fun body%d() { %s }' % (i, kind_code(it[2:]) if it.startswith('B:') else LEX[it]))
    run = ' '.join('body%d();' % i for i in range(len(spec['items'])))
    if spec['bg']: L.append('var stop = 0; var bt = newThread(fun() { while (stop == 0) { var q = [1, "z"]; Thread.schedule(); } });')
    L.append('''var rep = [0, 0, 0, 0, 0, 0, 0]; var hs = [0, 0, 0, 0, 0, 0, 0];
for (var i = 0; i < 6; i += 1) {
  for (var j = 0; j < %d; j += 1) { %s }
  GC.collect(); GC.collect(); %s
  var st = GC.stats(); print "H " + File.read("/sim/heap") + " " + String(st["heapSize"]);
}
print "END";%s''' % (n, run, 'sleep(1 / 100); GC.collect();' if spec['bg'] else '', ' stop = 1; joinThread(bt);' if spec['bg'] else ''))
    return '\n'.join(L)
def judge_heap(spec, r):
    L = r.lines(); h = [l.split(' ') for l in L if l.startswith('H ')]
    if len(h) != 6 or 'END' not in L: return [('output', 'loop of %s: %r %r' % (spec['items'], L[-3:], r.err[-300:]))]
    b = [int(x[1]) for x in h]; n = spec['n']; d = [b[i + 1] - b[i] for i in range(5)]
    slack = 8192 if spec['bg'] else 0 # the other thread's garbage of the moment
    if min(d[2:]) > 2 * n + slack: return [('heap-growth:' + '+'.join(spec['items']) if len(spec['items']) == 1 else 'heap-growth', 'loop over %s (%d iterations a round): live heap bytes after full collections %s' % (spec['items'], n, b))]
    if b[5] - b[1] > 200000 + 2 * n * 4: return [('heap-growth', 'loop over %s (%d iterations a round): live heap bytes after full collections %s' % (spec['items'], n, b))]
    return []
# natural collections only: the heap must settle at a bounded size
def nat_src(spec):
    L = [bodygen.PRELUDE, LPRE, 'var keep = [];', 'for (var i = 0; i < %d; i += 1) { keep << [i, "k" + String(i)]; }' % spec['live']]
    for i, it in enumerate(spec['items']): L.append('fun body%d() { %s }' % (i, LEX[it]))
    run = ' '.join('body%d();' % i for i in range(len(spec['items'])))
    L.append('''for (var i = 0; i < 8; i += 1) {
  for (var j = 0; j < %d; j += 1) { %s keep[j %% keep.size] = [j, "n"]; }
  var st = GC.stats(); print "N " + String(st["heapSize"] / 560000) + " " + String(st["runsFull"]) + " " + String(st["runsYoung"]) + " " + File.read("/sim/heap");
}
print keep.size; print "END";''' % (spec['n'], run))
    return '\n'.join(L)
NAT = ['arr', 'map', 'str', 'closure', 'exc', 'excblk', 'gprop', 'gstr', 'glq', 'gmapset', 'cycle', 'fn', 'final', 'strlong', 'mapgrow', 'arrgrow', 'interp', 'curry', 'regex', 'set']
def judge_nat(spec, r):
    h = [l.split(' ') for l in r.lines() if l.startswith('N ')]
    if len(h) != 8 or 'END' not in r.lines(): return [('output', 'natural loop of %s: %r %r' % (spec['items'], r.lines()[-3:], r.err[-300:]))]
    pages = [float(x[1]) for x in h]; b = [int(x[4]) for x in h]
    if pages[7] > pages[3] and pages[3] > pages[1] or pages[7] > spec['live'] * 4 / 10000 + 8: return [('heap-pages', 'loop over %s: heap pages %s (live objects bounded)' % (spec['items'], pages))]
    return []
def gen(rng, tier):
    k = rng.random()
    c = {'seed': rng.getrandbits(48), 'p_switch': 100, 'p_preempt': 0, 'tty': rng.randrange(2), 'sys_ns': 300, 'tid_reuse': 1, 'max_bb': 4000000000}
    g = rng.randrange(6)
    if g == 1: c['p_gc_young'] = rng.choice([200, 2000, 20000])
    elif g == 2: c['p_gc_full'] = rng.choice([20, 200])
    elif g == 3: c.update(p_gc_young=rng.choice([500, 5000]), p_gc_full=rng.choice([20, 100]))
    if k < 0.72:
        spec = {'t': 'hist', 'bg': rng.choice([0, 0, 0, 0, 1, 2]), 'ops': gen_hist(rng, rng.choice([6, 15, 40]) if tier == 'quick' else rng.choice([15, 40, 90]))}
        if spec['bg']: c.update(p_switch=rng.choice([100, 300]), p_preempt=rng.choice([0, 100, 300]), p_quantum=rng.choice([0, 500]), quantum_lo=3, quantum_hi=rng.choice([50, 500]), fine_bb=rng.choice([100, 1500]))
    elif k < 0.97:
        pool = ['B:' + x for x in bodygen.KINDS if x not in KEEP] + list(LEX)
        items = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))]
        spec = {'t': 'heap', 'items': items, 'n': 12 if any(i in THREADY or i == 'fork' for i in items) else rng.choice([12, 25]), 'bg': int(rng.random() < 0.1)}
        if any(i in THREADY for i in items) and len(items) > 1: spec['n'] = 8
    else: spec = {'t': 'nat', 'items': [rng.choice(NAT) for _ in range(rng.choice([1, 2]))], 'n': rng.choice([700, 1500]), 'live': rng.choice([10, 500, 3000])}; c.pop('p_gc_young', 0); c.pop('p_gc_full', 0)
    return Case(spec, c)
def render(spec):
    j = Job({'hist': hist_src, 'heap': heap_src, 'nat': nat_src}[spec['t']](spec)); j.files['/work/d'] = 'data\n' * 50; return j
def repair(s):
    return None if s['t'] != 'hist' and not s['items'] else s
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    if r.rootstatus or r.err: return [('status', 'exit status %d, stderr %r' % (r.rootstatus, r.err[:400]))]
    return {'hist': judge_hist, 'heap': judge_heap, 'nat': judge_nat}[spec['t']](spec, r)
def tags(spec, r): return ['kind:' + spec['t']] + (['item:' + i for i in spec['items']] if 'items' in spec else sorted(set('op:' + o['o'] for o in spec['ops'])))
