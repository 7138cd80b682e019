"""GC transparency: the same generated program with collections at seeded allocation points and with the collector switched off."""
from engine import *
LEVEL = "exploration"; QUICK_S = 60
ASSUMPTIONS = ['the reference run executes the same program with GC.off(); both runs are fault-free', 'object addresses and objectIds are not printed: they are not part of a result']
PRE = r'''
requireScript("set"); requireScript("openstruct");
class Nd { init(v, x) { this.v = v; this.x = x; this.tmp = [v]; } sum() { var q = [this.v, "s"]; return q; } gg { return "g" + d(this.v, 2); } opAdd(o) { return Nd(this.v, [o, this.x]); } toStr() { return "nd" + d(this.v, 2); } }
class Nd2 < Nd { init(v, x) { super.init(v, x); this.z = %{"z": [x]}; } sum() { var s = super.sum(); s << "two"; return s; } methodMissing(n, *args) { return [n, args]; } }
class MyArr < Array {} class MyStr < String {} class E1 < Error { init(m) { super.init(m); this.extra = [m]; } }
module Mx { mx(a) { return [a, this.v, "mx"]; } }
class Inc { init(v) { this.v = v; } } Inc.include(Mx);
class Lu { init(p) { this.p = p; this.i = 0; } iterNext() { var r = this.p[this.i]; this.i = this.i + 1; return r; } }
class Hk { init(k) { this.k = k; } hashKey() { var s = [this.k, "x"]; return s.size * 31 + this.k; } opEquals(o) { var t = "e" + String(this.k); return this.k == o.k; } }
var gl = [nil, nil, nil]; var gm = Map(); var last = nil; var thv = nil;
fun jth() { if (gm.hasKey("th")) { joinThread(gm["th"]); gm.delete("th"); print d(thv, 3); } }
fun d(v, n) {
  if (v == nil) { return "nil"; }
  if (n == 0) { return "."; }
  var t = typeof(v);
  if (t == "array") { var o = []; v.each() -> (x) { o << d(x, n - 1); }; return "[" + o.join(",") + "]"; }
  if (t == "string") { return "'" + v + "'"; }
  if (t == "map") { var o = []; v.each() -> (k, x) { o << (d(k, n - 1) + ":" + d(x, n - 1)); }; return "{" + o.join(",") + "}"; }
  if (t == "instance") { var c = classof(v); if (c == Nd or c == Nd2) { return c.name + "(" + d(v.v, n - 1) + "," + d(v.x, n - 1) + "," + d(v.tmp, n - 1) + ")"; } return c.name; }
  return String(v);
}
fun kw(a, b: "dflt", c: [1]) { return [a, b, c]; }
fun dfl(a, b = ["d"], c = "e") { return [a, b, c]; }
fun spl(*as) { return as; }
fun yy(a, &blk) { var l = ["loc", a]; var r = blk.yield([a, "y"]); return [l, r]; }
fun yz(a) { var l = [a]; var r = yield(a, [a, "z"]); l << r; return l; }
fun mk(x) { var h = [x]; return fun(y) { h << y; if (h.size > 6) { h = [x]; } return h; }; }
fun thr(n, m) { var l = [n, m]; if (n == 0) { throw E1(m); } thr(n - 1, m); return l; }
fun chain(n) { var r = nil; for (var i = 0; i < n; i += 1) { r = Nd(i, r); } return r; }
fun mkb(x, n) { var a = [x]; var b = Binding(); for (var i = 0; i < n; i += 1) { var t = [i]; a = [x, "i"]; } var q = [a, "q"]; return b; }
fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i), %{"k": i}]; } return n; }
'''
class G:
    def __init__(s, rng): s.r = rng; s.n = 0
    def num(s): s.n += 1; return str(s.r.choice([s.n, s.r.randrange(9), s.r.randrange(100)]))
    def e(s, t, d=2):
        r = s.r
        if t == 'any': t = r.choice(['num', 'str', 'arr', 'map', 'obj', 'str', 'arr'])
        if d <= 0 or r.random() < 0.3: return {'num': lambda: s.num(), 'str': lambda: r.choice(['s0', 's1', '"l%s"' % s.num(), 'String(%s)' % s.num()]), 'arr': lambda: r.choice(['a0', 'a1', '[%s]' % s.num(), '[]']), 'map': lambda: r.choice(['m0', 'm1', 'Map()']), 'obj': lambda: r.choice(['o0', 'o1', 'Nd(%s, nil)' % s.num()])}[t]()
        E = lambda tt: s.e(tt, d - 1)
        return r.choice({
            'num': [lambda: '%s.size' % s.e('arr', 0), lambda: '%s.size' % s.e('str', 0), lambda: 'churn(%d)' % r.randrange(1, 30), lambda: '[1, 2, 3].sum()', lambda: '%s.keys().size' % r.choice(['m0', 'm1']), lambda: '"abc".index("c")', lambda: 'String.parseInt("12")' ],
            'str': [lambda: '(%s + %s)' % (E('str'), E('str')), lambda: '"i${%s}j"' % r.choice(['s0', 'a0.size', 's1', 'k(3)', '[1,2]']), lambda: '%s.join("-")' % r.choice(['["a", "b", "c"]', '[s0, s1]']), lambda: '%s.substr(0, %d)' % (s.e('str', 0), r.randrange(1, 9)), lambda: '%s.dup()' % s.e('str', 0), lambda: '("ab" * %d)' % r.randrange(1, 9), lambda: '%s.gg' % r.choice(['o0', 'o1']), lambda: 'o0.toStr()', lambda: 'd(%s, 2)' % E('any'), lambda: '"  x%s ".compact()' % s.num(), lambda: '"p".padRight(%d, "-")' % r.randrange(2, 12), lambda: 'typeof(%s)' % E('any'), lambda: '"abcdef"[%d]' % r.randrange(6), lambda: '"a-b-c%s".split("-")[%d]' % (s.num(), r.randrange(3)), lambda: 'MyStr("ms%s")' % s.num(), lambda: 'eval("\'ev\' + String(%s);")' % s.num() if 0 else 'String(eval("1 + %s;"))' % s.num(), lambda: '%s.inspect()' % r.choice(['[1, "q"]', '"str"', '%{"a": [1]}']), lambda: 'String(%s)' % r.choice(['s0', 's1', '[1, 2]', 'nil', '1.5'])],
            'arr': [lambda: '[%s]' % ', '.join(E('any') for _ in range(r.randrange(1, 4))), lambda: '%s.dup()' % s.e('arr', 0), lambda: '%s.map() -> (x) { [x, %s]; }' % (s.e('arr', 0), s.e('any', 0)) , lambda: '%s.select() -> (x) { var t = [x, "t"]; t.size == 2; }' % s.e('arr', 0), lambda: 'kw(%s, c: %s)' % (E('any'), E('any')), lambda: 'kw(%s, b: %s)' % (E('any'), E('any')), lambda: 'dfl(%s)' % E('any'), lambda: 'dfl(%s, %s)' % (E('any'), E('any')), lambda: 'spl(%s, %s)' % (E('any'), E('any')), lambda: 'spl(*%s)' % s.e('arr', 0), lambda: 'o0.sum()', lambda: 'f0(%s)' % E('any'), lambda: '"a,b,%s".split(",")' % s.num(), lambda: '%s.reverse()' % s.e('arr', 0), lambda: 'm0.keys()', lambda: 'm0.values()', lambda: 'MyArr()' , lambda: 'o1.nosuch(%s)' % E('any'), lambda: 'Inc(%s).mx(%s)' % (E('any'), E('any')), lambda: 'Array.fill(3) -> (i) { [i, "f"]; }' if 0 else '[%s, %s]' % (E('str'), E('obj')), lambda: '%s.reject() -> (x) { [x].size == 0; }' % s.e('arr', 0), lambda: '[3, 1, 2].sort()', lambda: '[3, 1, 2].sortBy() -> (a, b) { var q = [a, b]; a <=> b; }' if 0 else '[3, 1].sort()', lambda: 'o0.send("sum")', lambda: 'm0.map() -> (k, v) { [k, v]; }', lambda: 'Object.ancestors()' if 0 else '[].push(%s)' % E('any') if 0 else '[%s]' % E('map')],
            'map': [lambda: '%%{"k%s": %s, "l": %s}' % (s.num(), E('any'), E('any')), lambda: 'm0.dup()', lambda: 'm0.merge(%s)' % r.choice(['m1', '%{"mg": [1]}']), lambda: '%%{%s: %s}' % (s.num(), E('any'))],
            'obj': [lambda: 'Nd(%s, %s)' % (E('any'), E('any')), lambda: 'Nd2(%s, %s)' % (E('any'), E('any')), lambda: '(o0 + %s)' % E('any'), lambda: 'chain(%d)' % r.randrange(1, 12), lambda: 'o0.dup()', lambda: 'Nd2(%s, %s)' % (E('any'), E('any'))],
        }[t])()
    def op(s, d=1):
        r = s.r; E = lambda t='any', dd=2: s.e(t, dd); i = s.n = s.n + 1
        A = lambda: r.choice(['a0', 'a1', 'a2', 'gl', 'o0.tmp', 'gm["arr"]']); M = lambda: r.choice(['m0', 'm1', 'gm']); K = lambda: r.choice(['"k%d"' % r.randrange(8), 's0', '%d' % r.randrange(9), '"d" + String(%d)' % r.randrange(30)])
        c = ['a%d = %s;' % (r.randrange(3), E('arr')), 's%d = %s;' % (r.randrange(2), E('str')), 'm%d = %s;' % (r.randrange(2), E('map')), 'o%d = %s;' % (r.randrange(2), E('obj')), 'f0 = mk(%s);' % E(),
             '%s << %s;' % (A(), E()), '%s.push(%s);' % (A(), E()), '%s.pushFront(%s);' % (A(), E()), '%s.pop();' % A(), '%s.popFront();' % A(), '%s.delete(%s);' % (A(), E('str', 1)), 'gl[%d] = %s;' % (r.randrange(3), E()),
             'if (a0.size > 0) { a0[0] = %s; }' % E(), '%s[%s] = %s;' % (M(), K(), E()), '%s.delete(%s);' % (M(), K()), 'o%d.x = %s;' % (r.randrange(2), E()), 'o%d.p%d = %s;' % (r.randrange(2), r.randrange(12), E()), 'Nd.c%d = %s;' % (r.randrange(3), E()) if 0 else 'o0.tmp = [o0.v, %s];' % E(),
             'o0.tmp << %s;' % E(), 's0 << %s; if (s0.size > 200) { s0 = "short"; }' % E('str', 1), 's1.push(%s); if (s1.size > 200) { s1 = "sh"; }' % E('str', 1), 'f0(%s);' % E(), 'print d(%s, 4);' % E('any', 3), 'print d(%s, 3);' % r.choice(['a0', 'a1', 'o0', 'o1', 'm0', 'm1', 'gl', 'gm', 's0', 's1', 'a2']),
             'print d(%s, 3);' % r.choice(['a0', 'o0', 'm0', 'gl', 'gm']), 'churn(%d);' % r.randrange(5, 60), 'GC.collectYoung();', 'GC.collect();' if r.random() < 0.4 else 'GC.collectYoung();',
             'print d(yy(%s) -> (q) { var w = [q, %s]; w; }, 4);' % (E(), E()) if 0 else 'var y%d = yy(%s) -> (q) { var w = [q, %s]; w; }; print d(y%d, 4);' % (i, E(), E(), i), 'var y%d = yz(%s) -> (q, z) { [z, q, %s]; }; print d(y%d, 4);' % (i, E(), E(), i),
             'try { thr(%d, %s); } catch (E1 e) { a0 << e.message; print d(e.extra, 3); }' % (r.randrange(4), E('str')), 'try { throw E1(%s); } catch (E1 e) { last = e; } ensure { churn(5); }' % E('str'), 'if (last != nil) { print d([last.message, last.extra], 3); }',
             'foreach (x in %s) { gl[1] = [x, %s]; }' % (s.e('arr', 0), E('any', 1)), 'foreach (k, v in %s) { gl[2] = [k, v]; }' % r.choice(['m0', 'm1']), 'foreach (x in Lu([%s, %s, %s])) { print d(x, 2); }' % (E(), E(), E('num', 0)),
             'eval("var ev%d = [%d, 7]; gl[0] = ev%d; gl << ev%d;");' % (i, i, i, i) if r.random() < 0.5 else 'gl[0] = eval("[%d, Nd(1, [2])];");' % i, 'class Dyn%d { init(v) { this.v = v; } m() { return [this.v, "dyn"]; } } print d(Dyn%d(%s).m(), 3);' % (i, i, E()) if 0 else 'eval("class Dyn%d { init(v) { this.v = v; } m() { return [this.v]; } } gl[2] = Dyn%d([%d]).m();");' % (i, i, i),
             'Nd.defineMethod("dm%d", fun(x) { var q = [x, this.v]; return q; }); print d(o0.dm%d(%s), 3);' % (i, i, E()), 'o0.singletonClass.defineMethod("sg", fun() { return [this.v, "sg"]; }); print d(o0.sg(), 3);' if 0 else 'o0.extend(Mx); print d(o0.mx(%s), 3);' % E(),
             'var st%d = Set([1, "two", %s]); st%d.add(%s); print st%d.size;' % (i, E('str', 1), i, E('str', 1), i), 'var os%d = OpenStruct(); os%d.f = %s; print d(os%d.f(), 3);' % (i, i, E(), i), 'var hk%d = Map(); for (var z = 0; z < %d; z += 1) { hk%d[Hk(z)] = [z, "hk"]; } print d(hk%d[Hk(1)], 2);' % (i, r.randrange(2, 20), i, i),
             'print d(Regex("(a+)(b)").match("xaab", true).captures(), 3);', 'var it%d = joinThread(newThread(fun() { var l = [%s, %s]; churn(20); gl[1] = l; }));' % (i, s.e('any', 0) if 0 else '"th"', '[%d]' % i), 'Thread.current()["k%d"] = %s; print d(Thread.current()["k%d"], 3);' % (r.randrange(3), E(), r.randrange(3)),
             'File.create("/work/f%d").close(); print File.exists("/work/f%d");' % (i, i), 'var wf%d = File.create("/work/w"); wf%d.write(%s); wf%d.close(); print d(File.readLines("/work/w"), 3);' % (i, i, E('str'), i), 'print File.read("/work/d").size;', 'var pp%d = IO.pipe(); pp%d[1].write(%s + "."); pp%d[1].close(); print pp%d[0].read(); pp%d[0].close();' % (i, i, E('str'), i, i, i),
             'print Process.fork(fun() { exit(1); }) > 0; Process.waitall();' if r.random() < 0.3 else 'print String(Dir.glob("/work/*").size > 0);' , 'print d(Binding().localVariables().keys().size > 3, 1);', 'm%d.clear();' % r.randrange(2), 'if (a%d.size > 8) { a%d = a%d.select() -> (x) { typeof(x) == "string"; }; }' % ((r.randrange(3),) * 3), 'gl = [gl[0], %s, gl[2]];' % E(), 'm0.merge(m1);', 'm0.rehash();',
             'print d(a0.reduce([]) -> (acc, x) { [acc.size, x]; }, 3);' if 0 else 'var rd%d = %s.reduce([]) -> (acc, x) { [x, acc.size]; }; print d(rd%d, 3);' % (i, s.e('arr', 0), i), 'o1.setProperty("sp", %s); print d(o1.getProperty("sp"), 3);' % E(), 'o0.freeze(); o0 = Nd(%s, o0.x);' % E(), 'print a0 == a1; print m0 == m1; print s0 == s1;', 'print m0.hasKey(%s); print d(m0[%s], 3);' % (K(), K()),
             'GC.setFinalizer(Nd(%s, nil), fun(o) { var q = [o.v, "fin"]; });' % E(), 'var t%d = Time(); var tm%d = Timer(); print typeof(t%d);' % (i, i, i), 'print ENV["HOME"] == nil;', 'var bm%d = o0.sum; gl[1] = bm%d(); print d(gl[1], 3);' % (i, i), 'var fz%d = fun(x, &b) { return b.yield([x]); }; print d(fz%d(%s) -> (q) { q; }, 3);' % (i, i, E()) if 0 else 'var an%d = fun(x) { return fun() { return [x, %s]; }; }; gl[1] = an%d(%s)();' % (i, E('any', 1), i, E()),
             'gm["md"] = Regex("(a+)(b+)").match("x" + "ab" * %d, true);' % r.randrange(1, 5), 'if (gm.hasKey("md")) { print d(gm["md"].captures(), 3); }', 'gm["bd"] = Binding();', 'if (gm.hasKey("bd")) { print gm["bd"].localVariables().keys().size > 3; }', 'gm["mu"] = Mutex(); gm["mu"].lock(); churn(9); gm["mu"].unlock();', 'jth(); gm["th"] = newThread(fun() { Thread.current()["a"] = ["tl"]; churn(%d); thv = [Thread.current()["a"], "done"]; });' % r.randrange(1, 90), 'jth();',
             'gm["fi"] = File.open("/work/d"); churn(7); print gm["fi"].read(9); gm["fi"].close();', 'gm["re"] = Regex("b(c+)");', 'if (gm.hasKey("re")) { print gm["re"].match("abccc"); }', 'gm["it"] = Lu([%s, %s]);' % (E(), E()), 'if (gm.hasKey("it")) { print d(gm["it"].iterNext(), 3); }', 'gm["bm"] = o0.sum; gm["bf"] = mk(%s);' % E(), 'if (gm.hasKey("bm")) { print d(gm["bm"](), 3); print d(gm["bf"](%s), 3); }' % E(), 'gm["dr"] = Dir("/work");',
             'var se%d = Set(["a", %s]); gm["se"] = se%d;' % (i, E('str', 1), i), 'if (gm.hasKey("se")) { gm["se"].add(%s); print gm["se"].size; }' % E('str', 1), 'gm["os"] = OpenStruct(); gm["os"].aa = %s;' % E(), 'if (gm.hasKey("os")) { print d(gm["os"].aa(), 3); }', 'gm["er"] = nil; try { nil.zork(); } catch (Error e) { gm["er"] = e; }', 'if (gm.hasKey("er") and gm["er"] != nil) { print gm["er"].message; }',
             'gm["fn"] = File.create("/work/n%d");' % i, 'if (gm.hasKey("fn")) { print gm["fn"].path(); gm["fn"].rename("/work/r%d"); churn(%d); print gm["fn"].path(); }' % (i, r.randrange(40)), 'var gs%d = GC.stats(); churn(%d); print gs%d.hasKey("runsFull"); print gs%d.keys().join(","); gs%d = nil;' % (i, r.randrange(30), i, i, i), 'print File.join("/work", %s);' % E('str'), 'print File.expandPath("./f%d");' % i, 'print File.extension("a.b%d");' % i, 'var fst%d = File.stat("/work/d"); print typeof(fst%d);' % (i, i), 'gm["dr"] = Dir("/work"); churn(5);', 'var sk%d = Socket(Socket::AF_INET, Socket::SOCK_STREAM); churn(%d); sk%d.close();' % (i, r.randrange(30), i),
             'gm["bs"] = mkb(%s, %d);' % (E(), r.randrange(20)), 'if (gm.hasKey("bs")) { print d(gm["bs"].localVariables(), 3); }', 'if (gm.hasKey("bs")) { gm["bs"].localVariableSet("%s", %s); churn(%d); print d(gm["bs"].localVariableGet("%s"), 3); }' % (r.choice(['a', 'q', 'nw%d' % (i % 3)]), E(), r.randrange(30), r.choice(['a', 'q', 'nw1'])),
             's0[0] = "Q";', 's1.insertAt("ins", 0); if (s1.size > 100) { s1 = "z"; }', 's0.clear();', 'print d(m0.slice(["k1", "k2"]), 3);' if 0 else 'print m0.hashKey() == m0.dup().hashKey();', 'print a0.hashKey() == a0.dup().hashKey();', 'nosuchvar%d;' % i, 'nil.foo();', '[1].nosuch(%s);' % E(), 'kw();', '%s + 1;' % E('arr', 1), 'throw E1(%s);' % E('str')]
        if d > 0:
            b = lambda: ' '.join(s.op(d - 1) for _ in range(r.randrange(1, 3)))
            c += ['for (var i%d = 0; i%d < %d; i%d += 1) { %s }' % (i, i, r.randrange(2, 6), i, b()), 'if (a0.size %% 2 == 0) { %s } else { %s }' % (b(), b()), 'try { %s } catch (Error e) { a1 << e.message; } ensure { gl[0] = [%s]; }' % (b(), s.num())]
        return r.choice(c)
def gen(rng, tier):
    g = G(rng); n = rng.choice([4, 10, 25]) if tier == 'quick' else rng.choice([10, 30, 60])
    spec = {'ops': [g.op(1) for _ in range(n)], 'glob': rng.random() < 0.25}
    c = {'seed': rng.getrandbits(48), 'p_switch': 100, 'p_preempt': 0, 'tty': rng.randrange(2), 'sys_ns': 300, 'tid_reuse': 1, 'max_bb': 4000000000}
    k = rng.randrange(7)
    if k == 0: c['p_gc_young'] = rng.choice([100, 1000])
    elif k == 1: c['p_gc_young'] = rng.choice([10000, 40000])
    elif k == 2: c['p_gc_full'] = rng.choice([50, 500])
    elif k == 3: c['p_gc_full'] = rng.choice([2000, 10000]) if n <= 10 else rng.choice([500, 1500])
    elif k == 4: c.update(p_gc_young=rng.choice([500, 5000]), p_gc_full=rng.choice([50, 500]))
    elif k == 5: c.update(p_gc_young=20000, p_gc_full=1000 if n <= 10 else 200)
    else: pass
    if rng.random() < 0.5: c['fillrand'] = 1
    return Case(spec, c)
def src(spec, off):
    decl = 'var a0 = [1, "a"]; var a1 = []; var a2 = ["x", "y"]; var s0 = "s"; var s1 = "t"; var m0 = %{"k1": [1]}; var m1 = Map(); var o0 = Nd(1, nil); var o1 = Nd2(2, [3]); var f0 = mk(1); gm["arr"] = [];'
    L = [PRE]
    if off: L.insert(0, 'GC.off();')
    L.append('fun k(n) { var t = "k" + String(n); return t; }')
    ops = ['try { %s } catch (Error e) { print "ERR%d " + e.message; }' % (o, i) for i, o in enumerate(spec['ops'])]
    fin = 'jth(); print d([a0, a1, a2, s0, s1, m0, m1, o0, o1, gl, gm], 6);'
    if spec['glob']: L += [decl] + ops + [fin]
    else: L += ['fun main() { %s' % decl] + ['  ' + o for o in ops] + ['  ' + fin, '}', 'main();']
    return '\n'.join(L)
def render(spec):
    j = Job(src(spec, False)); j.files['/work/d'] = 'data' * 50; return j
def ref(spec):
    j = Job(src(spec, True)); j.files['/work/d'] = 'data' * 50; j.cfg = {'p_switch': 100, 'p_preempt': 0, 'sys_ns': 300, 'tid_reuse': 1}; return j
def judge(spec, r, binary, rf):
    v = health(binary, r)
    if v: return v
    hv = health(binary, rf)
    if hv: return [('ref-' + a, b) for a, b in hv]
    norm = lambda t: t
    a, b = r.lines(), rf.lines()
    if a != b:
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        return [('result', 'line %d: %r without collections, %r with (stderr %s)' % (i, b[i:i+1], a[i:i+1], r.err[:300]))]
    if r.rootstatus != rf.rootstatus: return [('status', 'exit status %d without collections, %d with: %s' % (rf.rootstatus, r.rootstatus, r.err[:300]))]
    if bool(r.err) != bool(rf.err): return [('stderr', 'stderr differs: %r / %r' % (rf.err[:300], r.err[:300]))]
    return []
def tags(spec, r): return []
