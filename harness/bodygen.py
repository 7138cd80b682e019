"""Sequential Lox fragments with an executable Python model: used wherever a thread, process or
collection point must not change what a program computes."""
PRELUDE = '''
class Acc {
  init(n) { this.n = n; this.hist = []; }
  inc(k) { this.n = (this.n * 3 + k) % 9973; this.hist << this.n; return this.n; }
  toStr() { return "acc${this.n}"; }
}
class Acc2 < Acc {
  init(n) { super.init(n); this.tag = "t${n}"; }
  inc(k) { super.inc(k); this.n = (this.n + 1) % 9973; return this.n; }
}
class MyErr < Error {}
class Node { init(v, nxt) { this.v = v; this.nxt = nxt; } }
fun mkCounter(x) { return fun(y) { x = (x + y) % 9973; return x; }; }
fun fibr(k) { if (k < 2) { return k; } return fibr(k - 1) + fibr(k - 2); }
fun thrower(d, msg) { if (d == 0) { throw MyErr(msg); } thrower(d - 1, msg); return "no"; }
fun sumList(nd) { var t = 0; while (nd != nil) { t = t + nd.v; nd = nd.nxt; } return t % 9973; }
fun pass(n) { yield(n); return n; }
fun two(x, y) { return (x * 7 + y) % 9973; }
fun three(x, y, z) { return (x * 11 + y * 3 + z) % 9973; }
fun rest(x, *as) { var t = x; foreach (z in as) { t = (t * 5 + z) % 9973; } return "${as.size}/${t}"; }
fun dflt(x, y = 3, z = 4) { return x * 100 + y * 10 + z; }
fun kw(x, k: 2, j: 5) { return x * 100 + k * 10 + j; }
fun strs(n, &blk) { var o = ""; for (var i = 0; i < n; i += 1) { o = o + blk.yield(i); } return o; }
fun twice(&blk) { var p = blk.yield(1); var q = blk.yield(2); return p * 10 + q; }
module Ext { ext() { return "e" + "xt"; } }
module Shout { shout(x) { return "S${x}." + String(this.base()); } }
class Vec {
  init(x, y) { this.x = x; this.y = y; }
  len { return this.x + this.y; }
  half=(v) { this.x = v; this.y = v + 1; }
  opAdd(o) { return Vec(this.x + o.x, this.y + o.y); }
  add3(p, q, s) { this.x = (this.x + p * 4 + q * 2 + s) % 9973; return this.x; }
  base() { return this.y % 10; }
  toStr() { return "<${this.x},${this.y}>"; }
  methodMissing(name, *as) { return "mm${as.size}"; }
  class mk(x) { return Vec(x, x); }
}
Vec.include(Shout);
class Vec2 < Vec { init(x) { super.init(x, x + 2); } base() { return super.base() + 1; } }
'''
KINDS = ['num', 'str', 'push', 'pop', 'mapset', 'mapdel', 'closure', 'method', 'trycatch', 'nested', 'fib', 'tls', 'loop', 'aset', 'amap', 'each', 'split', 'list', 'sched', 'interp', 'dup', 'sub', 'strcat', 'mapit', 'ens', 'select', 'sub2', 'rev', 'garbage', 'sorted', 'reduce', 'inst', 'splat', 'msplat', 'splatlong', 'rest', 'dflt', 'kw', 'blkarg', 'yieldfn', 'mixin', 'getter', 'setter', 'opadd', 'mm', 'bound', 'static', 'super', 'foreach', 'foreachmap', 'evalret', 'regex', 'closures', 'ifelse', 'whl', 'strmut', 'catchcls', 'mapstr', 'blkstr', 'constarr', 'extend', 'redstr', 'blkret']
def gen_ops(rng, n, depth=0, kinds=KINDS, sched=True):
    ops = []
    for _ in range(n):
        k = rng.choice(kinds)
        if k == 'sched' and not sched: k = 'num'
        op = {'k': k, 'a': rng.randrange(1, 60), 'b': rng.randrange(1, 9)}
        if k == 'loop':
            if depth >= 1: op['k'] = 'num'
            else: op['ops'] = gen_ops(rng, rng.randrange(1, 4), depth + 1, kinds, sched); op['b'] = rng.randrange(1, 6)
        ops.append(op)
    return ops

class St:
    def __init__(self, i):
        self.n = i * 7 + 1; self.s = 's%d' % i; self.a = [i, 2]; self.m = {}; self.acc = i; self.hist = []; self.ctr = i; self.tls = None; self.out = []; self.x = 0
def fib(k): return k if k < 2 else fib(k-1) + fib(k-2)
def lst(a): return '[' + ','.join(str(x) for x in a) + ']'

def emit(ops, st, lines, ind, uid, run=True):
    """appends Lox lines; if run, executes the model"""
    W = lambda s: lines.append('  ' * ind + s)
    for op in ops:
        a, b, k = op['a'], op['b'], op['k']
        if k == 'num':
            W('n = (n * 31 + %d) %% 9973; r << "n${n}";' % a)
            if run: st.n = (st.n * 31 + a) % 9973; st.out.append('n%d' % st.n)
        elif k == 'str':
            W('s = "x${s.size}" + "%s"; r << s;' % ('q' * b))
            if run: st.s = 'x%d%s' % (len(st.s), 'q' * b); st.out.append(st.s)
        elif k == 'strcat':
            W('s = s + "c%d"; if (s.size > 60) { s = "r"; } r << "${s}";' % a)
            if run: st.s += 'c%d' % a; st.s = 'r' if len(st.s) > 60 else st.s; st.out.append(st.s)
        elif k == 'push':
            W('a << %d; a << n %% 97; if (a.size > 12) { a = [1]; } r << "${a}";' % a)
            if run:
                st.a += [a, st.n % 97]
                if len(st.a) > 12: st.a = [1]
                st.out.append(lst(st.a))
        elif k == 'pop':
            W('if (a.size > 0) { r << "p${a.pop()}"; }')
            if run and st.a: st.out.append('p%d' % st.a.pop())
        elif k == 'aset':
            W('if (a.size > 0) { a[%d %% a.size] = n %% 89; r << "${a}"; }' % a)
            if run and st.a: st.a[a % len(st.a)] = st.n % 89; st.out.append(lst(st.a))
        elif k == 'amap':
            W('a = a.map() -> (x) { (x * %d + 1) %% 991; }; r << "${a}";' % b)
            if run: st.a = [(x * b + 1) % 991 for x in st.a]; st.out.append(lst(st.a))
        elif k == 'mapstr':
            uid[0] += 1; u = uid[0]
            W('var ms%d = a.map() -> (x) { return "q${x}"; }; r << ms%d.join("_"); ms%d = a.map(&fun(x) { return ["z${x}"]; }); r << "${ms%d}";' % (u, u, u, u))
            if run: st.out += ['_'.join('q%d' % x for x in st.a), '[' + ','.join('[z%d]' % x for x in st.a) + ']']
        elif k == 'blkstr':
            W('r << strs(%d) -> (x) { return "m${x}" + String(n); }; r << strs(%d, &fun(x) { return "f${x}"; }); r << strs(2) -> (x) { "i${x}"; };' % (b, b))
            if run: st.out += [''.join('m%d%d' % (x, st.n) for x in range(b)), ''.join('f%d' % x for x in range(b)), 'i0i1']
        elif k == 'constarr':
            uid[0] += 1; u = uid[0]
            W('var ca%d = [1, 2, 3]; ca%d[0] = "w${n}"; ca%d << ["v${n}"]; ca%d[1] = %%{"k": "u${n}"}; r << "${ca%d[0]}/${ca%d[3][0]}/${ca%d[1].keys()[0]}"; r << String([1, 2, 3]);' % ((u,) * 7))
            if run: st.out += ['w%d/v%d/k' % (st.n, st.n), '[1,2,3]']
        elif k == 'extend':
            uid[0] += 1; u = uid[0]
            W('var ey%d = Vec(%d, 2); ey%d.extend(Ext); r << (ey%d.ext() + "${n}"); r << "${ey%d.len}";' % (u, b, u, u, u))
            if run: st.out += ['ext%d' % st.n, str(b + 2)]
        elif k == 'redstr':
            W('r << a.reduce("") -> (x, acc) { return acc + "${x};"; };')
            if run: st.out.append(''.join('%d;' % x for x in st.a))
        elif k == 'blkret':
            uid[0] += 1; u = uid[0]
            W('var br%d = a.select() -> (x) { if (x %% 2 == 0) { return true; } false; }; r << "${br%d}"; r << strs(2) -> (x) { try { throw Error("t${x}"); } catch (Error e) { return e.message; } };' % (u, u))
            if run: st.out += [lst([x for x in st.a if x % 2 == 0]), 't0t1']
        elif k == 'select':
            W('a = a.select() -> (x) { x %% %d != 0; }; r << "${a}";' % (b + 1))
            if run: st.a = [x for x in st.a if x % (b + 1) != 0]; st.out.append(lst(st.a))
        elif k == 'each':
            W('a.each() -> (x) { r << "e${x}"; };')
            if run: st.out += ['e%d' % x for x in st.a]
        elif k == 'rev':
            W('a = a.reverse(); r << "${a}";')
            if run: st.a = st.a[::-1]; st.out.append(lst(st.a))
        elif k == 'dup':
            W('var d%d = a.dup(); d%d << %d; r << "${d%d.size},${a.size}";' % (uid[0], uid[0], a, uid[0])); uid[0] += 1
            if run: st.out.append('%d,%d' % (len(st.a) + 1, len(st.a)))
        elif k == 'reduce':
            W('r << "s${a.reduce(%d) -> (acc, x) { (acc + x) %% 997; }}";' % a) if False else W('var t%d = a.reduce(%d) -> (acc, x) { (acc + x) %% 997; }; r << "s${t%d}";' % (uid[0], a, uid[0])); uid[0] += 1
            if run:
                t = a
                for x in st.a: t = (t + x) % 997
                st.out.append('s%d' % t)
        elif k == 'sorted':
            W('a = a.sort(); r << "${a}";') if False else W('r << "${a.sum()}";')
            if run: st.out.append('%d' % sum(st.a))
        elif k == 'mapset':
            W('m["k%d"] = [n, %d]; r << "${m["k%d"]}${m.keys().size}";' % (a % 7, b, a % 7)) if False else W('m["k%d"] = [n, %d]; r << m["k%d"].join("-"); r << m.keys().size;' % (a % 7, b, a % 7))
            if run: st.m['k%d' % (a % 7)] = [st.n, b]; st.out.append('%d-%d' % (st.n, b)); st.out.append('%d' % len(st.m))
        elif k == 'mapdel':
            W('m.delete("k%d"); r << m.keys().size;' % (a % 7)); 
            if run: st.m.pop('k%d' % (a % 7), None); st.out.append('%d' % len(st.m))
        elif k == 'mapit':
            W('for (var kk = 0; kk < 7; kk += 1) { var v = m["k${kk}"]; if (v != nil) { r << "${kk}=${v[0]}"; } }')
            if run:
                for kk in range(7):
                    v = st.m.get('k%d' % kk)
                    if v: st.out.append('%d=%d' % (kk, v[0]))
        elif k == 'closure':
            W('n = ctr(%d); r << "c${n}";' % a)
            if run: st.ctr = (st.ctr + a) % 9973; st.n = st.ctr; st.out.append('c%d' % st.n)
        elif k == 'method':
            W('n = o.inc(%d); r << o.toStr();' % a)
            if run: st.acc = ((st.acc * 3 + a) % 9973 + 1) % 9973; st.n = st.acc; st.out.append('acc%d' % st.n)
        elif k == 'inst':
            W('var q%d = Acc(%d); q%d.inc(n); r << q%d.toStr();' % (uid[0], a, uid[0], uid[0])); uid[0] += 1
            if run: st.out.append('acc%d' % ((a * 3 + st.n) % 9973))
        elif k == 'trycatch':
            W('try { r << thrower(%d, "m%d"); } catch (MyErr e) { r << "caught ${e.message}"; } else { r << "else"; }' % (b % 4, a))
            if run: st.out.append('caught m%d' % a)
        elif k == 'ens':
            W('try { n = (n + %d) %% 9973; } catch (MyErr e) { r << "never"; } ensure { r << "ens${n}"; }' % a)
            if run: st.n = (st.n + a) % 9973; st.out.append('ens%d' % st.n)
        elif k == 'nested':
            W('try { try { throw MyErr("i%d"); } catch (MyErr e) { r << e.message; throw Error("o%d"); } } catch (Error e2) { r << e2.message; }' % (a, b))
            if run: st.out += ['i%d' % a, 'o%d' % b]
        elif k == 'fib':
            W('r << "f${fibr(%d)}";' % b)
            if run: st.out.append('f%d' % fib(b))
        elif k == 'tls':
            W('Thread.current()["k%d"] = n; r << "t${Thread.current()["k%d"]}";' % (b, b)) if False else W('Thread.current()["k"] = n; x = Thread.current()["k"]; r << "t${x}";')
            if run: st.x = st.n; st.out.append('t%d' % st.n)
        elif k == 'split':
            W('r << "a-%d-c${n}".split("-").join("+");' % a)
            if run: st.out.append('a+%d+c%d' % (a, st.n))
        elif k == 'list':
            W('var l%d = nil; for (var z = 0; z < %d; z += 1) { l%d = Node(z + n, l%d); } r << sumList(l%d);' % (uid[0], b, uid[0], uid[0], uid[0])); uid[0] += 1
            if run: st.out.append('%d' % (sum(z + st.n for z in range(b)) % 9973))
        elif k == 'garbage':
            W('for (var z = 0; z < %d; z += 1) { var g = [z, "g${z}", %%{"z": z}]; }' % (b * 3))
        elif k == 'interp':
            W('x = %d; r << "i${x}-${n}-${s.size}";' % a)
            if run: st.x = a; st.out.append('i%d-%d-%d' % (a, st.n, len(st.s)))
        elif k == 'sub':
            W('r << "abcdefghijk"[%d];' % b) 
            if run: st.out.append('abcdefghijk'[b])
        elif k == 'sub2':
            W('if (n % 2 == 0) { n = n + 1; r << "even"; } else { r << "odd"; }')
            if run:
                if st.n % 2 == 0: st.n += 1; st.out.append('even')
                else: st.out.append('odd')
        elif k == 'splat':
            p = [a, b] if a % 2 else [a, b, a + b]
            W('var p%d = %s; r << %s(*p%d);' % (uid[0], p, 'two' if a % 2 else 'three', uid[0])); uid[0] += 1
            if run: st.out.append(str((a * 7 + b) % 9973 if a % 2 else (a * 11 + b * 3 + a + b) % 9973))
        elif k == 'msplat':
            W('var v%d = Vec(%d, %d); r << v%d.add3(*[n %% 50, %d, %d]);' % (uid[0], a, b, uid[0], a, b)); uid[0] += 1
            if run: st.out.append(str((a + st.n % 50 * 4 + a * 2 + b) % 9973))
        elif k in ('splatlong', 'rest'):
            p = [(a * i + b) % 90 for i in range(1 + b % 8 if k == 'rest' else 9 + a % 11)]
            if k == 'rest': W('r << rest(%s);' % ', '.join(map(str, p)))
            else: W('var p%d = %s; r << rest(*p%d);' % (uid[0], p, uid[0])); uid[0] += 1
            if run:
                t = p[0]
                for z in p[1:]: t = (t * 5 + z) % 9973
                st.out.append('%d/%d' % (len(p) - 1, t))
        elif k == 'dflt':
            ar = [a, b, b + 1][:1 + a % 3]
            W('r << dflt(%s);' % ', '.join(map(str, ar)))
            if run: ar = ar + [3, 4][len(ar) - 1:]; st.out.append(str(ar[0] * 100 + ar[1] * 10 + ar[2]))
        elif k == 'kw':
            sel = a % 4
            W('r << kw(%d%s%s);' % (b, ', k: %d' % (a % 9) if sel & 1 else '', ', j: n % 7' if sel & 2 else ''))
            if run: st.out.append(str(b * 100 + (a % 9 if sel & 1 else 2) * 10 + (st.n % 7 if sel & 2 else 5)))
        elif k == 'blkarg':
            W('var t%d = twice() -> (q) { q * %d + n %% 10; }; r << "t${t%d}";' % (uid[0], b, uid[0])); uid[0] += 1
            if run: st.out.append('t%d' % ((b + st.n % 10) * 10 + 2 * b + st.n % 10))
        elif k == 'yieldfn':
            W('r << pass(%d) -> (q) { r << "y${q}"; };' % a) if False else W('var t%d = pass(%d) -> (q) { r << "y${q}"; }; r << t%d;' % (uid[0], a, uid[0])); uid[0] += 1
            if run: st.out += ['y%d' % a, str(a)]
        elif k == 'mixin':
            W('var v%d = Vec2(%d); r << v%d.shout(%d);' % (uid[0], a, uid[0], b)); uid[0] += 1
            if run: st.out.append('S%d.%d' % (b, (a + 2) % 10 + 1))
        elif k == 'getter':
            W('var v%d = Vec(%d, n); r << v%d.len;' % (uid[0], a, uid[0])); uid[0] += 1
            if run: st.out.append(str(a + st.n))
        elif k == 'setter':
            W('var v%d = Vec(1, 2); v%d.half = n; r << v%d.toStr();' % (uid[0], uid[0], uid[0])); uid[0] += 1
            if run: st.out.append('<%d,%d>' % (st.n, st.n + 1))
        elif k == 'opadd':
            W('var v%d = Vec(%d, %d) + Vec(n, 2); r << v%d.toStr();' % (uid[0], a, b, uid[0])); uid[0] += 1
            if run: st.out.append('<%d,%d>' % (a + st.n, b + 2))
        elif k == 'mm':
            W('r << Vec(1, 2).nosuch(%s);' % ', '.join(['1'] * (b % 4)))
            if run: st.out.append('mm%d' % (b % 4))
        elif k == 'bound':
            W('var v%d = Vec(%d, 1); var g%d = v%d.add3; r << g%d(1, %d, n %% 9);' % (uid[0], a, uid[0], uid[0], uid[0], b)); uid[0] += 1
            if run: st.out.append(str((a + 4 + b * 2 + st.n % 9) % 9973))
        elif k == 'static':
            W('r << Vec.mk(%d).toStr();' % a)
            if run: st.out.append('<%d,%d>' % (a, a))
        elif k == 'super':
            W('r << Vec2(%d).base();' % a)
            if run: st.out.append(str((a + 2) % 10 + 1))
        elif k == 'foreach':
            W('foreach (z in a) { var zz = z + %d; r << zz; }' % b)
            if run: st.out += [str(z + b) for z in st.a]
        elif k == 'foreachmap':
            W('var t%d = 0; foreach (kk, vv in m) { t%d = (t%d + vv[0] + vv[1]) %% 9973; } r << t%d;' % ((uid[0],) * 4)); uid[0] += 1
            if run: st.out.append(str(sum(v[0] + v[1] for v in st.m.values()) % 9973))
        elif k == 'evalret':
            W('r << eval("return %d * %d;");' % (a, b))
            if run: st.out.append(str(a * b))
        elif k == 'regex':
            W('var t%d = Regex("(a+)-(b*)").match("zz%s-%sq", true).captures(); r << t%d.join(",");' % (uid[0], 'a' * b, 'b' * (a % 5), uid[0])); uid[0] += 1
            if run: st.out.append('%s,%s' % ('a' * b, 'b' * (a % 5)))
        elif k == 'closures':
            W('var cs%d = []; for (var z = 0; z < 3; z += 1) { cs%d << mkCounter(z + n); } foreach (c in cs%d) { r << c(%d); }' % (uid[0], uid[0], uid[0], a)); uid[0] += 1
            if run: st.out += [str((z + st.n + a) % 9973) for z in range(3)]
        elif k == 'ifelse':
            W('if (n %% %d == 0) { r << "zero"; } else if (n %% %d == 1) { r << "one"; } else { r << "more"; }' % (b + 1, b + 1))
            if run: st.out.append({0: 'zero', 1: 'one'}.get(st.n % (b + 1), 'more'))
        elif k == 'whl':
            W('var w%d = %d; while (w%d > 0 and n > 0) { w%d = w%d - 2; } r << w%d;' % (uid[0], a, uid[0], uid[0], uid[0], uid[0])); uid[0] += 1
            if run: st.out.append(str(a if st.n <= 0 else (0 if a % 2 == 0 else -1)))
        elif k == 'strmut':
            W('var u%d = "b%d"; var w%d = u%d.dup(); w%d.push("zz"); var t%d = u%d + w%d; r << t%d;' % (uid[0], a, uid[0], uid[0], uid[0], uid[0], uid[0], uid[0], uid[0])); uid[0] += 1
            if run: st.out.append('b%db%dzz' % (a, a))
        elif k == 'catchcls':
            W('try { [1, 2].nosuchmeth(); } catch (NameError e) { r << "ne"; } catch (Error e) { r << "er"; }')
            if run: st.out.append('ne')
        elif k == 'sched': W('Thread.schedule();')
        elif k == 'loop':
            v = 'i%d' % uid[0]; uid[0] += 1
            W('for (var %s = 0; %s < %d; %s += 1) {' % (v, v, b, v))
            emit(op['ops'], st, lines, ind + 1, uid, False)
            W('}')
            if run:
                for _ in range(b): emit(op['ops'], st, [], 0, [0], True)

def body(ops, i, name):
    """Lox source of fun name() returning its log array, and the expected log"""
    st = St(i); lines = ['fun %s() {' % name, '  var r = []; var n = %d; var s = "s%d"; var a = [%d, 2]; var m = Map(); var o = Acc2(%d); var ctr = mkCounter(%d); var x = 0;' % (st.n, i, i, i, i)]
    emit(ops, st, lines, 1, [0])
    lines += ['  return r;', '}']
    return '\n'.join(lines), st.out
