"""Containers: long histories on arrays, maps and strings, against sequences and dictionaries."""
from engine import *
LEVEL = 'exploration'
QUICK_RUNS = 8000
ASSUMPTIONS = ['maps that threads share without a lock have native keys', 'a container is not changed by its own iteration, except that an array may grow or shrink while it is iterated']
STR = ['a', 'b', 'abc', '', 'x y', 'costarring', 'liquid', 'brwrui', 'zfqgta', 'tbzjoa', 'nqrtcj', 'cllcce', 'grvzxi', 'declinate', 'macallums', 'k1', 'k2', 'k3', 'k4', 'k5', 'k6', 'k7', 'k8', 'k9', 'a much longer string than the others, of many bytes']
NUM = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 21, 29, 37, 45, 61, 1000, -1, -2, -3, -8, 0.5, 2.5]
SRC = ['abc', ' ab  c ', 'a,b,,c', 'x', '', 'hello hello', '   ', ' z', 'costarring', '12,34', 'aaaa', 'the quick brown fox jumps over the lazy dog', '\t tab\t']
def n(x): return ('n', float(x))
def s_(x): return ('s', x)
NIL = ('z',)
def b(x): return ('b', bool(x))
def num(x): return '%d' % x if x == int(x) else '%d / 2' % (x * 2)
def E(v, t):
    k = v[0]
    if k == 'n': return ('(%s)' if v[1] < 0 or v[1] != int(v[1]) else '%s') % num(v[1])
    if k == 's': return '"%s"' % v[1].replace('\t', '\\t')
    if k == 'z': return 'nil'
    if k == 'b': return 'true' if v[1] else 'false'
    if k == 'K': return 'K%d(%d)' % (t, v[1])
    return '[%s]' % ', '.join(E(x, t) for x in v[1])
def R(v):
    k = v[0]
    if k == 'n': return '%g' % v[1]
    if k == 's': return "'%s'" % v[1]
    if k == 'z': return 'nil'
    if k == 'b': return 'true' if v[1] else 'false'
    if k == 'K': return 'K%d' % v[1]
    return '[%s]' % ';'.join(R(x) for x in v[1])
def val(x):
    """spec (JSON) form to model form"""
    if x is None: return NIL
    if x is True or x is False: return b(x)
    if isinstance(x, (int, float)): return n(x)
    if isinstance(x, str): return s_(x)
    if isinstance(x, dict): return ('K', x['K'])
    return ('a', tuple(val(y) for y in x))
class Gen:
    def __init__(s, r, big):
        s.r = r; s.big = big
        s.keys = [s.key() for _ in range(r.choice([4, 8, 16, 40]))]
    def key(s):
        r = s.r; k = r.randrange(10)
        if k < 3: return r.choice(NUM)
        if k < 7: return r.choice(STR)
        if k < 8: return r.choice([True, False, None])
        if k < 9: return {'K': r.randrange(8)}
        return [r.randrange(3), r.choice(STR)]
    def el(s, i):
        r = s.r
        if i == 0: return r.choice(NUM)
        if i == 1: return r.choice(STR)
        return s.key() if r.randrange(4) else [s.key()]
    def ops(s, cnt, shared):
        r = s.r; L = []
        mode = r.choice('amsx')
        for _ in range(cnt):
            k = r.choice(mode * 3 + 'ams') if mode != 'x' else r.choice('ams')
            if shared and r.randrange(4) == 0: k = 'h'
            if r.randrange(20) == 0: L.append({'k': r.choice(['gc', 'churn', 'lit', 'sched', 'yg', 'lit'])}); continue
            if k == 'a':
                i = r.randrange(3)
                o = {'k': 'a', 'i': i, 'o': r.choice(['push', 'push', 'push', 'shov', 'pop', 'pushFront', 'popFront', 'delete', 'delete', 'deleteAt', 'set', 'set', 'get', 'first', 'last', 'size', 'join', 'str', 'sort', 'sortBy', 'reverse', 'dup', 'clear', 'eq', 'map', 'select', 'reject', 'find', 'reduce', 'sum', 'each', 'eachbreak', 'eachraise', 'foreach', 'eachgrow', 'eachshrink', 'wrap', 'fill', 'splat', 'lit', 'frozen', 'cmp', 'inmap', 'sortraise', 'multi', 'conc'])}
                if i == 2 and o['o'] in ('sort', 'reduce', 'sum', 'sortBy', 'sortraise', 'join'): o['o'] = 'each'
                if i == 1 and o['o'] in ('reduce', 'sum', 'sortBy', 'sortraise'): o['o'] = 'sort'
                o['v'] = s.el(i); o['n'] = r.randrange(-1, 12); o['e'] = [s.el(i) for _ in range(r.randrange(0, 5))]
                if r.randrange(12) == 0: o['boom'] = r.randrange(1, 6)
            elif k == 'm':
                o = {'k': 'm', 'i': r.randrange(3), 'o': r.choice(['set', 'set', 'set', 'set', 'set', 'get', 'get', 'del', 'del', 'has', 'size', 'keys', 'values', 'each', 'eachbreak', 'eachraise', 'foreach', 'map', 'dup', 'eq', 'cmp', 'merge', 'mergeWith', 'slice', 'clear', 'rehash', 'init', 'lit', 'frozen', 'del2', 'fill', 'drain'])}
                o['v'] = s.key(); o['n'] = r.randrange(0, 40); o['e'] = [r.choice(s.keys) for _ in range(r.randrange(1, 5))]; o['j'] = r.randrange(3)
                o['key'] = r.choice(s.keys)
                if r.randrange(8) == 0 and o['o'] in ('set', 'get', 'del', 'has'): o['boom'] = r.randrange(1, 6)
            elif k == 's':
                o = {'k': 's', 'i': r.randrange(3), 'o': r.choice(['push', 'push', 'shov', 'add', 'mul', 'clear', 'insertAt', 'insertAt', 'substr', 'get', 'set', 'set', 'setlong', 'eq', 'eqc', 'split', 'padRight', 'rest', 'endsWith', 'compact', 'compactLeft', 'index', 'size', 'dup', 'init', 'lit', 'frozen', 'interp', 'askey', 'shrink'])}
                o['v'] = r.choice(SRC); o['n'] = r.randrange(-1, 14); o['m'] = r.randrange(0, 8); o['c'] = r.choice('abcxyz ,'); o['p'] = r.choice([',', 'l', 'ab', ' ', 'b', 'lo', 'zz'])
            else: o = {'k': 'h', 'o': r.choice(['push', 'push', 'set', 'set', 'get', 'del', 'pop', 'str']), 'n': r.randrange(12)}
            L.append(o)
        return L
def gen(rng, tier):
    g = Gen(rng, tier != 'quick'); big = tier != 'quick'
    nt = rng.choice([1, 1, 2, 3])
    tot = rng.choice([10, 30, 60, 150 if big else 80])
    spec = {'threads': [{'ops': g.ops(max(3, tot // nt), nt > 1), 'place': rng.choice(['global', 'field', 'global'])} for _ in range(nt)], 'queue': rng.choice([0, 5, 40])}
    if rng.random() < 0.06: spec['big'] = rng.choice([40, 300, 1100, 1500])
    c = swarm(rng, gc=True, faults=[('spurious_wakeup', 60), ('stall', 5)])
    if 'big' in spec: c['p_gc_full'] = min(c.get('p_gc_full', 0), 50); c['p_gc_young'] = min(c.get('p_gc_young', 0), 1000)
    return Case(spec, c)
PRE = '''fun ty(x) { return typeof(x); }
fun rr(x) { var t = typeof(x); if (t == "string") { return "'" + x + "'"; } if (t == "array") { var o = []; for (var i = 0; i < x.size; i += 1) { o << rr(x[i]); } return "[" + o.join(";") + "]"; } if (t == "instance") { return "K" + String(x.i); } return String(x); }
fun churn(n) { for (var i = 0; i < n; i += 1) { var q = [i, "c" + String(i), %{"k": i}]; } return n; }
fun mma(m) { var o = []; m.each() -> (k, v) { o << (rr(k) + "=" + rr(v)); }; return o.join("|"); }
fun mfo(m) { var o = []; foreach (k, v in m) { o << (rr(k) + "=" + rr(v)); } return o.join("|"); }
fun mpa(m) { var ks = m.keys(); var vs = m.values(); var o = []; for (var i = 0; i < ks.size; i += 1) { o << (rr(ks[i]) + "=" + rr(vs[i])); } return o.join("|"); }
class Box {} var sha = []; var shm = %{}; var shs = String(""); var shq = [];
fun args(*as) { return as; }
'''
def render(spec):
    P = [PRE]; nt = len(spec['threads'])
    for t in range(nt):
        P.append('var boom%d = 0; class K%d { init(i) { this.i = i; } hashKey() { this.boom(); churn(1); return this.i %% 3; } boom() { if (boom%d > 0) { boom%d -= 1; if (boom%d == 0) { throw Error("boom"); } } } opEquals(o) { this.boom(); if (classof(o) == K%d) { return o.i == this.i; } return false; } }' % ((t,) * 6))
        P.append('fun say%d(i, s) { print "%d " + String(i) + " " + s; }' % (t, t))
        P.append('fun la%d() { return [3, 1, 2, 2]; } fun lm%d() { return %%{"a": 1, 2: "b", "c": 3}; } fun ls%d() { return "literal"; } fun lb%d() { return ["q", 1, nil, true]; }' % (t, t, t, t))
    for q in range(spec['queue']): P.append('shq << %d;' % q)
    for t, th in enumerate(spec['threads']):
        fld = th['place'] == 'field'; L = []
        def V(k, i): return ('b%d.%s%d' if fld else 'v%d%s%d') % (t, k, i)
        P.append(('var b%d = Box();' % t) if fld else ' '.join('var v%d%s%d;' % (t, k, i) for k in 'ams' for i in range(3)))
        for i in range(3): L.append('%s = []; %s = %%{}; %s = String("");' % (V('a', i), V('m', i), V('s', i)))
        def arr(l): return '[%s]' % ', '.join(E(val(x), t) for x in l)
        for x, o in enumerate(th['ops']):
            k = o['k']; S = 'say%d(%d, %%s);' % (t, x); L.append('')
            if k == 'gc': L.append('GC.collect();'); continue
            if k == 'yg': L.append('GC.collectYoung();'); continue
            if k == 'churn': L.append('churn(40);'); continue
            if k == 'sched': L.append('Thread.schedule();'); continue
            if k == 'lit': L.append('var l%d = la%d(); l%d[%d] = "ch" + String(%d); l%d << "x"; var m%d = lm%d(); m%d["z"] = "n" + String(1); m%d.delete("a"); var s%d = ls%d(); s%d << "more"; s%d[0] = "L"; var q%d = lb%d(); q%d.delete(1); say%d(%d, rr(l%d) + mma(m%d) + s%d + rr(q%d) + rr(la%d()) + String(lm%d().size) + ls%d() + rr(lb%d()));' % (x, t, x, x % 4, x, x, x, t, x, x, x, t, x, x, x, t, x, t, x, x, x, x, x, t, t, t, t)); continue
            op = o['o']
            if k == 'a':
                a = V('a', o['i']); v = val(o['v']); e = E(v, t); i = o['n']; nn = '(%d)' % i
                A = {'push': '%s.push(%s); R' % (a, e)}
                st = {'push': '%s.push(%s);' % (a, e), 'shov': '%s << %s;' % (a, e), 'pushFront': '%s.pushFront(%s);' % (a, e), 'clear': '%s.clear();' % a, 'set': '%s[%s] = %s;' % (a, nn, e), 'dup': 'var d%d = %s; %s = d%d.dup(); d%d << 1; if (d%d.size > 2) { d%d[0] = "changed"; }' % (x, a, a, x, x, x, x), 'wrap': '%s = Array.wrap(%s);' % (a, a), 'fill': '%s = Array.fill(%d, %s);' % (a, max(i, 0), e), 'splat': '%s = args(*%s);' % (a, a) if 0 else '%s = %s.reverse();' % (a, a), 'lit': '%s = %s;' % (a, arr(o['e'])), 'multi': ' '.join('%s << %s;' % (a, E(val(y), t)) for y in o['e'] * 3), 'conc': '%s = %s.map() -> (x) { churn(2); return x; };' % (a, a),
                    'eachgrow': '%s.each() -> (x) { if (%s.size < 9) { %s << x; } };' % (a, a, a), 'eachshrink': 'var c%d = 0; %s.each() -> (x) { if (%s.size > 3) { %s.pop(); churn(1); } };' % (x, a, a, a)}
                if op in st: L.append(st[op]); L.append(S % ('rr(%s)' % a)); continue
                ex = {'pop': 'rr(%s.pop())' % a, 'popFront': 'rr(%s.popFront())' % a, 'delete': 'rr(%s.delete(%s))' % (a, e), 'deleteAt': 'rr(%s.deleteAt(%s))' % (a, nn), 'get': 'rr(%s[%s])' % (a, nn), 'first': 'rr(%s.first())' % a, 'last': 'rr(%s.last())' % a, 'size': 'rr(%s.size)' % a, 'join': '%s.join("+")' % a, 'str': '"len " + String(String(%s).size > 1)' % a if o['i'] == 2 else 'String(%s)' % a,
                    'sort': 'rr(%s.sort())' % a, 'sortBy': 'rr(%s.sortBy() -> (x, y) { churn(1); return y - x; })' % a, 'reverse': 'rr(%s.reverse())' % a, 'eq': 'rr(%s == %s)' % (a, arr(o['e'])), 'cmp': 'rr(%s == %s.dup()) + rr(%s == %s)' % (a, a, a, V('a', (o['i'] + 1) % 3)), 'map': 'rr(%s.map() -> (x) { return [x, "m"]; })' % a, 'select': 'rr(%s.select() -> (x) { churn(1); return ty(x) == "number"; })' % a, 'reject': 'rr(%s.reject() -> (x) { return ty(x) == "string"; })' % a,
                    'find': 'rr(%s.find() -> (x) { return rr(x) == rr(%s); })' % (a, e), 'reduce': 'rr(%s.reduce(1) -> (x, y) { return x - y; })' % a, 'sum': 'rr(%s.sum())' % a, 'inmap': 'rr(%%{"q": %s}["q"])' % a}
                if op in ex:
                    if op == 'delete' and o.get('boom'): L.append('boom%d = %d; try { say%d(%d, %s); } catch (Error e%d) { say%d(%d, "R"); } boom%d = 0;' % (t, o['boom'], t, x, ex[op], x, t, x, t))
                    elif op in ('sortBy', 'map', 'select', 'reject', 'find', 'reduce'):
                        L.append('var r%d = %s;' % (x, ex[op][3:-1])); L.append(S % ('rr(r%d)' % x))
                    else: L.append(S % ex[op])
                    L.append(S % ('rr(%s)' % a)); continue
                if op in ('each', 'eachbreak', 'eachraise'):
                    c = {'each': '', 'eachbreak': 'if (o%d.size == %d) { break; }' % (x, max(i, 0)), 'eachraise': 'if (o%d.size == %d) { throw Error("in each"); }' % (x, max(i, 0))}[op]
                    L.append('var o%d = []; try { %s.each() -> (x) { %s o%d << rr(x); churn(1); }; } catch (Error e%d) { o%d << "caught"; }' % (x, a, c, x, x, x)); L.append(S % ('o%d.join(",")' % x)); continue
                if op == 'sortraise': L.append('var c%d = [0]; try { %s.sortBy() -> (x, y) { c%d[0] = c%d[0] + 1; if (c%d[0] == %d) { throw Error("in sort"); } return x - y; }; } catch (Error e%d) { churn(1); }' % (x, a, x, x, x, max(i, 1), x)); L.append(S % ('rr(%s)' % a)); continue
                if op == 'foreach': L.append('var o%d = []; foreach (x%d in %s) { o%d << rr(x%d); } ' % (x, x, a, x, x)); L.append(S % ('o%d.join(",")' % x)); continue
                if op == 'frozen':
                    f = ['.push(%s)' % e, '.pop()', '[0] = %s' % e, '.clear()', '.pushFront(%s)' % e, '.popFront()', '.delete(%s)' % e, '.deleteAt(0)'][i % 8]
                    L.append('%s.freeze(); try { %s%s; say%d(%d, "no error"); } catch (Error e%d) { say%d(%d, "frozen"); } %s.unfreeze();' % (a, a, f, t, x, x, t, x, a)); L.append(S % ('rr(%s)' % a)); continue
            elif k == 'm':
                m = V('m', o['i']); j = V('m', o['j']); key = E(val(o['key']), t); v = E(val(o['v']), t); ks = ', '.join(E(val(y), t) for y in o['e'])
                ex = {'set': '%s[%s] = %s' % (m, key, v), 'get': '%s[%s]' % (m, key), 'del': '%s.delete(%s)' % (m, key), 'has': '%s.hasKey(%s)' % (m, key)}
                if op in ex:
                    if o.get('boom'): L.append('boom%d = %d; try { var r%d = %s; boom%d = 0; say%d(%d, rr(r%d)); } catch (Error e%d) { boom%d = 0; say%d(%d, "R"); }' % (t, o['boom'], x, ex[op], t, t, x, x, x, t, t, x))
                    else: L.append('var r%d = %s; ' % (x, ex[op]) + S % ('rr(r%d)' % x))
                    L.append(S % ('mpa(%s)' % m)) if x % 3 == 0 else L.append(S % ('String(%s.size)' % m)); continue
                st = {'dup': 'var d%d = %s; %s = d%d.dup(); d%d["dupped"] = 1; d%d.delete(%s);' % (x, m, m, x, x, x, ks), 'merge': '%s = %s.merge(%s);' % (m, m, j), 'mergeWith': '%s.mergeWith(%s);' % (m, j) if o['i'] != o['j'] else '', 'slice': '%s = %s.slice(%s);' % (m, m, ks), 'clear': '%s.clear();' % m, 'rehash': '%s.rehash();' % m,
                    'init': '%s = Map([%s]);' % (m, ', '.join('[%s, %d]' % (E(val(y), t), z) for z, y in enumerate(o['e']))), 'lit': '%s = %%{%s};' % (m, ', '.join('%s: %d' % (E(val(y), t), z) for z, y in enumerate(uniq(o['e'])))), 'fill': 'for (var i = 0; i < %d; i += 1) { %s["f" + String(i)] = i; }' % (o['n'], m), 'drain': 'foreach (k%d in %s.keys()) { if (ty(k%d) == "string") { %s.delete(k%d); } }' % (x, m, x, m, x) if 0 else 'var d%d = %s.keys(); for (var i = 0; i < d%d.size; i += 1) { if (ty(d%d[i]) == "string") { %s.delete(d%d[i]); } }' % (x, m, x, x, m, x)}
                if op in st: L.append(st[op]); L.append(S % ('mpa(%s)' % m)); continue
                if op == 'del2': L.append('var r%d = %s.delete(%s); ' % (x, m, ks) + S % ('rr(r%d)' % x)); L.append(S % ('mpa(%s)' % m)); continue
                if op in ('each', 'foreach', 'keys', 'values'): L.append(S % ('%s(%s)' % ({'each': 'mma', 'foreach': 'mfo'}.get(op, 'mpa'), m))); continue
                if op == 'size': L.append(S % ('String(%s.size)' % m)); continue
                if op == 'map': L.append('var r%d = %s.map() -> (k, v) { return rr(k) + "=" + rr(v); }; ' % (x, m) + S % ('r%d.join("|")' % x)); continue
                if op in ('eachbreak', 'eachraise'):
                    c = {'eachbreak': 'if (o%d.size == %d) { break; }' % (x, o['n'] % 6), 'eachraise': 'if (o%d.size == %d) { throw Error("in each"); }' % (x, o['n'] % 6)}[op]
                    L.append('var o%d = []; try { %s.each() -> (k, v) { %s o%d << (rr(k) + "=" + rr(v)); }; } catch (Error e%d) { o%d << "caught"; }' % (x, m, c, x, x, x)); L.append(S % ('o%d.join("|")' % x)); continue
                if op in ('eq', 'cmp'): L.append(S % ('rr(%s == %s.dup()) + rr(%s == %s)' % (m, m, m, j))); continue
                if op == 'frozen':
                    f = ['[%s] = 1' % key, '.clear()', '.delete(%s)' % key, '.rehash()', '.mergeWith(%s)' % V('m', (o['i'] + 1) % 3)][o['n'] % 5]
                    L.append('%s.freeze(); try { %s%s; say%d(%d, "no error"); } catch (Error e%d) { say%d(%d, "frozen"); } %s.unfreeze();' % (m, m, f, t, x, x, t, x, m)); L.append(S % ('mpa(%s)' % m)); continue
            elif k == 's':
                z = V('s', o['i']); v = E(s_(o['v']), t); i = o['n']; nn = '(%d)' % i; c = '"%s"' % o['c']; p = '"%s"' % o['p']
                st = {'push': '%s.push(%s);' % (z, v), 'shov': '%s << %s;' % (z, v), 'add': '%s = %s + %s;' % (z, z, v), 'mul': '%s = %s * %d;' % (z, z, o['m'] % 4), 'clear': '%s.clear();' % z, 'insertAt': 'try { %s.insertAt(%s, %s); } catch (ArgumentError e%d) { say%d(%d, "range"); }' % (z, v, nn, x, t, x), 'set': 'try { %s[%s] = %s; } catch (ArgumentError e%d) { say%d(%d, "range"); }' % (z, nn, c, x, t, x), 'setlong': 'try { %s[%s] = "<>" + %s; } catch (ArgumentError e%d) { say%d(%d, "range"); }' % (z, nn, c, x, t, x), 'padRight': '%s.padRight(%d, %s);' % (z, i, c),
                    'rest': '%s = %s.rest(%s);' % (z, z, nn), 'compact': '%s = %s.compact();' % (z, z), 'compactLeft': '%s = %s.compactLeft();' % (z, z), 'substr': '%s = %s.substr(%d, %d);' % (z, z, max(i, 0), o['m']), 'dup': 'var d%d = %s; %s = d%d.dup(); d%d << "dupped";' % (x, z, z, x, x), 'init': 'var d%d = %s; %s = String(d%d); d%d << "init"; d%d = 0;' % (x, z, z, x, x, x), 'lit': '%s = %s;' % (z, v), 'interp': '%s = "<${%s}>";' % (z, 'v'), 'shrink': 'if (%s.size > 20) { %s = %s.substr(0, 5); }' % (z, z, z)}
                if op == 'interp': st['interp'] = 'var w%d = %s; %s = "<${w%d}>";' % (x, z, z, x)
                if op in st: L.append(st[op]); L.append(S % ('%s + "." + String(%s.size)' % (z, z))); continue
                ex = {'get': 'rr(%s[%s])' % (z, nn), 'eq': 'rr(%s == %s)' % (z, v), 'eqc': 'rr(%s == %s) + rr(%s == %s.dup())' % (z, V('s', (o['i'] + 1) % 3), z, z), 'split': 'rr(%s.split(%s))' % (z, p), 'endsWith': 'rr(%s.endsWith(%s))' % (z, p), 'index': 'rr(%s.index(%s))' % (z, p), 'size': 'rr(%s.size)' % z, 'askey': 'rr(%%{"%s": 1}.hasKey(%s))' % (o['v'].replace('\t', '\\t'), z)}
                if op in ex: L.append(S % ex[op]); continue
                if op == 'frozen':
                    f = ['.push("q")', '.clear()', '.insertAt("q", 0)', '[0] = "ab"', '.padRight(600, "r")'][i % 5]
                    L.append('%s.freeze(); try { %s%s; say%d(%d, "no error"); } catch (Error e%d) { say%d(%d, "frozen"); } %s.unfreeze();' % (z, z, f, t, x, x, t, x, z)); L.append(S % ('%s + "." + String(%s.size)' % (z, z))); continue
            elif k == 'h':
                L.append({'push': 'sha << %d;' % (t * 1000 + x), 'set': 'shm["%d-%d"] = %d;' % (t, o['n'], x), 'get': S % ('rr(shm["%d-%d"])' % (t, o['n'])), 'del': S % ('rr(shm.delete("%d-%d"))' % (t, o['n'])), 'pop': S % 'rr(shq.popFront())', 'str': 'shs << "%d.%d;";' % (t, x)}[op]); continue
            raise Exception('render %s' % o)
        # the operations in functions of a bounded size
        fs = []
        grp = [[]]
        for l in L:
            if l == '':
                if len(grp[-1]) >= 12: grp.append([])
            else: grp[-1].append(l)
        for i, g in enumerate(grp): P.append('fun th%d_%d() {\n %s\n}' % (t, i, '\n '.join(g))); fs.append('th%d_%d();' % (t, i))
        P.append('fun th%d() { %s print "%d end"; }' % (t, ' '.join(fs), t))
    if nt == 1: P.append('th0();')
    else:
        P.append(' '.join('var t%d = newThread(fun() { th%d(); });' % (t, t) for t in range(nt))); P.append(' '.join('joinThread(t%d);' % t for t in range(nt)))
    if spec.get('big'):
        P.append('fun bigs(n) { var a = []; for (var i = 0; i < n; i += 1) { a << i; } var o = []; var m = Map(); var q = a.map() -> (x) { return "m${x}"; }; o << q.size; o << q[n - 1]; a.each() -> (x) { m["k${x}"] = [x, "y"]; }; o << m.size; o << a.select() -> (x) { if (x % 2 == 0) { return true; } return false; }.size; q = a.map(&fun(x) { return [x]; }); o << q[n - 1][0]; var t = 0; q = a.reduce(0) -> (x, acc) { return acc + x; }; o << q; var c = []; m.each() -> (k, v) { if (m[k] == v) { c << k; } }; o << c.size; o << cnt(n) -> (i, z) { return "c${i}" + z; }; return o.join(","); }')
        P.append('fun cnt(n, &blk) { var o = ""; for (var i = 0; i < n; i += 1) { o = "x" + blk.yield(i, "e"); } return o; } print "SHB " + bigs(%d);' % spec['big'])
    P.append('print "SHA " + String(sha); print "SHM " + mma(shm); print "SHS " + shs; print "SHQ " + String(shq);')
    return Job('\n'.join(P))
def uniq(l):
    o = []
    for x in l:
        if json.dumps(x) not in [json.dumps(y) for y in o]: o.append(x)
    return o
import json
def hk(v): return v
def model(t, th, got, res, soft):
    """Replays the operations of one thread; got: iterator of reported lines of this thread, (index, text)."""
    A = [[], [], []]; M = [{}, {}, {}]; S = ['', '', '']; own = {}; popped = []; pushed = []; strs = []
    it = iter(got)
    class Bad(Exception): pass
    def nxt(x):
        l = next(it, None)
        if l is None: raise Bad('nothing reported')
        i, _, s = l.partition(' ')
        if i != str(x): raise Bad('line %r reported' % l)
        return s
    def exp(x, *ts):
        g = nxt(x)
        if g not in ts: raise Bad('%r reported instead of %r' % (g, ts[0]))
        return g
    def mset(x, m, part=None):
        g = nxt(x); a = sorted(g.split('|')) if g else []; e = sorted('%s=%s' % (R(k), R(v)) for k, v in m.items())
        if part is None:
            if a != e: raise Bad('entries %r reported instead of %r' % (a, e))
        else:
            c = 'caught' in a
            if c: a.remove('caught')
            if len(a) != min(part, len(e)) or any(y not in e for y in a) or len(set(a)) != len(a): raise Bad('entries %r reported, %d of %r wanted' % (a, part, e))
            return c
    def arr(l): return R(('a', tuple(l)))
    for x, o in enumerate(th['ops']):
        k = o['k']
        try:
            if k in ('gc', 'yg', 'churn', 'sched'): continue
            if k == 'lit':
                l = [n(3), n(1), n(2), n(2)]; l[x % 4] = s_('ch%d' % x); l.append(s_('x'))
                g = nxt(x); pre = arr(l); post = "Literalmore" if 0 else "Literalmore"; post += arr([s_('q'), NIL, b(True)]) + arr([n(3), n(1), n(2), n(2)]) + '3literal' + arr([s_('q'), n(1), NIL, b(True)])
                mid = g[len(pre):len(g) - len(post)]
                if not g.startswith(pre) or not g.endswith(post) or sorted(mid.split('|')) != sorted(["2='b'", "'c'=3", "'z'='n1'"]): raise Bad('%r reported for changed literals' % g)
                continue
            op = o['o']
            if k == 'a':
                a = A[o['i']]; v = val(o['v']); i = o['n']; es = [val(y) for y in o['e']]
                if op in ('push', 'shov'): a.append(v)
                elif op == 'pushFront': a.insert(0, v)
                elif op == 'clear': a[:] = []
                elif op == 'set':
                    if 0 <= i < len(a): a[i] = v
                elif op in ('dup', 'wrap', 'conc'): A[o['i']] = a = list(a)
                elif op == 'fill': A[o['i']] = a = [v] * max(i, 0)
                elif op == 'splat': A[o['i']] = a = a[::-1]
                elif op == 'lit': A[o['i']] = a = list(es)
                elif op == 'multi': a += es * 3
                elif op == 'eachgrow':
                    y = 0
                    while y < len(a):
                        if len(a) < 9: a.append(a[y])
                        y += 1
                elif op == 'eachshrink':
                    y = 0
                    while y < len(a):
                        if len(a) > 3: a.pop()
                        y += 1
                elif op == 'pop': exp(x, R(a.pop() if a else NIL))
                elif op == 'popFront': exp(x, R(a.pop(0) if a else NIL))
                elif op == 'delete':
                    y = a.index(v) if v in a else -1
                    g = exp(x, R(n(y) if y >= 0 else NIL), *(['R'] if o.get('boom') else []))
                    if y >= 0 and g != 'R': a.pop(y)
                elif op == 'deleteAt': exp(x, R(a.pop(i) if 0 <= i < len(a) else NIL))
                elif op == 'get': exp(x, R(a[i] if 0 <= i < len(a) else NIL))
                elif op == 'first': exp(x, R(a[0] if a else NIL))
                elif op == 'last': exp(x, R(a[-1] if a else NIL))
                elif op == 'size': exp(x, str(len(a)))
                elif op == 'join': exp(x, '+'.join(y[1] if y[0] == 's' else R(y) for y in a))
                elif op == 'str': exp(x, 'len true') if o['i'] == 2 else exp(x, '[%s]' % ','.join(y[1] if y[0] == 's' else R(y) for y in a))
                elif op == 'sort': exp(x, arr(sorted(a)))
                elif op == 'sortBy': exp(x, arr(sorted(a)[::-1]))
                elif op == 'reverse': exp(x, arr(a[::-1]))
                elif op == 'eq': exp(x, R(b(a == es)))
                elif op == 'cmp': exp(x, 'true' + R(b(a == A[(o['i'] + 1) % 3])))
                elif op == 'map': exp(x, arr([('a', (y, s_('m'))) for y in a]))
                elif op == 'select': exp(x, arr([y for y in a if y[0] == 'n']))
                elif op == 'reject': exp(x, arr([y for y in a if y[0] != 's']))
                elif op == 'find': exp(x, R(v if v in a else NIL))
                elif op == 'reduce':
                    y = 1.0
                    for z in a: y = z[1] - y
                    exp(x, R(n(y)))
                elif op == 'sum': exp(x, R(n(sum(y[1] for y in a))))
                elif op == 'inmap': exp(x, arr(a))
                elif op in ('each', 'eachbreak', 'eachraise'):
                    l = [R(y) for y in a]
                    if op != 'each' and len(l) > max(i, 0): l = l[:max(i, 0)] + (['caught'] if op == 'eachraise' else [])
                    exp(x, ','.join(l)); continue
                elif op == 'foreach':
                    l = [R(y) for y in a]; c = next((q for q, y in enumerate(a) if y in (NIL, b(False))), len(a))
                    if c == len(a): exp(x, ','.join(l)); continue
                    g = exp(x, ','.join(l), ','.join(l[:c]))
                    if g != ','.join(l): soft.append(('foreach-nil', 'thread %d, operation %d: foreach over %s visited only %r' % (t, x, arr(a), g)))
                    continue
                elif op == 'frozen': exp(x, 'frozen')
                if op != 'deleted': exp(x, arr(a))
            elif k == 'm':
                m = M[o['i']]; key = val(o['key']); v = val(o['v']); es = [val(y) for y in o['e']]
                if op in ('set', 'get', 'del', 'has'):
                    e = {'set': v, 'get': m.get(key, NIL), 'del': n(1 if key in m else 0), 'has': b(key in m)}[op]
                    g = exp(x, R(e), *(['R'] if o.get('boom') else []))
                    if g != 'R' or R(e) == 'R':
                        if op == 'set': m[key] = v
                        elif op == 'del': m.pop(key, None)
                    if x % 3 == 0: mset(x, m)
                    else: exp(x, str(len(m)))
                    continue
                if op == 'dup': M[o['i']] = m = dict(m)
                elif op == 'merge': q = dict(m); q.update(M[o['j']]); M[o['i']] = m = q
                elif op == 'mergeWith': m.update(M[o['j']])
                elif op == 'slice': M[o['i']] = m = {y: m[y] for y in es if y in m}
                elif op == 'clear': m.clear()
                elif op == 'init': M[o['i']] = m = {y: n(z) for z, y in enumerate(es)}
                elif op == 'lit': M[o['i']] = m = {val(y): n(z) for z, y in enumerate(uniq(o['e']))}
                elif op == 'fill':
                    for y in range(o['n']): m[s_('f%d' % y)] = n(y)
                elif op == 'drain':
                    for y in [y for y in m if y[0] == 's']: del m[y]
                elif op == 'del2':
                    c = 0
                    for y in es: c += m.pop(y, None) is not None
                    exp(x, str(c))
                elif op in ('each', 'foreach', 'keys', 'values', 'map', 'rehash'): pass
                elif op == 'size': exp(x, str(len(m))); continue
                elif op in ('eachbreak', 'eachraise'):
                    c = mset(x, m, o['n'] % 6)
                    if bool(c) != (op == 'eachraise' and len(m) > o['n'] % 6): raise Bad('wrong end of the iteration')
                    continue
                elif op in ('eq', 'cmp'): exp(x, 'true' + R(b(m == M[o['j']]))); continue
                elif op == 'frozen': exp(x, 'frozen')
                mset(x, m)
            elif k == 's':
                z = S[o['i']]; v = o['v']; i = o['n']; m = o['m']; c = o['c']; p = o['p']
                if op in ('push', 'shov', 'add'): z += v
                elif op == 'mul': z = z * (m % 4)
                elif op == 'clear': z = ''
                elif op == 'insertAt':
                    if 0 <= i <= len(z): z = z[:i] + v + z[i:]
                    else: exp(x, 'range')
                elif op == 'set':
                    if 0 <= i < len(z): z = z[:i] + c + z[i + 1:]
                    else: exp(x, 'range')
                elif op == 'setlong':
                    if 0 <= i <= len(z): z = z[:i] + '<>' + c + z[i + 1:]
                    else: exp(x, 'range')
                elif op == 'padRight': z = z + c * (i - len(z))
                elif op == 'rest': z = z[i:] if 0 <= i < len(z) else ''
                elif op == 'compact': z = z.strip()
                elif op == 'compactLeft': z = z.lstrip()
                elif op == 'substr': z = z[max(i, 0):max(i, 0) + m]
                elif op == 'lit': z = v
                elif op == 'interp': z = '<%s>' % z
                elif op == 'shrink': z = z[:5] if len(z) > 20 else z
                elif op == 'get': exp(x, R(s_(z[i] if 0 <= i < len(z) else ''))); continue
                elif op == 'eq': exp(x, R(b(z == v))); continue
                elif op == 'eqc': exp(x, R(b(z == S[(o['i'] + 1) % 3])) + 'true'); continue
                elif op == 'split':
                    l = z.split(p)
                    if l[-1] == '': l.pop()
                    exp(x, arr([s_(y) for y in l])); continue
                elif op == 'endsWith': exp(x, R(b(z.endswith(p)))); continue
                elif op == 'index': exp(x, R(n(z.index(p)) if p in z else NIL)); continue
                elif op == 'size': exp(x, str(len(z))); continue
                elif op == 'askey': exp(x, R(b(z == v))); continue
                elif op == 'frozen': exp(x, 'frozen')
                S[o['i']] = z; exp(x, '%s.%d' % (z, len(z)))
            else:
                key = '%d-%d' % (t, o['n'])
                if op == 'push': pushed.append(t * 1000 + x)
                elif op == 'set': own[key] = x
                elif op == 'get': exp(x, R(n(own[key])) if key in own else 'nil')
                elif op == 'del': exp(x, '1' if key in own else '0'); own.pop(key, None)
                elif op == 'pop':
                    g = nxt(x)
                    if g != 'nil': popped.append(int(g))
                    elif popped.count(-1) == 0: popped.append(-1)
                elif op == 'str': strs.append('%d.%d' % (t, x))
        except Bad as e: res.append((k + ':' + o.get('o', ''), 'thread %d, operation %d %s: %s' % (t, x, json.dumps(o), e))); return None
    return own, popped, pushed, strs
def nums(a, b):
    a, b = a.split(','), b.split(',')
    return len(a) == len(b) and all(x == y or re.fullmatch(r'[\d.e+]+', x) and float('%g' % float(y)) == float(x) for x, y in zip(a, b))
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    by = {}; fin = {}
    txt = r.text(1, 1000)
    for l in txt.split('\n'):
        w = l.split(' ', 1)
        if l[:2] == 'SH': fin[w[0]] = w[1] if len(w) > 1 else ''
        elif w[0].isdigit() and len(w) > 1: by.setdefault(int(w[0]), []).append(w[1])
        elif l: return [('output', 'unexpected line %r' % l)]
    res = []; st = []; soft = []
    for t, th in enumerate(spec['threads']):
        g = by.get(t, [])
        st.append(model(t, th, g, res, soft))
        if res: return [(a, m + ' ' + r.err[-300:]) for a, m in res]
        if not g or g[-1] != 'end': return [('incomplete', 'thread %d did not finish %s' % (t, r.err[-300:]))]
    if 'SHQ' not in fin: return [('incomplete', 'the main script did not finish %s' % r.err[-300:])]
    if spec.get('big'):
        n = spec['big']; e = ','.join(map(str, [n, 'm%d' % (n - 1), n, (n + 1) // 2, n - 1, n * (n - 1) // 2, n, 'xc%de' % (n - 1)]))
        if not nums(fin.get('SHB', ''), e): return [('big', 'blocks over %d elements gave %r, expected %r' % (n, fin.get('SHB'), e))]
    sha = [int(x) for x in fin['SHA'][1:-1].split(',') if x]
    if sorted(sha) != sorted(x for s in st for x in s[2]) or any([x for x in sha if x // 1000 == t] != s[2] for t, s in enumerate(st)): return [('shared:array', 'the shared array is %r, pushed were %r' % (sha, [s[2] for s in st]))]
    e = {}
    for s in st: e.update(s[0])
    if sorted(x for x in fin['SHM'].split('|') if x) != sorted("'%s'=%d" % x for x in e.items()): return [('shared:map', 'the shared map has %r, stored were %r' % (fin['SHM'], e))]
    ss = [x for x in fin['SHS'].split(';') if x]
    if sorted(ss) != sorted(x for s in st for x in s[3]) or any([x for x in ss if x.startswith('%d.' % t)] != s[3] for t, s in enumerate(st)): return [('shared:string', 'the shared string is %r, appended were %r' % (fin['SHS'], [s[3] for s in st]))]
    rest = [int(x) for x in fin['SHQ'][1:-1].split(',') if x]; pops = [[x for x in s[1] if x >= 0] for s in st]
    if sorted(rest + [x for p in pops for x in p]) != list(range(spec['queue'])) or any(p != sorted(p) for p in pops): return [('shared:queue', 'taken from the shared queue of %d: %r, left %r' % (spec['queue'], pops, rest))]
    return soft[:1]
def tags(spec, r): return ['%s:%s%s' % (o['k'], o.get('o', ''), ':boom' if o.get('boom') else '') for t in spec['threads'] for o in t['ops']] + ['threads:%d' % len(spec['threads'])]
