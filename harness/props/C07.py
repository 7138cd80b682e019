"""try/catch/else/ensure: generated programs against a small reference interpreter; I/O steps may fail by injection."""
from engine import *
LEVEL = 'exploration'
ASSUMPTIONS = ['ensure blocks are specified for leaving a try by its end or by an error (not by return, break or continue out of it)', 'an injected failure of a file operation is recognised by the operation not reporting success; the rest of the trace must then follow the failure path exactly']
CLS = {'E1': ['E1', 'Error'], 'E2': ['E2', 'E1', 'Error'], 'E3': ['E3', 'Error'], 'TypeError': ['TypeError', 'Error'], 'NameError': ['NameError', 'Error'], 'ArgumentError': ['ArgumentError', 'Error'], 'Sys': ['Error'], 'M::E4': ['M::E4', 'Error']}
THROWS = ['E1', 'E2', 'E3', 'M::E4', 'type', 'name', 'arg', 'nilcall', 'const']
class G:
    def __init__(s, rng, tier): s.r = rng; s.n = 0; s.left = rng.choice([12, 25, 45]) if tier == 'quick' else rng.choice([20, 50, 100])
    def id(s): s.n += 1; return s.n
    def stmts(s, d, ctx, lo=1, hi=4): return [s.stmt(d, ctx) for _ in range(s.r.randrange(lo, hi + 1)) if s.left > 0] or [{'k': 'mark', 'i': s.id()}]
    def stmt(s, d, ctx):
        s.left -= 1; r = s.r
        simple = ['mark', 'chk', 'chk', 'seta', 'throw', 'throw', 'io', 'decl', 'this' if 'm' in ctx else 'chk', 'glob', 'rethrow' if 'c' in ctx else 'mark', 'ret' if ctx[0] in 'fm' and 'n' not in ctx else 'mark']
        if d <= 0 or s.left <= 0: k = r.choice(simple)
        else: k = r.choice(simple + ['try', 'try', 'try', 'try', 'fun', 'fun', 'meth', 'super', 'block', 'each', 'yield', 'for', 'while', 'foreach', 'eval', 'op', 'tos', 'init', 'getter', 'mapeach', 'thread', 'expr', 'arrlit', 'if', 'anon', 'amap', 'interp', 'blk2'])
        n = {'k': k, 'i': s.id()}
        if k == 'throw': n['w'] = r.choice(THROWS)
        elif k in ('seta', 'glob', 'ret'): n['v'] = r.randrange(1, 9)
        elif k == 'if': n['v'] = r.randrange(2); n['body'] = s.stmts(d - 1, ctx); n['alt'] = s.stmts(d - 1, ctx)
        elif k == 'try':
            n['body'] = s.stmts(d - 1, ctx, 1, 4); form = r.randrange(5)
            n['cat'] = [{'cls': r.choice(['Error', 'E1', 'E2', 'E3', 'TypeError', 'NameError', 'ArgumentError', 'Error', 'M::E4']), 'bind': r.random() < 0.8, 'body': s.stmts(d - 1, ctx + 'c', 0, 2), 'i': s.id()} for _ in range(0 if form == 0 else r.choice([1, 1, 2, 3]))]
            n['els'] = s.stmts(d - 1, ctx, 1, 2) if n['cat'] and r.random() < 0.3 else None
            n['ens'] = s.stmts(d - 1, ctx.replace('c', '') + 'n', 1, 2) if form == 0 or r.random() < 0.35 else None
            if n['ens'] is not None:
                def noret(l):
                    for x in l:
                        if x['k'] == 'ret': x['k'] = 'chk'
                        for kk in ('body', 'alt', 'els', 'ens'):
                            if isinstance(x.get(kk), list) and x['k'] in ('try', 'if', 'for', 'while', 'foreach'): noret(x[kk])
                        for c in x.get('cat', []): noret(c['body'])
                noret([n])
        elif k in ('fun', 'op', 'expr', 'arrlit', 'anon', 'interp', 'tos', 'init', 'getter'): n['p'] = r.randrange(9); n['body'] = s.stmts(d - 1, {'op': 'm', 'getter': 'm', 'tos': 'xm', 'init': 'xm'}.get(k, 'f'))
        elif k in ('meth', 'super'): n['p'] = r.randrange(9); n['body'] = s.stmts(d - 1, 'm'); n['alt'] = s.stmts(d - 1, 'm')
        elif k in ('block', 'each', 'yield', 'mapeach', 'thread', 'amap', 'blk2'): n['body'] = s.stmts(d - 1, 'b')
        elif k in ('for', 'while', 'foreach'):
            n['body'] = s.stmts(d - 1, ctx)
        elif k == 'eval' and 's' in ctx: n['k'] = 'mark' # eval in a script-level scope with locals: see DESIGN
        elif k == 'eval': n['body'] = [{'k': r.choice(['mark', 'throw', 'glob', 'mark']), 'i': s.id(), 'w': r.choice(['E1', 'E3', 'type', 'name']), 'v': 3} for _ in range(r.randrange(1, 4))]
        return n
def gen(rng, tier):
    g = G(rng, tier)
    main = rng.random() < 0.5
    spec = {'body': g.stmts(4 if tier == 'quick' else 6, 'fs' if main else 'f', 2, 6), 'main': main}
    c = swarm(rng, threads=rng.random() < 0.5, gc=True, faults=[('open_eacces', 400), ('eio_read', 300)])
    c['p_gc_full'] = min(c.get('p_gc_full', 0), 300); c['p_gc_young'] = min(c.get('p_gc_young', 0), 5000)
    return Case(spec, c)
TH = {'E1': 'throw E1("m%d");', 'E2': 'throw E2("m%d");', 'E3': 'throw E3("m%d");', 'M::E4': 'throw M::E4("m%d");', 'type': '1 + nil;', 'name': '[1].nosuch();', 'arg': 't(1, 2, 3);', 'nilcall': 'nl();', 'const': 'Nosuchconst;'}
TC = {'type': ('TypeError', 'Binary operation type error, op=+, lhs=number, rhs=nil'), 'name': ('NameError', 'Undefined method nosuch for Array'), 'arg': ('ArgumentError', 't: Expected 1 arguments but got 3.'), 'nilcall': ('TypeError', 'Tried to call uncallable object (type=nil)'), 'const': ('NameError', '*')}
class R:
    def __init__(s): s.top = []
    def L(s, st, ctx): return ' '.join(s.one(x, ctx) for x in st)
    def fn(s, i, p, body): s.top.append('fun f%d(p) { var a = p; var b = 1; %s return a + b; }' % (i, s.L(body, 'f')))
    def one(s, n, ctx):
        k, i = n['k'], n['i']
        if k == 'mark': return 't(%d);' % i
        if k == 'chk': return 't2(%d, a, b);' % i
        if k == 'seta': return 'a = a + %d;' % n['v']
        if k == 'decl': return 'var v%d = %d; b = b + 1; t2(%d, v%d, a);' % (i, i, i, i)
        if k == 'glob': return 'g[0] = g[0] + %d; t2(%d, g[0], 0);' % (n['v'], i) if ctx != 'e' else 'g[0] = g[0] + %d; t(%d);' % (n['v'], i)
        if k == 'this': return 'this.v = this.v + 1; t2(%d, this.v, this.w());' % i
        if k == 'throw': return TH[n['w']] % i if n['w'] not in TC else TH[n['w']]
        if k == 'rethrow': return 'throw e;'
        if k == 'ret': return 'return a + %d;' % n['v']
        if k == 'io': return 'print "IO %d " + File.read("/work/d");' % i
        if k == 'if': return 'if (a - a + z == %d) { %s } else { %s }' % (1 - n['v'], s.L(n['body'], ctx), s.L(n['alt'], ctx))
        if k == 'try':
            o = 'try { %s }' % s.L(n['body'], ctx)
            for c in n['cat']: o += ' catch (%s) { %s %s }' % (c['cls'] + ' e', 'print "C %d " + e.message;' % c['i'] if c['bind'] else 't(%d);' % c['i'], s.L(c['body'], ctx))
            if n['els'] is not None: o += ' else { %s }' % s.L(n['els'], ctx)
            if n['ens'] is not None: o += ' ensure { t(%d); %s }' % (i, s.L(n['ens'], ctx))
            return o
        if k == 'fun': s.fn(i, n['p'], n['body']); return 'var r%d = f%d(%d); t2(%d, r%d, a);' % (i, i, n['p'], i, i)
        if k == 'expr': s.fn(i, n['p'], n['body']); return 't2(%d, a + (10 * f%d(%d)) + b, b);' % (i, i, n['p'])
        if k == 'arrlit': s.fn(i, n['p'], n['body']); return 'var r%d = [a, f%d(%d), b]; t2(%d, r%d[0] + r%d[1], r%d.size);' % (i, i, n['p'], i, i, i, i)
        if k == 'interp': s.fn(i, n['p'], n['body']); return 'print "T2 %d ${f%d(%d)} 0";' % (i, i, n['p'])
        if k == 'anon': return 'var h%d = fun(p) { var a = p; var b = 1; %s return a + b; }; t2(%d, h%d(%d), a);' % (i, s.L(n['body'], 'f'), i, i, n['p'])
        if k in ('meth', 'super'):
            s.top.append('class K%d { init(v) { this.v = v; } w() { return this.v * 2; } m(p) { var a = p; var b = this.v; %s return a + b; } }' % (i, s.L(n['body'], 'm')))
            if k == 'super': s.top.append('class Q%d < K%d { m(p) { var a = p + 1; var b = 2; %s var q = super.m(a); return q + b; } }' % (i, i, s.L(n['alt'], 'm')))
            return 'var o%d = %s%d(%d); var r%d = o%d.m(%d); t2(%d, r%d, o%d.v);' % (i, 'Q' if k == 'super' else 'K', i, i, i, i, n['p'], i, i, i)
        if k in ('op', 'tos', 'init', 'getter'):
            sig = {'op': 'opAdd(p)', 'tos': 'toString()', 'init': 'init(p)', 'getter': 'gg'}[k]
            body = s.L(n['body'], 'm')
            pre = {'op': 'var a = p; var b = this.v;', 'tos': 'var a = 3; var b = this.v;', 'init': 'this.v = 4; var a = p; var b = 1;', 'getter': 'var a = 5; var b = this.v;'}[k]
            post = {'op': 'return a + b;', 'tos': 'return "s" + String(a);', 'init': 'this.v = a;', 'getter': 'return a + b;'}[k]
            s.top.append('class K%d { %s w() { return this.v * 2; } %s { %s %s %s } }' % (i, '' if k == 'init' else 'init() { this.v = 7; }', sig, pre, body, post))
            if k == 'op': return 'var r%d = K%d() + %d; t2(%d, r%d, a);' % (i, i, n['p'], i, i)
            if k == 'tos': return 'var r%d = String(K%d()); t2(%d, 0, a); print r%d;' % (i, i, i, i)
            if k == 'init': return 'var r%d = K%d(%d); t2(%d, r%d.v, a);' % (i, i, n['p'], i, i)
            return 'var r%d = K%d().gg; t2(%d, r%d, a);' % (i, i, i, i)
        B = lambda a='5': 'var a = %s; var b = 6; %s' % (a, s.L(n['body'], 'b'))
        if k == 'block': return 'yb() -> () { %s }; t2(%d, a, b);' % (B(), i)
        if k == 'blk2': return 'yb2(%d) -> () { %s }; t2(%d, a, b);' % (i, B(), i)
        if k == 'yield': return 'yy() -> (q) { %s }; t2(%d, a, b);' % (B('q'), i)
        if k == 'each': return '[1, 2].each() -> (x) { %s }; t2(%d, a, b);' % (B('x'), i)
        if k == 'amap': return '[1, 2].map() -> (x) { %s x; }; t2(%d, a, b);' % (B('x'), i)
        if k == 'mapeach': return '%%{"k": 4}.each() -> (x, y) { %s }; t2(%d, a, b);' % (B('y'), i)
        if k == 'thread': return 'joinThread(newThread(fun() { %s t(%d); })); t2(%d, a, b);' % (B(), i, i)
        if k == 'for': return 'for (var i%d = 0; i%d < 2; i%d += 1) { %s } t2(%d, a, b);' % (i, i, i, s.L(n['body'], ctx), i)
        if k == 'while': return 'var i%d = 0; while (i%d < 2) { i%d = i%d + 1; %s } t2(%d, i%d, b);' % (i, i, i, i, s.L(n['body'], ctx), i, i)
        if k == 'foreach': return 'foreach (i%d in [1, 2]) { t2(%d, i%d, a); %s }' % (i, i, i, s.L(n['body'], ctx))
        if k == 'eval':
            src = ' '.join({'mark': 't(%d);', 'throw': 'ek_%s(%%d);' % x['w'], 'glob': 'gl(%d);'}[x['k']] % x['i'] for x in n['body'])
            return 'eval("%s"); t2(%d, a, b);' % (src, i)
        raise KeyError(k)
def render(spec):
    r = R()
    body = 'var a = 100; var b = 200; ' + r.L(spec['body'], 'f')
    L = ['class E1 < Error {} class E2 < E1 {} class E3 < Error {} module M { class E4 < Error {} }', 'var g = [0]; var z = 1; var nl = nil; var rr = 0; File.create("/work/d").close();' if 0 else 'var g = [0]; var z = 1; var nl = nil; var rr = 0;',
         'fun t(n) { print "T ${n}"; } fun t2(n, x, y) { print "T2 ${n} ${x} ${y}"; }', 'fun yb(&blk) { var l = 3; var r = blk.yield(); if (l != 3) { print "BADL"; } return r; }', 'fun yb2(n, &blk) { try { blk.yield(); } catch (E3 e) { print "C3 ${n}"; throw E1("conv"); } }', 'fun yy() { var l = 8; yield(l); if (l != 8) { print "BADL"; } }',
         'fun ek_E1(n) { throw E1("m${n}"); } fun ek_E3(n) { throw E3("m${n}"); } fun ek_type(n) { 1 + nil; } fun ek_name(n) { [1].nosuch(); } fun gl(n) { g[0] = g[0] + 3; t(n); }', 'atExit(fun() { print "HOOK"; });']
    L += r.top
    if spec['main']: L.append(body)
    else: L += ['fun main() { %s }' % body, 'main();']
    L.append('print "END ${g[0]}";')
    j = Job('\n'.join(L)); j.files['/work/d'] = 'data'
    return j
# ------------------------------------------------------------------ reference
class Err(Exception):
    def __init__(s, cls, msg): s.cls, s.msg = cls, msg
class Ret(Exception):
    def __init__(s, v): s.v = v
class Mis(Exception): pass
def num(x): return str(x)
class I:
    def __init__(s, lines): s.act = lines; s.p = 0; s.g = 0; s.un = 0
    def out(s, l):
        if s.p >= len(s.act): raise Mis('expected %r, the program printed nothing more' % l)
        if s.act[s.p] != l and not (l.endswith('*') and s.act[s.p].startswith(l[:-1])): raise Mis('line %d: expected %r, got %r' % (s.p, l, s.act[s.p]))
        s.p += 1
    def run(s, st, f):
        for x in st: s.one(x, f)
    def fn(s, p, body, f):
        try: s.run(body, f)
        except Ret as r: return r.v
        return f['a'] + f['b']
    def t2(s, i, x, y): s.out('T2 %d %s %s' % (i, num(x), num(y)))
    def block(s, a, body): s.run(body, {'a': a, 'b': 6})
    def one(s, n, f):
        k, i = n['k'], n['i']
        if k == 'mark': s.out('T %d' % i)
        elif k == 'chk': s.t2(i, f['a'], f['b'])
        elif k == 'seta': f['a'] += n['v']
        elif k == 'decl': f['b'] += 1; s.t2(i, i, f['a'])
        elif k == 'glob': s.g += n['v']; s.t2(i, s.g, 0)
        elif k == 'this': f['o']['v'] += 1; s.t2(i, f['o']['v'], 2 * f['o']['v'])
        elif k == 'throw':
            if n['w'] in TC: raise Err(*TC[n['w']])
            raise Err(n['w'], 'm%d' % i)
        elif k == 'rethrow': raise f['e']
        elif k == 'ret': raise Ret(f['a'] + n['v'])
        elif k == 'io':
            if s.p < len(s.act) and s.act[s.p] == 'IO %d data' % i: s.p += 1
            else: raise Err('Sys', '*')
        elif k == 'if': s.run(n['body'] if n['v'] == 0 else n['alt'], f)
        elif k == 'try':
            olde = f.get('e')
            try:
                err = None
                try: s.run(n['body'], f)
                except Err as e: err = e
                if err is None:
                    if n['els'] is not None: s.run(n['els'], f)
                else:
                    for c in n['cat']:
                        if c['cls'] in CLS[err.cls]:
                            f['e'] = err
                            s.out('C %d %s' % (c['i'], err.msg) if c['bind'] else 'T %d' % c['i'])
                            s.run(c['body'], f); break
                    else: raise err
            except Err:
                f['e'] = olde
                if n['ens'] is not None: s.out('T %d' % i); s.run(n['ens'], f)
                raise
            f['e'] = olde
            if n['ens'] is not None: s.out('T %d' % i); s.run(n['ens'], f)
        elif k in ('fun', 'anon'):
            r = s.fn(n['p'], n['body'], {'a': n['p'], 'b': 1}); s.t2(i, r, f['a'])
        elif k == 'expr': r = s.fn(n['p'], n['body'], {'a': n['p'], 'b': 1}); s.t2(i, f['a'] + 10 * r + f['b'], f['b'])
        elif k == 'arrlit': r = s.fn(n['p'], n['body'], {'a': n['p'], 'b': 1}); s.t2(i, f['a'] + r, 3)
        elif k == 'interp': r = s.fn(n['p'], n['body'], {'a': n['p'], 'b': 1}); s.t2(i, r, 0)
        elif k == 'meth': o = {'v': i}; r = s.fn(n['p'], n['body'], {'a': n['p'], 'b': i, 'o': o}); s.t2(i, r, o['v'])
        elif k == 'super':
            o = {'v': i}; q = {'a': n['p'] + 1, 'b': 2, 'o': o}
            try: s.run(n['alt'], q); rv = s.fn(0, n['body'], {'a': q['a'], 'b': o['v'], 'o': o}) + q['b']
            except Ret as x: rv = x.v
            s.t2(i, rv, o['v'])
        elif k == 'op': o = {'v': 7}; r = s.fn(0, n['body'], {'a': n['p'], 'b': 7, 'o': o}); s.t2(i, r, f['a'])
        elif k == 'getter': o = {'v': 7}; r = s.fn(0, n['body'], {'a': 5, 'b': 7, 'o': o}); s.t2(i, r, f['a'])
        elif k == 'tos': o = {'v': 7}; q = {'a': 3, 'b': 7, 'o': o}; s.run(n['body'], q); s.t2(i, 0, f['a']); s.out('s' + num(q['a']))
        elif k == 'init': o = {'v': 4}; q = {'a': n['p'], 'b': 1, 'o': o}; s.run(n['body'], q); s.t2(i, q['a'], f['a'])
        elif k == 'block': s.block(5, n['body']); s.t2(i, f['a'], f['b'])
        elif k == 'blk2':
            try: s.block(5, n['body'])
            except Err as e:
                if 'E3' in CLS[e.cls]: s.out('C3 %d' % i); raise Err('E1', 'conv')
                raise
            s.t2(i, f['a'], f['b'])
        elif k == 'yield': s.block(8, n['body']); s.t2(i, f['a'], f['b'])
        elif k in ('each', 'amap'):
            for x in (1, 2): s.block(x, n['body'])
            s.t2(i, f['a'], f['b'])
        elif k == 'mapeach': s.block(4, n['body']); s.t2(i, f['a'], f['b'])
        elif k == 'thread':
            try: s.block(5, n['body']); s.out('T %d' % i)
            except Err as e: s.un += 1
            s.t2(i, f['a'], f['b'])
        elif k == 'for':
            for _ in range(2): s.run(n['body'], f)
            s.t2(i, f['a'], f['b'])
        elif k == 'while':
            for _ in range(2): s.run(n['body'], f)
            s.t2(i, 2, f['b'])
        elif k == 'foreach':
            for x in (1, 2): s.t2(i, x, f['a']); s.run(n['body'], f)
        elif k == 'eval':
            for x in n['body']:
                if x['k'] == 'mark': s.out('T %d' % x['i'])
                elif x['k'] == 'glob': s.g += 3; s.out('T %d' % x['i'])
                elif x['w'] in TC: raise Err(*TC[x['w']])
                else: raise Err(x['w'], 'm%d' % x['i'])
            s.t2(i, f['a'], f['b'])
def judge(spec, r, binary):
    v = health(binary, r)
    if v: return v
    it = I(r.lines()); err = None
    try:
        try: it.run(spec['body'], {'a': 100, 'b': 200}); it.out('END %d' % it.g)
        except Err as e: err = e
        except Ret:
            if not spec['main']: it.out('END %d' % it.g)
        it.out('HOOK')
        if it.p != len(it.act): raise Mis('unexpected output %r' % it.act[it.p:it.p + 3])
    except Mis as m: return [('trace', str(m) + (' | stderr ' + r.err[:400] if r.err else ''))]
    want = 256 if err else 0
    if r.rootstatus != want: v.append(('status', 'exit status %d, expected %d' % (r.rootstatus, want)))
    nun = r.err.count('Uncaught')
    if nun != it.un + (1 if err else 0): v.append(('report', '%d uncaught errors reported, expected %d: %s' % (nun, it.un + (1 if err else 0), r.err[:500])))
    if err and err.msg != '*' and err.msg not in r.err: v.append(('report-msg', 'the report %r lacks the message %r' % (r.err[:300], err.msg)))
    return v
def tags(spec, r):
    o = []
    def w(l):
        for x in l:
            o.append(x['k'])
            for kk in ('body', 'alt', 'els', 'ens'):
                if isinstance(x.get(kk), list) and x['k'] != 'eval': w(x[kk])
            for c in x.get('cat', []): w(c['body'])
    w(spec['body']); return o
