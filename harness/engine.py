"""Seeded search, determinism gate, minimisation, replay files and evidence. One entry point: main(property id, tier)."""
import os, sys, json, time, random, copy, importlib, multiprocessing as mp, re, hashlib, traceback
from sim import *

RUNS_DIR = os.path.join(VERIF, 'replays')

# ------------------------------------------------------------------ scheduling / fault swarm
def swarm(rng, threads=True, gc=True, gcfull=True, faults=()):
    """Draws one environment. faults: list of (kind, max permille)."""
    c = {'seed': rng.getrandbits(48)}
    if threads:
        style = rng.randrange(6)
        c['policy'] = 1 if rng.random() < 0.3 else 0
        if style == 0:      # natural quanta, switches only at system calls
            c.update(p_switch=rng.choice([50, 200, 500]), p_preempt=rng.choice([0, 100]), p_quantum=0, fine_bb=rng.choice([2000, 6000]))
        elif style == 1:    # short quanta
            c.update(p_switch=rng.choice([20, 100, 300]), p_preempt=100, p_quantum=1000, quantum_lo=3, quantum_hi=rng.choice([30, 120, 600]), fine_bb=1500)
        elif style == 2:    # preemption at basic blocks
            c.update(p_switch=100, p_preempt=rng.choice([200, 500]), p_quantum=500, quantum_lo=20, quantum_hi=400, fine_bb=rng.choice([15, 60, 250]))
        elif style == 3:    # rare switches
            c.update(p_switch=10, p_preempt=10, p_quantum=200, quantum_lo=50, quantum_hi=3000, fine_bb=2000)
        elif style == 4:    # very eager
            c.update(p_switch=600, p_preempt=600, p_quantum=1000, quantum_lo=1, quantum_hi=20, fine_bb=100)
        else:
            c.update(p_switch=rng.randrange(400), p_preempt=rng.randrange(400), p_quantum=rng.randrange(1001), quantum_lo=5, quantum_hi=rng.choice([50, 500, 5000]), fine_bb=rng.choice([30, 300, 3000]))
    else:
        c.update(p_switch=100, p_preempt=0)
    if gc:
        g = rng.randrange(6)
        if g == 1: c['p_gc_young'] = rng.choice([200, 2000])
        elif g == 2 and gcfull: c['p_gc_full'] = rng.choice([100, 800])
        elif g == 3: c.update(p_gc_young=rng.choice([500, 5000]), p_gc_full=rng.choice([50, 300]) if gcfull else 0)
        elif g == 4: c['p_gc_young'] = 20000
    c['tty'] = rng.randrange(2)
    c['sys_ns'] = rng.choice([300, 300, 5000])
    c['tid_reuse'] = rng.choice([1, 1, 0])
    if faults and rng.random() < 0.6:
        for k, mx in faults:
            if rng.random() < 0.5: c['pf.' + k] = rng.choice([mx // 8 or 1, mx // 3 or 1, mx])
        if rng.random() < 0.3: c['fmax'] = rng.choice([1, 1, 2, 4])
    return c

# ------------------------------------------------------------------ generic verdicts
ASSERT_RE = re.compile(r'assertion failure|BUG \[|\[BUG\]|UNREACHABLE|Assertion `')
def where_crash(binary, r):
    fr = symbolize(binary, r.bt)
    for f in fr:
        n = f.split(' ')[0]
        if n not in ('??', 'heapbad', 'check_block', '__wrap_free', '__wrap_realloc', '__wrap_malloc', '__wrap_calloc', 'reallocate') and not n.startswith('__'): return n
    return '?'
def assert_site(err):
    m = re.search(r'assertion failure[^\n]*', err) or re.search(r'[^\n]*(?:BUG \[|\[BUG\]|UNREACHABLE)[^\n]*', err)
    s = m.group(0) if m else ''
    s = re.sub(r':\d+', '', s); s = re.sub(r'0x[0-9a-f]+|\d{5,}', 'N', s)
    return s.strip()[:120]

def health(binary, r, allow_status=None, allow_err=False):
    """violations any run may show, whatever the property: list of (sig, message)"""
    v = []
    if r.outcome == CRASH: v.append(('crash:%s' % where_crash(binary, r), 'process crashed (signal %d) in %s' % (r.crashsig, '; '.join(symbolize(binary, r.bt)[:8]))))
    elif r.outcome == HEAP: v.append(('heap:%s:%s' % (r.anomalies.strip().split('\n')[-1][:60], where_crash(binary, r)), r.anomalies.strip() + ' at ' + '; '.join(symbolize(binary, r.bt)[:10])))
    elif r.outcome in (HANG, ORPHANHANG): v.append(('hang:' + hangsig(r), 'no progress: ' + r.hang.replace('\n', ' | ')))
    elif r.outcome == BUDGET: v.append(('livelock', 'not finished within the step bound: ' + r.hang.replace('\n', ' | ') + r.anomalies))
    if ASSERT_RE.search(r.err): v.append(('assert:' + assert_site(r.err), r.err[-1500:]))
    if r.anomalies and r.outcome not in (HEAP, SIMERR, BUDGET): v.append(('anomaly:' + r.anomalies.strip().split('\n')[0][:80], r.anomalies))
    return v
def hangsig(r):
    w = sorted(set(l.split(' on ', 1)[1] for l in r.hang.splitlines() if ' on ' in l))
    return ','.join(w)

# ------------------------------------------------------------------ running one case
class Case:
    """spec: JSON-able description; prop module renders it into a Job and judges the Result"""
    def __init__(self, spec, cfg, events=()): self.spec, self.cfg, self.events = spec, cfg, list(events)
    def to_json(self): return {'spec': self.spec, 'cfg': self.cfg, 'events': self.events}
    @staticmethod
    def from_json(j): return Case(j['spec'], j['cfg'], j['events'])

def run_case(simd, mod, case, decs=None, wantlog=False, wantdecs=False):
    job = mod.render(case.spec)
    job.cfg = dict(job.cfg, **case.cfg); job.events = list(job.events) + [tuple(e) for e in case.events]
    job.decs = decs; job.wantdecs = wantdecs
    job.wantlog = wantlog or getattr(mod, 'WANTLOG', False)
    r = simd.run(job)
    if r.outcome == SIMERR: return r, [('crash:vanished' if 'vanished' in r.anomalies else 'simerr', r.anomalies)]
    try:
        if hasattr(mod, 'ref'):  # differential oracle: the same program in a reference environment
            rj = mod.ref(case.spec); rj.cfg = dict(rj.cfg, seed=case.cfg['seed'], tty=case.cfg.get('tty', 0)); rj.decs = None; rj.wantdecs = False; rj.wantlog = False
            v = mod.judge(case.spec, r, simd.binary, simd.run(rj))
        else: v = mod.judge(case.spec, r, simd.binary)
    except Exception: v = [('oracle-exception', traceback.format_exc())]
    return r, v

# ------------------------------------------------------------------ minimisation
SHRINK_KEYS = ('ops', 'threads', 'procs', 'items', 'body', 'children', 'steps', 'alt', 'els', 'ens')
def sublists(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            if k in SHRINK_KEYS and isinstance(x[k], list) and x[k]: yield path + (k,)
            yield from sublists(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x): yield from sublists(y, path + (i,))
def at(x, path):
    for p in path: x = x[p]
    return x
def variants(spec):
    for path in list(sublists(spec)):
        n = len(at(spec, path)); step = n
        while step >= 1:
            for i in range(0, n, step):
                s = copy.deepcopy(spec); del at(s, path)[i:i+step]
                yield s
            step //= 2
def minimise(simd, mod, case, sig, budget=45):
    t0 = time.time()
    def shows(c, tries=3):
        for k in range(tries):
            cc = Case(c.spec, dict(c.cfg, seed=c.cfg['seed'] + k * 7919), c.events)
            try: r, v = run_case(simd, mod, cc)
            except Exception: continue
            if any(s == sig for s, _ in v): return cc
            if time.time() - t0 > budget: return None
        return None
    fix = getattr(mod, 'repair', None)
    again = True
    while again and time.time() - t0 < budget:
        again = False
        for s in variants(case.spec):
            if fix:
                s = fix(s)
                if s is None: continue
            c = shows(Case(s, case.cfg, case.events))
            if c: case = c; again = True; break
            if time.time() - t0 > budget: break
        if not again:
            for i in range(len(case.events)):
                c = shows(Case(case.spec, case.cfg, case.events[:i] + case.events[i+1:]))
                if c: case = c; again = True; break
    for k in list(case.cfg):  # simpler environment
        if (k.startswith('pf.') or k in ('p_gc_young', 'p_gc_full')) and case.cfg[k]:
            c = shows(Case(case.spec, dict(case.cfg, **{k: 0}), case.events), 2)
            if c: case = c
    r, v = run_case(simd, mod, case, wantdecs=True)
    decs = r.decs
    def ok(d):
        try: _, v = run_case(simd, mod, case, decs=d)
        except Exception: return False
        return any(s == sig for s, _ in v)
    if decs is None or r.ndec > 59000 or not ok(decs): return case, None
    n = 2
    while len(decs) >= 1 and time.time() - t0 < budget * 1.6:
        size = max(1, len(decs) // n); hit = False
        for i in range(0, len(decs), size):
            d = decs[:i] + decs[i+size:]
            if ok(d): decs = d; n = max(2, n - 1); hit = True; break
            if time.time() - t0 > budget * 1.6: break
        if not hit:
            if size == 1: break
            n = min(len(decs), n * 2)
    return case, decs

def write_replay(prop, case, decs, sig, msg, r):
    os.makedirs(RUNS_DIR, exist_ok=True)
    d = {'property': prop, 'signature': sig, 'message': msg[:3000], 'seed': case.cfg.get('seed'), 'spec': case.spec, 'cfg': case.cfg, 'events': case.events, 'decisions': decs,
         'evhash': r.evhash, 'ilhash': r.ilhash, 'stdout': r.out[:4000], 'stderr': r.err[:4000]}
    try:
        m = importlib.import_module('props.' + prop); j = m.render(case.spec)
        d['program'] = j.main if isinstance(j.main, str) else None
    except Exception: pass
    h = hashlib.sha1((prop + sig + json.dumps(case.spec, sort_keys=True)).encode()).hexdigest()[:10]
    p = os.path.join(RUNS_DIR, '%s-%s.json' % (prop, h))
    json.dump(d, open(p, 'w'), indent=1)
    return p

def replay(path, verbose=True):
    d = json.load(open(path)); sys.path.insert(0, os.path.join(VERIF, 'harness'))
    mod = importlib.import_module('props.' + d['property']); simd = Simd()
    case = Case(d['spec'], d['cfg'], d['events'])
    decs = [tuple(x) for x in d['decisions']] if d['decisions'] is not None else None
    r, v = run_case(simd, mod, case, decs=decs, wantlog=True)
    same = any(s == d['signature'] for s, _ in v)
    if verbose:
        print('outcome', r.oname, 'status', r.rootstatus, 'evhash', r.evhash, '(recorded %s)' % d['evhash'])
        print(r.log.decode('latin-1')[-6000:]); print('--- stdout'); print(r.out); print('--- stderr'); print(r.err)
        for s, m in v: print('VIOLATION', s, m)
    simd.close()
    return same, r.evhash == d['evhash'], v

# ------------------------------------------------------------------ known findings
def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'known']

# ------------------------------------------------------------------ search
def worker(wid, prop, binary, seed, deadline, maxruns, tier, q):
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    st = {'runs': 0, 'simns': 0, 'faults': {}, 'il': set(), 'cov': set(), 'outcomes': {}, 'viol': [], 'nondet': 0, 'simerr': [], 'gate': 0, 'rechecks': 0,
          'gcy': 0, 'gcf': 0, 'sched': 0, 'spawn': 0, 'fork': 0, 'signals': 0, 'contended': 0, 'faultfree': 0, 'withfaults': 0, 'tags': {}, 'nontrivial': 0, 'samples': [], 'sys': 0}
    try:
        mod = importlib.import_module('props.' + prop); simd = Simd(binary)
        known = [re.compile(k['signature']) for k in load_known(prop)]
        found = {}
        i = wid
        while time.time() < deadline and st['runs'] < maxruns:
            rng = random.Random((seed << 32) ^ (i * 2654435761) ^ 0x9e37); i += 8
            case = mod.gen(rng, tier)
            try: r, v = run_case(simd, mod, case)
            except (IOError, OSError) as e: st['simerr'].append('io ' + str(e)); continue
            st['runs'] += 1; st['simns'] += r.now; st['sched'] += r.sched; st['spawn'] += r.spawn; st['fork'] += r.fork; st['signals'] += r.signals; st['gcy'] += r.gcy; st['gcf'] += r.gcf; st['sys'] += r.sys
            nf = 0
            for k, (fired, draws) in r.faults.items():
                a = st['faults'].setdefault(k, [0, 0]); a[0] += fired; a[1] += draws; nf += fired
            st['withfaults' if nf else 'faultfree'] += 1
            if r.contend or nf or r.gcy or r.gcf or r.signals or r.fork:
                st['contended'] += 1
                st['il'].add(r.ilhash ^ (r.evhash * 3))
            st['cov'].update(r.newcov)
            st['outcomes'][r.oname] = st['outcomes'].get(r.oname, 0) + 1
            for t in (mod.tags(case.spec, r) if hasattr(mod, 'tags') else ()): st['tags'][t] = st['tags'].get(t, 0) + 1
            if len(st['samples']) < 2: st['samples'].append({'seed': case.cfg['seed'], 'spec': json.dumps(case.spec)[:600], 'outcome': r.oname, 'ilhash': r.ilhash})
            if st['runs'] % 40 == 0:  # the determinism gate, sampled
                r2, v2 = run_case(simd, mod, case); st['rechecks'] += 1
                if r2.key() != r.key(): st['nondet'] += 1; st['simerr'].append('nondeterministic seed %d spec %s' % (case.cfg['seed'], json.dumps(case.spec)[:300]))
            for sig, msg in v:
                if sig == 'simerr': st['simerr'].append(msg[:200]); continue
                if sig in found: found[sig][0] += 1; continue
                if any(k.fullmatch(sig) for k in known):
                    st['tags']['known:' + sig] = st['tags'].get('known:' + sig, 0) + 1; continue
                r2, v2 = run_case(simd, mod, case); st['gate'] += 1
                if r2.key() != r.key() or not any(s == sig for s, _ in v2): st['nondet'] += 1; st['simerr'].append('unconfirmed ' + sig); continue
                found[sig] = [1, msg, case.to_json()]
        st['viol'] = [(s, f[0], f[1], f[2]) for s, f in found.items()]
        st['il'] = list(st['il'])[:200000]; st['cov'] = list(st['cov'])
        simd.close()
    except Exception:
        st['simerr'].append(traceback.format_exc()); st['il'] = list(st['il']); st['cov'] = list(st['cov'])
    q.put(st)

def main(prop, tier, seed, secs=None, maxruns=None, nworkers=8, keepgoing=False):
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    t0 = time.time(); mod = importlib.import_module('props.' + prop)
    binary = build(); tb = time.time() - t0
    if secs is None: secs = getattr(mod, 'QUICK_S', 40) if tier == 'quick' else getattr(mod, 'THOROUGH_S', 600)
    if maxruns is None: maxruns = (getattr(mod, 'QUICK_RUNS', 3000) if tier == 'quick' else 10**9) // nworkers + 1
    rc = 0; viols = []
    # known findings: each is re-run from its own replay file
    simd = Simd(binary)
    for k in load_known(prop):
        try:
            d = json.load(open(os.path.join(VERIF, k['replay'])))
            r, v = run_case(simd, mod, Case(d['spec'], d['cfg'], d['events']), decs=[tuple(x) for x in d['decisions']] if d['decisions'] is not None else None)
            if any(re.fullmatch(k['signature'], s) for s, _ in v): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            for s, m in v:
                if not re.fullmatch(k['signature'], s) and not any(re.fullmatch(kk['signature'], s) for kk in load_known(prop)): viols.append((s, 1, m, {'spec': d['spec'], 'cfg': d['cfg'], 'events': d['events']}))
        except Exception: traceback.print_exc()
    ctx = mp.get_context('fork'); q = ctx.Queue(); dl = time.time() + secs
    ps = [ctx.Process(target=worker, args=(w, prop, binary, seed, dl, maxruns, tier, q)) for w in range(nworkers)]
    for p in ps: p.start()
    sts = []
    for p in ps:
        try: sts.append(q.get(timeout=secs + 150))
        except Exception: break
    for p in ps: p.join(5); p.is_alive() and p.kill()
    wall_search = time.time() - t0 - tb
    agg = {'runs': 0, 'faults': {}, 'outcomes': {}, 'tags': {}}
    il, cov, samples, simerr = set(), set(), [], []
    for s in sts:
        for k in ('runs', 'simns', 'gcy', 'gcf', 'sched', 'spawn', 'fork', 'signals', 'contended', 'faultfree', 'withfaults', 'gate', 'rechecks', 'nondet', 'sys'): agg[k] = agg.get(k, 0) + s[k]
        for k, (a, b) in s['faults'].items():
            x = agg['faults'].setdefault(k, [0, 0]); x[0] += a; x[1] += b
        for f in ('outcomes', 'tags'):
            for k, n in s[f].items(): agg[f][k] = agg[f].get(k, 0) + n
        il.update(s['il']); cov.update(s['cov']); samples += s['samples']; simerr += s['simerr']
        for v in s['viol']: viols.append(v)
    bysig = {}
    for sig, n, msg, cj in viols:
        if sig not in bysig: bysig[sig] = [n, msg, cj]
        else:
            bysig[sig][0] += n
            if len(json.dumps(cj['spec'])) < len(json.dumps(bysig[sig][2]['spec'])): bysig[sig][1:] = [msg, cj]
    reported = []
    tmin = time.time()
    for sig, (n, msg, cj) in sorted(bysig.items(), key=lambda x: -x[1][0]):
        left = 150 - (time.time() - tmin)
        case = Case.from_json(cj); decs = None
        try:
            if left > 5: case, decs = minimise(simd, mod, case, sig, budget=min(40, left / 2))
            fresh = Simd(binary); r, v = run_case(fresh, mod, case, decs=decs); fresh.close()
            hit = [m for s, m in v if s == sig]
            if not hit:
                case, decs = Case.from_json(cj), None
                fresh = Simd(binary); r, v = run_case(fresh, mod, case); fresh.close(); hit = [m for s, m in v if s == sig]
            if not hit: simerr.append('violation did not survive a fresh process: ' + sig); continue
            path = write_replay(prop, case, decs, sig, hit[0], r)
        except Exception:
            simerr.append(traceback.format_exc()); continue
        print('VIOLATION property=%s replay=%s' % (prop, path)); print('  signature %s (seen in %d runs) %s' % (sig, n, hit[0][:700].replace('\n', '\n    ')))
        reported.append({'signature': sig, 'runs': n, 'replay': os.path.relpath(path, VERIF), 'seed': case.cfg['seed']}); rc = 1
    simd.close()
    for e in simerr[:8]: print('SIMULATOR-ERROR', e[:1500], file=sys.stderr)
    wall = time.time() - t0
    hours = max(wall_search, 0.001) / 3600
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': agg['runs'], 'distinct_nontrivial': len(il),
            'rule': 'one evaluation is one simulated run of a generated program under one seeded schedule and fault sequence; it counts as non-trivial when the scheduler had a real choice or a fault, collection, signal or fork happened, and runs are told apart by the hash of the executed interleaving and event log',
            'samples': samples[:6], 'runs_per_hour': int(agg['runs'] / hours), 'simulated_seconds': round(agg.get('simns', 0) / 1e9, 3),
            'faults_injected': {k: {'fired': v[0], 'opportunities': v[1]} for k, v in sorted(agg['faults'].items())}, 'fault_free_runs': agg.get('faultfree', 0), 'runs_with_faults': agg.get('withfaults', 0),
            'context_switches': agg.get('sched', 0), 'threads_created': agg.get('spawn', 0), 'processes_forked': agg.get('fork', 0), 'signals_handled': agg.get('signals', 0), 'forced_collections': {'young': agg.get('gcy', 0), 'full': agg.get('gcf', 0)},
            'system_calls': agg.get('sys', 0), 'basic_block_edges_reached': len(cov), 'outcomes': agg['outcomes'], 'reach': dict(sorted(agg['tags'].items())[:80]),
            'determinism': {'same_seed_rechecks': agg.get('rechecks', 0), 'mismatches': agg.get('nondet', 0), 'simulator_errors': len(simerr)},
            'real_components': 'all of clox (scanner, compiler, VM, memory manager, library natives, lib/*.lox) compiled from the working tree', 'stub_components': 'libc system-call layer, pthread, clocks, signals, file system, pipes, sockets, heap allocator, external commands'},
          'wall_s': round(wall, 1), 'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'violations': len(reported)}
    if not reported: pass
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d runs (%d distinct), %.0f runs/h, %.1f simulated s, outcomes %s, faults %s, %d simulator errors, wall %.1fs' % (prop, tier, agg['runs'], len(il), agg['runs'] / hours, agg.get('simns', 0) / 1e9, agg['outcomes'], {k: v[0] for k, v in agg['faults'].items() if v[0]}, len(simerr), wall))
    if '-v' in sys.argv: print(json.dumps(agg['tags'], indent=1))
    if agg['runs'] == 0 and rc == 0:
        print('no run completed'); rc = 1
    return rc
