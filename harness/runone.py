"""Run one Lox script under the simulator: runone.py script.lox [seed] [k=v ...] [--log] [--ex]"""
import sys
from sim import *
s = Simd()
src = open(sys.argv[1]).read()
cfg = {}
for a in sys.argv[2:]:
    if '=' in a: k, v = a.split('='); cfg[k] = int(v)
    elif a.isdigit(): cfg['seed'] = int(a)
j = Job(src, cfg); j.wantlog = '--log' in sys.argv; j.wantdecs = True
r = s.run(j)
print('--- outcome', r.oname, 'status', r.rootstatus, 'now', r.now / 1e9, 'bb', r.bb, 'sys', r.sys, 'sched', r.sched, 'spawn', r.spawn, 'gc', r.gcy, r.gcf, 'ndec', r.ndec, 'procs', r.procs)
if r.hang: print(r.hang)
if r.anomalies: print('ANOM', r.anomalies)
if r.outcome in (CRASH, HEAP): print(r.crashsig, r.crashaddr, '\n  '.join(symbolize(s.binary, r.bt)))
print('--- stdout'); print(r.out)
print('--- stderr'); print(r.err)
if j.wantlog: print(r.log.decode('latin-1'))
