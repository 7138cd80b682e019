#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--secs S] [--runs N] | check.py --replay FILE"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import engine
def opt(n, d=None):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
if __name__ == '__main__':
    if '--replay' in sys.argv:
        same, hashok, v = engine.replay(opt('--replay'))
        print('reproduced' if same else 'NOT reproduced', '(event hash %s)' % ('identical' if hashok else 'differs'))
        sys.exit(1 if same else 0)
    tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(opt('--seed', os.environ.get('VERIF_SEED', '1')))
    s = opt('--secs'); r = opt('--runs')
    sys.exit(engine.main(sys.argv[1], tier, seed, float(s) if s else None, (int(r) // 8 + 1) if r else None))
