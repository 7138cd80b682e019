"""Adds an entry to known_findings.json.  known.py fixed PROP[,PROP] COMMIT what... | known.py known PROP SIGREGEX REPLAY what..."""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); P = V + '/known_findings.json'
k = json.load(open(P)) if os.path.exists(P) else []
if sys.argv[1] == 'fixed':
    for p in sys.argv[2].split(','):
        what = ' '.join(sys.argv[4:])
        k.append({'property': p, 'status': 'fixed', 'commit': sys.argv[3], 'what': what, 'line': 'fixed: property=%s %s %s' % (p, sys.argv[3], what)})
else:
    k.append({'property': sys.argv[2], 'status': 'known', 'signature': sys.argv[3], 'replay': sys.argv[4], 'what': ' '.join(sys.argv[5:])})
json.dump(k, open(P, 'w'), indent=1)
