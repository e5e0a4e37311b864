#!/usr/bin/env python3
"""caught.py ID RC < output of check.sh: records which harnesses caught a planted bug, for DESIGN.md."""
import json, os, re, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'caught.json')
d = json.load(open(f)) if os.path.exists(f) else {}
hs = sorted(set(re.findall(r'^violated: (H_\w+)', sys.stdin.read(), re.M)))
d[sys.argv[1]] = hs if sys.argv[2] == '1' else []
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
