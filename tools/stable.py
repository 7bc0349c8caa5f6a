"""stable.py OUT.json: are all stable tests among those passed?"""
import json
import sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
t = set(json.load(open(sys.argv[1]))['passed'])
miss = [x for x in b if x not in t]
print('missing', miss[:5], len(b), len(t))
sys.exit(bool(miss))
