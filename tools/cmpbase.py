"""cmpbase.py OUT.json: which baseline tests do not pass."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
st = b.get('passed') or b.get('stable') or b
miss = sorted(set(st) - set(o['passed']))
print(len(st), 'baseline;', len(miss), 'missing'); print('\n'.join(miss[:10]))
sys.exit(bool(miss))
