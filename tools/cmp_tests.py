"""Compare a test.sh result with the baseline: the stable tests must all still pass."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
p = set(o['passed']); missing = [t for t in b['stable'] if t not in p]
print(len(b['stable']), 'stable,', len(missing), 'not passing'); print(*missing[:10], sep='\n')
sys.exit(bool(missing))
