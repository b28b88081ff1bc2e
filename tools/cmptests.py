import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
p=set(t['passed']); miss=[x for x in b['stable'] if x not in p]
print(len(b['stable']),"stable;", len(miss),"not passing:",miss[:20])
sys.exit(bool(miss))
