import json,sys
a=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in set(a['passed'])]
print('stable',len(b['stable']),'missing',miss[:20])
sys.exit(bool(miss))
