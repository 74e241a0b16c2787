import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1] if len(sys.argv)>1 else '/tmp/out.json'))
p=set(o['passed']); miss=[t for t in b['stable'] if t not in p]
print('stable',len(b['stable']),'missing',miss)
sys.exit(bool(miss))
