import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
p=set(o['passed']); print("stable",len(b),"missing:",sorted(b-p))
