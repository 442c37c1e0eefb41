import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for c in sorted(e['coverage']['cases'],key=lambda c:-c['wall_s'])[:12]: print(c)
print(e['coverage']['incomplete'][:5])
