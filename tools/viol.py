import json,sys
j=json.load(open(sys.argv[1]))
print(j['wall_s'],j['errors'][:3])
for v in j['violations'][:int(sys.argv[2])]: print(v['stage'],v['case'],v['msg'][:1200]); print()
