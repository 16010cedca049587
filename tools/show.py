import json,sys
j=json.load(open(sys.argv[1]))
print(j['evaluations'],j['distinct_nontrivial'],j['wall_s'])
for k,v in j['counters'].items(): print('  ',k,v)
for s in j['samples']: print(s[:300])
