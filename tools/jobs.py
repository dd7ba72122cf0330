import json,sys
for j in json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']['jobs']:
    if j['wall_s']>=float(sys.argv[2] if len(sys.argv)>2 else 0): print(j['job'],j['params'],j['states'],j['executions'],j['outcomes'],j['wall_s'],j['complete'])
