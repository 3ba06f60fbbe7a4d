import json,sys
for i in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%i));c=d['coverage']
    print(i,d['wall_s'],c['evaluations'],c['distinct_nontrivial'],c['distinct_states'],json.dumps(c['faults_fired']),json.dumps(c['probes']),c['simulated_seconds_covered'],c['inconclusive_runs'])
