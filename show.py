import json,sys
for p in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{p}.json'))
    for h in e['coverage']['harnesses']:
        print(h['harness'],h['paths'],h['wall_s'],'s reached',h['reached'],'incomplete',h['incomplete'],'left',h['left'],'unrep',h['unreproduced'],{k:h['solver'][k] for k in('queries','unknown','solver_s','proved','proved_concrete','concretised')})
    print(e['wall_s'])
