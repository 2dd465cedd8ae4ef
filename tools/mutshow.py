import json,sys
n=h=0
for l in open(sys.argv[1] if len(sys.argv)>1 else '/tmp/mut/out.jsonl'):
    d=json.loads(l); n+=1
    if d['hit']: h+=1; continue
    print(d['file'].replace('src/magnopy/',''),d['line'],d['fn'],'|',d['what'],'|',d['text'][:90],'->',[x.strip()[:90] for x in d['new'][:1]],[c for c,r in d['checks']],[r for c,r in d['checks'] if r not in (0,1)])
print(n,'mutants',h,'detected')
