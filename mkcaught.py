# mkcaught.py OUT... : notes in caught.json which bugs the runs whose output is given caught
import json,os,re,sys
c=json.load(open('/verif/caught.json')) if os.path.exists('/verif/caught.json') else {}
for f in sys.argv[1:]:
    for l in open(f):
        m=re.match(r'(C\d\d-\S+) (C\d\d) rc=(\d+) (\d+)s',l)
        if not m: continue
        b,k,rc,_=m.groups()
        if not os.path.isdir('/verif/seeded/'+b): continue
        if rc=='1': c[b]=k+' (quick)'
        elif c.get(b,'').startswith('C') and k in c[b]: c[b]='missed'
        else: c.setdefault(b,'missed')
json.dump(dict(sorted(c.items())),open('/verif/caught.json','w'),indent=0,ensure_ascii=False); open('/verif/caught.json','a').write('\n')
print(sorted(set(os.listdir('/verif/seeded'))-set(c)), [b for b in c if c[b]=='missed'])
