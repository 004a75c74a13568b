#!/bin/bash
# dev helper: run1.sh crate entry args... 
c=$1; e=$2; shift 2
LL=/verif/work/$c.ll
mkdir -p /tmp/w; A=""; for x in "$@"; do A="$A --arg $x"; done
timeout ${T:-300} /verif/work/target-engine/release/symx --ll $LL --entry $e $A --out /tmp/w/o.json --traces /tmp/w/t.txt --time ${TM:-250} $OPT || exit
python3 - <<'P'
import json
d=json.load(open('/tmp/w/o.json'))
d['functions']=len(d['functions'])
v=d.pop('violations')
d['incomplete']=(len(d['incomplete']),d['incomplete'][:3])
print({k:x for k,x in d.items() if k not in('args','z3','load_s','exprs','max_depth')})
for x in v:
    print('VIOL',x['kind'],x['msg'],x['stack'][:12]); print('   ',' '.join(l.split()[1]+'='+l.split()[3] for l in x['inputs'].split('\n') if l)[:700])
P
/verif/work/$c.exe $e /tmp/w/t.txt > /tmp/w/n.txt; python3 - <<'P'
def parse(f,k):
    r=[];c=None
    for l in open(f):
        if l[0]==k: c=[];r.append(c)
        elif c is not None and l[0] in 'orCEAD': c.append(l.strip())
    return r
a=parse('/tmp/w/t.txt','T');b=parse('/tmp/w/n.txt','B')
bad=0
for x,y in zip(a,b):
    e=[l for l in y if l[0]=='E']
    if sorted(x)!=sorted(l for l in y if l[0] in 'or') or e!=['E exit 0']:
        bad+=1
        if bad<3: print('MISMATCH',[l for l in x if l not in y][:5],[l for l in y if l not in x][:5])
print('traces',len(a),len(b),'bad',bad)
P
