#!/bin/bash
# developer helper: case.sh <prog.sym.bc|latest> case [secs] : run one case and print totals
S=$1; [ "$S" = latest ] && S=$(ls -t /verif/.cache/prog/*.sym.bc | head -1)
E=$(ls -td /verif/.cache/engine-*/symx|head -1); rm -f /tmp/o.$$.jsonl
timeout $((${3:-60}+60)) $E $S -o /tmp/o.$$.jsonl -j 8 -t ${3:-60} -c $2 ${@:4} > /tmp/o.$$.out 2>&1
python3 - $2 /tmp/o.$$.jsonl <<'P'
import json,sys
t={};a={}
for l in open(sys.argv[2]):
  j=json.loads(l)
  if j['type']=='stats':
    for k,v in j.items():
      if isinstance(v,(int,float)): t[k]=t.get(k,0)+v
  else:
    k=(j['type'],j.get('label'),j.get('kind'),j.get('msg'),j.get('where','')[:300]); a.setdefault(k,[0,None]); a[k][0]+=1; a[k][1]=j.get('vars')
for k,v in a.items():
  if k[0]!='reach': print(v[0],*k,str(v[1])[:300])
print(sys.argv[1],{k:(round(v,2) if isinstance(v,float) else v) for k,v in t.items()})
P
rm -f /tmp/o.$$.*
