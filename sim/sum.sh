#!/bin/bash
# developer helper: sum.sh VARIANT SCENARIO START COUNT [k=v]  -> verdict histogram
V=$1; S=$2; A=$3; N=$4; shift 4
for w in 0 1 2 3 4 5 6 7; do timeout 600 /verif/build/$V/sim range $S $((A+w)) 8 $((N/8)) 0 "$@" 2>/dev/null & done | python3 -c "
import json,sys,collections
c=collections.Counter(); ex={}; cnt=collections.Counter(); fp=set(); ev=0
for l in sys.stdin:
    try: r=json.loads(l)
    except Exception as e: print('bad line',l[:200]); continue
    k=(r['status'],r['cls'],r['msg'][:150]); c[k]+=1; ex.setdefault(k,r['seed']); cnt.update(r['counters']); fp.add(r['fp']); ev+=r['events']
for k,v in c.most_common(14): print(v,k,ex[k])
print(dict(cnt), 'fps',len(fp),'events',ev)
"
