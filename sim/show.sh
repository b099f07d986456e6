#!/bin/bash
# developer helper: show.sh VARIANT SCENARIO SEED -> plan and event log
D=/verif/build/$1; SIM_PLAN=1 $D/sim range $2 $3 1 1 0 $5| python3 -c "
import json,sys
r=json.loads(sys.stdin.readline()); open('/tmp/plan.$$','w').write(r['plan']); print(r['status'],r['cls'],r['msg']); print(r['plan'])"
$D/sim replay /tmp/plan.$$ t 2>&1 | tail -${4:-60} | cut -c1-400; /bin/rm -f /tmp/plan.$$
