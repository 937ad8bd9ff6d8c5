#!/bin/bash
# r.sh ID name [n]
cd /verif; ninja -C build $1 2>&1 | grep -E "error|FAILED" | head -12 | cut -c1-250
rm -f /tmp/$1.json
(time timeout 3000 build/$2 --out /tmp/$1.json --jobs ${JOBS:-8} --budget ${BUDGET:-600} $4 $5 >/tmp/$1.log 2>&1) 2>&1 | grep real
[ -f /tmp/$1.json ] || { tail -3 /tmp/$1.log; exit; }
python3 - <<P
import json
d=json.load(open('/tmp/$1.json'))
print({k:d[k] for k in d if isinstance(d[k],(int,bool))})
for k,v in d['scenarios'].items(): print('  ',k,{a:v[a] for a in v if a in('complete','executions','raw_violations','distinct_outcomes')})
P
python3 /tmp/show.py /tmp/$1.json ${3:-3} | cut -c1-330 | head -${HEAD:-16}
