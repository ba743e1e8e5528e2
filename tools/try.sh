#!/bin/bash
# try.sh <unit> <scenario> [count]: quick look at a scenario
cd /verif; python3 tools/simbuild.py $1 | head -c 1500; [ ${PIPESTATUS[0]} = 0 ] || exit 1
timeout 300 build/bin/$1 --scenario $2 --seed ${4:-1} --count ${3:-8000} --jobs 8 --keep-going 1 --out /tmp/try.json >/dev/null 2>&1 || echo rc $?
python3 - $1 <<'P'
import json,sys,collections; sys.path.insert(0,'/verif/tools'); from check import symbolise
d=json.load(open('/tmp/try.json')); print({k:d[k] for k in ('runs','ok','violations','skips','tool_errors','wall','distinct')}, 'probes', {k:v['runs'] for k,v in d['probes'].items()}, 'faults', {k:v['fired'] for k,v in d['fault_kinds'].items()})
seen=collections.Counter()
for f in d['found']:
    seen[f['class']]+=1
    if seen[f['class']]<3: print(f['seed'],f['class'],symbolise('/verif/build/bin/'+sys.argv[1],f['message'])[:700])
P
