#!/bin/bash
# show distinct violation messages of the last run
python3 - "$1" <<'P'
import json,sys,glob
seen={}
for f in sorted(glob.glob(f'/verif/build/{sys.argv[1]}/replay-*.json')):
    d=json.load(open(f)); 
    k=json.dumps(d)[:10]
    print(f, d.get('group'), str(d.get('message') or d.get('what') or d)[:700]); 
    t=d.get('trace') or d.get('ops')
    if t: print('   ', str(t)[-500:])
P
