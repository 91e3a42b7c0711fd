#!/bin/bash
# debugging: run harnesses and print one line each
cd /verif
for h in "$@"; do
timeout ${T:-200} bin/engine -h ${h%%:*} -p "${h#*:}" > /tmp/run1.txt 2>&1; rc=$?
H=$h RC=$rc python3 - <<'P'
import json,os
s=open('/tmp/run1.txt').read()
i=s.find('{')
try:
  d,e=json.JSONDecoder().raw_decode(s[i:])
  ks=['paths','solver_queries','unknown','wall_s','paths_replayed_natively','replay_mismatches','candidates_not_reproduced','violations','max_symbolic_inputs']
  print(os.environ['H'],'rc',os.environ['RC'],' '.join('%s=%s'%(k.replace('paths_replayed_natively','replayed').replace('replay_mismatches','mism').replace('solver_queries','q').replace('candidates_not_reproduced','unconf').replace('max_symbolic_inputs','vars'),d.get(k) if k!='wall_s' else round(d[k],1)) for k in ks), '' if d['all_paths_explored'] else 'INCOMPLETE '+str(d.get('stopped'))+str(d.get('paths_not_encodable')), d.get('situations_reached') or '', d.get('notes') or '')
  for k in ['mismatch_examples','unreproduced_examples']:
    for m in d.get(k) or []: print('   ',k,m[:1500])
  print(s[i+e:].strip()[:1500])
except Exception as x: print(os.environ['H'],'rc',os.environ['RC'],s[-1500:])
P
done
