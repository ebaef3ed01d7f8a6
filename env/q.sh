#!/bin/bash
# brief single-job run: q.sh ID JOB...
id=$1; shift
for j in "$@"; do python3 /verif/run.py one $id $j | python3 -c "
import sys,re
for l in sys.stdin:
    if l.startswith('stats'):
        d=eval(l.split(':',1)[1]); print('  paths=%d killed=%d inst=%.1fM q=%d solver=%.1f wall=%.1f'%(d['paths'],d['killed'],d['insts']/1e6,d['queries'],d['solver_s'],d['wall_s']))
    elif l.startswith('status'): print('$j',l.strip())
    elif l.startswith('violation'):
        d=eval(l.split(':',1)[1]); print('  ',d['kind'],d['msg'],'\n   @',d['stack'],'\n   ',' '.join('%s=%s'%(a,b) for a,b in d['inputs'])[:700])
    elif l.startswith(('replay_rc','error','covers')): print('  ',l.strip()[:900])
    elif 'REPLAY' in l or 'ERROR' in l: print('  ',l.strip()[:200])
"; done
