#!/bin/bash
# chkp.sh ID...: run checks, print only what did not hold, briefly
for p in "$@"; do s=$SECONDS; python3 /verif/run.py check $p > /tmp/chkp.$p.log 2>&1; r=$?
echo "$p rc=$r $((SECONDS-s))s $(grep -c ' held ' /tmp/chkp.$p.log) held"; grep -vE " held  " /tmp/chkp.$p.log | cut -c1-300 | head -12; done
