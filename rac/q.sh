#!/bin/bash
# q.sh SECONDS PROP...: development
cd "$(dirname "$0")"; s=$1; shift
for p in "$@"; do /opt/venv/bin/python run.py $p --seconds $s ${SEED:+--seed $SEED} | python3 -c "
import json,sys
d=json.load(sys.stdin); print('$p',d['evaluations'],d['distinct'],d['errors'][:2]);[print('   ',v) for v in d['violations'][:3]]"; done
