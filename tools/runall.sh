#!/bin/sh
# every claimed check on the current tree: exit codes and last lines
cd "$(dirname "$0")/.." || exit 2
for p in ${*:-$(ls props | sed -n 's/^c\([0-9][0-9]\)\.py$/C\1/p')}; do
  /opt/venv/bin/python check.py "$p" >"/tmp/run.$p.log" 2>&1
  echo "$p rc=$? viol=$(grep -c '^VIOLATION' "/tmp/run.$p.log") inc=$(grep -c '^INCONCLUSIVE' "/tmp/run.$p.log") $(tail -1 "/tmp/run.$p.log")"
done
