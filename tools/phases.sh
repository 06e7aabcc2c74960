#!/bin/bash
# development aid: run checks, print a line per phase
cd "$(dirname "$0")/.."
for i in "$@"; do
  python3 run.py $i 2>&1 | grep -E "error|^[EURC][0-9][0-9] |phase|ERR|VIOL" | head -30
  python3 - $i <<'P'
import json,sys
e=json.load(open("evidence/%s.json"%sys.argv[1]))
for p in e["coverage"]["phases"]: print("   ",p["name"],p["executions"],p["slowest_worker_s"])
P
done
