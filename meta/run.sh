#!/bin/bash
# runs all (or the named) checks, four at a time, and prints their last lines
cd /verif; L=${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
python3 -c "import sys;sys.path.insert(0,'sa');import facts;facts.ensure_tool()"
printf '%s\n' $L | xargs -P 6 -I{} sh -c 'python3 sa/check.py {} > /tmp/run-{}.log 2>&1; echo "$? $(grep -v "^KNOWN" /tmp/run-{}.log | tail -3 | cut -c1-250)"' | grep -v "^0" ; grep -h obligations /tmp/run-C*.log | sort | cut -c1-110
