#!/bin/bash
# developer helper: run a harness binary and summarise its RESULT line
"$@" | python3 -c "
import sys,json
for l in sys.stdin:
    if l.startswith('RESULT'):
        r=json.loads(l[7:]); print({k:r[k] for k in ('states','transitions','traces','complete')}, 'violations', len(r['violations']), r['extra'])
        print(' counters',r['counters'])
        for v in r['violations'][:40]: print('  ',v['key'],'|',v['replay'][:200],'|',v['text'][:500])
    else: print(l,end='')
"
