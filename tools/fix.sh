#!/bin/bash
# dev: run baseline tests, commit the /repo change and record it.  fix.sh PROP "message" "what failed"
[ -n "$2" ] || exit 1
cd /repo || exit 1
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 /verif/tools/cmpbase.py /tmp/o.json | tee /tmp/cmp.out
grep -q ' 0 missing' /tmp/cmp.out || exit 1
git commit -qam "fix: $2" && python3 - "$1" "$(git log -1 --format=%h)" "$3" <<'P'
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}') if isinstance(d['fixed'][0],str) else d['fixed'].append({'property':sys.argv[1],'commit':sys.argv[2],'what':sys.argv[3]})
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
P
