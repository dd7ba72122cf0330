#!/bin/bash
# seedmk.sh ID PROP FILE(under src) 'perl subst' 'needs' 'what it breaks'  -> creates patch.diff and meta.json
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; mkdir -p $S
D=$(mktemp -d /tmp/seedmk.XXXXXX); cp -a /repo $D/w
perl -0pi -e "$4" $D/w/src/$3
git -C $D/w diff > $S/patch.diff
rm -rf "$D"
[ -s $S/patch.diff ] || { echo "NO CHANGE"; exit 1; }
python3 - "$2" "$5" "$6" > $S/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
cat $S/patch.diff
