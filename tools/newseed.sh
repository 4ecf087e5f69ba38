#!/bin/bash
# tools/newseed.sh ID PROP "needs" "breaks": records the change made in /tmp/wt, demo main.go is read from stdin
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
cat > $d/main.go
cp /verif/tools/demo.sh $d/demo.sh; chmod +x $d/demo.sh
python3 - "$d" "$2" "$3" "$4" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]}, open(sys.argv[1]+"/meta.json","w"), indent=1)
PY
git -C /tmp/wt checkout -q -- .
