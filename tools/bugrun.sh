#!/bin/bash
# bugrun.sh ID...: runs the quick check of the bug's property against a scratch copy with the bug
for id in "$@"; do
  d=/tmp/bugrun-$$; cp -a /repo $d; git -C $d apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); out=$(/verif/bin/symgo -verif /verif -prop $p -tier quick -repo $d -noev 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -A1 VIOLATION | tail -1 | cut -c1-150)"
  python3 -c "import shutil,sys;shutil.rmtree(sys.argv[1])" $d
done
