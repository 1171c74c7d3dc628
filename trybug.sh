#!/bin/bash
# trybug.sh ID [PROP...]: runs the checks of the property of seeded/ID against a scratch copy with the patch applied
cd "$(dirname "$0")"
for id in $1; do
  w=$(mktemp -d /tmp/tryXXXXXX); cp -a /repo $w/repo; git -C $w/repo apply $PWD/seeded/$id/patch.diff || exit 2
  p=${2:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  PYVC_REPO=$w/repo python3-vt check.py $p | tail -4; echo "$id $p exit ${PIPESTATUS[0]}"
  rm -rf "$w"
done
