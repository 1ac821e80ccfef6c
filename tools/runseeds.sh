#!/bin/bash
# runseeds.sh [ID...]: applies each seeded change to a scratch copy of /repo and runs the check of its property there.
# Patches that are not seeded changes (refactorings that must stay quiet) can be given as PROPERTY:PATCHFILE.
V=/verif; cd $V || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
S=$(mktemp -d /tmp/seedrun.XXXXXX) || exit 2
mkdir $S/verif && cp -a bin specs replay env.sh known_findings.txt properties.jsonl MANIFEST.json go.mod go.sum $S/verif/ 2>/dev/null
cp -a vcg $S/verif/
for id in "$@"; do
  case $id in
  *:*) p=${id%%:*} patch=${id#*:};;
  *) patch=$V/seeded/$id/patch.diff
     p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])");;
  esac
  rm -rf "$S/repo"; cp -a /repo "$S/repo"
  git -C "$S/repo" apply "$patch" || { echo "$id does not apply"; continue; }
  s=$SECONDS
  out=$(. ./env.sh; VERIF_SEED=1 $S/verif/bin/vcg check -prop $p -repo $S/repo -verif $S/verif 2>&1); rc=$?
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep VIOLATION <<<"$out" | head -3 | cut -c1-200 | tr '\n' '|')"
  [ -z "$KEEPOUT" ] || echo "$out" > $KEEPOUT.$(basename ${id//:/_}).log
done
rm -rf "$S"
