#!/bin/bash
# Revert each repair of /repo in a scratch clone, run the checks which must notice.
# prints: commit check=exit ...   (1 expected for at least one of the checks)
D=$(mktemp -d /tmp/revert.XXXXXX); git clone -q /repo $D/korin; cd $D/korin; HEAD0=$(git rev-parse HEAD)
while read c ids; do
  if ! git revert -n $c >/dev/null 2>&1; then echo "$c $ids CONFLICT"; git revert --abort 2>/dev/null; git reset -q --hard $HEAD0; continue; fi
  res=""
  for id in ${ids//,/ }; do KORIN_REPO=$D/korin VERIF_OUT=$D/build /verif/check $id quick >/dev/null 2>&1; res="$res $id=$?"; done
  echo "$c$res"; git revert --abort 2>/dev/null; git reset -q --hard $HEAD0
done < "${1:-/verif/tools/fixes.txt}"
rm -rf "$D"
