#!/bin/bash
# tools/revert.sh COMMIT CNN...: runs checks on a copy of /repo without COMMIT
d=$(mktemp -d /tmp/rev.XXXX); git clone -q /repo $d/r; cd $d/r
git -c user.name=x -c user.email=x revert -n $1 >/dev/null 2>&1 || { echo conflict; rm -rf "$d"; exit 3; }
shift
for c in "$@"; do VERIF_REPO=$d/r /verif/run.sh $c 2>/dev/null | cut -c1-260 | tail -${TAILN:-4}; done
rm -rf "$d"
