#!/bin/bash
# Takes back each repair of known_findings.txt in a scratch copy and runs the check of its property: it must alarm.
cd "$(dirname "$0")/.." || exit 1
t=$(mktemp -d /tmp/rev.XXXXXX)
grep '^fixed:' known_findings.txt | while read -r _ p c what; do
    p=${p#property=}
    git clone -q /repo "$t/repo"
    if git -C "$t/repo" -c user.name=x -c user.email=x@x revert --no-edit "$c" >/dev/null 2>&1; then
        out=$(MC_FAIL_FAST=1 MC_SHARDS=1 MC_REPO=$t/repo TMPDIR=$t setsid -w ./check.sh "$p" </dev/null 2>&1)
        case $out in *VIOLATION*) r=caught;; *) r=MISSED;; esac
    else
        r="does not revert cleanly"
    fi
    echo "$r $p $c $what"
    /bin/rm -rf "${t:?}/repo"
done
/bin/rm -rf "${t:?}"
