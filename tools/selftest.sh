#!/bin/bash
# Self-test of the model checker: scenarios named bad_* must be found violated, ok_* must not.
D=$(mktemp -d /tmp/mcself_XXXXXX)
trap 'rm -rf "$D"' EXIT
cd "$(dirname "$0")/.." || exit 2
python3 tools/mcbuild.py "$D" selftest selftest2 >/dev/null || exit 2
rc=0
for b in selftest selftest2; do
for l in $("$D"/$b list | sed 's/.*"name":"\([a-z_0-9]*\)","p":\([0-9]*\),.*"t":\([0-9]*\),.*"f":\([0-9]*\),.*/\1,\2,\3,\4/'); do
	IFS=, read n p t f <<< "$l"
	timeout 200 "$D"/$b run $n --p $p --t $t --f $f --replay-out "$D"/r_$n > "$D"/o_$n 2>&1; r=$?
	exp=0; case $n in bad_*) exp=1;; esac
	if [ $r != $exp ]; then rc=1; echo "FAIL $n rc=$r $(cut -c1-400 "$D"/o_$n)"; else echo "pass $n"; fi
done
done
exit $rc
