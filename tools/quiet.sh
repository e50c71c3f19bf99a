#!/bin/bash
# quiet.sh DIFF [PROP...]: apply a behaviour-preserving edit to a copy of /repo and run the tests and the checks
# there (a mount namespace binds the copies over /repo and /verif). Development aid only.
D=$(realpath "$1"); shift; props=("$@"); [ ${#props[@]} = 0 ] && props=($(seq -f 'P%02g' 1 31))
W=/var/tmp/cwq_$(basename $D .diff); mkdir -p $W/tmp
rsync -a --delete /repo/ $W/repo/; rsync -a --delete /verif/ $W/verif/
cp $D $W/tmp/edit.diff
unshare -m bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && mount --bind $W/tmp /tmp
cd /repo && git apply /tmp/edit.diff || { echo 'DOES NOT APPLY'; exit 1; }
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { echo BUILD FAILS; tail -40 /tmp/build.log; exit 1; }
bash /verif/tools/tests.sh 2>&1 | tail -2
for p in ${props[*]}; do s=\$SECONDS; timeout 900 /verif/bin/check \$p > /tmp/\$p.out 2>&1; r=\$?; echo \"\$p rc=\$r \$((SECONDS-s))s\"; [ \$r = 0 ] || grep -E 'VIOLATION|ERROR|error' -A12 /tmp/\$p.out | cut -c1-400 | head -30; done"
