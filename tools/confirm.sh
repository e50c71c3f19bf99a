#!/bin/bash
# confirm.sh [N workers] ID... : mkseed.py --confirm for the given planted bugs (default all), in N copies
# of /repo and /verif, each bound over the real ones in a mount namespace of its own. Development aid only.
N=${1:-4}; shift
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls /verif/seeded))
OUT=/var/tmp/confirm; mkdir -p $OUT
for ((i=0;i<N;i++)); do
  (
    W=/var/tmp/cw$i; mkdir -p $W/tmp
    rsync -a --delete /repo/ $W/repo/ 2>/dev/null || { rm -rf "$W/repo"; cp -a /repo $W/repo; }
    rsync -a --delete /verif/ $W/verif/ 2>/dev/null || { rm -rf "$W/verif"; cp -a /verif $W/verif; }
    for ((k=i;k<${#ids[@]};k+=N)); do
      unshare -m sh -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && mount --bind $W/tmp /tmp && python3 /verif/tools/mkseed.py --confirm ${ids[$k]}"
    done > $OUT/$i.log 2>&1
  ) &
done
wait
cat $OUT/?.log
