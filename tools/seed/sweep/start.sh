# start.sh JOBS OUTPREFIX LANES
for k in $(seq 0 $(($3-1))); do
  D=/tmp/w/sweep/lane$k
  mkdir -p $D
  [ -d $D/repo ] || git clone -q /repo $D/repo
  git -C $D/repo pull -q
  if [ ! -d $D/verif ]; then git clone -q /verif $D/verif; cp -a /verif/target $D/verif/; else git -C $D/verif pull -q; fi
  unshare -Urm bash -c "mount --bind $D/repo /repo; mount --bind $D/verif /verif; cd /verif; exec python3 /tmp/w/sweep/lane.py $k $3 $1 $2.$k.jsonl" > $D/log 2>&1 &
done
