#!/bin/bash
# tools/seed_demo.sh ID... : runs the demonstrations in the scratch clone /tmp/sr, without and with the change (/repo is not touched).
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id
  cp /verif/tools/demo/demo.sh /verif/tools/demo/common.rs "$d/"
  git -C /tmp/sr checkout -q -- .
  (cd /tmp/sr && bash "$d/demo.sh" > /tmp/sd1.log 2>&1); a=$?
  git -C /tmp/sr apply "$d/patch.diff"
  (cd /tmp/sr && bash "$d/demo.sh" > /tmp/sd2.log 2>&1); b=$?
  git -C /tmp/sr checkout -q -- .
  echo "$id clean=$a broken=$b"
  [ $a = 0 ] || { grep -A8 '^error\|BROKEN\|panicked' /tmp/sd1.log | head -40; tail -3 /tmp/sd1.log; }
  [ $b = 1 ] || tail -5 /tmp/sd2.log
done
