#!/bin/bash
# demo on the unchanged tree
for ID in "$@"; do (cd /repo; timeout 300 bash /verif/seeded/$ID/demo.sh > /tmp/seed_demo0.log 2>&1); r=$?; echo "$ID clean rc=$r"; [ $r = 0 ] || tail -3 /tmp/seed_demo0.log; done
