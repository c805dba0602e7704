#!/bin/bash
# mut.sh PID file sedexpr
rm -rf /tmp/m/repo; mkdir -p /tmp/m/repo; cp -a /repo/src /repo/include /repo/util /tmp/m/repo/
cd /tmp/m/repo; sed -i "$3" $2; diff -r /repo/src src; diff -r /repo/include include; diff -r /repo/util util
cd /verif; VP_REPO=/tmp/m/repo timeout 900 python3-vt vpv/check.py $1 2>&1 | grep -v '  *proved obl' | tail -${4:-12}
