#!/bin/bash
# build + stable tests of /repo
bash /opt/vp/build.sh >/tmp/b.txt 2>&1 || { tail -30 /tmp/b.txt; exit 1; }
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.txt 2>&1; tail -1 /tmp/t.txt
git -C /repo status --short
