#!/bin/bash
# runs the repository's stable tests on the worktree /tmp/wr, shown as /repo in a private mount namespace
copy=/tmp/testwr_copy
rm -rf /tmp/testwr_copy; cp -a /repo $copy
(cd $copy && git -C /tmp/wr diff $(git rev-parse HEAD) HEAD | git apply)
unshare -rm bash -c "mount --bind $copy /repo && cd /repo && bash /opt/vp/build.sh > $copy/b.log 2>&1 && bash /opt/vp/test.sh $copy/out.json > /dev/null 2>&1"
python3 - <<P
import json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$copy/out.json'))
print('missing', sorted(st-set(o['passed'])))
P
rm -rf /tmp/testwr_copy
