#!/bin/bash
# scratch.sh N: makes /tmp/sw/N a copy of /repo's HEAD with a build of its own
d=/tmp/sw/$1; mkdir -p /tmp/sw
git -C /repo worktree list >/dev/null
if [ ! -d $d ]; then git clone -q /repo $d; fi
git -C $d fetch -q /repo HEAD && git -C $d checkout -q -f FETCH_HEAD
sed "s#/repo#$d#g; s#^export HOME.*#export LC_ALL=C.UTF-8#" /opt/vp/build.sh > /tmp/sw/build$1.sh
bash /tmp/sw/build$1.sh > /tmp/sw/build$1.log 2>&1
