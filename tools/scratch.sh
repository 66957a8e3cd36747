#!/bin/bash
# scratch.sh: a clone of /repo with its own build and test scripts under /tmp/pl, brought up to /repo's HEAD
mkdir -p /tmp/pl; [ -d /tmp/pl/repo ] || git clone -q /repo /tmp/pl/repo
git -C /tmp/pl/repo fetch -q origin && git -C /tmp/pl/repo checkout -q -- . && git -C /tmp/pl/repo reset -q --hard origin/HEAD
if [ ! -d /tmp/pl/vp ]; then cp -r /opt/vp /tmp/pl/vp; sed -i -E 's#/repo\b#/tmp/pl/repo#g; s#/opt/vp#/tmp/pl/vp#g' /tmp/pl/vp/*.sh /tmp/pl/vp/*.py /tmp/pl/vp/config/*.js*; fi
