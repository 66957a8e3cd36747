#!/bin/bash
# brings repairs committed in the clone /tmp/w into /repo, rebuilds, runs the stable tests, refreshes lists
cd /verif
git -C /repo fetch -q /tmp/w HEAD && git -C /repo merge -q --ff-only FETCH_HEAD && bash /opt/vp/build.sh >/tmp/b.log 2>&1; echo build $?
bash tools/basetest.sh | tail -2; python3 tools/fixed.py; python3 tools/manifest.py; git -C /repo status --short | head -3
