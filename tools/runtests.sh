#!/bin/bash
# build + stable tests of /repo; prints the stable tests that did not pass
(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/out.json) >/tmp/t.log 2>&1
python3 "$(dirname "$0")/stable.py" /tmp/out.json
