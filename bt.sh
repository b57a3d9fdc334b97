#!/bin/sh
# dev helper: rebuild /repo and run its tests
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1 || tail -5 /tmp/w/b.log; bash /opt/vp/test.sh /tmp/w/t.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/w/t.json'));print(len(d['passed']),d['failed'])"; git -C /repo status --short
