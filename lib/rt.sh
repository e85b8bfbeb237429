#!/bin/bash
# developer helper: build + stable tests of /repo
o=$(mktemp -d) && cd /repo && bash /opt/vp/test.sh "$o/o.json" > "$o/t.log" 2>&1; tail -1 "$o/t.log"
cp "$o/t.log" /tmp/t.log; rm -r -- "$o"
