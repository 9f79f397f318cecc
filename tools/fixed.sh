#!/bin/bash
# appends a fixed: line for each "fix:" commit named in tools/fixmap (hash property)
cd "$(dirname "$0")/.."; grep -v '^fixed:' known-findings.txt > .kf
while read h p; do echo "fixed: property=$p $(git -C /repo rev-parse --short=10 $h) $(git -C /repo log -1 --format=%s $h | sed 's/^fix: //')" >> .kf; done < tools/fixmap
mv .kf known-findings.txt
git -C /repo log --format='%h %s' | grep ' fix:' | while read h s; do grep -q "$(git -C /repo rev-parse --short=10 $h)" known-findings.txt || echo "UNMAPPED $h $s"; done
