#!/bin/bash
# tests.sh [DIR]: build + stable tests of /repo or of a scratch copy DIR; prints what fails
repo=${1:-/repo}
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
for f in build test; do sed "s#/repo#$repo#g" /opt/vp/$f.sh > $t/$f.sh; done
bash $t/build.sh >$t/blog 2>&1 || { echo "BUILD FAILED"; tail -5 $t/blog; exit 1; }
bash $t/test.sh $t/out.json >$t/tlog 2>&1
python3 - $t/out.json <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(r['passed']); miss=[x for x in b['stable'] if x not in p]
print('stable %d failing %d' % (len(b['stable']), len(miss)))
for m in miss: print('  FAIL', m)
sys.exit(1 if miss else 0)
P
