#!/usr/bin/env python3
"""Development aid: build /repo, run its tests, compare with the baseline."""
import json,subprocess,sys
r=subprocess.run('bash /opt/vp/build.sh > /tmp/build.log 2>&1',shell=True).returncode
print('build',r)
subprocess.run('bash /opt/vp/test.sh /tmp/t.json > /tmp/test.log 2>&1',shell=True)
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
bad=[x for x in b['stable'] if x not in t['passed']]
print('stable failing:',bad)
sys.exit(1 if r or bad else 0)
