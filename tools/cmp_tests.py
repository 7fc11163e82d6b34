#!/usr/bin/env python3
"""Runs /repo's tests and lists baseline tests that no longer pass."""
import json, subprocess, sys
subprocess.run(['bash','/opt/vp/build.sh'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
subprocess.run(['bash','/opt/vp/test.sh','/tmp/t.json'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
base=b.get('stable') or b.get('passed') or b.get('tests')
ok=set(t['passed'])
print('missing:',[x for x in base if x not in ok], 'of', len(base))
