#!/usr/bin/env python3
"""replay.py FILE [-v]: replays a minimised run against the current /repo. Exit 1 if it still violates."""
import json, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = sys.argv[1]
m = re.search(r'build=(\w+)', open(f).readline())
fl = m.group(1) if m else 'plain'
if subprocess.run(['bash', os.path.join(VERIF, 'sim/build.sh'), fl]).returncode:
    sys.exit(2)
b = os.path.join(VERIF, 'build', fl, 'sim')
env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1')
if '-v' in sys.argv:
    subprocess.run([b, 'replay', f, '-v'], env=env)
o = subprocess.run([b, 'replay', f], env=env, stdout=subprocess.PIPE, text=True).stdout
print(o, end='')
r = [json.loads(l[7:]) for l in o.splitlines() if l.startswith('RESULT ')]
sys.exit(2 if not r else 1 if r[0]['viol'] else 0)
