#!/usr/bin/env python3
"""Runs the checks against the planted bugs: tools/seeds.py [ID...]   (each on its own scratch copy of the sources)"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    pid = json.load(open(d + '/meta.json'))['property']
    t = '/tmp/seedrepo-%d' % os.getpid()
    shutil.rmtree(t, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
    if subprocess.run(['git', '-C', t, 'apply', d + '/patch.diff']).returncode: print(i, 'DOES NOT APPLY'); continue
    s = time.time()
    r = subprocess.run([sys.executable, V + '/bin/check.py', pid], env=dict(os.environ, SX_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION property=' + pid)]
    print('%-30s %s %s rc=%d %.0fs %s' % (i, pid, 'caught' if v and r.returncode == 1 else 'MISSED', r.returncode, time.time() - s, r.stdout.strip()[-300:] if not v else v[0][:80]), flush=True)
    shutil.rmtree(t, ignore_errors=True)
