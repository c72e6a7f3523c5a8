#!/usr/bin/env python3
"""Plants one bug: python3 tools/plant.py SPEC...   (SPEC: a directory with spec.py and demo.cpp, e.g. /tmp/plants/x)
spec.py defines PROPERTY, EDITS=[(file, old, new)...], NEEDS, BREAKS.  The bug is kept in /verif/seeded/<name> only if the original tree passes the
demonstration, the changed tree builds, passes the stable tests and fails the demonstration."""
import json, os, shutil, subprocess, sys, runpy, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = os.environ.get('PLANT_TREE', '/tmp/pr')
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def inside(cmd):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (PR, cmd))
def one(spec):
    name = os.path.basename(os.path.normpath(spec))
    s = runpy.run_path(os.path.join(spec, 'spec.py'))
    if not os.path.isdir(PR):
        sh('cp -a /repo %s' % PR)
    sh('git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (PR, PR, PR))
    tmp = '/tmp/plantwork-' + name
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    for f in os.listdir(spec):
        if f not in ('spec.py', '__pycache__'):
            shutil.copy(os.path.join(spec, f), tmp)
    cpp = os.path.join(tmp, 'demo.cpp')
    t = open(cpp).read() if os.path.exists(cpp) else ''
    if 'toy.hpp"' in t or 'opt.hpp"' in t:
        for f in ('harness/toy.hpp', 'harness/opt.hpp', 'tools/demo/common.hpp', 'tools/demo/kit.hpp'): shutil.copy(os.path.join(V, f), tmp)
    if '"kit.hpp"' in t: shutil.copy(os.path.join(V, 'tools/demo/kit.hpp'), tmp)
    if '"program.hpp"' in t:
        shutil.copy(os.path.join(V, 'tools/demo/program.hpp'), tmp); shutil.copy(os.path.join(V, 'tools/demo/program.sh'), os.path.join(tmp, 'demo.sh'))
    if not os.path.exists(os.path.join(tmp, 'demo.sh')):
        shutil.copy(os.path.join(V, 'tools/demo/build.sh' if t else 'tools/demo/python.sh'), os.path.join(tmp, 'demo.sh'))
    if t: os.makedirs(tmp + '/stub/nlohmann'); shutil.copy(os.path.join(V, 'harness/stubs/nlohmann/json-schema.hpp'), tmp + '/stub/nlohmann/'); shutil.copy(os.path.join(V, 'harness/stubs/IpIpoptApplication.hpp'), tmp + '/stub/')
    os.chmod(tmp + '/demo.sh', 0o755)
    r = inside('bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % tmp)
    if r.returncode:
        return name, 'demo fails on the unchanged tree (%d):\n%s' % (r.returncode, r.stdout[-3000:])
    for f, a, b in s['EDITS']:
        p = os.path.join(PR, f); t = open(p).read()
        if t.count(a) != 1:
            return name, 'edit of %s matches %d times: %s' % (f, t.count(a), a[:60])
        base = sh('git -C %s show $(git -C %s rev-list --max-parents=0 HEAD):%s' % (PR, PR, f)).stdout
        old = [l for l in a.split('\n')]; new = b.split('\n')
        open(p, 'w').write(t.replace(a, b))
    d = sh('git -C %s diff' % PR).stdout
    for l in d.split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip():
            if not any(l[1:] in sh('git -C %s show $(git -C %s rev-list --max-parents=0 HEAD):%s' % (PR, PR, f)).stdout.split('\n') for f, _, _ in s['EDITS']):
                return name, 'changes a line of my own: ' + l
    open(tmp + '/patch.diff', 'w').write(d)
    r = inside('bash /opt/vp/build.sh')
    if r.returncode: return name, 'does not build:\n' + r.stdout[-2500:]
    inside('bash /opt/vp/test.sh /tmp/plant-%s.json' % name)
    b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/plant-%s.json' % name)); os.remove('/tmp/plant-%s.json' % name)
    miss = sorted(set(b['stable']) - set(t['passed']))
    if miss: return name, 'tests notice: %s' % miss
    r = inside('bash %s/demo.sh' % tmp)
    if r.returncode in (0, 3): return name, 'demo returns %d with the patch:\n%s' % (r.returncode, r.stdout[-2500:])
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(tmp + '/meta.json', 'w'), indent=1)
    dst = os.path.join(V, 'seeded', name)
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(tmp, dst)
    shutil.rmtree(tmp)
    return name, 'KEPT: ' + r.stdout.strip().split('\n')[0][:150]
for sp in sys.argv[1:]:
    n, m = one(sp); print(n, m, flush=True)
sh('git -C %s checkout -q -- .' % PR)
