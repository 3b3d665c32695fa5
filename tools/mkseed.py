"""mkseed.py ID PROPERTY NEEDS BREAKS: takes the uncommitted change of /repo as planted bug ID.

Expects /tmp/demo.c; builds, runs the stable tests and the demonstration with and without the change,
runs the property's check, and restores /repo.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ID, prop, needs, breaks = sys.argv[1:5]
flags = sys.argv[5] if len(sys.argv) > 5 else ''
d = os.path.join(V, 'seeded', ID); os.makedirs(d, exist_ok=True)
diff = sh('git -C /repo diff').stdout
if not diff.strip(): sys.exit('no change in /repo')
open(d + '/patch.diff', 'w').write(diff)
if os.path.exists('/tmp/demo.c'):
    shutil.copy('/tmp/demo.c', d + '/demo.c'); shutil.copy(V + '/tools/demo.h', d + '/demo.h')
    open(d + '/demo.sh', 'w').write(open(V + '/tools/demo.sh').read().replace('DEMOFLAGS', flags))
else:
    for f in os.listdir('/tmp/demo'): shutil.copy('/tmp/demo/' + f, d)
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
ok = True
try:
    b = sh('bash /opt/vp/build.sh')
    if b.returncode: print('BUILD FAILS', b.stdout[-800:], b.stderr[-800:]); ok = False
    else:
        sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        p = set(json.load(open('/tmp/seed_out.json'))['passed'])
        miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in p]
        if miss: print('TESTS FAIL', len(miss), miss[:5]); ok = False
        r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo with bug:', r.returncode, (r.stdout + r.stderr)[-300:].strip())
        if r.returncode == 0: ok = False
        r = sh('python3 %s/check.py %s' % (V, prop), cwd=V)
        print('check:', r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:3], r.stdout[-300:] if r.returncode != 1 else '')
finally:
    sh('git -C /repo checkout -- .')
b = sh('bash /opt/vp/build.sh')
r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo without:', r.returncode, (r.stdout + r.stderr)[-300:].strip())
if r.returncode != 0: ok = False
print('KEPT' if ok else 'INVALID')
if not ok: shutil.rmtree(d)
