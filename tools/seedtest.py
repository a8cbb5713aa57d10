"""seedtest.py ID [--check]: applies seeded/ID/patch.diff to /repo, builds, runs the stable tests and the demo, undoes it; the demo also
on the clean tree.  With --check, also runs the registered quick check of the property on the patched tree.  Developer tool only."""
import json, os, subprocess, sys, time
V = '/verif'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def one(sid, check):
    d = '%s/seeded/%s' % (V, sid)
    meta = json.load(open(d + '/meta.json'))
    assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(), 'repo dirty'
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        print(sid, 'PATCH DOES NOT APPLY', r.stdout); return
    res = {}
    try:
        b = sh('bash /opt/vp/build.sh')
        res['build'] = b.returncode == 0
        if not res['build']:
            print(b.stdout[-1500:])
        sh('bash /opt/vp/test.sh /tmp/w/t.json')
        t = json.load(open('/tmp/w/t.json'))
        ok = {x for x in t.get('passed', [])}
        res['tests'] = not (base - ok)
        if base - ok: print('failing:', sorted(base - ok)[:5])
        m = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
        res['demo_patched'] = m.returncode
        if check:
            man = json.load(open(V + '/MANIFEST.json'))
            for c in man['checks']:
                if c['property'] == meta['property']:
                    t0 = time.time()
                    k = sh(c['quick_cmd'], cwd=V)
                    res['check'] = (k.returncode, 'VIOLATION property=%s' % meta['property'] in k.stdout, round(time.time() - t0))
                    if check == 'v': print(k.stdout[-2500:])
    finally:
        sh('git -C /repo checkout -- .')
    if check != 'only':
        sh('bash /opt/vp/build.sh')
        res['demo_clean'] = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo').returncode
    print(sid, meta['property'], res, flush=True)
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    one(i, 'v' if '-v' in sys.argv else 'yes' if '--check' in sys.argv else '')
