"""mkseed.py: helper to write one seeded bug: mk(id, property, [(file, old, new)], demo, needs, breaks)"""
import json, os, shutil, subprocess, tempfile
def mk(sid, prop, edits, demo, needs, breaks):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir='/tmp')
    diff = ''
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (t, t), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p, encoding='latin-1', newline='').read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, 'w', encoding='latin-1', newline='').write(s.replace(old, new))
    out = subprocess.run(['git', 'diff'], cwd=t, stdout=subprocess.PIPE, check=True).stdout
    shutil.rmtree(t)
    open(d + '/patch.diff', 'wb').write(out)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: behaves; nonzero: broken\nB=/repo/_build/src\nexport JBOFIHE_DICTIONARY=$B/smujmaji.dat LC_ALL=C\n' + demo.strip() + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
