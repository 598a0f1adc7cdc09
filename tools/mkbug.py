#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes seeded/<id>/ from a spec file defining id, property, needs, breaks, edits=[(file, old, new)], demo (C text), np, cc_extra"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def write(id, property, needs, breaks, edits, demo, np=1, extra='', sh=None):
    w = '/tmp/bugrepo'
    if not os.path.exists(w):
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    subprocess.check_call('cd %s && git checkout -q -f . && git pull -q' % w, shell=True)
    for f, old, new in edits:
        p = w + '/' + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '-f', '.'])
    open(d + '/demo.c', 'w').write(demo)
    shutil.copy(V + '/tools/demo/common.h', d)
    s = sh or open(V + '/tools/demo/demo.sh').read().replace('${NP:-1}', str(np)).replace('"$here/demo.c"', '"$here/demo.c" ' + extra if extra else '"$here/demo.c"')
    open(d + '/demo.sh', 'w').write(s)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': property, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)
