#!/usr/bin/env python3
"""Build seeded/<id> from an edit list: copies /repo, edits, writes the patch, runs the demo on both trees.
usage: mkseed.py SEEDS.py [id...]   where SEEDS.py defines S = {id: dict(prop, edits=[(file, old, new)], demo, needs, breaks, tests='flavio/physics/...')}"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = '/tmp/seedwork'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/tmp/mpl', OMP_NUM_THREADS='1')
for sid, s in ns['S'].items():
    if len(sys.argv) > 2 and sid not in sys.argv[2:]:
        continue
    d = os.path.join(HERE, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write('#!/bin/sh\n# exit 0: property holds in the tree in the working directory\nD=$(cd "$(dirname "$0")" && pwd)\n'
                                    'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    w = W + '.' + sid
    subprocess.run(['rm', '-rf', w]); subprocess.run(['cp', '-a', '/repo', w])
    for f, old, new in s['edits']:
        p = os.path.join(w, f)
        t = open(p, encoding='utf-8').read()
        n = t.count(old)
        if n != 1:
            print(sid, 'EDIT matches', n, 'times:', old[:60]); break
        open(p, 'w', encoding='utf-8').write(t.replace(old, new))
    else:
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        a = subprocess.run(['sh', d + '/demo.sh'], cwd='/repo', env=ENV, capture_output=True, text=True)
        b = subprocess.run(['sh', d + '/demo.sh'], cwd=w, env=ENV, capture_output=True, text=True)
        print(sid, s['prop'], 'demo unchanged rc=%d patched rc=%d' % (a.returncode, b.returncode), (a.stderr[-300:] if a.returncode else ''), b.stderr.strip().splitlines()[-1:] )
        if s.get('tests'):
            t = subprocess.run('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 ' + s['tests'] + ' 2>&1 | tail -3', shell=True, cwd=w, env=dict(ENV, PYTHONPATH=w), capture_output=True, text=True)
            print('   tests:', t.stdout.strip().splitlines()[-1:])
        c = subprocess.run(['/opt/venv/bin/python', 'check.py', s['prop'], '--quick'], cwd=HERE, env=dict(ENV, SA_REPO=w), capture_output=True, text=True)
        print('   check rc=%d' % c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l or l.startswith(' ')][:4], c.stderr[-200:])
    subprocess.run(['rm', '-rf', w])
