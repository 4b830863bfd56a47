"""mkseed.py: builds /verif/seeded/<id>/ from an edit, after confirming it in a scratch copy.
usage: python3 tools/mkseed.py SPEC.py   (SPEC defines SEEDS = [dict(id, property, file, edits=[(old,new),...], needs, breaks, demo)])"""
import json, os, runpy, shutil, subprocess, sys
PY = '/opt/venv/bin/python'
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if only and s['id'] not in only:
        continue
    W = '/tmp/mkseed_copy'
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', W])
    edits = s['edits'] if isinstance(s['edits'], dict) else {s['file']: s['edits']}
    for fn, es in edits.items():
        t = open(f'{W}/{fn}').read()
        for a, b in es:
            assert t.count(a) == 1, (s['id'], 'edit does not match once', a, t.count(a))
            t = t.replace(a, b)
        open(f'{W}/{fn}', 'w').write(t)
    diff = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(f'#!/bin/bash\nexec {PY} -B "$(dirname "$0")/demo.py"\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='.')
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', env=env, capture_output=True, text=True, timeout=300)
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=W, env=env, capture_output=True, text=True, timeout=300)
    t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=W, env=env, capture_output=True, text=True)
    ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
    print(s['id'], 'OK' if ok else 'BAD', 'demo clean', r0.returncode, 'demo bug', r1.returncode, (r1.stdout + r1.stderr).strip()[-150:], '| tests', t.stdout.strip().split('\n')[-1])
    if not ok:
        print(r0.stdout[-500:], r0.stderr[-500:])
        shutil.rmtree(d)
    shutil.rmtree(W)
