#!/opt/venv/bin/python
"""Development aid: verify a planted bug in a scratch copy and record it under seeded/.
stdin: Python assigning ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (program text) and CHECKS."""
import json, os, subprocess, sys, shutil, tempfile
ns = {}
exec(sys.stdin.read(), ns)
V = '/verif/seeded/' + ns['ID']
PY = '/opt/venv/bin/python'
tmp = tempfile.mkdtemp(prefix='plant_')
env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'agg', 'PYTHONHASHSEED': '0'}
env.pop('VERIF_REPO', None)


def demo(pp):
    e = {**env, 'PYTHONPATH': pp} if pp else env
    r = subprocess.run(['bash', os.path.join(tmp, 'demo', 'demo.sh')], cwd=pp or '/repo', env=e, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]


try:
    R = tmp + '/r'
    subprocess.run(['cp', '-a', '/repo', R], check=True)
    for f, old, new in ns['EDITS']:
        p = os.path.join(R, f)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w', newline='').write(s.replace(old, new))
    patch = subprocess.run(['git', '-C', R, 'diff', '--binary'], capture_output=True, check=True).stdout
    blame = subprocess.run(f"git -C /repo apply --check -", shell=True, input=patch)
    assert blame.returncode == 0
    os.mkdir(tmp + '/demo')
    open(tmp + '/demo/demo.py', 'w').write(ns['DEMO'].strip() + '\n')
    open(tmp + '/demo/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    if any(f.startswith('c/') for f, _, _ in ns['EDITS']):
        subprocess.run(f'{PY} /verif/tools/bext.py {R}', shell=True, cwd=R, check=True)
    a, b = demo(None), demo(R)
    print('demo clean', a[0], '| patched', b[0], '|', b[1][-200:].replace('\n', ' '))
    assert a[0] == 0 and b[0] != 0, a
    if '--notest' not in sys.argv:
        t = subprocess.run(f'{PY} -m pytest -q -p no:cacheprovider --import-mode=append -n 8 --timeout=300 --continue-on-collection-errors '
                           f'-o junit_family=xunit2 --basetemp={tmp}/t --junitxml={tmp}/junit.xml . >/dev/null 2>&1; '
                           f'{PY} /opt/vp/results.py {tmp}/o.json junit:{tmp}/junit.xml', shell=True, cwd=R + '/tests_and_analysis/test',
                           env={**env, 'PYTHONPATH': R, 'MPLCONFIGDIR': tmp + '/mpl'}, capture_output=True, text=True)
        s = open(tmp + '/o.json').read().replace(R, '/repo')
        open(tmp + '/o.json', 'w').write(s)
        c = subprocess.run([PY, '/verif/tools/cmpbase.py', tmp + '/o.json'], capture_output=True, text=True).stdout
        print('tests:', c.strip()[-300:])
        assert ' 0 missing' in c
    os.makedirs(V, exist_ok=True)
    open(V + '/patch.diff', 'wb').write(patch)
    for x in ('demo.py', 'demo.sh'):
        shutil.copy(tmp + '/demo/' + x, V)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(V + '/meta.json', 'w'), indent=1)
    for k in ns.get('CHECKS', [ns['PROP']]):
        r = subprocess.run(['/verif/run.py', k], capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': R})
        out = [x for x in r.stdout.split('\n') if x.strip()]
        print(k, r.returncode, ' || '.join(x[:160] for x in out[:2]))
finally:
    shutil.rmtree(tmp)
