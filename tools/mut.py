#!/opt/venv/bin/python
"""Development aid: apply textual mutations in scratch copies and see which checks fire.
usage: mut.py CHECK file 'old' 'new' [...more checks comma separated]"""
import os, subprocess, sys, shutil, tempfile
checks, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut_')
try:
    subprocess.run(['cp', '-a', '/repo', d + '/r'], check=True)
    p = os.path.join(d, 'r', f)
    s = open(p, newline='').read()
    old, new = (x.replace('\\n', '\r\n' if '\r\n' in s else '\n') for x in (old, new))
    assert s.count(old) >= 1, 'pattern not found'
    open(p, 'w', newline='').write(s.replace(old, new, 1))
    for c in checks.split(','):
        r = subprocess.run(['/verif/run.py', c], capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': d + '/r'})
        out = [l for l in r.stdout.split('\n') if l.strip()]
        print(c, r.returncode, ' || '.join(x[:160] for x in out[:3]))
finally:
    shutil.rmtree(d)
