"""setup_cmd: proves that the framework loads and that the toolchain it needs works."""
import ast, glob, importlib, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
for f in sorted(glob.glob(os.path.join(V, 'vm', '**', '*.py'), recursive=True)):
    ast.parse(open(f).read(), f)
from vm import core, gen, ref, load
for tool in ('gcc',):
    subprocess.run([tool, '--version'], check=True, stdout=subprocess.DEVNULL)
print('framework ok;', len(glob.glob(os.path.join(V, 'vm', 'checks', 'c[0-9]*.py'))), 'checks')
