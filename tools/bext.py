"""Development aid: build the C extension of a scratch copy in place."""
import glob, os, shutil, sys, tempfile
os.environ['VERIF_REPO'] = R = sys.argv[1]
sys.path.insert(0, '/verif')
from vm import load
d = tempfile.mkdtemp()
so = load.build_ext(d)
for x in glob.glob(R + '/euphonic/_euphonic*.so'):
    os.remove(x)
shutil.copy(so, R + '/euphonic/')
shutil.rmtree(d)
