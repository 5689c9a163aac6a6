"""Import pace-neutrons/Euphonic from the working tree under test.

The Python sources are imported straight from $VERIF_REPO (default /repo); the
C extension is compiled here from $VERIF_REPO/c into a scratch directory and
installed as ``euphonic._euphonic``, so a stale .so in the tree is never used.
"""
import glob
import importlib
import importlib.util
import os
import subprocess
import sys
import sysconfig

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
PKG = os.path.join(REPO, 'euphonic')
TESTDATA = os.path.join(REPO, 'tests_and_analysis', 'test', 'data')


class BuildError(RuntimeError):
    pass


def c_sources():
    return sorted(glob.glob(os.path.join(REPO, 'c', '*.c')))


NATIVE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'native')
SAN = ['-fno-omit-frame-pointer']
FLAVOURS = {
    'plain': ['-O2'],
    # memory errors and undefined behaviour
    'asan': ['-O1', *SAN, '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fsanitize=float-cast-overflow'],
    # data races
    'tsan': ['-O1', *SAN, '-fsanitize=thread'],
    # counted heap; stack and heap garbage is zero in one build, a pattern in the other
    'track0': ['-O0', '-ftrivial-auto-var-init=zero', '-include', os.path.join(NATIVE, 'track.h')],
    # counted heap and LAPACK stand-in, both able to fail on demand
    'fault': ['-O1', '-include', os.path.join(NATIVE, 'track.h')],
    'trackp': ['-O0', '-ftrivial-auto-var-init=pattern', '-include', os.path.join(NATIVE, 'track.h')],
}


def build_ext(outdir, flavour='plain'):
    """Compile the C extension; returns path of the shared object."""
    import numpy as np
    os.makedirs(outdir, exist_ok=True)
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    so = os.path.join(outdir, f'_euphonic{suffix}')
    inc = ['-I' + np.get_include(), '-I' + sysconfig.get_path('include'),
           '-I' + os.path.join(REPO, 'c')]
    # no -fwrapv: signed overflow must be visible to the sanitizer
    common = ['-fPIC', '-fopenmp', '-g', '-w', '-DNDEBUG']
    flags = FLAVOURS[flavour]
    objs, procs = [], []

    def compile_(src, obj, args):
        cmd = ['gcc', '-c', src, '-o', obj, *args]
        objs.append(obj)
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for src in c_sources():
        compile_(src, os.path.join(outdir, os.path.basename(src)[:-2] + '.o'), [*common, *flags, *inc])
    san = [f for f in flags if f.startswith('-fsanitize=')]
    if flavour == 'tsan':
        # A pthread-only OpenMP runtime, so that every fork/join edge is visible
        # to ThreadSanitizer.
        compile_(os.path.join(NATIVE, 'gompshim.c'), os.path.join(outdir, 'vm_gomp.o'), ['-fPIC', '-g', '-w', *flags])
    if flavour in ('asan', 'tsan'):
        compile_(os.path.join(NATIVE, 'zheevd_watch.c'), os.path.join(outdir, 'vm_zheevd.o'),
                 ['-fPIC', '-g', '-w', *flags, '-DVM_' + flavour.upper()])
    if flavour == 'fault':
        compile_(os.path.join(NATIVE, 'zheevd_fault.c'), os.path.join(outdir, 'vm_zheevd.o'), ['-fPIC', '-g', '-w', '-O1'])
    if flavour.startswith('track') or flavour == 'fault':
        compile_(os.path.join(NATIVE, 'track.c'), os.path.join(outdir, 'vm_track.o'), ['-fPIC', '-g', '-w', '-O1'])
    for cmd, p in procs:
        out, _ = p.communicate(timeout=300)
        if p.returncode:
            raise BuildError(' '.join(cmd) + '\n' + out.decode()[-2000:])
    link = ['gcc', '-shared', '-o', so, *objs, '-lm', *san]
    link += ['-lpthread'] if flavour == 'tsan' else ['-fopenmp']
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(' '.join(link) + '\n' + r.stdout.decode()[-2000:])
    return so


def load(so=None):
    """Import euphonic from REPO, with the given C extension preloaded."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import euphonic
    if os.path.realpath(os.path.dirname(euphonic.__file__)) != PKG:
        raise BuildError(f'euphonic imported from {euphonic.__file__}')
    if so is not None:
        spec = importlib.util.spec_from_file_location('euphonic._euphonic', so)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules['euphonic._euphonic'] = mod
        euphonic._euphonic = mod
    return euphonic


def watch_zheevd(lib):
    """Route the zheevd pointer that scipy hands out through vm_zheevd of lib (before its first use)."""
    import ctypes
    import scipy.linalg.cython_lapack as cl
    api = ctypes.pythonapi
    api.PyCapsule_GetName.restype = ctypes.c_void_p
    api.PyCapsule_GetName.argtypes = [ctypes.py_object]
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_void_p]
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
    cap = cl.__pyx_capi__['zheevd']
    name = api.PyCapsule_GetName(cap)
    ptr = api.PyCapsule_GetPointer(cap, name)
    lib.vm_zheevd_set.argtypes = [ctypes.c_void_p]
    lib.vm_zheevd_set(ptr)
    cl.__pyx_capi__['zheevd'] = api.PyCapsule_New(ctypes.cast(lib.vm_zheevd, ctypes.c_void_p).value, name, None)
    return cap
