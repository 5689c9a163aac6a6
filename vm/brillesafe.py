"""Keep brille's own grid construction out of trouble.

brille 0.8 (a dependency, not under test) races in BZTrellis construction and sorting
when its OpenMP runtime has more than one thread, which it acquires after any call
to ir_interpolate_at(threads > 1): the process may die with SIGSEGV or two identical
grids may differ.  Building grids single-threaded avoids both; interpolation itself
stays parallel.
"""
import ctypes
import glob
import os


def single():
    import brille
    pat = os.path.join(os.path.dirname(os.path.dirname(brille.__file__)), 'brille.libs', 'libgomp*')
    for p in glob.glob(pat) or ['libgomp.so.1']:
        try:
            ctypes.CDLL(p).omp_set_num_threads(1)
        except OSError:
            pass


def install():
    from euphonic.brille import BrilleInterpolator
    if getattr(BrilleInterpolator, '_verif_safe', False):
        return
    orig = BrilleInterpolator.from_force_constants.__func__

    def from_force_constants(cls, *a, **k):
        single()
        return orig(cls, *a, **k)
    BrilleInterpolator.from_force_constants = classmethod(from_force_constants)
    BrilleInterpolator._verif_safe = True
