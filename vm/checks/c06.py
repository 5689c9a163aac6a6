"""C06: data races and determinism of the threaded q-point loop."""
import json
import os
import re
import time
import numpy as np
from .. import core, load, gen, phon
from . import c05

FLAVOUR = 'plain'
TECHNIQUE = ('ThreadSanitizer build of c/*.c on an instrumented pthread OpenMP runtime with seeded delays, plus repeated '
             'threaded runs on libgomp compared bit for bit with the single-threaded run')
RULE = ('threaded calculation calls: random crystals and stored materials x options (many gamma points, splitting, gradients, '
        'frequencies only) x 2-16 threads x delay seeds; distinct by full case description and delay seed')
ASSUMPTIONS = ['TSan sees accesses made by the extension; LAPACK buffer accesses are represented at the zheevd boundary',
               'OpenMP fork/join/barrier/critical/worksharing semantics are those of vm/native/gompshim.c']
REQUIRED_EVENTS = ['omp-regions', 'omp-threads', 'omp-delays', 'tsan-calls', 'repeat-comparisons', 'monitor-self-test-race-seen']


def cases(tier, seed):
    n, rep, nb = {'quick': (70, 3, 120), 'thorough': (1500, 6, 2500)}[tier]
    rng = core.rng_for(seed, 'c06')
    out = []
    for part, m in (('tsan', n), ('repeat', nb)):
        for i in range(m + len(c05.MATS)):
            name = c05.MATS[i - m] if i >= m else None
            if name and not os.path.exists(os.path.join(load.TESTDATA, 'force_constants', name + '.json')):
                continue
            c = {'kind': 'material' if name else 'random', 'name': name, 'i': 50000 + i, 'part': part,
                 'polar': bool(rng.random() < .75), 'nq': int(rng.integers(4, 40)), 'n_atoms': int(rng.choice([2, 2, 3, 4])),
                 'gammas': bool(rng.random() < .6), 'options': c05.options(rng), 'threads': int(rng.choice([2, 3, 4, 6, 8, 16])),
                 'repeat': rep if not name else 2, 'schedule': int(rng.integers(1, 1 << 20))}
            c['options']['freq_only'] = bool(i % 3 == 0)
            if name:
                c['nq'] = 9
            if i % 2:
                c['options']['reduce_qpts'] = False
            out.append(c)
    for k, c in enumerate(out):
        c['id'] = k
    return out


def tsan_env(env, base):
    env['LD_PRELOAD'] = c05.lib('libtsan.so')
    env['TSAN_OPTIONS'] = (f'log_path={base}.report:exitcode=0:halt_on_error=0:report_signal_unsafe=0:'
                           f'report_thread_leaks=0:ignore_noninstrumented_modules=1:history_size=4')
    env.pop('PYTHONMALLOC', None)
    return env


def blocks(text):
    return re.findall(r'WARNING: ThreadSanitizer:.*?(?=\n=+\n|\Z)', text, re.S)


def run_master(cs, mon, res, deadline):
    import subprocess
    so = load.build_ext(os.path.join(mon.scratch, 'ext_tsan'), 'tsan')
    base_env = c05.environment

    def env(flavour, base):
        e = base_env(flavour, base)
        return tsan_env(e, base) if flavour == 'tsan' else e
    c05.environment = env
    selftest(mon)
    byid = {c['id']: c for c in cs}
    t = [c for c in cs if c['part'] == 'tsan']
    recs, fins, bases = c05.run_flavour(so, 'tsan', t, mon, res, mon.seed, deadline, nw=5)
    for f in fins:
        for k, v in f.items():
            mon.event(k, v)
    for i, r in recs.items():
        mon.case = byid[i]
        mon.event('tsan-calls', r['c_calls'])
        if r['outcome'] != 'ok':
            mon.fail(f'unexpected-exception:{r["outcome"]}', r.get('message', ''))
        mon.evaluated(byid[i], nontrivial=r['c_calls'] > 0)
        res['done'] += 1
    seen = {}
    for b in bases:
        for blk in blocks(c05.reports(b)):
            frames = re.findall(r'#\d+ (\w+) [^\n]*/c/(\w+\.c)', blk)
            if '/c/' not in blk and 'zheevd' not in blk:
                mon.event('reports-outside-the-extension')
                continue
            kind = re.search(r'ThreadSanitizer: ([\w ]+)', blk).group(1).strip()
            key = f"tsan:{kind} in {frames[0][0] if frames else '?'}"
            if key not in seen:
                seen[key] = 1
                first = json.load(open(b + '.json'))['cases']
                mon.case = first[0]
                mon.fail(key, ' / '.join(l.strip() for l in blk.split('\n')[1:4]), report=blk[:1500])
    # bit-for-bit determinism of the ordinary build, in parallel children
    rest = [c for c in cs if c['part'] == 'repeat']
    pids = []
    nw = 4
    for w in range(nw):
        outf = os.path.join(mon.scratch, f'repeat{w}.json')
        pid = os.fork()
        if pid == 0:
            try:
                repeat_worker(rest[w::nw], mon, outf, deadline)
                os._exit(0)
            except BaseException:
                import traceback
                open(outf + '.err', 'w').write(traceback.format_exc())
                os._exit(1)
        pids.append((pid, outf))
    for pid, outf in pids:
        _, st = os.waitpid(pid, 0)
        if st:
            err = open(outf + '.err').read() if os.path.exists(outf + '.err') else ''
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) not in (9, 15):
                mon.case = None
                mon.fail(f'crash:signal{os.WTERMSIG(st)}', 'threaded run crashed')
            else:
                res['harness_errors'].append('repeat worker: ' + err[-1500:])
            continue
        for r in json.load(open(outf)):
            mon.case = byid[r['id']]
            res['done'] += 1
            mon.event('repeat-comparisons', r['compared'])
            for name, what in r['bad']:
                mon.fail('nondeterministic:' + name, what)
            mon.evals += r['compared']
            mon.evaluated(byid[r['id']])
    mon.case = None
    for c in (t + rest)[:3]:
        mon.sample(c)


def repeat_worker(cs, mon, outf, deadline):
    from ..native import drive
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    load.load(mon.so)
    out = []
    for spec in cs:
        if time.time() > deadline:
            break
        rng, d, q, kw = drive.make(spec, mon.seed)
        # more q-points than the sanitizer run, so that threads overlap
        k = max(1, 60//max(1, len(q)))
        q = np.concatenate([q]*k) if spec['options']['reduce_qpts'] is False else q
        if kw.get('weights') is not None:
            kw['weights'] = np.resize(kw['weights'], len(q))
        fc = gen.make_fc(d)
        want = drive.digest(drive.call(fc, spec, q, kw, use_c=True, n_threads=1))
        bad, n = [], 0
        for r in range(5):
            nt = [spec['threads'], 2, 16, 5, spec['threads']][r]
            obj = fc if r % 2 else gen.make_fc(d)
            got = drive.digest(drive.call(obj, spec, q, kw, use_c=True, n_threads=nt))
            for key in want:
                n += 1
                a, b = np.asarray(want[key]), np.asarray(got[key])
                if a.shape != b.shape or a.tobytes() != b.tobytes():
                    bad.append((key, f'run {r} with {nt} threads differs from the single-threaded run'))
        out.append({'id': spec['id'], 'compared': n, 'bad': bad[:3]})
    json.dump(out, open(outf, 'w'))


SELF = r'''
#include <omp.h>
int shared;
int run(int n) { int i; omp_set_num_threads(4);
#pragma omp parallel
{
#pragma omp for
  for (i = 0; i < n; i++) { shared += i; }
}
return shared; }
int clean(int n) { int s = 0, i; omp_set_num_threads(4);
#pragma omp parallel for reduction(+:s)
  for (i = 0; i < n; i++) s += i;
#pragma omp parallel for schedule(dynamic,2)
  for (i = 0; i < n; i++) {
#pragma omp critical
    s += i; }
return s; }
'''


def selftest(mon):
    """The race monitor must see a planted race and stay quiet on a clean loop."""
    import subprocess
    d = os.path.join(mon.scratch, 'selftest')
    os.makedirs(d, exist_ok=True)
    open(d + '/s.c', 'w').write(SELF)
    subprocess.run(['gcc', '-shared', '-fPIC', '-g', '-O1', '-fopenmp', '-fsanitize=thread', '-c', d + '/s.c', '-o', d + '/s.o'], check=True)
    subprocess.run(['gcc', '-shared', '-o', d + '/s.so', d + '/s.o', os.path.join(mon.scratch, 'ext_tsan', 'vm_gomp.o'),
                    '-fsanitize=thread', '-lpthread'], check=True)
    for fn in ('run', 'clean'):
        env = tsan_env(dict(os.environ), d + '/' + fn)
        subprocess.run([*c05.no_aslr('tsan'), '/opt/venv/bin/python', '-c', f'import ctypes; ctypes.CDLL("{d}/s.so").{fn}(40)'], env=env, timeout=100,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        b = blocks(c05.reports(d + '/' + fn))
        if fn == 'run' and any('data race' in x for x in b):
            mon.event('monitor-self-test-race-seen')
        if fn == 'clean' and b:
            raise RuntimeError('race monitor reports a correct OpenMP loop: ' + b[0][:800])
