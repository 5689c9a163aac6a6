"""C05: memory safety, undefined behaviour, uninitialised use and leaks in the C extension."""
import json
import os
import re
import subprocess
import sys
import time
import numpy as np
from .. import core, load

FLAVOUR = None
TECHNIQUE = ('AddressSanitizer+UBSan build of c/*.c with a zheevd buffer monitor, plus counted-heap builds run with zero '
             'and pattern-filled garbage memory and compared bit for bit')
RULE = ('calculation calls over random crystals (1-6 atoms, 1-12 cells) and stored materials, every option, 0-14 q-points, 1-16 '
        'threads, and single corruptions of the q-points and of the constructor data; distinct by full case description')
ASSUMPTIONS = ['workspace contents passed to LAPACK may be any finite value but not NaN (an OpenBLAS limitation)',
               'LAPACK and numpy internals are not instrumented; the buffers handed to zheevd are checked at the boundary',
               'red-zone detection: an overflow that lands inside another live block is not seen by ASan '
               '(the two-garbage comparison still sees reads of foreign data)',
               'element counts above 2^31 (int overflow of q*dmat_elems) are out of reach of a test machine']
REQUIRED_EVENTS = ['asan-calls', 'refused-inputs', 'uninit-comparisons', 'heap-blocks-tracked', 'refcounts-watched']
MATS = ['NaCl_QE_force_constants', 'LZO_force_constants', 'quartz_force_constants', 'Si2-sc-skew_force_constants',
        'CaHgO2_force_constants', 'graphite_force_constants', 'NaCl_prim_force_constants']
LEVEL = 'exploration'


def options(rng):
    return {'asr': [None, 'reciprocal', 'realspace'][int(rng.integers(3))], 'splitting': bool(rng.random() < .7),
            'insert_gamma': bool(rng.random() < .4), 'reduce_qpts': bool(rng.random() < .5),
            'dipole': bool(rng.random() < .85), 'return_mode_gradients': bool(rng.random() < .5),
            'weights': bool(rng.random() < .3), 'freq_only': bool(rng.random() < .35)}


def cases(tier, seed):
    from ..native import drive
    n, nb, nt = {'quick': (150, 3, 90), 'thorough': (4000, 60, 2500)}[tier]
    rng = core.rng_for(seed, 'c05')
    out = []

    def base(kind, i, **k):
        return {'kind': kind, 'i': i, 'polar': bool(rng.random() < .7), 'nq': int(rng.integers(1, 13)),
                'n_atoms': int(rng.choice([1, 2, 2, 3, 4, 6])), 'gammas': bool(rng.random() < .5),
                'options': options(rng), 'threads': int(rng.choice([1, 1, 2, 3, 4, 8, 16])), **k}
    for part, m in (('asan', n), ('track', nt)):
        for i in range(m):
            c = base('random', i, part=part, again=bool(rng.random() < .2), blocks=i % 9 == 0)
            if c['polar']:
                c['n_atoms'] = max(2, c['n_atoms'])
            out.append(c)
        for i, name in enumerate(MATS):
            if os.path.exists(os.path.join(load.TESTDATA, 'force_constants', name + '.json')):
                out.append({**base('material', i, part=part), 'name': name, 'nq': 4})
    for r in range(nb):
        for i, b in enumerate(drive.BAD + drive.BADM):
            c = base('random', 10000 + 100*r + i, part='asan', bad=b, again=bool(rng.random() < .3))
            c['n_atoms'] = int(rng.integers(2, 5))
            if r % 2 == 0:
                c['options']['reduce_qpts'] = False
            if r % 3 == 0:
                c['polar'] = True
            out.append(c)
    for k, c in enumerate(out):
        c['id'] = k
    return out


def lib(name):
    return subprocess.run(['gcc', '-print-file-name=' + name], capture_output=True, text=True).stdout.strip()


def environment(flavour, logbase):
    env = dict(os.environ)
    env.update(core.ENV)
    env.pop('LD_PRELOAD', None)
    if flavour == 'asan':
        env['LD_PRELOAD'] = lib('libasan.so') + ':' + lib('libubsan.so')
        env['PYTHONMALLOC'] = 'malloc'
        env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:'
                               'detect_stack_use_after_return=1:log_path=' + logbase + '.report')
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77:log_path=' + logbase + '.report'
    elif flavour == 'trackp':
        env['GLIBC_TUNABLES'] = 'glibc.malloc.perturb=85'
    elif flavour == 'track0':
        env['GLIBC_TUNABLES'] = 'glibc.malloc.perturb=0'
    return env


def parse(log):
    begun, ended, fin, loaded = [], {}, None, False
    if os.path.exists(log):
        for line in open(log):
            p = line.rstrip('\n').split(' ', 2)
            if p[0] == 'LOADED':
                loaded = True
            if p[0] == 'BEGIN':
                begun.append(int(p[1]))
            elif p[0] == 'END':
                ended[int(p[1])] = json.loads(p[2])
            elif p[0] == 'FINISH':
                fin = json.loads(line.rstrip('\n').split(' ', 1)[1])
    return begun, ended, fin, loaded


def reports(logbase):
    d, b = os.path.split(logbase)
    return ''.join(open(os.path.join(d, f), errors='replace').read() for f in sorted(os.listdir(d))
                   if f.startswith(b + '.report'))


def report_key(text):
    m = re.search(r'==ZHEEVD-ARGUMENT (.*)', text)
    if m:
        return 'zheevd-argument', m.group(1)
    kind = 'crash'
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', text)
    if m:
        kind = 'asan:' + m.group(1)
    m2 = re.search(r'runtime error: (.*)', text)
    if m2 and not m:
        kind = 'ubsan:' + re.sub(r'[0-9a-fx.+-]+', '#', m2.group(1))[:60]
    fn = re.search(r'#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*/c/(\w+\.c)', text)
    return kind + (f' in {fn.group(1)} ({fn.group(2)})' if fn else ''), (m.group(0) if m else m2.group(0) if m2 else '')


def no_aslr(flavour, cache=[]):
    """ThreadSanitizer needs a predictable address space where the kernel randomises widely."""
    if flavour != 'tsan':
        return []
    if not cache:
        try:
            ok = subprocess.run(['setarch', '-R', 'true'], capture_output=True, timeout=20).returncode == 0
        except OSError:
            ok = False
        cache.append(['setarch', '-R'] if ok else [])
    return cache[0]


def launch(so, flavour, cs, outdir, tag, seed):
    base = os.path.join(outdir, f'{flavour}_{tag}')
    with open(base + '.json', 'w') as f:
        json.dump({'seed': seed, 'cases': cs}, f)
    drive = os.path.join(core.VERIF, 'vm', 'native', 'drive.py')
    err = open(base + '.stderr', 'w')
    pr = subprocess.Popen([*no_aslr(flavour), '/opt/venv/bin/python', '-B', drive, so, flavour, base + '.json', base + '.log'],
                          env=environment(flavour, base), stdout=err, stderr=err, cwd=outdir)
    return pr, base


def run_flavour(so, flavour, cs, mon, res, seed, deadline, nw=7, on_end=None):
    """Runs the cases in nw children, restarting after a crash; returns records."""
    byid = {c['id']: c for c in cs}
    queues = [cs[i::nw] for i in range(nw)]
    live, recs, fins, bases = {}, {}, [], []
    gen_ = [0]*nw
    for i, c in enumerate(queues):
        if c:
            live[i] = launch(so, flavour, c, mon.scratch, f'{i}_0', seed)
    case_seen = {}
    while live:
        time.sleep(.05)
        for i in list(live):
            pr, base = live[i]
            begun, ended, fin, loaded = parse(base + '.log')
            # watchdog: 150 s without progress is inconclusive
            mark = (len(begun), len(ended))
            if case_seen.get(i, (None,))[0] != mark:
                case_seen[i] = (mark, time.time())
            stuck = time.time() - case_seen[i][1] > 150
            over = time.time() > deadline + 30
            if pr.poll() is None and not stuck and not over:
                continue
            del live[i]
            if pr.poll() is None:
                pr.kill()
                pr.wait()
                if stuck:
                    res['harness_errors'].append(f'{flavour} child made no progress in 150 s on case '
                                                 f'{byid.get(begun[-1]) if begun else None}')
                else:
                    res['dropped'] += len(queues[i]) - len(ended)
                recs.update(ended)
                continue
            recs.update(ended)
            bases.append(base)
            if fin is not None:
                fins.append(fin)
                if pr.returncode == 0:
                    continue
            rep = reports(base)
            err = open(base + '.stderr', errors='replace').read()
            cur = begun[-1] if begun and begun[-1] not in ended else None
            if not loaded or cur is None:
                if rep and ('AddressSanitizer' in rep or 'runtime error' in rep):
                    key, what = report_key(rep)
                    mon.case = None
                    mon.fail(key, f'report outside a case: {what}', report=rep[-1200:])
                else:
                    res['harness_errors'].append(f'{flavour} child failed (rc {pr.returncode}): {err[-1500:]}{rep[-800:]}')
                continue
            mon.case = byid[cur]
            key, what = report_key(rep + err)
            mon.fail(key if flavour != 'track0' or key != 'crash' else f'crash:{pr.returncode}',
                     f'{what or "child died with status " + str(pr.returncode)}', report=(rep + err[-800:])[-1500:])
            rest = queues[i][[c['id'] for c in queues[i]].index(cur) + 1:]
            gen_[i] += 1
            if rest and gen_[i] < 6:
                queues[i] = rest
                live[i] = launch(so, flavour, rest, mon.scratch, f'{i}_{gen_[i]}', seed)
    return recs, fins, bases


def run_master(cs, mon, res, deadline):
    builds = {}
    for f in ('asan', 'track0', 'trackp'):
        builds[f] = load.build_ext(os.path.join(mon.scratch, 'ext_' + f), f)
    byid = {c['id']: c for c in cs}
    a = [c for c in cs if c['part'] == 'asan']
    t = [c for c in cs if c['part'] == 'track']
    if a:
        recs, fins, _ = run_flavour(builds['asan'], 'asan', a, mon, res, mon.seed, deadline)
        for i, r in recs.items():
            mon.case = byid[i]
            mon.event('asan-calls', r['c_calls'])
            mon.event('asan-cases')
            if r['outcome'] == 'refused':
                mon.event('refused-inputs')
            elif r['outcome'] != 'ok':
                mon.event('other-exception')
                if not byid[i].get('bad') and not byid[i].get('again'):
                    mon.fail(f'unexpected-exception:{r["outcome"]}', r.get('message', ''))
            mon.event('refused-assignments', r.get('refused_assignments', 0))
            mon.evaluated(byid[i], nontrivial=r['c_calls'] > 0)
            res['done'] += 1
        for f in fins:
            for k, v in f.items():
                mon.event(k, v)
    if t:
        two = {}
        for f in ('track0', 'trackp'):
            recs, fins, bases = run_flavour(builds[f], f, t, mon, res, mon.seed, deadline)
            outs = {}
            for b in bases:
                if os.path.exists(b + '.log.npz'):
                    with np.load(b + '.log.npz') as z:
                        outs.update({k: z[k] for k in z.files})
            two[f] = outs
            for i, r in recs.items():
                mon.case = byid[i]
                res['done'] += 1
                if r['outcome'] != 'ok':
                    mon.fail(f'unexpected-exception:{r["outcome"]}', r.get('message', ''))
                    continue
                mon.event('heap-blocks-tracked', r['allocs'])
                mon.event('refcounts-watched', r['refs_watched'])
                mon.check(r['leaked_blocks'] <= 0 and r['leaked_blocks_threads'] <= 0, 'leak:heap-blocks',
                          f'{r["leaked_blocks"]} (1 thread) + {r["leaked_blocks_threads"]} (threads) heap blocks not freed by a call')
                mon.check(r['heap_errors'] == 0, 'heap-misuse', 'double free, foreign free or overrun canary')
                mon.check(not r['ref_changes'], 'leak:references', f'reference counts drift with every call: {r["ref_changes"]}')
                g = r.get('block_growth')
                if g:
                    mon.event('object-growth-windows', len(g))
                    mon.check(min(g) < 20, 'leak:objects', f'live Python blocks grow in every window of 20 calls: {g}')
                mon.evaluated((f, byid[i]))
        for k in two['track0']:
            if k not in two['trackp']:
                continue
            mon.case = byid[int(k.split(':')[0])]
            x, y = two['track0'][k], two['trackp'][k]
            mon.event('uninit-comparisons')
            same = x.shape == y.shape and x.tobytes() == y.tobytes()
            mon.check(same, 'uninitialised:' + k.split(':')[1], 'result depends on the content of uninitialised memory'
                      + ('' if x.shape != y.shape else f' (max difference {np.nanmax(np.abs(x - y)) if x.size else 0:.3g})'))
    mon.case = None
    for c in (a + t)[:3]:
        mon.sample(c)
