#!/opt/venv/bin/python
"""Development aid: token-level mutants of one source file against a list of checks.
usage: mutsweep.py FILE CHECKS(comma separated) N [SEED] [JOBS]   (results appended to /tmp/mutsweep.jsonl)"""
import ast, io, json, os, random, re, shutil, subprocess, sys, tempfile, tokenize
from concurrent.futures import ThreadPoolExecutor
import threading
f, checks, N = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 3
src = open('/repo/' + f, newline='').read()
R = random.Random(seed)
SWAP = {'<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'],
        '*': ['/'], '/': ['*'], '+=': ['-=', '='], '-=': ['+='], '*=': ['/=', '='], '/=': ['*='], '//': ['/'], '%': ['//'], '**': ['*'],
        '@': ['*'], '&': ['|'], '|': ['&'], '&&': ['||'], '||': ['&&'], '++': ['--']}


def py_mutants():
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body[0]
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str):
                skip.update(range(b.lineno, b.end_lineno + 1))
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            skip.update(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.FunctionDef) and n.name.startswith('__') and n.name != '__init__' and n.name not in ('__getitem__', '__add__', '__iter__', '__mul__', '__imul__', '__len__', '__copy__', '__setattr__', '__rmul__', '__radd__', '__eq__'):
            skip.update(range(n.lineno, n.end_lineno + 1))
        ann = getattr(n, 'annotation', None) or getattr(n, 'returns', None)
        if ann is not None and not isinstance(n, ast.AnnAssign):
            skip.add((ann.lineno, ann.col_offset, ann.end_lineno, ann.end_col_offset))
    spans = [s for s in skip if isinstance(s, tuple)]
    def skipped(r, c):
        return r in skip or any((a, b) <= (r, c) < (x, y) for a, b, x, y in spans)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    blines = src.encode().split(b'\n')
    out = []
    toks = list(tokenize.generate_tokens(io.StringIO(src, newline='').readline))
    for i, t in enumerate(toks):
        (r, c), (r2, c2) = t.start, t.end
        if skipped(r, c):
            continue
        a, b = off[r-1] + c, off[r2-1] + c2
        def add(new, kind):
            out.append((a, b, new, kind, r))
        if t.type == tokenize.OP and t.string in SWAP:
            prev = toks[i-1]
            if t.string == '->':
                continue
            if t.string in '+-*' and (prev.type == tokenize.OP and prev.string not in ')]}' or prev.string in ('return',)):
                if t.string == '-':
                    add('', 'neg')
                continue
            for n in SWAP[t.string]:
                add(n, 'op')
        elif t.type == tokenize.NUMBER:
            if re.fullmatch(r'\d+', t.string):
                add(str(int(t.string) + 1), 'num')
                if int(t.string) > 0:
                    add(str(int(t.string) - 1), 'num')
            else:
                add('(' + t.string + '*1.3)', 'num')
        elif t.type == tokenize.NAME:
            m = {'True': ['False'], 'False': ['True'], 'and': ['or'], 'or': ['and'], 'not': [''], 'continue': ['break', 'pass'],
                 'break': ['continue', 'pass'], 'min': ['max'], 'max': ['min'], 'any': ['all'], 'all': ['any'], 'floor': ['ceil'], 'ceil': ['floor'],
                 'sin': ['cos'], 'cos': ['sin'], 'hstack': ['vstack'], 'left': ['right'], 'argmax': ['argmin'], 'argmin': ['argmax'],
                 'real': ['imag'], 'conj': ['real'], 'zeros': ['ones'], 'is': [], 'elif': ['if'], 'copy': [], 'enumerate': []}.get(t.string, [])
            for n in m:
                add(n, 'name')
            if t.string in ('abs', 'absolute', 'round', 'sorted', 'conj', 'conjugate', 'sqrt', 'rint') and toks[i+1].string == '(':
                add('np.asarray' if toks[i-1].string != '.' else ('asarray' if toks[i-2].string == 'np' else t.string), 'call')
            if t.string == 'is' and toks[i+1].string == 'not':
                out.append((a, off[toks[i+1].end[0]-1] + toks[i+1].end[1], 'is', 'name', r))
            elif t.string == 'is':
                add('is not', 'name')
            if t.string == 'not' and toks[i-1].string == 'is':
                out.pop() if out and out[-1][2] == '' else None
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and not skipped(n.lineno, n.col_offset):
            if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Call):
                continue
            a = off[n.lineno-1] + n.col_offset
            b = off[n.end_lineno-1] + n.end_col_offset
            if isinstance(n, (ast.AugAssign, ast.Expr)) or (isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)) or R.random() < .35:
                out.append((a, b, 'pass', 'del', n.lineno))
        if isinstance(n, ast.If) and not skipped(n.lineno, n.col_offset):
            t = n.test
            a, b = off[t.lineno-1] + t.col_offset, off[t.end_lineno-1] + t.end_col_offset
            out.append((a, b, 'False', 'if', n.lineno))
            out.append((a, b, 'True', 'if', n.lineno))
        if isinstance(n, ast.Call) and not skipped(n.lineno, n.col_offset):
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                x, y = n.args[0], n.args[1]
                p = lambda z: (off[z.lineno-1] + z.col_offset, off[z.end_lineno-1] + z.end_col_offset)
                (a, b), (c, d) = p(x), p(y)
                out.append((a, d, src[c:d] + src[b:c] + src[a:b], 'swap', n.lineno))
            for k in n.keywords:
                if k.arg and R.random() < .7:
                    a = off[k.lineno-1] + k.col_offset
                    b = off[k.end_lineno-1] + k.end_col_offset
                    e = b
                    while e < len(src) and src[e] in ' \r\n':
                        e += 1
                    if e < len(src) and src[e] == ',':
                        e += 1
                    elif src[e] == ')':
                        e = b
                    out.append((a, e, '', 'kwarg', n.lineno))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'deepcopy', 'conj', 'conjugate', 'astype', 'to') and not n.keywords and isinstance(n.func.value, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                v = n.func.value
                a = off[v.end_lineno-1] + v.end_col_offset
                b = off[n.end_lineno-1] + n.end_col_offset
                if not (isinstance(v, ast.Name) and v.id in ('np', 'copy')):
                    out.append((a, b, '', 'method', n.lineno))
    return out


def c_mutants():
    out = []
    s = re.sub(r'/\*.*?\*/|//[^\n]*|"(\\.|[^"\\])*"', lambda m: ' '*len(m.group()), src, flags=re.S)
    s = re.sub(r'^\s*#.*$', lambda m: ' '*len(m.group()), s, flags=re.M)
    for m in re.finditer(r'\+\+|--|&&|\|\||<=|>=|==|!=|\+=|-=|\*=|(?<![-<>=!+*/&|])[<>+*/-](?![-<>=+&|])', s):
        line = s.count('\n', 0, m.start()) + 1
        t = m.group()
        if t == '*' and re.match(r'\s*[a-z_]+\s*[,;=)\[]', s[m.end():]) and re.search(r'(int|double|char|void|PyObject|PyArrayObject|const)\s*$', s[:m.start()]):
            continue
        if t in '*&' and s[:m.start()].rstrip()[-1:] in '(,=;{':
            continue
        for n in SWAP.get(t, []):
            out.append((m.start(), m.end(), n, 'op', line))
    for m in re.finditer(r'(?<![\w.])\d+(?![\w.])', s):
        line = s.count('\n', 0, m.start()) + 1
        out.append((m.start(), m.end(), str(int(m.group()) + 1), 'num', line))
        if int(m.group()) > 0:
            out.append((m.start(), m.end(), str(int(m.group()) - 1), 'num', line))
    for m in re.finditer(r'(?<=[;{}\n])[ \t]*([a-zA-Z_][^;{}()=]*(\+|-|\*)?=[^;{}=][^;{}]*|[a-z_A-Z]+\([^;{}]*\));', s):
        line = s.count('\n', 0, m.start()) + 1
        if re.match(r'\s*(int|double|char|void|Py\w*|const|return|static)\b', m.group()):
            continue
        out.append((m.start(), m.end(), ';', 'del', line))
    return out


ms = py_mutants() if f.endswith('.py') else c_mutants()
R.shuffle(ms)
# spread over lines: at most three mutants of a line
seen, pick = {}, []
for m in ms:
    if seen.get(m[4], 0) < 3 and len(pick) < N:
        seen[m[4]] = seen.get(m[4], 0) + 1
        pick.append(m)
base = tempfile.mkdtemp(prefix='msw_')
local, lock, count = threading.local(), threading.Lock(), [0]


def tree():
    if not hasattr(local, 'd'):
        with lock:
            count[0] += 1
            local.d = os.path.join(base, f'r{count[0]}')
        os.makedirs(local.d)
        for x in ('euphonic', 'c', 'setup.py', 'versioneer.py', 'setup.cfg'):
            subprocess.run(['cp', '-a', '/repo/' + x, local.d + '/' + x], check=True)
        os.symlink('/repo/tests_and_analysis', local.d + '/tests_and_analysis')
        # a private copy of the machinery: evidence and replays stay out of /verif
        subprocess.run(['cp', '-a', '/verif', local.d + '/verif'], check=True)
    return local.d


def run(m):
    a, b, new, kind, line = m
    d = tree()
    s = src[:a] + new + src[b:]
    if f.endswith('.py'):
        try:
            ast.parse(s)
        except SyntaxError:
            return
    open(os.path.join(d, f), 'w', newline='').write(s)
    env = {**os.environ, 'VERIF_REPO': d, 'VERIF_FAILFAST': '1', 'VERIF_BUDGET': '200'}
    res = {'file': f, 'line': line, 'kind': kind, 'old': src[a:b], 'new': new, 'text': src[src.rfind('\n', 0, a)+1:src.find('\n', b)].strip(), 'caught': None, 'rc2': [], 'a': a, 'b': b}
    try:
        for c in checks:
            r = subprocess.run([d + '/verif/run.py', c, '--workers', '3'], capture_output=True, text=True, env=env)
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                res['caught'] = c
                break
            if r.returncode == 2:
                res['rc2'].append([c, r.stdout[:600]])
                if 'does not build' in r.stdout or 'setup:' in r.stdout:
                    res['caught'] = 'build'
                    break
    finally:
        open(os.path.join(d, f), 'w', newline='').write(src)
    with lock:
        open('/tmp/mutsweep.jsonl', 'a').write(json.dumps(res) + '\n')
        if not res['caught']:
            print(f"SURVIVED {f}:{line} [{kind}] {res['old'][:60]!r} -> {new[:60]!r} | {res['text'][:110]}", [x[0] for x in res['rc2']], flush=True)
    return res


try:
    with ThreadPoolExecutor(jobs) as ex:
        out = [r for r in ex.map(run, pick) if r]
    print(f'{f}: {len(out)} mutants, {sum(bool(r["caught"]) for r in out)} caught', flush=True)
finally:
    shutil.rmtree(base)
