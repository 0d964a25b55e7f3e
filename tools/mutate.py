"""Mutation campaign: systematic small changes to jschon, each tried against the checks of the properties anchored in the file
until one raises an alarm.  mutate.py OUT.jsonl [--per-file N] [--seed S] [--jobs J] [FILE...]; survivors are for inspection."""
import ast, json, os, pathlib, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path(__file__).resolve().parents[1]
CHECKS = {
    'json.py': ['C01', 'C02', 'C03', 'C04', 'C09', 'C21', 'C05', 'C22'], 'utils.py': ['C04', 'C12', 'C08'], 'jsonpatch.py': ['C08', 'C10', 'C09'], 'jsonpointer.py': ['C05', 'C06', 'C07', 'C15', 'C08'],
    'uri.py': ['C11', 'C12', 'C14', 'C22'], 'output.py': ['C23'], 'jsonschema.py': ['C14', 'C20', 'C22', 'C13', 'C25', 'C21', 'C18', 'C16', 'C24', 'C23', 'C15', 'C19'],
    'catalog/__init__.py': ['C12', 'C13', 'C24', 'C15', 'C26', 'C14'], 'catalog/_2019_09.py': ['C18', 'C17', 'C24', 'C19', 'C25', 'C20'], 'catalog/_2020_12.py': ['C18', 'C17', 'C24', 'C19', 'C25', 'C20'], 'catalog/_next.py': ['C18', 'C17', 'C24', 'C19', 'C25', 'C20'],
    'vocabulary/__init__.py': ['C24', 'C18', 'C20', 'C14', 'C22', 'C26', 'C13'], 'vocabulary/annotation.py': ['C20', 'C19', 'C24'], 'vocabulary/applicator.py': ['C18', 'C19', 'C20', 'C23', 'C21', 'C22'],
    'vocabulary/core.py': ['C15', 'C14', 'C16', 'C24', 'C22', 'C13', 'C25'], 'vocabulary/format.py': ['C26', 'C20'], 'vocabulary/legacy.py': ['C18', 'C16', 'C19', 'C20', 'C14', 'C21'], 'vocabulary/future.py': ['C16', 'C20', 'C18', 'C19', 'C15'],
    'vocabulary/validation.py': ['C17', 'C23', 'C24'],
}
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def mutants(src):
    """(line, what, start, end, text) of every mutant, by character offsets."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    blines = [l.encode() for l in lines]

    def off(line, col):
        return starts[line - 1] + len(blines[line - 1][:col].decode())

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    annos = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if a is not None:
                annos |= {id(x) for x in ast.walk(a)}
    out = []

    def add(n, what, new, sp=None):
        a, b = sp or span(n)
        out.append((n.lineno, what, a, b, new))
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in annos:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            add(n, 'compare', f'({l} {SWAP[type(n.ops[0])]} {r})')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, 'boolop', '(' + op.join(f'({text(v)})' for v in n.values) + ')')
            for k in range(len(n.values)):
                rest = [f'({text(v)})' for j, v in enumerate(n.values) if j != k]
                add(n, 'drop-operand', '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, 'not', f'({text(n.operand)})')
        elif isinstance(n, (ast.If, ast.While)):
            add(n, 'cond-true', 'True', span(n.test)) if isinstance(n, ast.If) else None
            add(n, 'cond-false', 'False', span(n.test))
        elif isinstance(n, ast.IfExp):
            add(n, 'ifexp-body', f'({text(n.body)})')
            add(n, 'ifexp-else', f'({text(n.orelse)})')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, 'bool', str(not v))
            elif isinstance(v, int):
                add(n, 'int', str(v + 1))
                if v:
                    add(n, 'int', str(v - 1))
            elif v is None:
                pass
            elif isinstance(v, str) and len(v) < 25 and src[span(n)[0]] in '\'"':
                add(n, 'str', repr(v + 'x'))
        elif isinstance(n, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) and n.elts and text(n)[0] in '([{':
            for k in range(len(n.elts)):
                es = [text(e) for j, e in enumerate(n.elts) if j != k]
                o, c = text(n)[0], text(n)[-1]
                add(n.elts[k], 'drop-element', (o + ', '.join(es) + (',' if o == '(' and es else '') + c) if es or o != '{' else 'set()', span(n))
        elif isinstance(n, ast.Call):
            for kw in n.keywords:
                if kw.arg:
                    args = [text(a) for a in n.args] + [f'{k.arg}={text(k.value)}' if k.arg else '**' + text(k.value) for k in n.keywords if k is not kw]
                    add(n, 'drop-kwarg ' + kw.arg, f'{text(n.func)}({", ".join(args)})')
        elif isinstance(n, ast.BinOp):
            sw = {ast.Add: '-', ast.Sub: '+', ast.BitOr: '&', ast.BitAnd: '|', ast.Mod: '//', ast.Mult: '+', ast.Div: '*'}
            if type(n.op) in sw and not (isinstance(n.op, ast.Add) and isinstance(n.left, (ast.Constant, ast.JoinedStr))):
                add(n, 'binop', f'({text(n.left)} {sw[type(n.op)]} {text(n.right)})')
        elif isinstance(n, ast.AugAssign):
            sw = {ast.Add: '-=', ast.Sub: '+=', ast.BitOr: '='}
            if type(n.op) in sw:
                add(n, 'augassign', f'{text(n.target)} {sw[type(n.op)]} {text(n.value)}')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n.lower, 'slice-lower', '0')
            if n.upper is not None:
                add(n.upper, 'slice-upper', 'None')
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, 'flow', 'pass')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            add(n, 'except-none', 'ZeroDivisionError', span(n.type))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            if isinstance(n, ast.Return):
                if n.value is not None:
                    add(n, 'return-none', 'return None')
            elif not (isinstance(n, ast.Assign) and n.col_offset == 0):
                add(n, 'delete ' + type(n).__name__, 'pass')
    ok = []
    for m in out:
        new = src[:m[2]] + m[4] + src[m[3]:]
        if new == src:
            continue
        try:
            compile(new, 'x', 'exec')
        except SyntaxError:
            continue
        ok.append((*m, new))
    return ok


def try_one(job):
    f, line, what, a, b, text, new, old = job
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='vf_mut_'))
    res = dict(file=f, line=line, what=what, old=old, new=text)
    t = time.time()
    try:
        subprocess.run(['cp', '-a', '/repo', str(tmp / 'repo')], check=True)
        (tmp / 'repo/jschon' / f).write_text(new)
        env = dict(os.environ, VF_REPO=str(tmp / 'repo'), VF_EVIDENCE=str(tmp / 'ev'), VERIF_SEED='1')
        p = subprocess.run(['/opt/venv/bin/python', '-c', 'import sys; sys.path.insert(0, "."); import jschon; jschon.create_catalog("2019-09", "2020-12", "next")'], cwd=tmp / 'repo', capture_output=True, text=True)
        res['tried'] = []
        for c in CHECKS[f]:
            try:
                p = subprocess.run(['/opt/venv/bin/python', str(SNAP / 'harness/run.py'), c, '--tier', 'quick'], cwd=SNAP, env=env, capture_output=True, text=True, timeout=500)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 124
            res['tried'].append([c, rc])
            if rc != 0:
                res['killed'] = c
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res['s'] = round(time.time() - t)
    return res


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('files', nargs='*')
    ap.add_argument('--per-file', type=int, default=10**6)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--count', action='store_true')
    ap.add_argument('--again', help='try the survivors of an earlier run')
    o = ap.parse_args()
    r = random.Random(o.seed)
    done = set()
    if pathlib.Path(o.out).exists():
        for l in open(o.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what'], d['old'], d['new']))
    keep = None
    if o.again:
        keep = {(d['file'], d['old'], d['new']) for d in map(json.loads, open(o.again)) if 'killed' not in d}
    jobs = []
    for f in o.files or CHECKS:
        src = pathlib.Path('/repo/jschon', f).read_text()
        ms = mutants(src)
        if o.count:
            print(f, len(ms))
        ms = r.sample(ms, min(len(ms), o.per_file))
        for line, what, a, b, text, new in ms:
            old = src[a:b]
            if (f, line, what, old, text) not in done and (keep is None or (f, old, text) in keep):
                jobs.append((f, line, what, a, b, text, new, old))
    r.shuffle(jobs)
    if o.count:
        print(len(jobs))
        sys.exit()
    SNAP = pathlib.Path(tempfile.mkdtemp(prefix='vf_snap_'))      # the checks as they are now
    subprocess.run(['cp', '-a', *(str(V / x) for x in ('harness', 'spec', 'data', 'known_findings.jsonl')), str(SNAP)], check=True)
    try:
        with ThreadPoolExecutor(o.jobs) as ex, open(o.out, 'a') as fo:
            for res in ex.map(try_one, jobs):
                fo.write(json.dumps(res) + '\n')
                fo.flush()
    finally:
        shutil.rmtree(SNAP)
