"""Run the checks against the planted bugs, in scratch copies of /repo: trybugs.py [ID...] [--tier quick]."""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parents[1]
args = [a for a in sys.argv[1:] if not a.startswith('--')]
tier = 'thorough' if '--thorough' in sys.argv else 'quick'
ids = args or sorted(p.name for p in (V / 'seeded').iterdir())


def one(sid):
    m = json.loads((V / 'seeded' / sid / 'meta.json').read_text())
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='vf_try_'))
    try:
        subprocess.run(['cp', '-a', '/repo', str(tmp / 'repo')], check=True)
        subprocess.run(['git', 'apply', str(V / 'seeded' / sid / 'patch.diff')], cwd=tmp / 'repo', check=True)
        t = time.time()
        env = dict(os.environ, VF_REPO=str(tmp / 'repo'), VF_EVIDENCE=str(tmp / 'ev'))
        p = subprocess.run(['/opt/venv/bin/python', str(V / 'harness/run.py'), m['property'], '--tier', tier], cwd=V, env=env, capture_output=True, text=True)
        lines = p.stdout.strip().splitlines()
        ok = p.returncode == 1 and any(l.startswith(f'VIOLATION property={m["property"]} ') for l in lines)
        d = [l for l in lines if 'clauses:' in l]
        return f'{sid}: {"CAUGHT" if ok else "MISSED rc=%d" % p.returncode} {time.time() - t:.0f}s {d[0] if d else (p.stdout + p.stderr)[-300:]}'
    finally:
        shutil.rmtree(tmp)


with ThreadPoolExecutor(2) as ex:
    for m in ex.map(one, ids):
        print(m, flush=True)
