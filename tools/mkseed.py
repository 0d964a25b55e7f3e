"""Create and confirm planted bugs.  A definition file (tools/seeds/<id>.py) sets PROPERTY, NEEDS, WHAT, EDITS
[(file, old, new)], DEMO (python source; run with cwd = repo; assert-style).  Usage: mkseed.py ID...  Works on a
scratch copy of /repo; confirms that the demo passes unpatched, the patch applies, the stable tests still pass and the demo fails."""
import json
import pathlib
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path(__file__).resolve().parents[1]
COMMON = V / 'tools' / 'seeds' / 'metaschemas.py'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)




def one(sid):
    d = {}
    exec((V / 'tools/seeds' / f'{sid}.py').read_text(), d)
    out = V / 'seeded' / sid
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir(parents=True)
    (out / 'demo.py').write_text('import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n' + d['DEMO'].lstrip('\n'))
    (out / 'demo.sh').write_text('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    if 'import metaschemas' in d['DEMO']:
        shutil.copy(COMMON, out / 'metaschemas.py')
    (out / 'meta.json').write_text(json.dumps(dict(property=d['PROPERTY'], needs=d['NEEDS'], what_it_breaks=d['WHAT']), indent=1) + '\n')
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='vf_seed_'))
    try:
        repo = tmp / 'repo'
        sh(['cp', '-a', '/repo', str(repo)], '/')
        p = sh(['bash', str(out / 'demo.sh')], repo)
        if p.returncode:
            return f'{sid}: demo fails unpatched\n{p.stdout}{p.stderr}'
        for f, old, new in d['EDITS']:
            t = (repo / f).read_text()
            if t.count(old) != 1:
                return f'{sid}: {t.count(old)} occurrences of {old!r} in {f}'
            (repo / f).write_text(t.replace(old, new))
        diff = sh(['git', 'diff'], repo).stdout
        (out / 'patch.diff').write_text(diff)
        removed = [x[1:] for x in diff.splitlines() if x.startswith('-') and not x.startswith('---')]
        base = ''.join(sh(['git', 'show', f'ae5dece:{f}'], repo).stdout for f, _, _ in d['EDITS'])
        if not any(r.strip() and r in base for r in removed):
            return f'{sid}: changes no original line'
        p = sh(['bash', str(out / 'demo.sh')], repo)
        if not p.returncode:
            return f'{sid}: demo passes with the patch'
        demo_out = (p.stdout + p.stderr).strip().splitlines()[-1:]
        p = sh(TESTCMD.format(work=tmp), repo)
        r = sh(f'/usr/bin/python3 /opt/vp/results.py {tmp}/out.json junit:{tmp}/junit.xml', repo)
        res = json.load(open(tmp / 'out.json'))
        passed = set(res.get('passed', res.get('pass', [])))
        bad = sorted(set(STABLE) - passed)
        if bad:
            return f'{sid}: {len(bad)} stable tests fail: {bad[:4]}'
        return f'{sid}: ok {demo_out}'
    finally:
        shutil.rmtree(tmp)


STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
TESTCMD = ('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH={work}/repo:/opt/vp/pytest_plugins HYPOTHESIS_STORAGE_DIRECTORY={work}/hyp '
           '/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_hypothesis --noconftest --hypothesis-seed=0 --benchmark-disable '
           '--timeout=120 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={work}/junit.xml tests/test_json.py '
           'tests/test_jsonpatch.py tests/test_jsonpointer.py tests/test_uri.py tests/test_catalog.py tests/test_benchmarks.py')

if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for m in ex.map(one, sys.argv[1:]):
            print(m, flush=True)
