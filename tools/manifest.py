"""Write /verif/MANIFEST.json from the properties and the drivers that exist."""
import json
import pathlib

V = pathlib.Path('/verif')
PY = '/opt/venv/bin/python'
NOTES = json.loads((V / 'tools/levels.json').read_text())
props = [json.loads(x) for x in (V / 'properties.jsonl').read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p['id']
    if (V / f'harness/vf/drivers/{i.lower()}.py').exists():
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f'{PY} harness/run.py {i} --tier quick', thorough_cmd=f'{PY} harness/run.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=n[0], level='model_checking', level_note=n[1]))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='All checks run TLC on specifications in /verif/spec and validate traces recorded from /repo in place; no hooks in /repo are needed.')
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
