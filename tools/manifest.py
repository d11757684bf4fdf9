#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per checks/C*.mjs."""
import glob, json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes=json.load(open(os.path.join(root,'tools/notes.json')))
ids=sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(root,'checks/C*.mjs')))
props=[json.loads(l)['id'] for l in open(os.path.join(root,'properties.jsonl'))]
m=dict(version=1,setup_cmd='node --version && node -e "require(\'/opt/veriftools/node/node_modules/esbuild\')"',
  checks=[dict(property=i,quick_cmd=f'node run.mjs {i} --tier quick',thorough_cmd=f'node run.mjs {i} --tier thorough',
    technique='stateless model checking: exhaustive bounded exploration of '+notes[i][0]+' on the real code against a reference model',
    level='model_checking',level_note=notes[i][1]) for i in ids],
  not_applicable=[dict(property=i,reason=notes.get(i,['','check not built yet'])[1] if i in notes else 'check not built yet') for i in props if i not in ids],
  notes='Checks bundle the packages of /repo (their src, through their public entry points) with the esbuild of /opt/veriftools on every run; nothing is built in /repo. Known findings: known-findings.txt.')
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1); print(len(ids),'checks')
