"""regenerate MANIFEST.json and properties.jsonl from tools/table.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from table import PROPS, NOT_APPLICABLE
from table import HOOKS
checks, lines = [], []
for p in PROPS:
    lines.append(json.dumps(dict(id=p['id'], title=p['title'], statement=' '.join(p['statement'].split()),
        quantifier=dict(over=p.get('over', ['inputs', 'configurations']), text=' '.join(p['for_all'].split())),
        why_tests_cant=' '.join(p['why'].split()),
        anchors=dict(files=['trunk/SUAVE/' + f for f in p['files']], mechanism=[dict(name=n, where='trunk/SUAVE/' + w) for n, w in p['mech']]))))
    assert len(p['title']) <= 80, p['id']
    for f in p['files']: assert os.path.exists('/repo/trunk/SUAVE/' + f), f
    checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
        technique='symbolic execution of the real Python code with Z3/cvc5 deciding every claim' , level='model_checking', level_note=' '.join(p['note'].split())))
na = []
for p in NOT_APPLICABLE:
    lines.append(json.dumps(dict(id=p['id'], title=p['title'], statement=' '.join(p['statement'].split()),
        quantifier=dict(over=p.get('over', ['inputs', 'configurations']), text=' '.join(p['for_all'].split())),
        why_tests_cant=' '.join(p['why'].split()),
        anchors=dict(files=['trunk/SUAVE/' + f for f in p['files']], mechanism=[dict(name=n, where='trunk/SUAVE/' + w) for n, w in p['mech']]))))
    na.append(dict(property=p['id'], reason=' '.join(p['reason'].split())))
open(os.path.join(R, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, **(dict(hooks=HOOKS) if HOOKS else {})), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
import subprocess
for kind, f in (('PROPERTIES', 'properties.jsonl'), ('MANIFEST', 'MANIFEST.json')):
    subprocess.run(['/opt/veriftools/pyvenv/bin/python', '-c', '''
import json,sys,jsonschema
s=json.load(open("/root/.vp/%s.schema.json"))
t=open("%s").read()
for d in ([json.loads(l) for l in t.splitlines()] if "%s"=="PROPERTIES" else [json.loads(t)]): jsonschema.validate(d,s)
print("%s ok")''' % (kind, os.path.join(R, f), kind, f)], check=True)
