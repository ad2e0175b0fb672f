import json,glob,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
M=json.load(open('/verif/tools/manifest_src.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in M['claimed']:
        c=M['claimed'][i]
        checks.append(dict(property=i,quick_cmd='./run.sh %s quick'%i,thorough_cmd='./run.sh %s thorough'%i,
            technique=c.get('technique','contract-based deductive verification of the C sources (VC generation from the clang AST, z3/cvc5)'),
            level=c.get('level','proof'),level_note=c['note']))
    else:
        na.append(dict(property=i,reason=M['na'].get(i,'contracts for this property are not built yet')))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='No hooks are added to /repo: contracts live in /verif and are bound to the AST of the current sources on every run.'),open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),len(na))
