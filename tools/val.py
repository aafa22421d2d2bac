import json,jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json')); M=json.load(open('/root/.vp/MANIFEST.schema.json')); Ev=json.load(open('/root/.vp/EVIDENCE.schema.json'))
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
for x in ps:
    try: jsonschema.validate(x,S)
    except Exception as e:
        jsonschema.validate(ps,S) if S.get('type')=='array' else print(x['id'],str(e)[:300])
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),M)
import glob
for f in glob.glob('/verif/evidence/C*.json'): jsonschema.validate(json.load(open(f)),Ev)
print(len(ps),'ok')
