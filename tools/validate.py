import json,sys
sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),S)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print("ok")
