import json,jsonschema,sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    try: jsonschema.validate(p,s)
    except jsonschema.ValidationError as e: print(p['id'],e.message); continue
    ids.append(p['id'])
print(len(ids))
try:
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]+[x['property'] for x in m['not_applicable']]
    print('manifest ok', set(ids)^set(c))
except FileNotFoundError: pass
