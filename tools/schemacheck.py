import json,jsonschema,re,os,glob
R='/root/.vp/'
s=json.load(open(R+'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s)
    n=len(re.findall(r'[.](\s|$)',p['statement'])); 
    if n>3: print(p['id'],n)
if os.path.exists('/verif/MANIFEST.json'): jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open(R+'MANIFEST.schema.json')))
e=json.load(open(R+'EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print("schemas ok")
