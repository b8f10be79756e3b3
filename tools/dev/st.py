import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
print('missing', set(b['stable'])-set(o['passed']))
