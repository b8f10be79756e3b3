import json,subprocess,sys
prop,commit,what,case=sys.argv[1:5]
p='/verif/known_findings.json'; k=json.load(open(p))
h=subprocess.run(['git','-C','/repo','rev-parse','--short',commit],capture_output=True,text=True).stdout.strip()
k.append(dict(property=prop,status='fixed',commit=h,what=f'fixed: property={prop} {h} {what}',case=case)); json.dump(k,open(p,'w'),indent=1)
