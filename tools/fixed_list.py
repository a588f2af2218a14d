import json,subprocess
V='/verif/known-findings.json'
try: d=json.load(open(V))
except Exception: d={'findings':[],'fixed':[]}
MAP=json.load(open('/verif/tools/fixes.json'))
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines()
d['fixed']=[]
for l in reversed(log):
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        props=MAP.get(s[5:])
        if not props: print('NO MAP', s); props=['?']
        for p in props: d['fixed'].append(f'fixed: property={p} {h} {s[5:]}')
json.dump(d,open(V,'w'),indent=1); open(V,'a').write('\n')
