import json,sys,subprocess
F='/verif/tools/fixes.json'
d=json.load(open(F))
def fx(m,*ids):
    d[m]=list(ids); json.dump(d,open(F,'w'),indent=0)
def check():
    log=[l for l in subprocess.check_output(['git','-C','/repo','log','--format=%s'],text=True).splitlines() if l.startswith('fix: ')]
    for l in log:
        if l[5:] not in d: print('NOT LISTED', l)
    for m in d:
        if 'fix: '+m not in log: print('NO COMMIT', m)
