import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
p=o.get('passed') or o.get('pass') or [k for k,v in o.get('tests',o).items() if v in ('pass','passed',True,'ok')]
print('missing', [x for x in b if x not in set(p)], 'of', len(b))
