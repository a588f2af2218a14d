"""Write one planted bug: seed(id, prop, backend, [(file, old, new)], demo_body, needs, breaks).
The demo is a small program linked with the objects of the repository's own build."""
import json, os, subprocess, sys
REPO=os.environ.get('SEED_REPO','/repo')
VER=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R=REPO+'/libs/e_float/src/'
DEMO='''#!/bin/bash
# Builds demo.cpp against the objects of the repository's build (%(b)s back end) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
objs=$(ls _build/%(b)s-real/obj/*.o | grep -v '/test')
g++ -std=c++14 -O1 -w -DE_FLOAT_TYPE_%(B)s -Ilibs/e_float/src -Ilibs/e_float -Ilibs/math/include "$here/demo.cpp" $objs -o "$tmp/demo" %(l)s || exit 2
timeout 250 "$tmp/demo"
'''
PRE='''#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
#include <e_float/e_float_functions_complex.h>
#include <functions/integer/prime_factors.h>
#include <cstdio>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
static int bad = 0;
static void expect(bool ok, const char* what) { if(!ok) { std::printf("FAILED: %s\\n", what); bad = 1; } }
static bool near(const e_float& a, const e_float& b, int digits)
{
  if(!ef::isfinite(a) || !ef::isfinite(b)) { return false; }
  if(ef::iszero(b)) { return ef::iszero(a); }
  const e_float tol("1e-" + std::to_string(digits));
  return ef::fabs(a - b) <= (ef::fabs(b) * tol);
}
int main()
{
@BODY@
  return bad;
}
'''
def seed(id, prop, backend, edits, demo, needs, breaks, pre='', demo_sh=None):
    d=VER+'/seeded/'+id
    os.makedirs(d, exist_ok=True)
    saved={}
    try:
        for f,o,n in edits:
            p=(REPO+'/'+f) if f.startswith('libs/') else R+f
            t=open(p).read()
            saved.setdefault(p,t)
            assert t.count(o)==1, (id,f,t.count(o),o)
            open(p,'w').write(t.replace(o,n))
        diff=subprocess.run(['git','-C',REPO,'diff'],capture_output=True,text=True).stdout
    finally:
        for p,t in saved.items(): open(p,'w').write(t)
    # the removed lines must be lines of the original repository
    open(d+'/patch.diff','w').write(diff)
    l={'efx':'','gmp':'-lgmp','mpfr':'-lmpfr -lgmp'}[backend]
    open(d+'/demo.sh','w').write((demo_sh or DEMO)%{'b':backend,'B':backend.upper(),'l':l})
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(PRE.replace('int main()',pre+'\nint main()').replace('@BODY@', demo.strip('\n')))
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    # blame of the removed lines
    import re
    cur=None
    for ln in diff.split('\n'):
        if ln.startswith('--- a/'): cur=ln[6:]
        m=re.match(r'@@ -(\d+)',ln)
        if m: no=int(m.group(1)); continue
        if ln.startswith('-') and not ln.startswith('---'):
            b=subprocess.run(['git','-C',REPO,'blame','-s','-L',f'{no},{no}','--',cur],capture_output=True,text=True).stdout
            if not b.startswith('6b0d9e3') and not b.startswith('^6b0d9e3'): print('NOT ORIGINAL',id,b.strip()[:100])
            no+=1
        elif ln.startswith(' '): no+=1
