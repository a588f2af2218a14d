import re,subprocess,sys
def sub(f, old, new, cnt=1):
    p='/repo/libs/e_float/src/'+f
    s=open(p,newline='').read()
    nl='\r\n' if '\r\n' in s else '\n'
    old=old.replace('\r\n','\n').replace('\n',nl); new=new.replace('\n',nl)
    assert s.count(old)>=1, (f, old)
    assert cnt==0 or s.count(old)==cnt, (f, s.count(old))
    s=s.replace(old,new); open(p,'w',newline='').write(s)
def commit(msg):
    subprocess.check_call(['git','-C','/repo','commit','-qam',msg])
