# usage: exec; add(text) inserts before NA
p='/verif/props_meta.py'
def add(t):
    s=open(p).read().rstrip('\n')
    i=s.find('\n\nNA = ')
    if i<0: i=len(s)
    open(p,'w').write(s[:i]+'\n'+t.strip('\n')+'\n\n\nNA = {}\n')
