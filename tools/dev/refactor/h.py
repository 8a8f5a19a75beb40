import sys,re
D=sys.argv[1]+'/src/utki/'
def ed(f,*rs):
    p=D+f; s=open(p).read()
    for a,b in rs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    open(p,'w').write(s)
def cut(f,start,end,new):
    p=D+f; s=open(p).read()
    i=s.index(start); j=s.index(end,i+len(start))
    s=s[:i]+new+s[j:]
    open(p,'w').write(s)
