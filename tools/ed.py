import sys
def sub(f, old, new, n=1):
    s=open(f).read()
    assert s.count(old)==n, (f, s.count(old), old)
    open(f,'w').write(s.replace(old,new))
