"""edit.py FILE OLD NEW COUNT preserving line endings; used by fixes"""
import sys
def sub(path, old, new, count=1):
    s=open(path,newline='').read()
    crlf='\r\n' in s
    t=s.replace('\r\n','\n')
    assert t.count(old)==count,(path,t.count(old))
    t=t.replace(old,new)
    if crlf: t=t.replace('\n','\r\n')
    open(path,'w',newline='').write(t)
