"""helper: exact single replacement in a file, keeping its line endings"""
def sub(p, pairs):
    s=open(p,newline='').read()
    crlf='\r\n' in s
    for a,b in pairs:
        if crlf: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
        assert s.count(a)==1,(p,a,s.count(a))
        s=s.replace(a,b)
    open(p,'w',newline='').write(s)
