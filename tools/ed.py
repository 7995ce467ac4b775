import sys
def edit(path, pairs):
    b=open(path,'rb').read(); crlf=b'\r\n' in b
    for o,n in pairs:
        if crlf: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
        o=o.encode(); n=n.encode()
        assert b.count(o)==1,(path,b.count(o),o)
        b=b.replace(o,n)
    open(path,'wb').write(b)
