import re,sys
root=sys.argv[1]
def sub(f,pairs):
    p=root+'/effector/'+f; s=open(p,newline='').read(); crlf='\r\n' in s
    s=s.replace('\r\n','\n')
    for a,b in pairs:
        pat=r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in a.split('\n') if 1)
        # drop blank lines in the pattern
        pat=r'[ \t]*\n(?:[ \t]*\n)*'.join(re.escape(l.rstrip()) for l in a.rstrip('\n').split('\n') if l.strip())+(r'[ \t]*\n' if a.endswith('\n') else '')
        m=re.findall(pat,s)
        assert len(m)==1,(f,len(m),a)
        s=re.sub(pat,lambda _:b,s)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'w',newline='').write(s)
