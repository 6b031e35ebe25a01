sub () 
{ 
    python3 - "$@" <<'P'
import sys
f,a,b=sys.argv[1:4]; s=open(f).read(); assert s.count(a)>=1,(f,a,s.count(a)); 
n=int(sys.argv[4]) if len(sys.argv)>4 else None
if n is None: assert s.count(a)==1,s.count(a); s=s.replace(a,b)
else:
    i=-1
    for _ in range(n+1): i=s.index(a,i+1)
    s=s[:i]+b+s[i+len(a):]
open(f,'w').write(s)
P

}
