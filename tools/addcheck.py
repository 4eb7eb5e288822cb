import sys
p='/verif/checks.py'; s=open(p).read()
i=s.index("\n}\n")
s=s[:i]+"\n"+sys.argv[1].rstrip()+s[i:]
open(p,'w').write(s)
