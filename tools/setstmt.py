import re,sys
def setstmt(pid,title,stmt,explored=None):
    f='/verif/tools/gen_properties.py'; s=open(f).read()
    m=re.search(r'p\("%s", "((?:[^"\\]|\\.)*)",\s*"""(.*?)""",\s*(\[[^\]]*\]), "((?:[^"\\]|\\.)*)"'%pid,s,re.S)
    assert m,pid
    new='p("%s", "%s",\n  """%s""",\n  %s, "%s"'%(pid,title or m.group(1),stmt or m.group(2),m.group(3),explored or m.group(4))
    s=s[:m.start()]+new+s[m.end():]
    open(f,'w').write(s)
