"""restate.py PNN < text : replace the statement of a property in catalog.py (statement = stdin, one line)."""
import sys, re, ast
pid = sys.argv[1]; txt = sys.stdin.read().strip().replace('\n',' ')
p='/verif/tools/catalog.py'; s=open(p).read()
i=s.index(f"prop('{pid}',"); j=s.index('\n',i)+1      # after title line
k=s.index("\n [", j)                                    # start of 'over' list
s=s[:j]+' '+repr(txt)+','+s[k:]
compile(s,p,'exec'); open(p,'w').write(s)
