"""claim.py PNN: stdin has two paragraphs (technique, level note) separated by a blank line; adds/replaces the entry in claims.C."""
import sys, re
pid = sys.argv[1]; a, b = [x.strip().replace('\n',' ') for x in sys.stdin.read().strip().split('\n\n',1)]
p='/verif/tools/claims.py'; s=open(p).read()
s=re.sub(r"^'%s': \(.*\n.*TRUST\),\n" % pid, '', s, flags=re.M)
s=s.replace("}\nNA = {", f"{pid!r}: ({a!r},\n        {b!r} + TRUST),\n}}\nNA = {{",1)
compile(s,p,'exec'); open(p,'w').write(s)
