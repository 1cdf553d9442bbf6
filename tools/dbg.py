import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(50000)
from sa.core import *; import sa.absint as A
from sa.rules import p01
prog=Program(); prog.add_harness(p01.HARNESS)
rep=Report('P01')
rel = prog.reach_names({'.rename','rename','fsync','.fsync','.write_idx'}); rel={q for q in rel if q.startswith('bup.git.') or q.startswith('bup.helpers.') or q.startswith('sa_h')}
it=Interp(prog,p01.PackRule(rep,rel,'both'))
o=it.block
orig=A.Interp.stmt
def stmt(self,n,st):
    r=orig(self,n,st)
    if not (r.normal or r.ret or r.brk or r.cont): print('DEAD after', self.fn.qual, n.lineno, type(n).__name__, [x[1][1:3] for x in r.exc][:4])
    return r
A.Interp.stmt=stmt
print(it.run(prog.func('sa_harness.full')))
