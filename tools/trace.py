"""trace.py PNN [--dead] [--all-stages]: run a rule, record every event in the trail, print the trail of the first violation."""
import sys, os, threading, traceback, importlib; sys.path.insert(0,'/verif'); sys.setrecursionlimit(100000)
from sa.core import *; import sa.absint as A
mod=importlib.import_module('sa.rules.'+sys.argv[1].lower())
N=int(next((a[2:] for a in sys.argv if a.startswith('-n')),'40'))
skip=int(next((a[2:] for a in sys.argv if a.startswith('-s')),'0'))
for c in list(vars(mod).values()):
    if isinstance(c,type) and issubclass(c,Rule) and c is not Rule and 'call' in vars(c):
        def wrap(cl):
            def call(self, st, ev):
                st.trail=(f'{ev.func.qual}:{getattr(ev.node,"lineno",0)} {ev.name} {show(ev.recv)[:30] if ev.recv else ""} ({", ".join(show(a,2)[:30] for a in ev.args)}) st{ev.interp.rep_stage} {dict(st.mon) if st.mon and isinstance(st.mon,tuple) and isinstance(st.mon[0],tuple) and len(st.mon[0])==2 else (cl.brief(st.mon) if hasattr(cl,'brief') else st.mon)}'[:400], st.trail)
                return cl(self, st, ev)
            return call
        c.call=wrap(vars(c)['call'])
if '--dead' in sys.argv:
    orig=A.Interp.stmt
    def stmt(self,n,st):
        r=orig(self,n,st)
        if not (r.normal or r.ret or r.brk or r.cont): print('DEAD', self.fn.qual, n.lineno, type(n).__name__, [x[1][1:3] for x in r.exc][:3], str(st.mon)[:200])
        return r
    A.Interp.stmt=stmt
prog=Program(); rep=Report(sys.argv[1])
def viol(rid, con, msg, where=None, trail=None):
    global skip
    if skip: skip-=1; return
    print('VIOL',con,msg); print('\n'.join((trail or [])[-N:])); sys.stdout.flush(); os._exit(1)
rep.violation=viol
def go():
    try: mod.check(prog, rep, 'quick'); print('quiet', rep.counts)
    except BaseException: traceback.print_exc()
threading.stack_size(512*1024*1024)
t=threading.Thread(target=go); t.start(); t.join()
