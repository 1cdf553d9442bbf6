"""Reporting, known findings, evidence and helpers shared by all rules."""
import os, sys, json, time, re, ast
from .src import Program, AnalysisError, REPO, own_nodes
from .absint import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []      # dicts
        self.counts = {}
        self.samples = []
        self.funcs = set()
        self.rules = {}
        self._seen = set()
        self.minimums = []
    def rule(self, rid, text): self.rules[rid] = text
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def sample(self, text):
        if len(self.samples) < 40 and text not in self.samples: self.samples.append(text)
    def analysed(self, interp):
        self.funcs |= set(interp.funcs_seen)
        self.count('calls_followed', interp.calls_seen)
        self.count('abstract_steps', interp.steps)
    def violation(self, rid, construct, msg, where=None, trail=None):
        key = (rid, construct)
        if key in self._seen: return
        self._seen.add(key)
        self.violations.append(dict(rule=rid, construct=construct, message=msg, where=where, trail=trail or []))
    def need(self, name, minimum):
        """The rule matched too little: the analysis has lost its anchors."""
        self.minimums.append((name, minimum))
        if self.counts.get(name, 0) < minimum and not self.violations:
            raise AnalysisError(f'{self.prop}: only {self.counts.get(name,0)} {name}, expected at least {minimum}')

def load_known():
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#'): continue
            m = re.match(r'known: property=(\S+) rule=(\S+) construct=(\S+)\s*(.*)', line)
            if m: known[(m.group(1), m.group(2), m.group(3))] = m.group(4)
    return known

def run_check(prop, fn, tier, seed):
    t0 = time.time()
    rep = Report(prop)
    sys.setrecursionlimit(20000)
    prog = Program()
    broken = None
    try: fn(prog, rep, tier)
    except AnalysisError as ex:
        broken = ex
        if not rep.violations: raise
    known = load_known()
    evdir = os.environ.get('BUP_SA_EVIDENCE') or os.path.join(VERIF,'evidence'); os.makedirs(evdir, exist_ok=True)
    bad = []
    for v in rep.violations:
        k = (prop, v['rule'], v['construct'].replace(' ','_'))
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {v['rule']} {v['construct']}: {known[k] or v['message']}")
        else: bad.append(v)
    print(f'{prop}: analysed {len(rep.funcs)} functions of {len(prog.funcs)}; ' + ', '.join(f'{k}={v}' for k, v in sorted(rep.counts.items())))
    for r, t in rep.rules.items(): print(f'  rule {r}: {t}')
    rdir = os.path.join(evdir, 'replay')
    for v in bad:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{re.sub('[^A-Za-z0-9_.-]+','_', v['rule']+'-'+v['construct'])[:100]}.json")
        with open(path,'w') as f: json.dump(v, f, indent=1)
        print(f"  {v['where'] or ''}: [{v['rule']}] {v['construct']}: {v['message']}")
        for t in v['trail'][-12:]: print(f'      {t}')
        print(f'VIOLATION property={prop} replay={path}')
    cov = dict(explanation='static analysis of the current source: ' + ' | '.join(f'{r}: {t}' for r, t in rep.rules.items()),
               functions_total=len(prog.funcs), modules=len(prog.mods), functions_analysed=len(rep.funcs),
               functions_sample=sorted(rep.funcs)[:60], counts=rep.counts,
               minimums={n: m for n, m in rep.minimums}, samples=rep.samples,
               findings=[{k: v[k] for k in ('rule','construct','message','where')} for v in rep.violations])
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov,
              assumptions=getattr(fn,'assumptions',[]), wall_s=round(time.time()-t0,3), violations=len(bad))
    with open(os.path.join(evdir,f'{prop}.json'),'w') as f: json.dump(ev, f, indent=1)
    if broken is not None and not bad: raise broken
    return 1 if bad else 0

# ------------------------------------------------------------- term helpers
def is_call(t, *names):
    """t is a call of one of the external/repo names (or '.meth')."""
    if t[0]!='call': return False
    return not names or callee_name(t) in names
def callee_name(t):
    f = t[1]
    if f[0]=='ext': return f[1]
    if f[0]=='fn': return f[1]
    if f[0]=='attr': return '.'+f[2]
    if f[0]=='bm': return f[2]
    return show(f, 2)
def sequences(st, t):
    """The possible element sequences of a list/tuple term (lists of terms); None for one that is not known."""
    out = []
    for a in alts(t):
        if a[0] in ('list','tuple') or a[0]=='call' and a[1]==mk('ext','list') and not a[2]:
            base = list(a[1]) if a[0]!='call' else []
            more = st.heap.get((a,'$seq'), EMPTY)
            for m in alts(more):
                if m[0]!='tuple': out.append(None); continue
                cur = [[]]
                for x in base + list(m[1]):
                    sub = sequences(st, x[1]) if x[0]=='star' else [[x]]
                    cur = [c + y if c is not None and y is not None else None for c in cur for y in sub]
                out += cur
        elif a[0]=='bin' and a[1]=='Add':
            out += [x + y if x is not None and y is not None else None for x in sequences(st, a[2]) for y in sequences(st, a[3])]
        else: out.append(None)
    return out
def unprev(t):
    while t[0]=='prev': t = t[1]
    return t

def pathparts(t):
    """Normalise path-building terms to (base term list, tail bytes)."""
    parts = _flat(t)
    out = []
    for p in parts:
        if isinstance(p, (bytes,str)) :
            b = p if isinstance(p, bytes) else p.encode()
            if out and isinstance(out[-1], bytes): out[-1] += b
            else: out.append(b)
        else: out.append(p)
    return tuple(out)
def _flat(t):
    if t[0]=='c' and isinstance(t[2],(bytes,str)): return [t[2]]
    if t[0]=='bin' and t[1]=='Add': return _flat(t[2]) + _flat(t[3])
    if t[0]=='bin' and t[1]=='Mod' and t[2][0]=='c' and isinstance(t[2][2],(bytes,str)):
        fmt = t[2][2] if isinstance(t[2][2], bytes) else t[2][2].encode()
        args = list(t[3][1]) if t[3][0]=='tuple' else [t[3]]
        segs = re.split(rb'%[0-9]*[a-z]', fmt); out=[]
        for i, s in enumerate(segs):
            out.append(s)
            if i < len(segs)-1: out += _flat(args[i]) if i < len(args) else [TOP]
        return out
    if is_call(t,'os.path.join'):
        out=[]
        for i, a in enumerate(t[2]):
            fl = _flat(a)
            if i and not (out and isinstance(out[-1],(bytes,str)) and bytes(out[-1] if isinstance(out[-1],bytes) else out[-1].encode()).endswith(b'/')):
                if not (fl and isinstance(fl[0],(bytes,str)) and fl[0][:1] in (b'/','/')): out.append(b'/')
            out += fl
        return out
    return [t]
def tail(t):
    """Constant tail of a path term (bytes)."""
    p = pathparts(t)
    return p[-1] if p and isinstance(p[-1], bytes) else b''
def same_path(a, b):
    return pathparts(a) == pathparts(b)
def dir_of(t):
    """Directory of a path term, as normalised parts."""
    p = list(pathparts(t))
    while p:
        if isinstance(p[-1], bytes):
            i = p[-1].rfind(b'/')
            if i >= 0:
                h = p[-1][:i]
                return tuple(p[:-1] + ([h] if h else []))
        p.pop()
    return ()
