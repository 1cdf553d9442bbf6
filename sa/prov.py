"""Origins of values: every call that is not followed is collapsed to a small term that remembers
only which sources (reads of refs, resolved items, ...) its arguments derive from."""
from .core import *
from .absint import _intern
intern_get = _intern.get

def labels(t, attrs=()):
    """Source labels occurring in a term."""
    out = set()
    for x in subterms(t):
        if x[0]=='prov': out |= {strip(y) if isinstance(y[0], str) and y is intern_get(y) else y for y in x[2]}
        elif x[0]=='attr' and x[2] in attrs: out.add(strip(x))
    return frozenset(out)

_strip = {}
def strip(t):
    """Forget loop generations."""
    r = _strip.get(id(t))
    if r is not None: return r[1]
    if t[0]=='prev': r = strip(t[1])
    else:
        r = mk(*[_strip_part(x) for x in t])
    _strip[id(t)] = (t, r)
    return r
def _strip_part(x):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x is intern_get(x): return strip(x)
        return tuple(_strip_part(y) for y in x)
    if isinstance(x, frozenset): return frozenset(_strip_part(y) for y in x)
    return x

class ProvRule(Rule):
    SOURCES = ()          # last names of calls whose result is a source of its own
    ATTRS = ()            # attributes that are sources
    KEEP = ()             # last names kept as ordinary terms
    def labels(self, t): return labels(t, self.ATTRS)
    def prov(self, st, ev, own=()):
        n = ev.name.rsplit('.',1)[-1]
        site = site_id(ev.frame, nid(ev.node))
        lab = set(own)
        if n in self.SOURCES: lab.add((n, site))
        else:
            for a in ev.all_terms(): lab |= self.labels(a)
            if ev.recv is not None: lab |= self.labels(ev.recv)
        return mk('prov', n, frozenset(lab), site)
    def model(self, st, ev):
        f = ev.callee
        if f is not None and getattr(f,'is_gen',False) and not self.relevant(f) and not any('contextmanager' in ev.interp._deco_name(d) for d in f.decos):
            return [(st.mon, self.prov(st, ev))]
    def opaque_value(self, st, ev):
        n = ev.name.rsplit('.',1)[-1]
        if n in PURE_EXT or ev.name in PURE_EXT or (ev.recv is not None and n in PURE_METH) or n in self.KEEP or ev.name in CONT_EXT: return None
        if ev.name in TRUTHY: return None
        return self.prov(st, ev)
