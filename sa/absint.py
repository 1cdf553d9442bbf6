"""ESP-style abstract interpreter for the Python subset bup uses.

Interprets function bodies over symbolic terms, following every branch and every
exception edge, inlining calls into repository functions, and feeding the events
(calls) to a rule's automaton.  States with the same automaton state are merged at
join points (property simulation), loops run to a fixpoint.  Nothing is executed.
"""
import ast, builtins, itertools, os
from .src import AnalysisError, own_nodes, Func

# ------------------------------------------------------------------ terms
# Terms are hash-consed tuples.
_intern = {}
_size = {}
MAXTERM = 400
def mk(*t):
    r = _intern.get(t)
    if r is not None: return r
    n = 1
    for x in t:
        if isinstance(x, tuple):
            n += _size.get(id(x), None) or _tsize(x)
        elif isinstance(x, frozenset):
            n += sum(_size.get(id(y), None) or _tsize(y) for y in x)
    if n > MAXTERM and t[0] not in ('phi','tuple','list'):
        t = ('big', hash(t) & 0xffffff)
        r = _intern.get(t)
        if r is not None: return r
        n = 1
    _intern[t] = t
    _size[id(t)] = n
    return t
def _tsize(x):
    n = 1
    for y in x:
        if isinstance(y, tuple): n += _size.get(id(y), None) or _tsize(y)
        elif isinstance(y, frozenset): n += sum(_size.get(id(z), None) or _tsize(z) for z in y)
    return n

TOP = mk('top')
with open(os.path.join(os.path.dirname(__file__), 'base_funcs.txt')) as _f: BASE_FUNCS = frozenset(_f.read().split())
def const(v):
    return mk('c', type(v).__name__, v)
EMPTY = mk('tuple', ())
NONE, TRUE, FALSE = const(None), const(True), const(False)
def sym(name): return mk('sym', name)
def is_const(t): return t[0]=='c'
_sites = {}
def site_id(*key):
    r = _sites.get(key)
    if r is None:
        r = len(_sites) + 1; _sites[key] = r
    return r

_nodeno = [0]
def nid(node):
    if node is None: return 0
    n = getattr(node, '_sid', None)
    if n is None:
        _nodeno[0] += 1
        n = node._sid = _nodeno[0]
    return n

def alts(t):
    if t[0]=='phi': return t[1]
    return (t,)
PHI_MAX = 8
def phi(ts):
    s = set()
    for t in ts:
        if t[0]=='phi': s |= t[1]
        else: s.add(t)
    if TOP in s: return TOP
    if len(s)==1: return next(iter(s))
    if any(t[0]=='nat' for t in s):
        n = natjoin(*s)
        if n is not None: return n
    if len(s) > PHI_MAX: return TOP
    return mk('phi', frozenset(s))

def subterms(t, seen=None):
    todo = [t]; seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, frozenset):
            todo.extend(x); continue
        if not isinstance(x, tuple): continue
        if id(x) in seen: continue
        seen.add(id(x))
        if x and isinstance(x[0], str) and x is _intern.get(x): yield x
        todo.extend(y for y in x if isinstance(y,(tuple,frozenset)))

def contains(t, pred):
    return any(pred(x) for x in subterms(t))

def contains_top(t): return any(x is TOP or isinstance(x, tuple) and x and x[0]=='nat' for x in subterms(t))

def show(t, d=4):
    if not isinstance(t, tuple): return repr(t)
    k = t[0] if t else ''
    if not isinstance(k, str): return '(' + ', '.join(show(x,d) for x in t) + ')'
    if k=='c': return repr(t[2])
    if k=='sym': return t[1]
    if k=='ext': return t[1]
    if k in ('fn',): return t[1].rsplit('.',1)[-1]
    if k=='cls': return t[1].rsplit('.',1)[-1]
    if k=='top': return '?'
    if d <= 0: return '..'
    if k=='call':
        return show(t[1],d-1) + '(' + ', '.join([show(x,d-1) for x in t[2]] + [f'{n}={show(v,d-1)}' for n,v in t[3]]) + ')'
    if k=='attr': return show(t[1],d-1)+'.'+t[2]
    if k=='bin': return '('+show(t[2],d-1)+t[1]+show(t[3],d-1)+')'
    if k=='cmp': return '('+show(t[2],d-1)+' '+t[1]+' '+show(t[3],d-1)+')'
    if k=='not': return 'not '+show(t[1],d-1)
    if k=='sub': return show(t[1],d-1)+'['+show(t[2],d-1)+']'
    if k=='phi': return '{'+' | '.join(sorted(show(x,d-1) for x in t[1]))+'}'
    if k in ('tuple','list'): return '('+', '.join(show(x,d-1) for x in t[1])+')'
    if k=='obj': return '<'+t[1].rsplit('.',1)[-1]+'>'
    if k=='elem': return 'elem('+show(t[1],d-1)+')'
    if k=='bm': return show(t[1],d-1)+'.'+t[2].rsplit('.',1)[-1]
    if k=='exc': return 'exc '+str(t[1])
    if k=='nat': return f'>={t[1]}'
    return k + '(' + ','.join(show(x,d-1) if isinstance(x,tuple) else '' for x in t[1:]) + ')'

# ------------------------------------------------------------------ states
class State:
    __slots__ = ('env','heap','facts','mon','trail')
    def __init__(self, env, heap, facts, mon, trail=None):
        self.env=env; self.heap=heap; self.facts=facts; self.mon=mon; self.trail=trail
    def fork(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.mon, self.trail)
    def with_mon(self, mon):
        s = self.fork(); s.mon = mon; return s
    def key(self):
        return (self.mon, frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()))
    def same(self, o):
        return self.mon==o.mon and self.env==o.env and self.heap==o.heap and self.facts==o.facts
    def trail_list(self):
        out=[]; t=self.trail
        while t: out.append(t[0]); t=t[1]
        return list(reversed(out))

UNBOUND = mk('unbound')
def nat(lo): return mk('nat', lo)
def _isint(t): return t[0]=='nat' or t[0]=='c' and t[1]=='int'
def natjoin(*ts):
    """An integer known only by its lower bound, or None."""
    lo = None
    for t in ts:
        for x in alts(t):
            if not _isint(x): return None
            v = x[1] if x[0]=='nat' else x[2]
            if lo is None or v < lo: lo = v
    return nat(lo) if lo is not None and lo >= 0 else None
def join_states(a, b):
    env = {}
    for k in a.env.keys() | b.env.keys():
        x, y = a.env.get(k), b.env.get(k)
        if x is None: x = UNBOUND
        if y is None: y = UNBOUND
        env[k] = x if x is y else phi((x, y))
    heap = {}
    for k in a.heap.keys() | b.heap.keys():
        x, y = a.heap.get(k), b.heap.get(k)
        if k[1]=='$seq': heap[k] = x if x is y else phi((x or EMPTY, y or EMPTY))
        elif k[1] in ('$ex','$others'): heap[k] = x if x is y or y is None else y if x is None else phi((x, y))
        elif k[1]=='$must':     # elements certainly contained: only what both agree on
            if x is not None and y is not None: heap[k] = x if x is y else mk('tuple', tuple(v for v in x[1] if v in y[1]))
            elif (k[0],'$ex') in a.heap and (k[0],'$ex') not in b.heap and x is not None: heap[k] = x     # the other never made it
            elif (k[0],'$ex') in b.heap and (k[0],'$ex') not in a.heap and y is not None: heap[k] = y
        elif x is None or y is None:
            # one side never wrote it: initial value or unallocated
            if k[0][0]=='obj' and k[0][2] not in ('root',) or k[1] in ('$keys','$vals'):
                heap[k] = x if y is None else y
            else:
                heap[k] = phi((x or mk('attr',k[0],k[1]), y or mk('attr',k[0],k[1])))
        else: heap[k] = x if x is y else phi((x, y))
    facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
    return State(env, heap, facts, a.mon, a.trail if len_trail(a) <= len_trail(b) else b.trail)

def len_trail(s):
    n=0; t=s.trail
    while t and n < 200: n+=1; t=t[1]
    return n

PARTS = 6
_PC = None
def _flagkey(states):
    """Variables in which some state holds True/False/None and another something else."""
    first = states[0].env; ks = []
    keys = set()
    for s in states: keys.update(s.env)
    for k in keys:
        if k[0] == '$': continue
        vs = {s.env.get(k) for s in states}
        if len(vs) > 1 and any(v is TRUE or v is FALSE or v is NONE for v in vs): ks.append(k)
    return ks
def merge(states, extra=None):
    """Merge states that share the automaton state; states that differ in a flag variable
    (True/False/None) stay apart, up to PARTS of them per automaton state."""
    if len(states) <= 1: return states
    groups = {}
    for s in states: groups.setdefault(s.mon, []).append(s)
    out = []
    for m, ss in groups.items():
        if len(ss) > 1:
            ks = _flagkey(ss)
            parts = {}
            for s in ss:
                parts.setdefault(tuple(v if v is TRUE or v is FALSE or v is NONE else 0 for v in (s.env.get(k) for k in ks)), []).append(s)
            if len(parts) > PARTS: parts = {0: ss}
            for ps in parts.values(): out.append(_joinall(ps))
        else: out.append(ss[0])
    return out
def _joinall(ss):
    g = ss[0]
    for s in ss[1:]:
        if not g.same(s): g = join_states(g, s)
    return g

def merge_vals(pairs):
    """Merge [(state,value)]: by automaton state and by the constant-ness of the value."""
    if len(pairs) <= 1: return pairs
    groups = {}
    for s, v in pairs:
        # constants and exceptions stay apart so that predicates keep their correlation
        k = (s.mon, v if v[0] in ('c',) and v[2] in (None, True, False) or v[0]=='exc' else 0)
        if k in groups:
            g, gv = groups[k]
            groups[k] = (g if g.same(s) else join_states(g, s), v if v is gv else phi((v, gv)))
        else: groups[k] = (s, v)
    return list(groups.values())

def is_unwrapped(it):
    return it[0]=='call' and it[1][0]=='ext' and it[1][1] in ('list','sorted','reversed','tuple','set','frozenset','iter') and len(it[2])>=1
class Out:
    __slots__=('normal','brk','cont','ret','exc')
    def __init__(self):
        self.normal=[]; self.brk=[]; self.cont=[]; self.ret=[]; self.exc=[]

class Event:
    __slots__=('name','recv','args','kw','node','func','interp','callee','frame')
    def __init__(self, **k):
        for x in self.__slots__: setattr(self, x, k.get(x))
    @property
    def where(self):
        return f'{self.func.mod.path}:{self.node.lineno}' if self.func else '?'
    def arg(self, i, kwname=None, default=None):
        for k, v in self.kw:
            if k == kwname and kwname is not None: return v
        if i is not None and i < len(self.args): return self.args[i]
        return default
    def all_terms(self):
        return list(self.args) + [v for _, v in self.kw]

CONT_EXT = {'dict','list','set','deque','collections.deque','collections.defaultdict','defaultdict','OrderedDict','collections.OrderedDict'}
PURE_EXT = {
 'len','isinstance','issubclass','bool','int','str','bytes','repr','min','max','abs','sum','tuple','frozenset','type','ord','chr',
 'hasattr','id','hash','range','float','round','divmod','bytearray','callable','format','all','any','sorted','getattr','zip','enumerate','reversed','slice','hex',
 'os.path.join','os.path.basename','os.path.dirname','os.path.split','os.path.splitext','os.path.normpath','os.path.isabs','os.path.commonprefix',
 'stat.S_ISDIR','stat.S_ISREG','stat.S_ISLNK','stat.S_ISFIFO','stat.S_ISSOCK','stat.S_ISCHR','stat.S_ISBLK','stat.S_IMODE','stat.S_IFMT',
 'struct.pack','struct.unpack','struct.calcsize','struct.unpack_from','binascii.hexlify','binascii.unhexlify','bytes.fromhex','os.fsencode','os.fsdecode',
 'zlib.crc32','operator.itemgetter','operator.attrgetter',
}
PURE_METH = {'encode','decode','startswith','endswith','strip','rstrip','lstrip','split','rsplit','join','hex','lower','upper','replace','partition','rpartition','format','count','find','rfind','index','ljust','rjust','zfill','isdigit'}
NORAISE_EXT = {'len','isinstance','bool','type','id','hasattr','callable','repr','frozenset','tuple','dict','set','list','range','zip','enumerate','reversed','sorted','print','super','object','bytes','min','max',
  'os.path.join','os.path.basename','os.path.dirname','os.path.split','os.path.splitext','os.path.normpath','os.path.isabs',
  'stat.S_ISDIR','stat.S_ISREG','stat.S_ISLNK','stat.S_ISFIFO','stat.S_ISSOCK','stat.S_ISCHR','stat.S_ISBLK','stat.S_IMODE','stat.S_IFMT',
  'contextlib.ExitStack','contextlib.nullcontext','sys.stdout.flush','sys.stderr.flush','sys.exc_info','time.time','os.getpid','collections.namedtuple','traceback.print_exc'}
NORAISE_METH = {'append','add','extend','discard','startswith','endswith','rstrip','strip','lstrip','split','rsplit','join','hex','lower','items','keys','values','copy','setdefault','insert','format','clear','reverse','rjust','ljust','partition','rpartition'}
BUILTIN_NAMES = set(dir(builtins))

TRUTHY = {'open','builtins.open','io.open','subprocess.Popen','subprocess.run','os.fdopen','tempfile.mkdtemp','tempfile.mkstemp','threading.Thread','socket.socket','os.stat','os.lstat','os.fstat','struct.pack'}
def exc_is(prog, name, handler):
    """Does exception class `name` match handler class `handler`? True/False/None(unknown)"""
    if name in ('$blocked','$protocol'): return False
    if handler in ('BaseException',): return True
    if name == '*':
        return None
    if name == handler: return True
    bases = set()
    if name in prog.classes:
        bases = prog.exc_bases(name)
        if handler in bases: return True
        exts = {b for b in bases if b not in prog.classes}
    else:
        exts = {name}
    h = getattr(builtins, handler, None) if handler in BUILTIN_NAMES else None
    for e in exts:
        if e == handler: return True
        c = getattr(builtins, e, None) if e in BUILTIN_NAMES else None
        if isinstance(c, type) and isinstance(h, type) and issubclass(c, h): return True
    if handler == 'Exception':
        # repo exceptions and builtin ones (not SystemExit & co) derive from Exception
        if name in ('SystemExit','KeyboardInterrupt','GeneratorExit','BaseException'): return False
        if name in prog.classes: return 'BaseException' not in exts or len(exts) > 1
        return True
    # a base-class instance could be a handler-class instance only if handler derives from it
    if isinstance(h, type) and name not in prog.classes:
        for e in exts:
            c = getattr(builtins, e, None) if e in BUILTIN_NAMES else None
            if isinstance(c, type) and issubclass(h, c) and e not in ('BaseException',): return None
    if handler in prog.classes and name in prog.exc_bases(handler): return None
    return False

class Rule:
    """Base class for rules driven by the interpreter."""
    initial = ()
    max_depth = 60
    widen_at = 2
    bounded_loops = False       # while loops are followed round by round: what they do is known to end
    collect = False                             # list(generator) etc. yields the exact elements when they are few
    norm = None                                 # norm(st, term): simplify the value of an expression
    def relevant(self, f): return True          # inline this function?
    def call(self, st, ev):                     # event: returns None or list of monitor states
        return None
    def call_raises(self, st, ev):
        """state of the automaton when the call raises; None: unchanged; () : does not raise"""
        return None
    def raises(self, ev, default): return default
    empty_lists = False       # a list display nothing was seen added to is empty
    exact = False             # follow the exact contents of small containers
    def decide(self, st, t): return None        # truth of a term the rule knows
    def iter_items(self, st, it): return None   # representative element(s) every iteration over `it` visits
    max_items = 20       # longest sequence followed item by item
    def unroll(self, f, args, depth): return False   # follow this recursive call instead of summarising it
    def rep_enter(self, st, it, v): return None # state of the automaton when the iteration reaches a representative
    def enter(self, st, f, ev): return None
    def leave(self, st, f, val): return None
    def model(self, st, ev):                    # override: list of (mon, value) or None
        return None
    def store_attr(self, st, obj, name, val, node, func): return None
    def on_raise(self, st, exc, node, func): return None
    def on_handler(self, st, exc, handler, func): return None
    def type_of(self, term): return None        # class quals (list) for an unknown receiver
    def opaque_value(self, st, ev): return None

class Interp:
    def __init__(self, prog, rule, hints=None, budget=400000):
        self.p = prog; self.rule = rule
        self.stack = []         # (Func, frame)
        self.steps = 0; self.budget = budget
        self.funcs_seen = {}    # qual -> times interpreted
        self.calls_seen = 0
        self.rec = {}           # recursion outcomes
        self.recdep = set()
        self.yields = []        # stack of yield handlers
        self.unresolved = {}
        self.hints = hints or {}
        self.modelled = 0

    # ---------------------------------------------------------- entry points
    def run(self, f, args=None, kwargs=None, selfobj=None, mon=None, frame='root', heap=None, env=None, facts=None):
        st = State(dict(env or {}), dict(heap or {}), dict(facts or {}), self.rule.initial if mon is None else mon)
        argv = []
        if args is None:
            args = [sym(f'{p}') for p in f.params[(1 if (selfobj is not None) else 0):]]
            kwargs = {k: sym(k) for k in f.kwonly}
            if f.vararg: pass
        pos = ([selfobj] if selfobj is not None else []) + list(args)
        R = []
        rets = self.invoke(f, None, pos, list((kwargs or {}).items()), st, R, None, None, top=True)
        return rets, merge_vals(R)

    def obj(self, clsqual, tag='root'):
        return mk('obj', clsqual, tag)

    # ---------------------------------------------------------- helpers
    def tick(self, node=None):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisError('step budget exhausted in %s (at %s)' % (
                self.stack[0][0].qual if self.stack else '?', ' > '.join(f.qual for f,_ in self.stack[-6:])))

    @property
    def fn(self): return self.stack[-1][0]
    @property
    def frame(self): return self.stack[-1][1]

    def chain(self):
        return [f.qual for f, _ in self.stack]

    def note(self, st, text):
        st.trail = (text, st.trail)

    # ---------------------------------------------------------- truth
    def decide(self, st, t):
        k = t[0]
        f = st.facts.get(t)
        if f is not None: return f
        if k=='c': return bool(t[2])
        if k in ('fn','cls','bm','mod','ext','exc','gen','exctype','exctb','xstack'): return True
        if k=='obj':
            c = t[1]
            if self.p.find_method(c,'__len__') or self.p.find_method(c,'__bool__'): return None
            return True
        if k=='tuple': return len(t[1])>0
        if k=='ntcls' or k=='nt' and t[2]: return True
        if k=='nat' and t[1] > 0: return True
        if self.musts(st, t): return True
        r = self.rule.decide(st, t)
        if r is not None: return r
        ex = self.ex_get(st, t)
        if ex is not None:
            ds = {bool(x) for x in ex}
            if len(ds)==1: return ds.pop()
            return None
        if k=='call' and t[1][0]=='ext' and t[1][1] in TRUTHY: return True
        if k=='not':
            d = self.decide(st, t[1]); return None if d is None else not d
        if k=='phi':
            ds = {self.decide(st, x) for x in t[1]}
            return ds.pop() if len(ds)==1 else None
        if k=='cmp':
            op, a, b = t[1], t[2], t[3]
            if op=='is':
                if a is b and a[0] in ('c','cls','ntcls'): return True
                if a[0] in ('cls','ntcls') and b[0] in ('cls','ntcls'): return False
                if b is NONE: return self.is_none(st, a)
                if a is NONE: return self.is_none(st, b)
                if a[0]=='c' and b[0]=='c': return a[2] is b[2] if type(a[2]) in (bool,type(None)) else None
            if op=='==':
                if a is b and a[0] in ('c','cls','ntcls'): return True
                if a[0] in ('cls','ntcls') and b[0] in ('cls','ntcls'): return False
                if self.rule.exact and self.concat_neq(a, b): return False
                if self.rule.exact and {a[0], b[0]} in ({'c','tuple'}, {'c','list'}, {'c','dict'}, {'c','lset'}, {'tuple','list'}): return False
                if a[0]=='c' and b[0]=='c': return a[2]==b[2]
                if a[0]=='phi' and b[0]=='c' and all(x[0]=='c' for x in a[1]):
                    ds={x[2]==b[2] for x in a[1]}
                    if len(ds)==1: return ds.pop()
                # known equal to another constant
                if b[0]=='c':
                    e = st.facts.get(mk('eqc', a))
                    if e is not None: return e == b
                if (a is NONE or b is NONE):
                    n = self.is_none(st, b if a is NONE else a)
                    if n is False: return False
            if op in ('<','<='):
                if a[0]=='c' and b[0]=='c':
                    try: return a[2]<b[2] if op=='<' else a[2]<=b[2]
                    except TypeError: return None
            if op=='in':
                if b[0]=='tuple' and a[0] in ('cls','ntcls') and all(x[0] in ('cls','ntcls') for x in b[1]): return a in b[1]
                if b[0] in ('tuple','list') and a[0]=='c' and all(x[0]=='c' for x in b[1]) and (b[0]=='tuple' or (b,'$vals') not in st.heap):
                    return a[2] in [x[2] for x in b[1]]
                ex = self.ex_get(st, b)
                if ex is not None:
                    ds = {self.ex_find(st, x, a) for x in ex}
                    ds = {d if d is None else d >= 0 for d in ds}
                    if len(ds)==1: return ds.pop()
                if a in self.musts(st, b): return True
                if b[0]=='phi' and all(a in self.musts(st, x) for x in b[1]): return True
            if op=='==' and _isint(a) and _isint(b) and (a[0]=='nat') != (b[0]=='nat'):
                lo, v = (a[1], b[2]) if a[0]=='nat' else (b[1], a[2])
                if v < lo: return False
            if op in ('<','<=') and _isint(a) and _isint(b):
                if b[0]=='nat' and a[0]=='c' and (a[2] < b[1] or op=='<=' and a[2] <= b[1]): return True
                if a[0]=='nat' and b[0]=='c' and (b[2] < a[1] or op=='<' and b[2] <= a[1]): return False
        if k=='call' and t[1]==mk('ext','isinstance') and len(t[2])==2:
            x = t[2][0]
            if x[0]=='phi':
                ds = {self.decide(st, mk('call', t[1], (y, t[2][1]), t[3], t[4])) for y in x[1]}
                return ds.pop() if len(ds)==1 else None
            if x[0]=='obj':
                cl = t[2][1]
                names = [c[1] for c in (cl[1] if cl[0]=='tuple' else (cl,)) if len(c)>1]
                return any(n in self.p.mro(x[1]) for n in names)
            if x is NONE: return False
        return None

    # exact contents of containers: heap key '$ex' -> tuple (or phi of tuples; anything else: unknown)
    def ex_get(self, st, t):
        if not self.rule.exact: return None
        if t[0]=='tuple': return [t[1]] if not any(x[0]=='star' for x in t[1]) else None
        x = st.heap.get((t,'$ex'))
        if x is None: return None
        al = alts(x)
        return [y[1] for y in al] if all(y[0]=='tuple' for y in al) else None
    def exact_seq(self, st, t):
        """The items of a sequence when they are known and in order, or None."""
        if t[0]=='tuple' or t[0]=='list' and not self.rule.exact: return t[1] if not any(x[0]=='star' for x in t[1]) else None
        if t[0] in ('list','comp') or t[0]=='call' and t[1][0]=='ext' and t[1][1] in ('list','sorted'):
            if t[0]=='comp' and t[1]!='list': return None
            ex = self.ex_get(st, t)
            if ex is not None and len(ex)==1: return ex[0]
            if t[0]=='list' and ex is None and (t,'$ex') not in st.heap and not any(x[0]=='star' for x in t[1]): return t[1]
        return None
    def known_items(self, st, it):
        """What an iterable made of known things goes over, or None."""
        if it[0]=='c' and isinstance(it[2], (str, bytes)):
            return tuple(const(x) for x in it[2]) if len(it[2]) <= self.rule.max_items else None
        if it[0]=='call' and it[1][0]=='ext' and it[2]:
            n = it[1][1]; a = it[2]
            if n=='range' and not it[3] and all(x[0]=='c' and isinstance(x[2], int) for x in a) and 1 <= len(a) <= 3 and not (len(a)==3 and a[2][2]==0):
                r = range(*[x[2] for x in a])
                return tuple(const(x) for x in r) if len(r) <= self.rule.max_items else None
            if n=='enumerate':
                q = self.known_items(st, a[0]); lo = a[1] if len(a) > 1 else dict(it[3]).get('start', const(0))
                if q is None or lo[0]!='c': return None
                return tuple(mk('tuple', (const(lo[2]+i), x)) for i, x in enumerate(q))
            if n=='zip' and not [k for k, _ in it[3] if k!='strict']:
                qs = [self.known_items(st, x) for x in a]
                return tuple(mk('tuple', x) for x in zip(*qs)) if all(q is not None for q in qs) else None
            if n=='reversed' and len(a)==1:
                q = self.known_items(st, a[0])
                return q[::-1] if q is not None else None
        return self.exact_seq(st, it)
    def ex_new(self, st, t, items):
        if not self.rule.exact: return st
        st = st.fork()
        st.heap[(t,'$ex')] = TOP if items is None or any(x[0]=='star' for x in items) else mk('tuple', tuple(items))
        return st
    def ex_map(self, s, t, fn):
        """Change the contents in place (s is already a private copy); fn: items -> items or None."""
        if not self.rule.exact or (t,'$ex') not in s.heap: return
        ex = self.ex_get(s, t)
        new = None if ex is None else [fn(x) for x in ex]
        s.heap[(t,'$ex')] = TOP if new is None or any(x is None or len(x) > self.rule.max_items for x in new) else phi([mk('tuple', tuple(x)) for x in new])
    @staticmethod
    def concat_parts(t):
        if t[0]=='bin' and t[1]=='Add': return Interp.concat_parts(t[2]) + Interp.concat_parts(t[3])
        return [t]
    def concat_neq(self, a, b):
        """Two byte strings that begin alike and end in different constants."""
        x, y = self.concat_parts(a), self.concat_parts(b)
        while x and y and x[0] is y[0]: x.pop(0); y.pop(0)
        if any(z[0]!='c' or not isinstance(z[2], (bytes, str)) for z in x + y) or not (x or y): return False
        try: return (x[0][2][:0] if x else y[0][2][:0]).join(z[2] for z in x) != (y[0][2][:0] if y else x[0][2][:0]).join(z[2] for z in y)
        except TypeError: return False
    def ex_eq(self, st, a, b):
        if a is b: return True if not contains_top(a) else None
        return self.decide(st, mk('cmp','==',a,b))
    def ex_find(self, st, items, v):
        """Index of v, -1 if certainly not there, None if unknown."""
        for i, x in enumerate(items):
            d = self.ex_eq(st, x, v)
            if d is True: return i
            if d is None: return None
        return -1
    def ex_add(self, st, unique, v):
        def f(items):
            if unique:
                i = self.ex_find(st, items, v)
                if i is None: return None
                if i >= 0: return items
            return items + (v,)
        return f
    def ex_del(self, st, v):
        def f(items):
            i = self.ex_find(st, items, v)
            if i is None: return None
            return items if i < 0 else items[:i] + items[i+1:]
        return f

    def musts(self, st, t):
        x = st.heap.get((t,'$must'))
        return x[1] if x is not None else ()
    def must_add(self, s, b, v):
        old = s.heap.get((b,'$must'), EMPTY)
        if v not in old[1] and len(old[1]) < 12: s.heap[(b,'$must')] = mk('tuple', old[1] + (v,))
    def renew(self, st, t):
        """A container display evaluated again: what the previous one certainly held is forgotten."""
        if (t,'$must') in st.heap or (t,'$seq') in st.heap:
            st = st.fork(); st.heap.pop((t,'$must'), None); st.heap.pop((t,'$seq'), None)
        return st

    def is_none(self, st, t):
        k = t[0]
        f = st.facts.get(mk('cmp','is',t,NONE))
        if f is not None: return f
        if k=='c': return t[2] is None
        if k in ('fn','cls','bm','mod','obj','tuple','list','dict','bin','gen','exc','cmp','not','fstr','lset','exctype','exctb','xstack','nat'): return False
        if k=='phi':
            ds = {self.is_none(st, x) for x in t[1]}
            return ds.pop() if len(ds)==1 else None
        if st.facts.get(t) is True: return False
        if k=='call' and t[1][0]=='ext' and (t[1][1] in PURE_EXT or t[1][1] in ('open','os.open','set','list','dict')) and t[1][1]!='getattr': return False
        return None

    def assume(self, st, t, val):
        """Refine st by (truth of t) == val. Returns state or None when contradictory."""
        d = self.decide(st, t)
        if d is not None:
            return st if d == val else None
        k = t[0]
        if k=='not': return self.assume(st, t[1], not val)
        s = st.fork()
        ex = self.ex_get(st, t)
        if ex is not None:
            s.heap[(t,'$ex')] = phi([mk('tuple', x) for x in ex if bool(x) == val]); return s
        if k=='phi':
            keep = [x for x in t[1] if self.decide(st, x) in (val, None)]
            if not keep: return None
            n = phi(keep)
            self._subst_eq(s, t, n)
            if len(keep)==1: return self.assume(s, n, val)
            if all(self.decide(st,x) is None for x in keep): s.facts[n]=val
            return s
        if k=='cmp' and t[1]=='is' and t[3] is NONE and t[2][0]=='phi':
            keep = [x for x in t[2][1] if self.is_none(st, x) in (val, None)]
            if not keep: return None
            n = phi(keep); self._subst_eq(s, t[2], n)
            if n[0]!='phi': return self.assume(s, mk('cmp','is',n,NONE), val)
            s.facts[mk('cmp','is',n,NONE)] = val
            return s
        if k=='call' and t[1]==mk('ext','isinstance') and len(t[2])==2 and t[2][0][0]=='phi':
            x = t[2][0]
            def iso(y): return mk('call', t[1], (y, t[2][1]), t[3], t[4])
            keep = [y for y in x[1] if self.decide(st, iso(y)) in (val, None)]
            if not keep: return None
            n = phi(keep); self._subst_eq(s, x, n)
            if n[0]!='phi': return self.assume(s, iso(n), val)
        if k=='cmp' and t[1] in ('==','in','<','<=','>','>='):
            for i, j in ((2, 3), (3, 2)):
                if t[i][0]=='phi' and (t[j][0]=='c' or t[1]=='in' and i==2 and t[j][0] in ('tuple','list','set')):
                    w = lambda x: mk('cmp', t[1], x, t[3]) if i==2 else mk('cmp', t[1], t[2], x)
                    keep = [x for x in t[i][1] if self.decide(st, w(x)) in (val, None)]
                    if not keep: return None
                    n = phi(keep); self._subst_eq(s, t[i], n)
                    if n[0]!='phi': return self.assume(s, w(n), val)
                    break
        s.facts[t] = val
        if k=='cmp' and t[1]=='==' and val and t[3][0]=='c':
            s.facts[mk('eqc', t[2])] = t[3]
        if k=='cmp' and t[1]=='is' and t[3] is NONE and val:
            s.facts[t[2]] = False
        if val and k not in ('cmp','not') :
            s.facts[mk('cmp','is',t,NONE)] = False
        return s

    def _subst_eq(self, st, old, new):
        for k, v in list(st.env.items()):
            if v is old: st.env[k] = new
        for k, v in list(st.heap.items()):
            if v is old: st.heap[k] = new

    def fresh(self, st, sid_pred_term):
        """A site is evaluated again: the previous value becomes 'prev', its facts die."""
        t = sid_pred_term
        hit = False
        for v in st.env.values():
            if v is t or self._has(v, t): hit = True; break
        if not hit:
            for v in st.heap.values():
                if v is t or self._has(v, t): hit = True; break
        fk = [k for k in st.facts if self._has(k, t)]
        if not hit and not fk: return st
        s = st.fork()
        for k in fk: del s.facts[k]
        if hit:
            memo = {}
            new = mk('prev', t)
            for k, v in list(s.env.items()):
                if self._has(v, t): s.env[k] = self._subst(v, t, new, memo)
            for k, v in list(s.heap.items()):
                if self._has(v, t): s.heap[k] = self._subst(v, t, new, memo)
        return s

    def forget(self, st, t):
        """t stands for another value now: what was known about it is void."""
        fk = [k for k in st.facts if self._has(k, t)]
        if not fk: return st
        s = st.fork()
        for k in fk: del s.facts[k]
        return s

    _hascache = {}
    def _has(self, v, t):
        if v is t: return True
        key = (id(v), id(t))
        r = Interp._hascache.get(key)
        if r is None:
            r = any(x is t for x in subterms(v)) if v[0]!='prev' or v[1] is not t else False
            if r:  # only inside prev does not count
                r = self._has_raw(v, t)
            Interp._hascache[key] = r
        return r
    def _has_raw(self, v, t):
        if v is t: return True
        if v and v[0]=='prev' and len(v)>1 and v[1] is t: return False
        for x in v:
            if isinstance(x, tuple) and self._has_raw(x, t): return True
            if isinstance(x, frozenset) and any(self._has_raw(y, t) for y in x): return True
        return False
    def _subst(self, v, t, new, memo):
        if v is t: return new
        if v is new: return v
        r = memo.get(id(v))
        if r is not None: return r
        parts = []; ch = False
        for x in v:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x is _intern.get(x):
                y = self._subst(x, t, new, memo); ch |= y is not x; parts.append(y)
            elif isinstance(x, tuple):
                y = tuple(self._subst2(z, t, new, memo) for z in x)
                if any(a is not b for a, b in zip(x, y)): ch = True; parts.append(y)
                else: parts.append(x)
            elif isinstance(x, frozenset):
                y = frozenset(self._subst(z, t, new, memo) for z in x); ch |= y != x; parts.append(y)
            else: parts.append(x)
        r = mk(*parts) if ch else v
        memo[id(v)] = r
        return r
    def _subst2(self, z, t, new, memo):
        if isinstance(z, tuple):
            if z and isinstance(z[0], str) and z is _intern.get(z): return self._subst(z, t, new, memo)
            y = tuple(self._subst2(w, t, new, memo) for w in z)
            return y if any(a is not b for a, b in zip(z, y)) else z
        return z

    # ---------------------------------------------------------- names
    def lookup(self, st, name):
        f, frame = self.stack[-1]
        fr, fn = frame, f
        while fn is not None:
            if name in fn.locals_ :
                v = st.env.get((fr, name))
                if v is None: return mk('sym', f'{fn.name}.{name}?')
                return v
            if name in fn.globals_: break
            par = self.parents.get(fr)
            if par is None:
                # closure frame unknown (analysed as root): outer variables are symbolic
                o = fn.outer
                while o is not None:
                    if name in o.locals_:
                        if name in o.nested: return mk('fn', o.nested[name][-1].qual, None)
                        return mk('sym', f'{o.name}.{name}')
                    o = o.outer
                break
            fr, fn = par
        # class scope is not visible from methods; module scope:
        return self.global_value(st, f.mod, name)
    parents = {}   # frame -> (parent frame, parent Func)

    def global_value(self, st, mod, name):
        v = st.env.get((('mod', mod.name), name))
        if v is not None: return v
        return self.static_global(mod.name, name)

    _gcache = {}
    def static_global(self, modname, name):
        key = (id(self.p), modname, name)
        if key in Interp._gcache: return Interp._gcache[key]
        Interp._gcache[key] = mk('glob', modname, name)
        rs = self.p.resolve_global(modname, name)
        if not rs:
            v = mk('ext', name) if name in BUILTIN_NAMES or modname not in self.p.mods else mk('glob', modname, name)
        else:
            vals = []
            for r in rs:
                if r[0]=='fn': vals.append(mk('fn', r[1], None))
                elif r[0]=='cls': vals.append(mk('cls', r[1]))
                elif r[0]=='mod': vals.append(mk('mod', r[1]))
                elif r[0]=='ext': vals.append(mk('ext', r[1]))
                elif r[0]=='expr':
                    m = self.p.mods[r[1]]
                    if name in m.mutated and r[1]==modname: vals.append(mk('glob', modname, name))
                    else: vals.append(self.static_expr(m, r[2], name))
                else: vals.append(mk('glob', modname, name))
            # conditional redefinition: None placeholders lose against real values
            real = [v for v in vals if v is not NONE]
            v = phi(real or vals)
        Interp._gcache[key] = v
        return v

    def static_expr(self, m, e, name):
        if isinstance(e, ast.Constant): return const(e.value)
        if isinstance(e, ast.Name): return self.static_global(m.name, e.id)
        if isinstance(e, ast.Attribute):
            b = self.static_expr(m, e.value, name)
            return self.static_attr(b, e.attr)
        if isinstance(e, ast.Tuple):
            return mk('tuple', tuple(self.static_expr(m, x, name) for x in e.elts))
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.static_expr(m, e.left, name), self.static_expr(m, e.right, name))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            x = self.static_expr(m, e.operand, name)
            if x[0]=='c': return const(-x[2])
        if isinstance(e, ast.Call):
            fv = self.static_expr(m, e.func, name)
            if fv == mk('ext','collections.namedtuple') and len(e.args)>=2:
                fl = e.args[1]
                if isinstance(fl,(ast.List,ast.Tuple)): fields = tuple(x.value for x in fl.elts)
                elif isinstance(fl, ast.Constant): fields = tuple(fl.value.replace(',',' ').split())
                else: fields = None
                if fields is not None: return mk('ntcls', f'{m.name}.{name}', fields)
            if fv[0] in ('ext','fn') and not e.keywords and len(e.args) <= 3:
                return mk('call', fv, tuple(self.static_expr(m, a, name) for a in e.args), (), site_id('static', m.name, e.lineno, e.col_offset))
        return mk('glob', m.name, name)

    def static_attr(self, b, attr):
        if b[0]=='mod': return self.static_global(b[1], attr)
        if b[0]=='ext': return mk('ext', f'{b[1]}.{attr}')
        return mk('attr', b, attr)

    def binop(self, op, a, b):
        n = type(op).__name__ if not isinstance(op, str) else op
        if a[0]=='c' and b[0]=='c':
            try:
                x, y = a[2], b[2]
                if n=='Add': return const(x+y)
                if n=='Sub': return const(x-y)
                if n=='Mult' and (isinstance(x,int) and isinstance(y,int)): return const(x*y)
                if n=='BitOr': return const(x|y)
                if n=='BitAnd': return const(x&y)
                if n=='LShift' and y < 80: return const(x<<y)
                if n=='RShift': return const(x>>y)
                if n=='Pow' and y < 80: return const(x**y)
                if n=='FloorDiv': return const(x//y)
            except Exception: pass
        if n=='Add' and _isint(a) and _isint(b):
            lo = (a[1] if a[0]=='nat' else a[2]) + (b[1] if b[0]=='nat' else b[2])
            if lo >= 0: return nat(lo)
        if n=='Add' and a[0] in('tuple',) and b[0] in ('tuple',): return mk('tuple', a[1]+b[1])
        if n=='Add' and a[0] in('list','tuple') and b[0] in ('list','tuple'): return mk('list', a[1]+b[1])
        if n in ('BitOr','BitAnd','BitXor') and repr(b) < repr(a) : a, b = b, a
        return mk('bin', n, a, b)

    # ---------------------------------------------------------- expressions
    def ev(self, e, st, R):
        """-> [(state, value)]; raising states are appended to R as (state, exc)."""
        self.tick(e)
        k = type(e).__name__
        m = getattr(self, 'ev_'+k, None)
        if m is None:
            return [(st, mk('other', site_id(self.frame, nid(e))))]
        return m(e, st, R)

    def ev_list(self, exprs, st, R):
        """Evaluate several expressions left to right -> [(state, [values])]"""
        outs = [(st, ())]
        for x in exprs:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(x, s, R): nxt.append((s2, vs+(v,)))
            if len(nxt) > 12:
                g = {}
                for s, vs in nxt:
                    if s.mon in g:
                        s0, v0 = g[s.mon]
                        g[s.mon] = (join_states(s0, s), tuple(phi((p,q)) for p,q in zip(v0, vs)))
                    else: g[s.mon] = (s, vs)
                nxt = list(g.values())
            outs = nxt
        return outs

    def ev_Constant(self, e, st, R): return [(st, const(e.value))]
    def ev_Name(self, e, st, R):
        return [(st, self.lookup(st, e.id))]
    def ev_NamedExpr(self, e, st, R):
        out = []
        for s, v in self.ev(e.value, st, R):
            out.append((self.assign(e.target, v, s, R), v))
        return out
    def ev_Tuple(self, e, st, R):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self._star_seq(e, st, R, 'tuple')
        return [(s, mk('tuple', vs)) for s, vs in self.ev_list(e.elts, st, R)]
    def ev_List(self, e, st, R):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self._star_seq(e, st, R, 'list')
        out = []
        for s, vs in self.ev_list(e.elts, st, R):
            t = mk('list', tuple(vs), site_id(self.frame, nid(e)))
            out.append((self.ex_new(self.renew(s, t), t, vs), t))
        return out
    def _star_seq(self, e, st, R, kind):
        outs=[]
        for s, vs in self.ev_list([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, R):
            items=[]; ok=True
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    q = self.exact_seq(s, v)
                    if q is not None: items.extend(q)
                    elif v[0] in ('tuple','list') and not self.rule.exact: items.extend(v[1])
                    else: items.append(mk('star', v))
                else: items.append(v)
            t = mk(kind, tuple(items), site_id(self.frame, nid(e))) if kind=='list' else mk(kind, tuple(items))
            if kind=='list' and self.rule.exact: s = self.ex_new(self.renew(s, t), t, items)
            outs.append((s, t))
        return outs
    def ev_Set(self, e, st, R):
        if not self.rule.exact: return [(s, mk('lset', vs)) for s, vs in self.ev_list(e.elts, st, R)]
        out = []
        for s, vs in self.ev_list(e.elts, st, R):
            t = mk('lset', vs, site_id(self.frame, nid(e)))
            s = self.ex_new(s, t, ())
            for v in vs: self.ex_map(s, t, self.ex_add(s, True, v))
            out.append((s, t))
        return out
    def ev_Dict(self, e, st, R):
        keys = [k for k in e.keys if k is not None]
        if len(keys) != len(e.keys):
            out = []
            for s, vs in self.ev_list([x for x in e.keys if x is not None] + list(e.values), st, R):
                ks = iter(vs[:len(keys)]); pairs = {}
                for k, v in zip(e.keys, vs[len(keys):]):
                    if k is not None: pairs[next(ks)] = v
                    elif v[0]=='dict' and (v,'$vals') not in s.heap and all(a[0]=='c' for a, _ in v[1]) and self.ex_get(s, v) in (None, [tuple(a for a, _ in v[1])]): pairs.update(v[1])
                    else: pairs = None; break
                if pairs is None: out.append((s, mk('other', site_id(self.frame,nid(e))))); continue
                t = mk('dict', tuple(pairs.items()), site_id(self.frame, nid(e)))
                out.append((self.ex_new(s, t, tuple(pairs)), t))
            return out
        n = len(keys)
        out = []
        for s, vs in self.ev_list(keys+list(e.values), st, R):
            t = mk('dict', tuple(zip(vs[:n], vs[n:])), site_id(self.frame, nid(e)))
            if self.rule.exact:
                s = self.ex_new(s, t, ())
                for v in vs[:n]: self.ex_map(s, t, self.ex_add(s, True, v))
            out.append((s, t))
        return out
    def ev_JoinedStr(self, e, st, R):
        parts = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        if self.rule.norm and all(v.conversion == -1 and v.format_spec is None for v in e.values if isinstance(v, ast.FormattedValue)):
            out = []
            for s, vs in self.ev_list(parts, st, R):
                it = iter(vs)
                t = mk('jstr', tuple(next(it) if isinstance(v, ast.FormattedValue) else const(v.value) for v in e.values))
                n = self.rule.norm(s, t)
                out.append((s, mk('fstr', vs) if n is t else n))
            return out
        return [(s, mk('fstr', vs)) for s, vs in self.ev_list(parts, st, R)]
    def ev_FormattedValue(self, e, st, R): return self.ev(e.value, st, R)
    def ev_Starred(self, e, st, R): return [(s, mk('star', v)) for s, v in self.ev(e.value, st, R)]
    def ev_Lambda(self, e, st, R):
        f = self.p.node_func.get(id(e))
        return [(st, mk('fn', f.qual, self.frame) if f else TOP)]
    def _grown(self, st, t):
        """A list literal together with what was appended to it so far."""
        if t[0]=='list' and (t,'$seq') in st.heap:
            q = st.heap[(t,'$seq')]
            return phi([mk('list', t[1]+x[1]) if x[0]=='tuple' and not any(y[0]=='star' for y in x[1]) else mk('bin','Add',mk('list',t[1]),x) for x in alts(q)])
        return t
    def ev_BinOp(self, e, st, R):
        out = []
        for s, vs in self.ev_list([e.left, e.right], st, R):
            if isinstance(e.op, ast.Add): vs = [self._grown(s, v) for v in vs]
            if self.rule.exact and isinstance(e.op, ast.BitOr) and all(x[0]=='lset' or x[0]=='call' and x[1][0]=='ext' and x[1][1] in ('set','frozenset') for x in vs):
                ex = [self.ex_get(s, x) for x in vs]
                if all(x is not None and len(x)==1 for x in ex):
                    t = mk('lset', ex[0][0] + ex[1][0], site_id(self.frame, nid(e)))
                    s = self.ex_new(self.renew(s, t), t, ())
                    for y in t[1]: self.ex_map(s, t, self.ex_add(s, True, y))
                    out.append((s, t)); continue
            v = self.map2(lambda a, b: self.binop(e.op, a, b), vs[0], vs[1])
            out.append((s, self.rule.norm(s, v) if self.rule.norm else v))
        return out
    def map2(self, fn, a, b):
        if any(x[0]!='c' for x in alts(a)) or any(x[0]!='c' for x in alts(b)): return fn(a, b)
        if a[0]=='phi' and len(a[1])<=4 and b[0]!='phi': return phi([fn(x, b) for x in a[1]])
        if b[0]=='phi' and len(b[1])<=4 and a[0]!='phi': return phi([fn(a, x) for x in b[1]])
        return fn(a, b)
    def ev_UnaryOp(self, e, st, R):
        out=[]
        if isinstance(e.op, ast.Not):
            for s, v in self.ev(e.operand, st, R):
                d = self.decide(s, v)
                if d is not None: out.append((s, FALSE if d else TRUE))
                elif v[0]=='obj':
                    T, F = self.branch(e.operand, st, R)
                    return [(s, FALSE) for s in T] + [(s, TRUE) for s in F]
                else: out.append((s, v[1] if v[0]=='not' and v[1][0] in ('cmp','not') else mk('not', v)))
            return out
        for s, v in self.ev(e.operand, st, R):
            if isinstance(e.op, ast.USub) and v[0]=='c' and isinstance(v[2], (int,float)): out.append((s, const(-v[2])))
            elif isinstance(e.op, ast.Invert) and v[0]=='c' and isinstance(v[2], int): out.append((s, const(~v[2])))
            else: out.append((s, mk('un', type(e.op).__name__, v)))
        return out
    def ev_BoolOp(self, e, st, R):
        is_and = isinstance(e.op, ast.And)
        outs = []; cur = [(st, None)]
        for i, x in enumerate(e.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(x, s, R):
                    if i == len(e.values)-1: outs.append((s2, v)); continue
                    t = self.assume(s2, v, True); f = self.assume(s2, v, False)
                    if is_and:
                        if t is not None: nxt.append((t, v))
                        if f is not None: outs.append((f, self.narrow(f, v, False)))
                    else:
                        if f is not None: nxt.append((f, v))
                        if t is not None: outs.append((t, self.narrow(t, v, True)))
            cur = nxt
        return merge_vals(outs)
    def narrow(self, st, v, val):
        if v[0]=='phi':
            keep=[x for x in v[1] if self.decide(st,x) in (val,None)]
            return phi(keep) if keep else v
        if v[0] in ('cmp','not') : return TRUE if val else FALSE
        return v
    def ev_IfExp(self, e, st, R):
        T, F = self.branch(e.test, st, R)
        out = []
        for s in T: out += self.ev(e.body, s, R)
        for s in F: out += self.ev(e.orelse, s, R)
        return merge_vals(out)
    def cmpterm(self, op, a, b):
        """-> (term, negated)"""
        n = type(op).__name__
        if n in ('Is','IsNot'):
            if a is NONE: a, b = b, a
            return mk('cmp','is',a,b), n=='IsNot'
        if n in ('Eq','NotEq'):
            if a[0]=='c' and b[0]!='c': a, b = b, a
            elif (a[0]=='c') == (b[0]=='c') and repr(b) < repr(a): a, b = b, a
            return mk('cmp','==',a,b), n=='NotEq'
        if n in ('In','NotIn'): return mk('cmp','in',a,b), n=='NotIn'
        if n=='Lt': return mk('cmp','<',a,b), False
        if n=='Gt': return mk('cmp','<',b,a), False
        if n=='LtE': return mk('cmp','<',b,a), True
        if n=='GtE': return mk('cmp','<',a,b), True
        return mk('cmp',n,a,b), False
    def ev_Compare(self, e, st, R):
        T, F = self.branch(e, st, R, want_val=True)
        return merge_vals([(s, v) for s, v in T] )
    def ev_Attribute(self, e, st, R):
        out = []
        for s, b in self.ev(e.value, st, R):
            out += self.getattr(s, b, e.attr, R, e)
        return out
    def ev_Subscript(self, e, st, R):
        out = []
        for s, vs in self.ev_list([e.value, e.slice], st, R):
            out += self.getitem(s, vs[0], vs[1], e, R)
        return out
    def getitem(self, s, b, i, e, R):
        if b[0]=='phi' and len(b[1])<=4 and i[0]=='c':
            return merge_vals([x for y in b[1] for x in self.getitem(s, y, i, e, R)])
        if b[0] in ('tuple','list') and i[0]=='c' and isinstance(i[2], int) and not any(x[0]=='star' for x in b[1]) \
           and (b[0]=='tuple' or (b,'$seq') not in s.heap or i[2] >= 0 and all(x[0]=='tuple' for x in alts(s.heap[(b,'$seq')]))):
            if -len(b[1]) <= i[2] < len(b[1]): return [(s, b[1][i[2]])]
        if b[0]=='tuple' and i[0]=='slice' and all(x[0]=='c' for x in i[1:]) and not any(x[0]=='star' for x in b[1]):
            return [(s, mk('tuple', b[1][slice(*[x[2] for x in i[1:]])]))]
        if b[0]=='dict' and i[0]=='c' and (b,'$vals') not in s.heap:
            for k, v in b[1]:
                if k is i: return [(s, v)]
        if self.rule.exact and b[0] in ('list','comp','call') and isinstance(e.ctx, ast.Load):
            q = self.exact_seq(s, b)
            if q is not None and i[0]=='c' and isinstance(i[2], int) and -len(q) <= i[2] < len(q): return [(s, q[i[2]])]
            if q is not None and i[0]=='slice' and all(x[0]=='c' for x in i[1:]):
                part = tuple(q[slice(*[x[2] for x in i[1:]])])
                t = mk('list', part, site_id(self.frame, nid(e)))
                return [(self.ex_new(self.renew(s, t), t, part), t)]
        if i[0] != 'slice' and isinstance(e.ctx, ast.Load):
            cv = self.cont_vals(s, b)
            if cv: return [(s, phi(cv))]
        if b[0]=='nt' and i[0]=='c' and isinstance(i[2], int) and i[2] < len(b[3]): return [(s, b[3][i[2]])]
        if b[0]=='obj':
            m = self.p.find_method(b[1], '__getitem__')
            if m is not None and isinstance(e.ctx, ast.Load):
                return self.call_value(s, mk('bm', b, m.qual), (i,), (), e, R)
        ev = Event(name='[]', recv=b, args=(i,), kw=(), node=e, func=self.fn, interp=self, callee=None, frame=self.frame)
        r = self.rule.call(s, ev)
        if r is not None:
            return [(s.with_mon(m), mk('sub', b, i)) for m in r]
        t = mk('sub', b, i)
        return [(s, self.rule.norm(s, t) if self.rule.norm else t)]
    def ev_Slice(self, e, st, R):
        have = [x for x in (e.lower, e.upper, e.step) if x is not None]
        out = []
        for s, vs in self.ev_list(have, st, R):
            it = iter(vs)
            out.append((s, mk('slice', *[next(it) if x is not None else NONE for x in (e.lower, e.upper, e.step)])))
        return out
    def ev_ListComp(self, e, st, R): return self.comp(e, st, R, 'list', [e.elt])
    def ev_SetComp(self, e, st, R): return self.comp(e, st, R, 'set', [e.elt])
    def ev_DictComp(self, e, st, R): return self.comp(e, st, R, 'dict', [e.key, e.value])
    def ev_GeneratorExp(self, e, st, R): return self.comp(e, st, R, 'genx', [e.elt])
    def comp(self, e, st, R, kind, elts):
        vals = []; others = []
        base = self.rep_stage; tmp = mk('comptmp', site_id(self.frame, nid(e)))
        if (tmp,'$must') in st.heap: st = st.fork(); del st.heap[(tmp,'$must')]
        ibase = self.inexact
        if self.rule.exact: st = self.ex_new(st, tmp, ())
        def rec(gi, s):
            if gi == len(e.generators):
                outs=[]
                for s2, vs in self.ev_list(elts, s, R):
                    vals.append(vs)
                    if self.rep_stage <= base: others.append(vs)
                    if self.rep_stage > base:
                        s2 = s2.fork(); self.must_add(s2, tmp, vs[0])
                    if self.rule.exact:
                        s2 = s2.fork()
                        self.ex_map(s2, tmp, (lambda items: None) if self.inexact > ibase else self.ex_add(s2, kind in ('set','dict'), vs[0]))
                    outs.append(s2)
                return outs
            g = e.generators[gi]
            outs = []
            for s2, it in self.ev(g.iter, s, R):
                def body(s3, v):
                    o = Out()
                    s4 = self.assign(g.target, v, s3, R)
                    live = [s4]
                    for c in g.ifs:
                        nl=[]
                        for x in live:
                            T, F = self.branch(c, x, R)
                            nl += T; o.normal += F
                        live = nl
                    for x in live: o.normal += rec(gi+1, x)
                    return o
                o = self.iterate(s2, it, body, R, e); R.extend(o.exc)
                outs += o.normal
            return merge(outs)
        res = rec(0, st)
        flat = []
        for v in vals:
            if v not in flat: flat.append(v)
        el = tuple(phi([v[i] for v in flat]) if flat else TOP for i in range(len(elts)))
        t = mk('comp', kind, el, site_id(self.frame, nid(e)))
        out = []
        for s in res:
            s = self.renew(s, t)
            if (tmp,'$must') in s.heap:
                s = s.fork(); s.heap[(t,'$must')] = s.heap.pop((tmp,'$must'))
                if self.rule.exact and kind != 'dict': s.heap[(t,'$others')] = phi([v[0] for v in others]) if others else TOP
            if (tmp,'$ex') in s.heap:
                s = s.fork(); s.heap[(t,'$ex')] = s.heap.pop((tmp,'$ex'))
            out.append((s, t))
        return out
    def ev_Yield(self, e, st, R):
        out = []
        vals = self.ev(e.value, st, R) if e.value is not None else [(st, NONE)]
        for s, v in vals: out += self.do_yield(s, v, R, e)
        return out
    def ev_YieldFrom(self, e, st, R):
        out = []
        for s, v in self.ev(e.value, st, R):
            def body(s2, x):
                o = Out()
                o.normal += [q for q, _ in self.do_yield(s2, x, o.exc, e)]
                return o
            o = self.iterate(s, v, body, R, e); R.extend(o.exc)
            out += [(x, TOP) for x in o.normal]
        return out
    def do_yield(self, s, v, R, e):
        h = self.yields[-1] if self.yields else None
        if h is None:
            return [(s, mk('sent', site_id(self.frame, nid(e))))]
        # the consumer runs in its own context
        saved_stack, saved_y = self.stack, self.yields
        self.stack = h[1]; self.yields = h[2]
        try: resumed, thrown = h[0](s, v)
        finally: self.stack, self.yields = saved_stack, saved_y
        R.extend(thrown)
        return [(x, mk('sent', site_id(self.frame, nid(e)))) for x in resumed]
    def ev_Await(self, e, st, R): return self.ev(e.value, st, R)

    # ---------------------------------------------------------- attributes
    def deco_attr(self, qual, name):
        """The constant a decorator of the function stores in this attribute of it, or None."""
        f = self.p.funcs.get(qual)
        for d in f.decos if f is not None else ():
            for g in f.mod.globals_.get(d.id, ()) if isinstance(d, ast.Name) else ():
                h = self.p.funcs.get(g[1]) if g[0]=='def' else None
                for n in ast.walk(h.node) if h is not None and h.params else ():
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr==name and isinstance(t.value, ast.Name) and t.value.id==h.params[0]: return const(n.value.value)
        return None
    def getattr(self, st, b, name, R, node):
        k = b[0]
        if k=='phi':
            out=[]
            for x in sorted(b[1], key=repr):
                out += self.getattr(st, x, name, R, node)
            return merge_vals(out)
        if k=='c' and b[2] is None:
            return [(st, mk('attr', b, name))]
        if k=='mod': return [(st, self.global_value(st, self.p.mods[b[1]], name))]
        if name=='args' and k=='exc' and b[2] and b[1] != '*' and not b[1].startswith('$'): return [(st, mk('tuple', b[2]))]
        if name=='__name__' and (k in ('ntcls','cls') or k=='ext' and hasattr(builtins, b[1])): return [(st, const(b[1].rsplit('.',1)[-1]))]
        if k=='ext': return [(st, mk('ext', f'{b[1]}.{name}'))]
        hv = st.heap.get((b, name))
        if hv is not None: return [(st, hv)]
        if k=='obj':
            m = self.p.find_method(b[1], name)
            if m is not None:
                for d in m.decos:
                    if isinstance(d, ast.Name) and d.id=='property':
                        return self.call_value(st, mk('bm', b, m.qual), (), (), node, R)
                    if isinstance(d, ast.Name) and d.id=='staticmethod':
                        return [(st, mk('fn', m.qual, None))]
                    if isinstance(d, ast.Name) and d.id=='classmethod':
                        return [(st, mk('bm', mk('cls', b[1]), m.qual))]
                return [(st, mk('bm', b, m.qual))]
            c = self.p.find_const(b[1], name)
            if c is not None: return [(st, self.static_expr(c[0].mod, c[1], f'{c[0].name}.{name}'))]
            return [(st, self.lazy_field(b, name))]
        if k=='cls':
            m = self.p.find_method(b[1], name)
            if m is not None:
                for d in m.decos:
                    if isinstance(d, ast.Name) and d.id=='classmethod':
                        return [(st, mk('bm', b, m.qual))]
                return [(st, mk('fn', m.qual, None))]
            c = self.p.find_const(b[1], name)
            if c is not None: return [(st, self.static_expr(c[0].mod, c[1], f'{c[0].name}.{name}'))]
            if f'{b[1]}.{name}' in self.p.classes: return [(st, mk('cls', f'{b[1]}.{name}'))]
        if k=='super':
            m = self.p.find_method(b[2][1] if b[2][0]=='obj' else b[1], name, after=b[1])
            if m is not None: return [(st, mk('bm', b[2], m.qual))]
            return [(st, mk('ext', 'object.'+name))]
        if k=='nt':
            if name in b[2]: return [(st, b[3][b[2].index(name)])]
        if k in ('fn','bm'):
            v = self.deco_attr(b[1] if k=='fn' else b[2], name)
            if v is not None: return [(st, v)]
        ts = self.rule.type_of(b)
        if ts:
            objs = [mk('obj', t, ('typed', b)) for t in ts]
            return self.getattr(st, phi(objs), name, R, node)
        return [(st, mk('attr', b, name))]

    _ftypes = {}
    def lazy_field(self, b, name):
        """Unknown field of an object: typed by the constructor calls assigned to it in its class."""
        key = (id(self.p), b[1], name)
        r = Interp._ftypes.get(key)
        if r is None:
            cl = set(); other = False
            for q in self.p.mro(b[1]):
                c = self.p.classes[q]
                for meth in c.methods.values():
                    for n in own_nodes(meth.node):
                        if isinstance(n, ast.Assign):
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and t.attr==name and isinstance(t.value, ast.Name) and t.value.id=='self':
                                    if isinstance(n.value, ast.Call):
                                        x = self.p.resolve_expr(c.mod, n.value.func)
                                        if x and x[0]=='cls': cl.add(x[1]); continue
                                    if isinstance(n.value, ast.Constant) and n.value.value is None: continue
                                    other = True
            r = sorted(cl) if not other else []
            Interp._ftypes[key] = r
        if len(r)==1: return mk('obj', r[0], ('field', b, name))
        return mk('attr', b, name)

    # ---------------------------------------------------------- branching
    def branch(self, e, st, R, want_val=False):
        """-> (true states, false states); with want_val: ([(state,value)], [])"""
        self.tick(e)
        if want_val or isinstance(e, ast.Compare):
            if isinstance(e, ast.Compare):
                return self.branch_cmp(e, st, R, want_val)
        if isinstance(e, ast.BoolOp):
            T, F, cur = [], [], [st]
            is_and = isinstance(e.op, ast.And)
            for i, x in enumerate(e.values):
                nt, nf = [], []
                for s in cur:
                    t, f = self.branch(x, s, R)
                    nt += t; nf += f
                if is_and: F += nf; cur = nt
                else: T += nt; cur = nf
            if is_and: T = cur
            else: F = cur
            return self.dedup(T), self.dedup(F)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            T, F = self.branch(e.operand, st, R)
            return F, T
        T, F = [], []
        for s, v in self.ev(e, st, R):
            if v[0]=='obj' and self.decide(s, v) is None:
                m = self.p.find_method(v[1],'__bool__') or self.p.find_method(v[1],'__len__')
                if m is not None:
                    for s2, r in self.call_value(s, mk('bm', v, m.qual), (), (), e, R):
                        t = self.assume(s2, r, True); f = self.assume(s2, r, False)
                        if t is not None: T.append(t)
                        if f is not None: F.append(f)
                    continue
            t = self.assume(s, v, True); f = self.assume(s, v, False)
            if t is not None: T.append(t)
            if f is not None: F.append(f)
        return T, F

    def dedup(self, states):
        if len(states) <= 3: return states
        return merge(states)

    def branch_cmp(self, e, st, R, want_val):
        outs = self.ev_list([e.left] + e.comparators, st, R)
        T, F, V = [], [], []
        for s, vs in outs:
            cur = s; ok = True
            terms = []
            for i, op in enumerate(e.ops):
                terms.append(self.cmpterm(op, vs[i], vs[i+1]))
            if want_val:
                if len(terms)==1:
                    t, neg = terms[0]
                    d = self.decide(s, t)
                    if d is not None: V.append((s, TRUE if d != neg else FALSE))
                    else: V.append((s, mk('not', t) if neg else t))
                else: V.append((s, mk('and', tuple(mk('not',t) if n else t for t, n in terms))))
                continue
            for t, neg in terms:
                f = self.assume(cur, t, neg)
                if f is not None: F.append(f)
                n = self.assume(cur, t, not neg)
                if n is None: ok = False; break
                cur = n
            if ok: T.append(cur)
        if want_val: return V, []
        return T, F

    # ---------------------------------------------------------- calls
    def ev_Call(self, e, st, R):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id=='super' and not e.args:
            f = self.fn
            while f is not None and f.cls is None: f = f.outer
            if f is not None:
                return [(st, mk('super', f.cls.qual, self.lookup(st, f.params[0])))]
        out = []
        for s, fv in self.ev(e.func, st, R):
            argx = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            kwx = [k.value for k in e.keywords]
            for s2, vs in self.ev_list(argx + kwx, s, R):
                args = []
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        q = self.exact_seq(s2, v)
                        if q is not None: args.extend(q)
                        elif not self.rule.exact and v[0] in ('tuple','list') and not any(x[0]=='star' for x in v[1]): args.extend(v[1])
                        else: args.append(mk('star', v))
                    else: args.append(v)
                kws = []
                for kx, v in zip(e.keywords, vs[len(e.args):]):
                    if kx.arg is None:
                        if v[0]=='dict' and all(k[0]=='c' for k,_ in v[1]): kws.extend((k[2], x) for k, x in v[1])
                        else: kws.append(('**', v))
                    else: kws.append((kx.arg, v))
                out += self.call_value(s2, fv, tuple(args), tuple(kws), e, R)
        return merge_vals(out) if len(out) > 3 else out

    def call_value(self, st, fv, args, kw, node, R):
        self.calls_seen += 1
        k = fv[0]
        if k=='phi':
            out=[]
            for x in sorted(fv[1], key=repr): out += self.call_value(st, x, args, kw, node, R)
            return merge_vals(out)
        if k=='fn':
            return self.call_func(st, self.p.funcs[fv[1]], fv[2], args, kw, node, R, None)
        if k=='bm':
            return self.call_func(st, self.p.funcs[fv[2]], None, (fv[1],)+tuple(args), kw, node, R, fv[1])
        if k=='cls': return self.instantiate(st, fv[1], args, kw, node, R)
        if k=='ntcls':
            fields = fv[2]; vals = list(args) + [NONE]*(len(fields)-len(args))
            for n, v in kw:
                if n in fields: vals[fields.index(n)] = v
            return [(st, mk('nt', fv[1], fields, tuple(vals)))]
        if k=='obj':
            m = self.p.find_method(fv[1], '__call__')
            if m is not None: return self.call_func(st, m, None, (fv,)+tuple(args), kw, node, R, fv)
        if k=='attr':
            return self.method_call(st, fv[1], fv[2], args, kw, node, R, fv)
        if k=='ext':
            return self.ext_call(st, fv[1], args, kw, node, R, fv)
        if k=='partial': return self.call_value(st, fv[1], fv[2]+tuple(args), fv[3]+tuple(kw), node, R)
        return self.opaque(st, show(fv,3), None, args, kw, node, R, fv)

    def instantiate(self, st, q, args, kw, node, R):
        c = self.p.classes[q]
        o = mk('obj', q, site_id(self.frame, nid(node)))
        ev = Event(name=q, recv=None, args=args, kw=kw, node=node, func=self.fn, interp=self, callee=c, frame=self.frame)
        m = self.rule.model(st, ev)
        if m is not None: return self.modelled_results(st, m, R)
        # exceptions
        if self._is_exc(q):
            return [(st, mk('exc', q, tuple(args)))]
        sts = [st]
        r = self.rule.call(st, ev)
        if r is not None: sts = [st.with_mon(x) for x in r]
        out = []
        init = self.p.find_method(q, '__init__')
        for s in sts:
            s = s.fork()
            # forget fields of an earlier object from the same site
            for key in [k for k in s.heap if k[0] is o]: del s.heap[key]
            if init is not None:
                for s2, _ in self.call_func(s, init, None, (o,)+tuple(args), kw, node, R, o): out.append((s2, o))
            elif any('dataclass' in self._deco_name(d) for qq in self.p.mro(q) for d in self.p.classes[qq].decos):
                fields=[]
                for qq in reversed(self.p.mro(q)):
                    for t in self.p.classes[qq].node.body:
                        if isinstance(t, ast.AnnAssign) and t.target.id not in fields: fields.append(t.target.id)
                for i, f in enumerate(fields):
                    if i < len(args): s.heap[(o,f)] = args[i]
                    else:
                        for n, v in kw:
                            if n==f: s.heap[(o,f)] = v; break
                        else:
                            d = self.p.find_const(q, f)
                            if d is not None and d[1] is not None: s.heap[(o,f)] = self.static_expr(d[0].mod, d[1], f)
                pi = self.p.find_method(q, '__post_init__')
                if pi is not None:
                    for s2, _ in self.call_func(s, pi, None, (o,), (), node, R, o): out.append((s2, o))
                else: out.append((s, o))
            else: out.append((s, o))
        return out
    def _deco_name(self, d):
        if isinstance(d, ast.Call): d = d.func
        if isinstance(d, ast.Attribute): return d.attr
        return getattr(d, 'id', '')
    def _is_exc(self, q):
        b = self.p.exc_bases(q)
        return any(x in BUILTIN_NAMES and isinstance(getattr(builtins,x,None), type) and issubclass(getattr(builtins,x), BaseException) for x in b)

    def bind(self, f, args, kw, st, R, frame):
        env = {}
        args = list(args)
        star = [a for a in args if a[0]=='star']
        np = len(f.params)
        if star:
            i = args.index(star[0])
            for p, a in zip(f.params, args[:i]): env[p] = a
            for j, p in enumerate(f.params[i:]): env[p] = mk('sub', star[0][1], const(j))
            if f.vararg: env[f.vararg] = mk('other', 'args')
        else:
            for p, a in zip(f.params, args): env[p] = a
            if f.vararg: env[f.vararg] = mk('tuple', tuple(args[np:]))
            elif len(args) > np: return None
        extra = []
        for n, v in kw:
            if n=='**':
                for p in f.params + f.kwonly:
                    env.setdefault(p, mk('sub', v, const(p)))
            elif n in f.params or n in f.kwonly: env[n] = v
            else: extra.append((const(n), v))
        if f.kwarg: env[f.kwarg] = mk('dict', tuple(extra), 0)
        elif extra: return None
        return env

    def call_func(self, st, f, cframe, args, kw, node, R, recv):
        ev = Event(name=f.qual, recv=recv, args=args[1:] if (f.cls is not None and recv is not None) else args, kw=kw, node=node, func=self.fn if self.stack else f, interp=self, callee=f, frame=self.frame if self.stack else None)
        m = self.rule.model(st, ev)
        if m is not None:
            return self.modelled_results(st, m, R)
        if f.qual == 'bup.helpers.die_if_errors' and False: pass
        r = self.rule.call(st, ev)
        sts = [st] if r is None else [st.with_mon(x) for x in r]
        out = []
        for s in sts:
            if f.is_gen:
                fr = site_id('frame', self.frame if self.stack else 0, nid(node), f.qual)
                env = self.bind(f, args, kw, s, R, fr)
                if env is None and self.rule.exact:
                    R.append((s, mk('exc','TypeError',(const('bad arguments for '+f.qual),)))); continue
                g = mk('gen', f.qual, fr, tuple(sorted((env or {}).items())), cframe)
                if any('contextmanager' in self._deco_name(d) for d in f.decos): g = mk('gencm', g)
                out.append((s, g)); continue
            if not self.relevant(f) or len(self.stack) > self.rule.max_depth:
                out += self.opaque(s, f.qual, recv, ev.args, kw, node, R, mk('fn', f.qual, None), f=f, emitted=True)
                continue
            out += self.invoke(f, cframe, args, kw, s, R, node, ev)
        return out

    def invoke(self, f, cframe, args, kw, st, R, node, ev, top=False):
        # recursion
        if any(g is f for g, _ in self.stack) and not self.rule.unroll(f, args, sum(g is f for g, _ in self.stack)):
            key = (f.qual, st.mon)
            self.recdep.add(key)
            outs = self.rec.get(key)
            if outs is None:
                self.rec[key] = set(); outs = self.rec[key]
            res = []
            for kind, m in sorted(outs, key=repr):
                if kind=='ret': res.append((st.with_mon(m), mk('call', mk('fn', f.qual, None), tuple(args), tuple(kw), site_id(self.frame, nid(node)))))
                else: R.append((st.with_mon(m), mk('exc', '*', ())))
            return res
        frame = site_id('frame', self.frame if self.stack else 0, nid(node) if node is not None else 0, f.qual)
        if cframe is not None and f.outer is not None:
            Interp.parents[frame] = (cframe, f.outer)
        else: Interp.parents[frame] = None
        env = self.bind(f, args, kw, st, R, frame)
        if env is None:
            R.append((st, mk('exc','TypeError',(const('bad arguments for '+f.qual),))))
            self.unresolved['bad-args '+f.qual] = self.unresolved.get('bad-args '+f.qual,0)+1
            return []
        key = (f.qual, st.mon)
        for it in range(6):
            self.recdep.discard(key)
            s = st.fork()
            for kk in [k for k in s.env if k[0] is frame or k[0]==frame]: del s.env[kk]
            for p, v in env.items(): s.env[(frame, p)] = v
            R2 = []
            saved_stack = self.stack
            self.stack = saved_stack + [(f, frame)]
            if len(self.stack) > 150: raise AnalysisError('inlining too deep: ' + ' > '.join(g.qual for g,_ in self.stack[-8:]))
            self.funcs_seen[f.qual] = self.funcs_seen.get(f.qual, 0) + 1
            try:
                # defaults (definition-time values)
                for p, d in list(f.defaults.items()) + list(f.kwdefaults.items()):
                    if (frame, p) not in s.env or p not in env:
                        vs = self.ev(d, s, [])
                        s = vs[0][0]
                        s.env[(frame, p)] = vs[0][1]
                for p in f.params + f.kwonly:
                    if (frame, p) not in s.env: s.env[(frame, p)] = sym(p)
                self.rule.enter(s, f, ev)
                if f.is_lambda:
                    rets = self.ev(f.node.body, s, R2)
                else:
                    o = self.block(f.node.body, [s])
                    rets = o.ret + [(x, NONE) for x in o.normal]
                    R2 += o.exc
                res = []
                for x, v in merge_vals(rets):
                    r = self.rule.leave(x, f, v)
                    if r is None: res.append((x, v))
                    else: res += [(x.with_mon(mm), v) for mm in r]
                R2 = merge_vals(R2)
            finally:
                self.stack = saved_stack
            if key in self.recdep:
                outs = {('ret', x.mon) for x, _ in res} | {('exc', x.mon) for x, _ in R2}
                old = self.rec.get(key, set())
                if outs <= old: break
                self.rec[key] = old | outs
                continue
            break
        keep = f.has_nested or any(isinstance(n,(ast.Lambda,ast.GeneratorExp)) for n in ())
        for lst in (res, R2):
            for i, (x, v) in enumerate(lst):
                if not keep and not f.is_lambda:
                    dead = [k for k in x.env if k[0]==frame]
                    for k in dead: del x.env[k]
        R += R2
        return merge_vals(res)

    # --- external calls
    def ext_call(self, st, name, args, kw, node, R, fv):
        if name in ('sys.exit','builtins.exit','exit'):
            ev = Event(name='sys.exit', recv=None, args=args, kw=kw, node=node, func=self.fn, interp=self, frame=self.frame)
            r = self.rule.call(st, ev)
            for m in (r if r is not None else [st.mon]):
                R.append((st.with_mon(m), mk('exc','SystemExit',tuple(args))))
            return []
        if name=='os._exit':
            ev = Event(name='os._exit', recv=None, args=args, kw=kw, node=node, func=self.fn, interp=self, frame=self.frame)
            r = self.rule.call(st, ev)
            for m in (r if r is not None else [st.mon]):
                R.append((st.with_mon(m), mk('exc','os._exit',tuple(args))))
            return []
        if name=='contextlib.ExitStack' or name=='ExitStack':
            o = mk('xstack', site_id(self.frame, nid(node)))
            s = st.fork(); s.heap[(o,'$cb')] = mk('tuple', ())
            return [(s, o)]
        if name in ('contextlib.nullcontext','nullcontext'):
            return [(st, mk('nullcm', args[0] if args else NONE))]
        if name in ('contextlib.closing',): return [(st, mk('closingcm', args[0]))]
        if name in ('contextlib.suppress',): return [(st, mk('suppresscm', tuple(args)))]
        if name=='functools.partial' and args:
            return [(st, mk('partial', args[0], tuple(args[1:]), tuple(kw)))]
        if name=='functools.wraps': return [(st, mk('ext','functools.wraps.id'))]
        if name=='getattr' and len(args)>=2 and args[1][0]=='c' and isinstance(args[1][2], str):
            r = self.getattr(st, args[0], args[1][2], R, node)
            if len(args)==3:
                r = [(s, args[2] if args[0][0] in ('fn','bm') and v[0]=='attr' else phi((v, args[2])) if v[0]=='attr' else v) for s, v in r]
            return r
        if name in ('len','min','max','int','abs','ord') and args and not kw and all(b[0]=='c' and isinstance(b[2], (int, bytes, str)) for a in args for b in alts(a)):
            try: return [(st, phi([const(getattr(builtins, name)(*(a[2] for a in combo))) for combo in itertools.product(*(list(alts(a)) for a in args))]))]
            except Exception: pass
        if name=='bool' and len(args)==1:
            d = self.decide(st, args[0])
            if d is not None: return [(st, TRUE if d else FALSE)]
            return [(st, mk('not', mk('not', args[0])))]
        if name in ('iter',) and len(args)==1: return [(st, args[0])]
        if self.rule.exact and name=='dict' and kw and not args and all(isinstance(k, str) and k!='**' for k, _ in kw):
            t = mk('dict', tuple((const(k), v) for k, v in kw), site_id(self.frame, nid(node)))
            return [(self.ex_new(self.renew(st, t), t, tuple(const(k) for k, _ in kw)), t)]
        if self.rule.exact and not kw and len(args) <= 1 and name in ('len','set','list','frozenset','sorted','tuple','dict','any','all'):
            ex = self.ex_get(st, args[0]) if args else [()]
            if ex is not None and name=='len' and self.rule.model(st, Event(name='len', recv=None, args=tuple(args), kw=(), node=node, func=self.fn, interp=self, frame=self.frame)) is None:
                return [(st, phi([const(len(x)) for x in ex]))]
            if ex is not None and name=='tuple' and len(ex)==1: return [(st, mk('tuple', ex[0]))]
            if ex is not None and name in ('any','all'):
                ds = {tuple(self.decide(st, y) for y in x) for x in ex}
                if all(None not in d for d in ds):
                    r = {getattr(builtins, name)(d) for d in ds}
                    if len(r)==1: return [(st, TRUE if r.pop() else FALSE)]
            if name in ('set','list','frozenset','sorted') or name=='dict' and not args:
                # always give these their own identity, so that their contents can be followed
                t = mk('call', fv, tuple(args), (), site_id(self.frame, nid(node)))
                st = self.renew(st, t)
                if ex is not None:
                    if name == 'sorted':
                        try: ex = [sorted(x, key=lambda y: y[2]) if all(y[0]=='c' for y in x) else x for x in ex]
                        except TypeError: pass
                    st = st.fork(); st.heap[(t,'$ex')] = phi([mk('tuple', tuple(x)) for x in ex])
                    if name in ('set','frozenset'):
                        for x in ex:
                            def distinct(y):
                                out = ()
                                for v in y:
                                    out = self.ex_add(st, True, v)(out)
                                    if out is None: return None
                                return out
                            self.ex_map(st, t, distinct)
                    return [(st, t)]
                if (t,'$ex') in st.heap: st = st.fork(); st.heap[(t,'$ex')] = TOP
        if len(args)==1 and self.musts(st, args[0]) and name in ('len','sum','any','list','sorted','set','tuple','frozenset'):
            ms = self.musts(st, args[0])
            if name=='len': return [(st, nat(len(ms)))]
            if name=='sum':
                t = natjoin(*ms)
                if t is not None: return [(st, nat(t[1]))]
            elif name=='any':
                if any(self.decide(st, x) for x in ms): return [(st, TRUE)]
            else:
                t = mk('call', fv, args, kw, site_id(self.frame, nid(node)))
                st = st.fork(); st.heap[(t,'$must')] = mk('tuple', tuple(ms))
                return [(st, t)]
        if name in ('list','tuple','set','frozenset','sorted','reversed') and len(args)>=1:
            a = args[0]
            if a[0] in ('tuple','list') and name in ('list','tuple'): return [(st, mk(name, a[1]) if name=='tuple' else mk('list', a[1], site_id(self.frame,nid(node))))]
            if a[0] in ('gen','xgen') and self.rule.collect and name in ('list','tuple'):
                return self.collect(st, a, name, mk('call', fv, args, kw, site_id(self.frame, nid(node))), node, R)
            if a[0] in ('gen','xgen'):
                outs=[]
                o = self.iterate(st, a, lambda s, v: self._just(s), R, node); R.extend(o.exc)
                return [(s, mk('call', fv, args, kw, site_id(self.frame, nid(node)))) for s in o.normal]
        if name in ('any','all','sum','max','min','dict','enumerate','zip','map','filter','b"".join','next','deque','collections.deque') :
            for a in args:
                if a[0]=='gen':
                    if name in ('enumerate','zip','map','filter'):
                        return [(st, mk('xgen', name, tuple(args), site_id(self.frame,nid(node))))]
                    if name=='next' and self.rule.exact and a is args[0]:
                        got = []
                        def first(s, v): got.append((s, v)); return Out()
                        o = self.iterate(st, a, first, R, node); R.extend(o.exc)
                        if len(args) > 1: return got + [(s, args[1]) for s in o.normal]
                        R.extend((s, mk('exc','StopIteration',())) for s in o.normal)
                        return got
                    o = self.iterate(st, a, lambda s, v: self._just(s), R, node, once=(name=='next')); R.extend(o.exc)
                    return [(s, mk('call', fv, args, kw, site_id(self.frame, nid(node)))) for s in o.normal]
        if name in ('map','filter') and args and args[0][0] in ('fn','bm'):
            return [(st, mk('xgen', name, tuple(args), site_id(self.frame,nid(node))))]
        if name in BUILTIN_NAMES and isinstance(getattr(builtins,name,None), type) and issubclass(getattr(builtins,name), BaseException):
            return [(st, mk('exc', name, tuple(args)))]
        return self.opaque(st, name, None, args, kw, node, R, fv)
    def collect(self, st, it, name, t, node, R):
        """The elements an iterator produces, as a tuple, when they are few and known."""
        key = (t, '$col')
        s = st.fork(); s.heap[key] = EMPTY
        def body(s, v):
            s = s.fork(); cur = s.heap.get(key, TOP)
            s.heap[key] = mk('tuple', cur[1]+(v,)) if cur[0]=='tuple' and len(cur[1]) < 12 else TOP
            return self._just(s)
        o = self.iterate(s, it, body, R, node); R.extend(o.exc)
        out = []
        for s in o.normal:
            s = s.fork(); cur = s.heap.pop(key, TOP)
            if cur[0]!='tuple': out.append((s, t))
            elif name=='tuple': out.append((s, cur))
            else:
                v = mk('list', cur[1], t[4])
                out.append((s, v))
        return out
    def _just(self, s):
        o = Out(); o.normal.append(s); return o

    def method_call(self, st, recv, name, args, kw, node, R, fv):
        k = recv[0]
        if recv is NONE or k=='unbound': return []
        if k=='xstack': return self.xstack_call(st, recv, name, args, kw, node, R)
        if k=='nt' and name=='_replace':
            vals = list(recv[3])
            for n, v in kw:
                if n in recv[2]: vals[recv[2].index(n)] = v
            return [(st, mk('nt', recv[1], recv[2], tuple(vals)))]
        if k=='gen' and name in ('__next__','send'):
            o = self.iterate(st, recv, lambda s, v: self._just(s), R, node, once=True); R.extend(o.exc)
            return [(s, mk('call', fv, args, kw, site_id(self.frame, nid(node)))) for s in o.normal]
        if self.is_cont(recv):
            if name in ('append','add','appendleft','insert','setdefault','extend','update','remove','clear','discard','pop','popleft','popitem'): st = self.forget(st, recv)
            if name=='get' and args:
                cv = self.cont_vals(st, recv)
                if cv and args[0][0]=='c' and (recv,'$vals') not in st.heap and recv[0]=='dict':
                    for q, v in recv[1]:
                        if q is args[0]: return [(st, v)]
                if cv is not None: return [(st, phi(cv + [args[1] if len(args)>1 else NONE]))]
            if name in ('items','keys','values') and not args and (recv[0]=='dict' or (recv,'$vals') in st.heap):
                return [(st, mk('contview', name, recv))]
            if name in ('append','add','appendleft') and len(args)==1:
                st = st.fork(); self.cont_add(st, recv, None, args[0]); self.seq_add(st, recv, (args[0],) if name=='append' else None)
                self.must_add(st, recv, args[0])
                self.ex_map(st, recv, self.ex_add(st, name=='add', args[0]))
            elif name=='insert' and len(args)==2:
                st = st.fork(); self.ex_map(st, recv, lambda x: None); self.cont_add(st, recv, None, args[1]); self.seq_add(st, recv, None)
            elif name=='setdefault' and len(args)==2:
                st = st.fork(); self.cont_add(st, recv, args[0], args[1])
                self.ex_map(st, recv, self.ex_add(st, True, args[0]))
                return [(st, phi(self.cont_vals(st, recv) or [TOP]))]
            elif name in ('extend','update') and args:
                st = st.fork()
                a = args[0]
                self.seq_add(st, recv, (mk('star', a),) if name=='extend' else None)
                if self.rule.exact:
                    ex = self.ex_get(st, a)
                    for v in (ex[0] if ex is not None and len(ex)==1 else (None,)):
                        self.ex_map(st, recv, (lambda x: None) if v is None else self.ex_add(st, name=='update', v))
                if a[0] in ('tuple','list'): self.cont_add(st, recv, None, phi(a[1]) if a[1] else TOP)
                else: self.cont_add(st, recv, TOP if name=='update' else None, TOP)
            elif name in ('remove','clear','sort','reverse','discard'):
                st = st.fork(); self.seq_add(st, recv, None)
                if name=='remove' and len(args)==1:
                    ex = self.ex_get(st, recv)
                    fs = [self.ex_find(st, x, args[0]) for x in ex] if ex is not None else [None]
                    if all(f is not None for f in fs):
                        ev = Event(name='.remove', recv=recv, args=tuple(args), kw=tuple(kw), node=node, func=self.fn, interp=self, frame=self.frame)
                        if any(f < 0 for f in fs): R.append((st, mk('exc','ValueError' if recv[0]=='list' else 'KeyError',())))
                        if all(f < 0 for f in fs): return []
                        self.ex_map(st, recv, self.ex_del(st, args[0])); st.heap.pop((recv,'$must'), None)
                        r = self.rule.call(st, ev)
                        return [(st, NONE)] if r is None else [(st.with_mon(m), NONE) for m in r]
                if name in ('remove','discard') and len(args)==1: self.ex_map(st, recv, self.ex_del(st, args[0]))
                elif name=='clear': self.ex_map(st, recv, lambda x: ())
                else: self.ex_map(st, recv, (lambda x: x) if name=='sort' else lambda x: x[::-1])
                if name not in ('sort','reverse'): st.heap.pop((recv,'$must'), None)
            elif name in ('pop','popleft','popitem'):
                st = st.fork(); self.seq_add(st, recv, None); st.heap.pop((recv,'$must'), None)
                if recv[0]=='list' and name in ('pop','popleft') and (not args or args[0] in (const(0), const(-1))):
                    ex = self.ex_get(st, recv); last = name=='pop' and (not args or args[0] is const(-1))
                    if ex is not None and all(ex):
                        v = phi([x[-1] if last else x[0] for x in ex])
                        self.ex_map(st, recv, lambda x: x[:-1] if last else x[1:])
                        r = self.rule.call(st, Event(name='.'+name, recv=recv, args=tuple(args), kw=tuple(kw), node=node, func=self.fn, interp=self, frame=self.frame))
                        return [(st, v)] if r is None else [(st.with_mon(m), v) for m in r]
                if recv[0] in ('dict','lset') and name=='pop' and args: self.ex_map(st, recv, self.ex_del(st, args[0]))
                else: self.ex_map(st, recv, lambda x: None)
                cv = self.cont_vals(st, recv)
                if cv and (recv,'$vals') in st.heap:
                    v = mk('tuple', (phi(self.cont_vals(st, recv,'$keys') or [TOP]), phi(cv))) if name=='popitem' \
                        else phi(cv + list(args[1:2] if recv[0]=='dict' else ()))
                    r = self.rule.call(st, Event(name='.'+name, recv=recv, args=tuple(args), kw=tuple(kw), node=node, func=self.fn, interp=self, frame=self.frame))
                    return [(st, v)] if r is None else [(st.with_mon(m), v) for m in r]
        if k=='c' and isinstance(recv[2], (bytes,str)) and not kw and name in ('startswith','endswith','find','split','rsplit','strip','rstrip','lstrip','lower','upper','isdigit','encode','decode','count','partition','rpartition') \
           and all(a[0]=='c' for a in args):
            try:
                r = getattr(recv[2], name)(*(a[2] for a in args))
                if isinstance(r, list): return [(st, mk('tuple' if self.rule.collect else 'list', *([tuple(const(x) for x in r)] if self.rule.collect else [tuple(const(x) for x in r), site_id(self.frame, nid(node))])))]
                if isinstance(r, tuple): return [(st, mk('tuple', tuple(const(x) for x in r)))]
                return [(st, const(r))]
            except Exception: pass
        if self.rule.collect and name=='join' and len(args)==1 and args[0][0] in ('gen','xgen'):
            out = []
            for s, v in self.collect(st, args[0], 'tuple', mk('call', fv, args, kw, site_id(self.frame, nid(node))), node, R):
                out += self.opaque(s, '.'+name, recv, (v,), kw, node, R, fv)
            return out
        if k=='c' and isinstance(recv[2], (bytes,str)) and name=='join' and len(args)==1 and args[0][0]=='gen':
            o = self.iterate(st, args[0], lambda s, v: self._just(s), R, node); R.extend(o.exc)
            return [(s, mk('call', fv, args, kw, 0)) for s in o.normal]
        return self.opaque(st, '.'+name, recv, args, kw, node, R, fv)

    def modelled_results(self, st, m, R):
        self.modelled += 1
        out = []
        for mm, v in m:
            sm = mm if isinstance(mm, State) else st.with_mon(mm)
            if isinstance(v, tuple) and v[0]=='raise': R.append((sm, v[1]))
            else: out.append((sm, v))
        return out

    def opaque(self, st, name, recv, args, kw, node, R, fv, f=None, emitted=False):
        """A call that is not followed: emits its event, may raise, returns a fresh term."""
        ev = Event(name=name, recv=recv, args=tuple(args), kw=tuple(kw), node=node, func=self.fn, interp=self, callee=f, frame=self.frame)
        if not emitted:
            m = self.rule.model(st, ev)
            if m is not None:
                return self.modelled_results(st, m, R)
        pure = (name in PURE_EXT) or (recv is not None and name[1:] in PURE_METH)
        noraise = name in NORAISE_EXT or (recv is not None and name[1:] in NORAISE_METH)
        can = self.rule.raises(ev, not noraise)
        if can:
            cr = self.rule.call_raises(st, ev)
            exc = can if isinstance(can, tuple) else mk('exc','*',())
            for m in ([st.mon] if cr is None else cr): R.append((st.with_mon(m), exc))
        t = mk('call', fv, tuple(args), tuple(kw), 0 if pure else site_id(self.frame, nid(node)))
        if self.rule.exact and (t,'$ex') in st.heap: st = st.fork(); st.heap[(t,'$ex')] = TOP
        if self.is_cont(t): st = self.renew(st, t)
        ov = self.rule.opaque_value(st, ev)
        s = st if pure else self.fresh(st, ov if ov is not None and ov[0]=='prov' else t)
        if ov is not None: t = ov
        # callbacks handed to opaque callees may be run: interpret them once
        out = [s]
        for a in (list(args) + [v for _, v in kw] if name not in ('open','builtins.open','io.open') else []):
            if a[0] in ('fn','bm') and self.rule_callback(a):
                nxt=[]
                for x in out:
                    nxt.append(x)
                    g = self.p.funcs[a[1] if a[0]=='fn' else a[2]]
                    if g.is_gen: continue
                    if any(h is g for h,_ in self.stack): continue
                    n = len(g.params) - len(g.defaults) - (1 if a[0]=='bm' else 0)
                    for x2, _ in self.call_value(x, a, tuple(mk('cbarg', t, const(i)) for i in range(max(n,0))), (), node, R): nxt.append(x2)
                out = merge(nxt)
            elif a[0]=='gen':
                nxt=[]
                for x in out:
                    o = self.iterate(x, a, lambda q, v: self._just(q), R, node); R.extend(o.exc)
                    nxt += o.normal
                out = merge(nxt)
        if self.rule.exact and (f is not None or recv is not None and not pure):
            ks = [a for a in list(args) + [v for _, v in kw] if (a,'$ex') in out[0].heap] if out else []
            if ks: out = [x.fork() for x in out]
            for x in out:
                for a in ks: x.heap[(a,'$ex')] = TOP
        if emitted: return [(x, t) for x in out]
        res = []
        for x in out:
            r = self.rule.call(x, ev)
            if r is None: res.append((x, t))
            else: res += [(x.with_mon(m), t) for m in r]
        return res
    def relevant(self, f):
        """Is the function followed?  What did not exist when the rules were written (a helper that was extracted,
        say) is, whatever part of the code the rule is about."""
        return self.rule.relevant(f) or not f.is_lambda and f.mod.name != 'sa_harness' and f.qual not in BASE_FUNCS
    def rule_callback(self, a):
        q = a[1] if a[0]=='fn' else a[2]
        return self.relevant(self.p.funcs[q])

    # --- ExitStack
    def xstack_call(self, st, o, name, args, kw, node, R):
        cur = st.heap.get((o,'$cb'), mk('tuple',()))
        def push(s, item):
            items = [x for x in cur_of(s) if x is not item]
            s = s.fork(); s.heap[(o,'$cb')] = mk('tuple', tuple((items + [item])[-12:])); return s
        def cur_of(s):
            c = s.heap.get((o,'$cb'), mk('tuple',()))
            if c[0]=='phi':
                out=[]
                for a in sorted(c[1], key=lambda z: len(z[1]) if z[0]=='tuple' else 0):
                    if a[0]=='tuple':
                        for x in a[1]:
                            if x not in out: out.append(x)
                return out
            return list(c[1]) if c[0]=='tuple' else []
        if name=='enter_context':
            return [(push(s, mk('cm', args[0])), v) for s, v in self.cm_enter(st, args[0], node, R)]
        if name=='push':
            return [(push(st, mk('cm', args[0])), args[0])]
        if name=='callback':
            return [(push(st, mk('cb', args[0], tuple(args[1:]), tuple(kw))), args[0])]
        if name=='pop_all':
            n = mk('xstack', site_id(self.frame, nid(node)))
            s = st.fork(); s.heap[(n,'$cb')] = mk('tuple', tuple(cur_of(st))); s.heap[(o,'$cb')] = mk('tuple',())
            return [(s, n)]
        if name in ('close','__exit__'):
            return [(s, NONE) for s, _ in self.xstack_unwind(st, o, node, R, None)]
        if name=='__enter__': return [(st, o)]
        return [(st, TOP)]

    def xstack_unwind(self, st, o, node, R, exc):
        """-> [(state, suppressed)] ; exceptions that continue go to R"""
        cur = st.heap.get((o,'$cb'), mk('tuple',()))
        s = st.fork(); s.heap[(o,'$cb')] = mk('tuple',())
        if cur[0]=='phi':
            outs=[]
            for a in sorted(cur[1], key=repr):
                outs += self._unwind(s.fork(), list(a[1]) if a[0]=='tuple' else [], node, R, exc)
            return outs
        return self._unwind(s, list(cur[1]) if cur[0]=='tuple' else [], node, R, exc)
    def _unwind(self, s, items, node, R, exc):
        live = [(s, exc)]
        for it in reversed(items):
            nxt = []
            for x, ex in live:
                R2 = []
                if it[0]=='cb':
                    for y, _ in self.call_value(x, it[1], it[2], it[3], node, R2): nxt.append((y, ex))
                else:
                    for y, sup in self.cm_exit(x, it[1], node, R2, ex):
                        nxt.append((y, None if sup else ex))
                nxt += R2    # a raising callback does not skip the remaining ones
            g = {}
            for y, ex in nxt:
                kk = (y.mon, ex)
                g[kk] = (join_states(g[kk][0], y), ex) if kk in g else (y, ex)
            live = list(g.values())
        out = []
        for x, ex in live:
            if ex is None: out.append((x, exc is not None))
            else: R.append((x, ex))
        return out

    # --- context managers
    def cm_enter(self, st, v, node, R):
        k = v[0]
        if k=='phi':
            out=[]
            for x in sorted(v[1], key=repr): out += self.cm_enter(st, x, node, R)
            return merge_vals(out)
        if k=='obj':
            m = self.p.find_method(v[1], '__enter__')
            if m is not None: return self.call_func(st, m, None, (v,), (), node, R, v)
            return [(st, v)]
        if k=='nullcm': return [(st, v[1])]
        if k=='closingcm': return [(st, v[1])]
        if k=='suppresscm': return [(st, NONE)]
        if k=='xstack': return [(st, v)]
        if k=='c': return [(st, v)]
        if k in ('attr','sym','sub'):
            ts = self.rule.type_of(v)
            if ts: return self.cm_enter(st, phi([mk('obj', t, ('typed', v)) for t in ts]), node, R)
        ev = Event(name='.__enter__', recv=v, args=(), kw=(), node=node, func=self.fn, interp=self, frame=self.frame)
        r = self.rule.call(st, ev)
        return [(st.with_mon(m), v) for m in r] if r is not None else [(st, v)]

    def cm_exit(self, st, v, node, R, exc):
        """-> [(state, suppressed: bool)] for completions; exceptions raised by the exit itself go to R."""
        k = v[0]
        if k=='phi':
            out=[]
            for x in sorted(v[1], key=repr): out += self.cm_exit(st, x, node, R, exc)
            return out
        if k=='obj':
            m = self.p.find_method(v[1], '__exit__')
            if m is not None:
                a = (NONE,NONE,NONE) if exc is None else (mk('exctype', exc), exc, mk('exctb', exc))
                out=[]
                for s, r in self.call_func(st, m, None, (v,)+a, (), node, R, v):
                    d = self.decide(s, r)
                    if exc is None: out.append((s, False))
                    else:
                        if d is not True: out.append((s, False))
                        if d is True or (d is None and r[0]!='call'): out.append((s, True))
                return out
        if k=='nullcm' or k=='c': return [(st, False)]
        if k=='closingcm':
            return [(s, False) for r in self.getattr(st, v[1], 'close', R, node) for s, _ in self.call_value(r[0], r[1], (), (), node, R)]
        if k=='suppresscm':
            if exc is None: return [(st, False)]
            return [(st, True), (st, False)]
        if k=='xstack':
            R2=[]
            out = self.xstack_unwind(st, v, node, R2, exc)
            res = [(s, sup) for s, sup in out]
            for s, ex in R2:
                if ex is exc: res.append((s, False))
                else: R.append((s, ex))
            return res
        if k in ('attr','sym','sub'):
            ts = self.rule.type_of(v)
            if ts: return self.cm_exit(st, phi([mk('obj', t, ('typed', v)) for t in ts]), node, R, exc)
        ev = Event(name='.__exit__', recv=v, args=(exc,) if exc else (), kw=(), node=node, func=self.fn, interp=self, frame=self.frame)
        m = self.rule.model(st, ev)
        if m is not None: return [(s, False) for s, _ in self.modelled_results(st, m, R)]
        if self.rule.raises(ev, False):
            cr = self.rule.call_raises(st, ev)
            for m in ([st.mon] if cr is None else cr): R.append((st.with_mon(m), mk('exc','*',())))
        r = self.rule.call(st, ev)
        return [(st.with_mon(m), False) for m in r] if r is not None else [(st, False)]

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, st, R):
        s = st.fork()
        self._assign(t, v, s, R)
        return s
    def _assign(self, t, v, s, R):
        if isinstance(t, ast.Name):
            f, frame = self.stack[-1]
            if t.id in f.globals_: s.env[(('mod', f.mod.name), t.id)] = v
            elif t.id in f.nonlocals:
                par = Interp.parents.get(frame); fn = f
                while par is not None:
                    fr, fn = par
                    if t.id in fn.locals_: s.env[(fr, t.id)] = v; return
                    par = Interp.parents.get(fr)
                s.env[(frame, t.id)] = v
            else: s.env[(frame, t.id)] = v
        elif isinstance(t,(ast.Tuple,ast.List)):
            n = len(t.elts)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            q = self.exact_seq(s, v) if v[0] != 'tuple' or stars else None
            if q is not None and len(stars)==1 and len(q) >= n-1:
                i = stars[0]; rest = mk('list', tuple(q[i:len(q)-(n-1-i)]), site_id(self.frame, nid(t)))
                if self.rule.exact: s.heap[(rest,'$ex')] = mk('tuple', rest[1])
                for x, y in zip(t.elts[:i], q): self._assign(x, y, s, R)
                self._assign(t.elts[i].value, rest, s, R)
                for x, y in zip(t.elts[i+1:], q[len(q)-(n-1-i):]): self._assign(x, y, s, R)
            elif q is not None and not stars and len(q)==n:
                for x, y in zip(t.elts, q): self._assign(x, y, s, R)
            elif v[0]=='phi' and all(x[0] in ('tuple','list') and len(x[1])==n for x in v[1]) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for i, x in enumerate(t.elts): self._assign(x, phi([a[1][i] for a in v[1]]), s, R)
            elif v[0] in ('tuple','list') and len(v[1])==n and not any(isinstance(x, ast.Starred) for x in t.elts) and not any(x[0]=='star' for x in v[1]):
                for x, y in zip(t.elts, v[1]): self._assign(x, y, s, R)
            elif v[0]=='nt' and len(v[3])==n:
                for x, y in zip(t.elts, v[3]): self._assign(x, y, s, R)
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred): self._assign(x.value, mk('sub', v, mk('slice',const(i),NONE,NONE)), s, R)
                    else: self._assign(x, mk('sub', v, const(i)), s, R)
        elif isinstance(t, ast.Starred): self._assign(t.value, v, s, R)
        elif isinstance(t, ast.Attribute):
            for s2, b in self.ev(t.value, s, R)[:1]:
                for o in alts(b):
                    r = self.rule.store_attr(s2, o, t.attr, v, t, self.fn)
                    if r is not None: s.mon = r; s2.mon = r
                    if o[0]=='mod': s2.env[(('mod', o[1]), t.attr)] = v; s.env[(('mod', o[1]), t.attr)] = v
                    elif b[0]=='phi':
                        old = s2.heap.get((o,t.attr))
                        s.heap[(o, t.attr)] = phi((v, old)) if old is not None else v
                    else: s.heap[(o, t.attr)] = v
                if s2 is not s:
                    s.env.update(s2.env)
        elif isinstance(t, ast.Subscript):
            for s2, vs in self.ev_list([t.value, t.slice], s, R)[:1]:
                if vs[0][0]=='obj':
                    m = self.p.find_method(vs[0][1],'__setitem__')
                    if m is not None:
                        for s3, _ in self.call_value(s2, mk('bm', vs[0], m.qual), (vs[1], v), (), t, R)[:1]:
                            s.env=s3.env; s.heap=s3.heap; s.facts=s3.facts; s.mon=s3.mon
                        return
                ev = Event(name='[]=', recv=vs[0], args=(vs[1], v), kw=(), node=t, func=self.fn, interp=self, frame=self.frame)
                r = self.rule.call(s2, ev)
                if r: s.mon = r[0]
                for b in alts(vs[0]):
                    self.cont_add(s, b, vs[1], v); self.seq_add(s, b, None)
                    def put(x, i=vs[1], v=v):
                        if i[0]!='c' or not isinstance(i[2], int) or not -len(x) <= i[2] < len(x): return None
                        x = list(x); x[i[2]] = v
                        return x
                    self.ex_map(s, b, self.ex_add(s, True, vs[1]) if b[0]=='dict' and len(alts(vs[0]))==1 else put if b[0]=='list' and len(alts(vs[0]))==1 else lambda x: None)
                    if self.is_cont(b):
                        for fk in [q for q in s.facts if self._has(q, b)]: del s.facts[fk]

    # ---------------------------------------------------------- container contents
    def is_cont(self, b):
        return b[0] in ('dict','list','lset') or b[0]=='comp' or b[0]=='call' and b[1][0]=='ext' and b[1][1] in CONT_EXT
    def seq_add(self, s, b, items):
        """Order-preserving contents of a list built by append/extend ('$seq'); None: order lost."""
        if b[0]!='list' and not (b[0]=='call' and b[1]==mk('ext','list') and not b[2]): return
        old = s.heap.get((b,'$seq'), EMPTY)
        if items is None or any(x[0]!='tuple' for x in alts(old)): s.heap[(b,'$seq')] = TOP
        else: s.heap[(b,'$seq')] = phi([mk('tuple', x[1] + tuple(items)) if len(x[1]) < 40 else TOP for x in alts(old)])
    def cont_add(self, s, b, k, v):
        if not self.is_cont(b): return
        for nm, x in (('$keys', k), ('$vals', v)):
            if x is None: continue
            old = s.heap.get((b, nm))
            s.heap[(b, nm)] = x if old is None else phi((old, x))
    def cont_vals(self, s, b, which='$vals'):
        """Tracked contents of a container (a list of terms) or None when nothing is known."""
        if not self.is_cont(b): return None
        out = []
        if b[0]=='dict': out += [k if which=='$keys' else v for k, v in b[1]]
        elif b[0] in ('list','lset'): out += [x for x in b[1]]
        elif b[0]=='comp': out += [b[2][-1] if which=='$vals' else b[2][0]]
        elif b[0]=='call' and b[2]: return None
        if any(x[0]=='star' for x in out): return None
        x = s.heap.get((b, which))
        if x is not None: out.append(x)
        elif b[0]!='dict': return None
        return out

    # ---------------------------------------------------------- statements
    def block(self, body, states):
        out = Out()
        live = states
        for st in body:
            if not live: break
            nxt = []
            for s in live:
                o = self.stmt(st, s)
                nxt += o.normal
                out.brk += o.brk; out.cont += o.cont; out.ret += o.ret; out.exc += o.exc
            live = merge(nxt)
            if len(out.exc) > 6: out.exc = merge_vals(out.exc)
            if len(out.ret) > 6: out.ret = merge_vals(out.ret)
        out.normal = live
        out.exc = merge_vals(out.exc)
        return out

    def stmt(self, n, st):
        self.tick(n)
        o = Out()
        k = type(n).__name__
        m = getattr(self, 'st_'+k, None)
        if m is None: o.normal.append(st); return o
        m(n, st, o)
        return o

    def st_Expr(self, n, st, o):
        if isinstance(n.value, ast.Constant): o.normal.append(st); return
        o.normal += [s for s, _ in self.ev(n.value, st, o.exc)]
    def st_Assign(self, n, st, o):
        for s, v in self.ev(n.value, st, o.exc):
            for t in n.targets: s = self.assign(t, v, s, o.exc)
            o.normal.append(s)
    def st_AnnAssign(self, n, st, o):
        if n.value is None: o.normal.append(st); return
        for s, v in self.ev(n.value, st, o.exc): o.normal.append(self.assign(n.target, v, s, o.exc))
    def st_AugAssign(self, n, st, o):
        ld = getattr(n, '_load', None)
        if ld is None: ld = n._load = _as_load(n.target)
        for s, vs in self.ev_list([ld, n.value], st, o.exc):
            if isinstance(n.op, ast.Add) and vs[0][0]=='list' and len(vs[0]) > 2:      # extends the list in place
                s = s.fork(); self.seq_add(s, vs[0], (mk('star', vs[1]),)); self.ex_map(s, vs[0], lambda x: None)
                for x in alts(vs[1]):
                    self.cont_add(s, vs[0], None, (phi(x[1]) if x[1] else None) if x[0] in ('tuple','list') and (x,'$vals') not in s.heap else TOP)
                ev = Event(name='.extend', recv=vs[0], args=(vs[1],), kw=(), node=n, func=self.fn, interp=self, frame=self.frame)
                r = self.rule.call(s, ev)
                o.normal += [s] if r is None else [s.with_mon(m) for m in r]; continue
            v = self.map2(lambda a, b: self.binop(n.op, a, b), vs[0], vs[1])
            o.normal.append(self.assign(n.target, self.rule.norm(s, v) if self.rule.norm else v, s, o.exc))
    def st_Return(self, n, st, o):
        if n.value is None: o.ret.append((st, NONE)); return
        o.ret += self.ev(n.value, st, o.exc)
    def st_Raise(self, n, st, o):
        if n.exc is None:
            v = self.cur_exc[-1] if self.cur_exc else mk('exc','*',())
            self._raise(st, v, n, o); return
        for s, v in self.ev(n.exc, st, o.exc):
            for x in alts(v):
                if x[0]=='cls': x = mk('exc', x[1], ())
                elif x[0]=='ext': x = mk('exc', x[1], ())
                elif x[0]!='exc': x = mk('exc','*',(x,))
                self._raise(s, x, n, o)
    cur_exc = []
    def _raise(self, s, x, n, o):
        r = self.rule.on_raise(s, x, n, self.fn)
        for m in (r if r is not None else [s.mon]): o.exc.append((s.with_mon(m), x))
    def st_Assert(self, n, st, o):
        T, F = self.branch(n.test, st, o.exc)
        o.normal += T
        for s in F: o.exc.append((s, mk('exc','AssertionError',())))
    def st_Pass(self, n, st, o): o.normal.append(st)
    def st_Global(self, n, st, o): o.normal.append(st)
    st_Nonlocal = st_Global
    def st_Break(self, n, st, o): o.brk.append(st)
    def st_Continue(self, n, st, o): o.cont.append(st)
    def st_Delete(self, n, st, o):
        s = st.fork()
        for t in n.targets:
            if isinstance(t, ast.Name): s.env.pop((self.frame, t.id), None)
            elif isinstance(t, ast.Subscript):
                for s2, vs in self.ev_list([t.value, t.slice], s, o.exc)[:1]:
                    ev = Event(name='del[]', recv=vs[0], args=(vs[1],), kw=(), node=t, func=self.fn, interp=self, frame=self.frame)
                    r = self.rule.call(s2, ev)
                    if r: s.mon = r[0]
                    for b in alts(vs[0]):
                        if (b,'$must') in s.heap: s.heap.pop((b,'$must'))
                        self.seq_add(s, b, None)
                        self.ex_map(s, b, self.ex_del(s, vs[1]) if b[0]=='dict' and len(alts(vs[0]))==1 else lambda x: None)
                        if self.is_cont(b): s = self.forget(s, b)
        o.normal.append(s)
    def st_FunctionDef(self, n, st, o):
        f = self.p.node_func.get(id(n))
        s = st.fork()
        s.env[(self.frame, n.name)] = mk('fn', f.qual, self.frame) if f else TOP
        o.normal.append(s)
    def st_ClassDef(self, n, st, o):
        s = st.fork()
        q = None
        for c in self.p.classes.values():
            if c.node is n: q = c.qual
        s.env[(self.frame, n.name)] = mk('cls', q) if q else TOP
        o.normal.append(s)
    def st_Import(self, n, st, o):
        s = st.fork()
        for a in n.names:
            nm = a.name if a.asname else a.name.split('.')[0]
            s.env[(self.frame, a.asname or nm)] = mk('mod', nm) if nm in self.p.mods else mk('ext', nm)
        o.normal.append(s)
    def st_ImportFrom(self, n, st, o):
        s = st.fork()
        for a in n.names:
            full = f'{n.module}.{a.name}'
            if full in self.p.mods: v = mk('mod', full)
            elif n.module in self.p.mods: v = self.static_global(n.module, a.name)
            else: v = mk('ext', full)
            s.env[(self.frame, a.asname or a.name)] = v
        o.normal.append(s)
    def st_If(self, n, st, o):
        T, F = self.branch(n.test, st, o.exc)
        a = self.block(n.body, merge(T)) if T else Out()
        b = self.block(n.orelse, merge(F)) if F else Out()
        for x in (a, b):
            o.normal += x.normal; o.brk += x.brk; o.cont += x.cont; o.ret += x.ret; o.exc += x.exc

    def st_While(self, n, st, o):
        head = [st]; exits = []
        for it in range(60):
            T, F = [], []
            for s in head:
                t, f = self.branch(n.test, s, o.exc)
                T += t; F += f
            exits += F
            if not T: break
            b = self.block(n.body, merge(T))
            o.ret += b.ret; o.exc += b.exc
            o.normal += b.brk
            if self.rule.bounded_loops:
                head = merge(b.normal + b.cont)
                if not head: break
                continue
            nh = self.widen(head, b.normal + b.cont, it)
            if nh is None: break
            head = nh
        else:
            raise AnalysisError(f'{self.fn.qual}:{n.lineno}: loop does not converge')
        exits = merge(exits)
        if n.orelse and exits:
            e = self.block(n.orelse, exits)
            o.normal += e.normal; o.brk += e.brk; o.cont += e.cont; o.ret += e.ret; o.exc += e.exc
        else: o.normal += exits
        o.normal = merge(o.normal); o.exc = merge_vals(o.exc); o.ret = merge_vals(o.ret)

    def widen(self, head, more, it):
        """Join loop-back states into the head; None when nothing new."""
        old = {s.mon: s for s in head}
        new = dict(old); changed = False
        for s in more:
            h = new.get(s.mon)
            if h is None: new[s.mon] = s; changed = True
            else:
                j = join_states(h, s)
                if it >= self.rule.widen_at:
                    for k, v in j.env.items():
                        if h.env.get(k) is not v and not (self.rule.exact and it < 6 and all(x[0]=='c' for x in alts(v))): j.env[k] = natjoin(v, h.env.get(k) or TOP) or TOP
                    for k, v in j.heap.items():
                        if h.heap.get(k) is not v and k[1] not in ('$cb','$keys','$vals','$must'): j.heap[k] = natjoin(v, h.heap.get(k) or TOP) or TOP
                if not j.same(h): new[s.mon] = j; changed = True
        if not changed: return None
        return list(new.values())

    def st_For(self, n, st, o):
        for s, it in self.ev(n.iter, st, o.exc):
            def body(s2, v):
                r = Out()
                s3 = self.assign(n.target, v, s2, r.exc)
                b = self.block(n.body, [s3])
                b.exc += r.exc
                return b
            r = self.iterate(s, it, body, o.exc, n, orelse=n.orelse)
            o.normal += r.normal; o.brk += r.brk; o.cont += r.cont; o.ret += r.ret; o.exc += r.exc
        o.normal = merge(o.normal)

    def iterate(self, st, it, body, R, node, orelse=None, once=False):
        """Run body(state, element) for the elements of `it`.  body returns an Out."""
        o = Out()
        k = it[0]
        if k=='phi':
            for x in sorted(it[1], key=repr):
                r = self.iterate(st, x, body, R, node, orelse, once)
                for a in Out.__slots__: getattr(o, a).extend(getattr(r, a))
            o.normal = merge(o.normal)
            return o
        if k=='tuple' and len(it[1]) <= self.rule.max_items and not any(x[0]=='star' for x in it[1]):
            live = [st]
            for v in it[1]:
                nxt=[]
                for s in live:
                    b = body(s, v)
                    nxt += b.normal + b.cont
                    o.normal += b.brk; o.ret += b.ret; o.exc += b.exc
                live = merge(nxt)
            self._loop_else(o, live, orelse)
            return o
        if self.rule.exact and (k=='c' or k=='call' and it[1][0]=='ext' and it[1][1] in ('range','enumerate','zip','reversed')) and self.rule.iter_items(st, it) is None:
            q = self.known_items(st, it)
            if q is not None and len(q) <= self.rule.max_items: return self.iterate(st, mk('tuple', tuple(q)), body, R, node, orelse, once)
        if self.rule.exact and k!='tuple' and self.rule.iter_items(st, it) is None:
            ex = self.ex_get(st, it)
            if ex is not None and len(ex) <= 4 and all(len(x) <= self.rule.max_items for x in ex):
                for x in ex:
                    s = st
                    if len(ex) > 1: s = st.fork(); s.heap[(it,'$ex')] = mk('tuple', x)
                    r = self.iterate(s, mk('tuple', x), body, R, node, orelse, once)
                    for a in Out.__slots__: getattr(o, a).extend(getattr(r, a))
                o.normal = merge(o.normal)
                return o
        if k=='gen' and self.rule.iter_items(st, it) is None:
            return self.iter_gen(st, it, body, R, node, orelse)
        if k=='xgen' and it[1] in ('enumerate','zip','map','filter'):
            a = it[2]
            if it[1]=='enumerate':
                return self.iterate(st, a[0], lambda s, v: body(s, mk('tuple',(mk('idx', it[3]), v))), R, node, orelse)
            if it[1]=='map':
                def mb(s, v):
                    r = Out()
                    for s2, w in self.call_value(s, a[0], (v,), (), node, r.exc):
                        b = body(s2, w)
                        for x in Out.__slots__: getattr(r, x).extend(getattr(b, x))
                    return r
                return self.iterate(st, a[1], mb, R, node, orelse)
            if it[1]=='filter':
                return self.iterate(st, a[1], body, R, node, orelse)
            g = [x for x in a if x[0]=='gen'][0]
            return self.iterate(st, g, lambda s, v: body(s, mk('tuple', tuple(v if x is g else mk('elem', x, it[3]) for x in a))), R, node, orelse)
        if k=='obj':
            m = self.p.find_method(it[1], '__iter__')
            if m is not None:
                R2 = []
                for s, v in self.call_value(st, mk('bm', it, m.qual), (), (), node, R2):
                    if v is it: break
                    r = self.iterate(s, v, body, R, node, orelse, once)
                    for a in Out.__slots__: getattr(o, a).extend(getattr(r, a))
                else:
                    o.exc += R2
                    return o
                nx = self.p.find_method(it[1], '__next__')
                if nx is not None:
                    return self._iter_next(st, it, nx, body, R, node, orelse)
        if k=='list' and not it[1] and self.rule.empty_lists and (it,'$vals') not in st.heap:
            self._loop_else(o, [st], orelse)
            return o
        # unknown iterable
        # an iterator evaluation may raise
        elem = self.elem_term(it, node, st)
        single = it[0]=='list' and len(it[1])==1 and (it,'$vals') not in st.heap
        ev = Event(name='iter', recv=it, args=(), kw=(), node=node, func=self.fn, interp=self, frame=self.frame)
        can = self.rule.raises(ev, False)
        r = self.rule.call(st, ev)
        heads = [st] if r is None else [st.with_mon(m) for m in r]
        def some(heads):        # any number of unspecified elements
            exits = list(heads)
            for i in range(60):
                nxt=[]
                for s in heads:
                    if can: o.exc.append((s, mk('exc','*',())))
                    s2 = s if single else self.fresh(s, elem) if elem[0]=='elem' and elem[1] is it else self.forget(s, elem)
                    b = body(s2, elem)
                    o.normal += b.brk; o.ret += b.ret; o.exc += b.exc
                    nxt += b.normal + b.cont
                if once: return nxt
                nh = self.widen(heads, nxt, i)
                if nh is None: break
                heads = nh; exits = list(heads)
            else: raise AnalysisError(f'{self.fn.qual}:{getattr(node,"lineno",0)}: loop does not converge')
            return merge(exits)
        self.inexact += 1
        exits = some(heads)
        for v in (self.items_of(st, it) if not once else ()):
            # an element known to be there is visited exactly once, the others before or after it
            nxt=[]
            self.rep_stage += 1
            for s in exits:
                m = self.rule.rep_enter(s, it, v)
                if m is not None: s = s.with_mon(m)
                b = body(self.fresh(s, v) if v[0]=='elem' and v[1] is it else s, v)
                o.normal += b.brk; o.ret += b.ret; o.exc += b.exc
                nxt += b.normal + b.cont
            self.rep_stage -= 1
            exits = some(merge(nxt))
        self.inexact -= 1
        self._loop_else(o, merge(exits), orelse)
        o.exc = merge_vals(o.exc); o.ret = merge_vals(o.ret)
        return o
    rep_stage = 0
    inexact = 0         # >0 while in the body of a loop whose elements are not exactly known
    def items_of(self, st, it):
        r = self.rule.iter_items(st, it)
        if r is not None: return r
        if is_unwrapped(it): return self.items_of(st, it[2][0])
        if it[0]=='call' and it[1]==mk('ext','enumerate') and it[2]:
            return [mk('tuple', (mk('idx', it[4]), v)) for v in self.items_of(st, it[2][0])]
        ms = self.musts(st, it)
        if ms: return ms
        return ()
    def elem_term(self, it, node, st=None):
        if it[0]=='contview' and st is not None:
            ks = self.cont_vals(st, it[2], '$keys'); vs = self.cont_vals(st, it[2])
            K = phi(ks) if ks else TOP; V = phi(vs) if vs else TOP
            return K if it[1]=='keys' else V if it[1]=='values' else mk('tuple', (K, V))
        if st is not None and (it,'$vals') in st.heap:
            cv = self.cont_vals(st, it, '$keys' if it[0]=='dict' or it[0]=='comp' and it[1]=='dict' else '$vals')
            if cv: return phi(cv)
        if it[0]=='list' and it[1] and not any(x[0]=='star' for x in it[1]):
            return phi(it[1])
        if it[0]=='comp' and it[1]!='dict':
            if st is not None and (it,'$others') in st.heap and (it,'$must') in st.heap: return st.heap[(it,'$others')]
            return it[2][0]
        return mk('elem', it, site_id(self.frame, nid(node)))
    def _iter_next(self, st, it, nx, body, R, node, orelse):
        o = Out()
        heads=[st]; exits=[]
        for i in range(60):
            nxt=[]
            for s in heads:
                R2=[]
                for s2, v in self.call_value(s, mk('bm', it, nx.qual), (), (), node, R2):
                    b = body(s2, v)
                    o.normal += b.brk; o.ret += b.ret; o.exc += b.exc
                    nxt += b.normal + b.cont
                for s2, ex in R2:
                    if ex[1]=='StopIteration': exits.append(s2)
                    else:
                        o.exc.append((s2, ex))
                        if ex[1]=='*': exits.append(s2)
            nh = self.widen(heads, nxt, i)
            if nh is None: break
            heads = nh
        else: raise AnalysisError(f'{self.fn.qual}:{getattr(node,"lineno",0)}: loop does not converge')
        self._loop_else(o, merge(exits), orelse)
        return o
    def _loop_else(self, o, live, orelse):
        if orelse and live:
            e = self.block(orelse, live)
            o.normal += e.normal; o.brk += e.brk; o.cont += e.cont; o.ret += e.ret; o.exc += e.exc
        else: o.normal += live
        o.normal = merge(o.normal)

    def iter_gen(self, st, it, body, R, node, orelse, cm=False):
        """Inline a generator: at each yield run the loop body, then resume.
        A loop that is left closes the generator: it is unwound from the yield, and what its cleanup
        raises is lost.  For a context manager (cm) the body's exception is thrown in instead."""
        f = self.p.funcs[it[1]]; frame = it[2]; env = it[3]; cframe = it[4]
        o = Out()
        if not self.relevant(f) and not self.gen_small(f) or any(g is f for g,_ in self.stack) or len(self.stack) > self.rule.max_depth:
            t = mk('call', mk('fn', f.qual, None), tuple(v for _, v in env), (), frame)
            o2 = self.iterate(st, t, body, R, node, orelse)
            o2.exc.append((st, mk('exc','*',())))
            return o2
        Interp.parents[frame] = (cframe, f.outer) if cframe is not None and f.outer is not None else None
        consumer_stack = list(self.stack); consumer_y = list(self.yields)
        WHY = ('$why', frame), 'w'      # how the consumer left
        def left(x, *why):
            y = x.fork(); y.env[WHY] = mk('tuple', (const(why[0]),) + why[1:]); return y
        CLOSE = mk('exc', '$genclose', (const(f.qual),))
        def handler(s, v):
            b = body(s, v)
            ways = [left(x, 'brk') for x in b.brk] + [left(x, 'ret', rv) for x, rv in b.ret]
            if cm: return merge(b.normal + ways + [left(x, 'cont') for x in b.cont]), merge_vals(b.exc)
            ways += [left(x, 'exc', ex) for x, ex in b.exc]
            return merge(b.normal + b.cont), [(x, CLOSE) for x in ways]
        s = st.fork()
        for p, v in env: s.env[(frame, p)] = v
        self.stack = self.stack + [(f, frame)]
        self.funcs_seen[f.qual] = self.funcs_seen.get(f.qual, 0) + 1
        self.yields = self.yields + [(handler, consumer_stack, consumer_y)]
        try:
            for p, d in list(f.defaults.items()) + list(f.kwdefaults.items()):
                if p not in dict(env):
                    vs = self.ev(d, s, []); s = vs[0][0]; s.env[(frame, p)] = vs[0][1]
            b = self.block(f.node.body, [s])
        finally:
            self.stack = consumer_stack; self.yields = consumer_y
        live = []
        for x, ex in [(x, None) for x in b.normal] + [(x, None) for x, _ in b.ret] + b.exc:
            why = x.env.get(WHY)
            if why is None:
                if ex is None: live.append(x)
                else: o.exc.append((x, ex))
                continue
            x = x.fork(); del x.env[WHY]
            for w in alts(why):
                if w is UNBOUND:
                    if ex is None: live.append(x)
                    elif ex is not CLOSE: o.exc.append((x, ex))
                elif cm and ex is not None: o.exc.append((x, ex))
                elif w[1][0][2]=='brk': o.brk.append(x) if cm else o.normal.append(x)
                elif w[1][0][2]=='cont': o.cont.append(x)
                elif w[1][0][2]=='ret': o.ret.append((x, w[1][1]))
                else:
                    for e in alts(w[1][1]): o.exc.append((x, e))
        self._loop_else(o, merge(live), orelse)
        o.exc = merge_vals(o.exc); o.ret = merge_vals(o.ret)
        return o
    def gen_small(self, f): return f.nstmts <= 30

    def st_With(self, n, st, o): self.with_items(n, 0, st, o)
    def with_items(self, n, i, st, o):
        if i == len(n.items):
            b = self.block(n.body, [st])
            for a in Out.__slots__: getattr(o, a).extend(getattr(b, a))
            return
        item = n.items[i]
        for s, cm in self.ev(item.context_expr, st, o.exc):
            if cm[0]=='gencm':
                self.with_gencm(n, i, s, cm, item, o); continue
            for s2, v in self.cm_enter(s, cm, item.context_expr, o.exc):
                if item.optional_vars is not None: s2 = self.assign(item.optional_vars, v, s2, o.exc)
                inner = Out()
                self.with_items(n, i+1, s2, inner)
                inner.normal = merge(inner.normal); inner.exc = merge_vals(inner.exc); inner.ret = merge_vals(inner.ret)
                def ex(x): return [y for y, _ in self.cm_exit(x, cm, item.context_expr, o.exc, None)]
                for x in inner.normal: o.normal += ex(x)
                for x in merge(inner.brk): o.brk += ex(x)
                for x in merge(inner.cont): o.cont += ex(x)
                for x, v2 in inner.ret: o.ret += [(y, v2) for y in ex(x)]
                for x, e2 in inner.exc:
                    for y, sup in self.cm_exit(x, cm, item.context_expr, o.exc, e2):
                        if sup: o.normal.append(y)
                        else: o.exc.append((y, e2))
    def with_gencm(self, n, i, s, cm, item, o):
        def body(s2, v):
            if item.optional_vars is not None: s2 = self.assign(item.optional_vars, v, s2, o.exc)
            inner = Out(); self.with_items(n, i+1, s2, inner); return inner
        r = self.iter_gen(s, cm[1], body, o.exc, n, None, cm=True)
        for a in Out.__slots__: getattr(o, a).extend(getattr(r, a))

    def st_Try(self, n, st, o):
        b = self.block(n.body, [st])
        after = Out()
        after.brk += b.brk; after.cont += b.cont; after.ret += b.ret
        if n.orelse and b.normal:
            e = self.block(n.orelse, b.normal)
            for a in ('normal','brk','cont','ret','exc'): getattr(after, a).extend(getattr(e, a))
        else: after.normal += b.normal
        pend = b.exc
        for s, ex in pend:
            rest = self.handle(n.handlers, s, ex, after)
            if rest: after.exc.append((s, ex))
        if n.finalbody:
            self.run_final(n.finalbody, after, o)
        else:
            for a in Out.__slots__: getattr(o, a).extend(getattr(after, a))
        o.normal = merge(o.normal); o.exc = merge_vals(o.exc)
    st_TryStar = st_Try

    def handle(self, handlers, s, ex, after):
        """Dispatch one exception; True if it may also propagate."""
        if ex[1]=='os._exit': return True
        for h in handlers:
            m, hx = self.match(h, s, ex)
            if m is False: continue
            s2 = s.fork()
            if h.name: s2.env[(self.frame, h.name)] = hx
            r = self.rule.on_handler(s2, hx, h, self.fn)
            if r is not None: s2.mon = r
            saved = self.cur_exc
            self.cur_exc = saved + [hx]
            try: b = self.block(h.body, [s2])
            finally: self.cur_exc = saved
            for a in Out.__slots__: getattr(after, a).extend(getattr(b, a))
            if m is True: return False
        return True
    def match(self, h, s, ex):
        if h.type is None: return True, ex
        names = []
        for s2, v in self.ev(h.type, s, []):
            for a in alts(v):
                for x in (a[1] if a[0]=='tuple' else (a,)):
                    for y in alts(x):
                        names.append(y[1] if y[0] in ('cls','ext') else '?')
        res = False
        for nm in names:
            if ex[1]=='*' and nm in ('Exception',): return True if self.any_is_exception else None, ex
            r = exc_is(self.p, 'GeneratorExit' if ex[1]=='$genclose' else ex[1], nm) if nm != '?' else None
            if r is True: return True, ex
            if r is None: res = None
        if res is None and len(names)==1 and ex[1]=='*': return None, mk('exc', names[0], ex[2])
        return res, ex
    any_is_exception = True

    def run_final(self, body, after, o):
        def go(states):
            b = self.block(body, merge(states))
            o.brk += b.brk; o.cont += b.cont; o.ret += b.ret; o.exc += b.exc
            return b.normal
        if after.normal: o.normal += go(after.normal)
        if after.brk: o.brk += go(after.brk)
        if after.cont: o.cont += go(after.cont)
        for s, v in merge_vals(after.ret): o.ret += [(x, v) for x in go([s])]
        for s, ex in merge_vals(after.exc):
            if ex[1] == 'os._exit': o.exc.append((s, ex)); continue
            o.exc += [(x, ex) for x in go([s])]

def _as_load(t):
    if isinstance(t, ast.Name): return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute): return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    if isinstance(t, ast.Subscript): return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    return t
