"""Source model of /repo/lib/bup: modules, classes, functions, name resolution."""
import ast, os, hashlib

REPO = os.environ.get('BUP_SA_REPO', '/repo')

class AnalysisError(Exception):
    """The analysis cannot be carried out (an anchor is gone, ...)."""

class Func:
    __slots__ = ('qual','name','node','mod','cls','outer','params','posonly','vararg','kwonly','kwarg',
                 'defaults','kwdefaults','is_gen','nested','is_lambda','decos','globals_','nonlocals',
                 'locals_','has_nested','callnames','nstmts')
    def __repr__(self): return f'<Func {self.qual}>'
    @property
    def path(self): return self.mod.path

class Class:
    __slots__ = ('qual','name','node','mod','methods','bases','consts','decos','outer','subs')
    def __repr__(self): return f'<Class {self.qual}>'

class Module:
    __slots__ = ('name','path','tree','globals_','text','mutated','funcs')

def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return any(isinstance(n,(ast.Yield,ast.YieldFrom)) for n in ast.walk(node.body))
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n,(ast.Yield,ast.YieldFrom)): return True
        if isinstance(n,(ast.FunctionDef,ast.Lambda,ast.ClassDef,ast.AsyncFunctionDef)): continue
        todo.extend(ast.iter_child_nodes(n))
    return False

def own_nodes(fn_node):
    """All nodes of a function body, not descending into nested defs (lambdas excluded too)."""
    body = fn_node.body if isinstance(fn_node.body, list) else [fn_node.body]
    todo = list(reversed(body))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n,(ast.FunctionDef,ast.Lambda,ast.ClassDef,ast.AsyncFunctionDef)): continue
        todo.extend(reversed(list(ast.iter_child_nodes(n))))

def _targets(t):
    if isinstance(t, ast.Name): yield t.id
    elif isinstance(t,(ast.Tuple,ast.List)):
        for e in t.elts: yield from _targets(e)
    elif isinstance(t, ast.Starred): yield from _targets(t.value)

class Program:
    def __init__(self, repo=None, sub='lib/bup'):
        self.repo = repo or REPO
        self.mods = {}
        self.funcs = {}     # qual -> Func
        self.classes = {}   # qual -> Class
        self.by_name = {}   # bare function name -> [Func]
        self.node_func = {} # id(node) -> Func
        root = os.path.join(self.repo, sub)
        for dp, dn, fns in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fns):
                if not f.endswith('.py'): continue
                self._load(os.path.join(dp, f))
        if len(self.mods) < 50:
            raise AnalysisError(f'only {len(self.mods)} modules found under {root}')
        for c in self.classes.values():
            c.bases = [self.resolve_expr(c.mod, b) for b in c.node.bases]
        for c in self.classes.values():
            for b in c.bases:
                if b and b[0]=='cls' and b[1] in self.classes: self.classes[b[1]].subs.append(c.qual)
        self._callnames()

    def _load(self, path):
        rel = os.path.relpath(path, self.repo)
        name = rel[len('lib/'):-3].replace('/', '.')
        if name.endswith('.__init__'): name = name[:-len('.__init__')]
        m = Module(); m.name = name; m.path = rel
        with open(path, encoding='utf-8') as f: m.text = f.read()
        try:
            m.tree = ast.parse(m.text, path)
        except SyntaxError as ex:
            raise AnalysisError(f'cannot parse {rel}: {ex}')
        m.globals_ = {}; m.mutated = set(); m.funcs = []
        self.mods[name] = m
        self._scan_globals(m, m.tree.body, name == 'bup' or rel.endswith('__init__.py'))
        self._scan_defs(m, m.tree.body, name, None, None)

    def _scan_globals(self, m, body, is_pkg):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname: m.globals_.setdefault(a.asname, []).append(('import', a.name))
                    else:
                        top = a.name.split('.')[0]
                        m.globals_.setdefault(top, []).append(('import', top))
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    parts = m.name.split('.')
                    if not is_pkg: parts = parts[:-1]
                    parts = parts[:len(parts)-(s.level-1)]
                    base = '.'.join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    m.globals_.setdefault(a.asname or a.name, []).append(('from', base, a.name))
            elif isinstance(s,(ast.FunctionDef,ast.AsyncFunctionDef)):
                m.globals_.setdefault(s.name, []).append(('def', f'{m.name}.{s.name}'))
            elif isinstance(s, ast.ClassDef):
                m.globals_.setdefault(s.name, []).append(('class', f'{m.name}.{s.name}'))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t,(ast.Tuple,ast.List)) and isinstance(s.value,(ast.Tuple,ast.List)) \
                       and len(t.elts)==len(s.value.elts):
                        for tt, vv in zip(t.elts, s.value.elts):
                            for n in _targets(tt): m.globals_.setdefault(n, []).append(('expr', vv))
                    elif isinstance(t, ast.Name):
                        m.globals_.setdefault(t.id, []).append(('expr', s.value))
                    else:
                        for n in _targets(t): m.globals_.setdefault(n, []).append(('unk',))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                m.globals_.setdefault(s.target.id, []).append(('expr', s.value) if s.value else ('unk',))
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                m.globals_.setdefault(s.target.id, []).append(('unk',))
            elif isinstance(s,(ast.If,)):
                self._scan_globals(m, s.body, is_pkg); self._scan_globals(m, s.orelse, is_pkg)
            elif isinstance(s, ast.Try):
                for b in (s.body, s.orelse, s.finalbody): self._scan_globals(m, b, is_pkg)
                for h in s.handlers: self._scan_globals(m, h.body, is_pkg)
            elif isinstance(s,(ast.For,ast.While,ast.With)):
                if isinstance(s, ast.For):
                    for n in _targets(s.target): m.globals_.setdefault(n, []).append(('unk',))
                self._scan_globals(m, s.body, is_pkg)

    def _scan_defs(self, m, body, prefix, cls, outer):
        for s in body:
            if isinstance(s,(ast.FunctionDef,ast.AsyncFunctionDef)):
                self._add_func(m, s, f'{prefix}.{s.name}', cls, outer)
            elif isinstance(s, ast.ClassDef):
                c = Class(); c.qual = f'{prefix}.{s.name}'; c.name = s.name; c.node = s; c.mod = m
                c.methods = {}; c.bases = []; c.consts = {}; c.decos = s.decorator_list; c.outer = outer; c.subs=[]
                self.classes[c.qual] = c
                for t in s.body:
                    if isinstance(t, ast.Assign):
                        for tt in t.targets:
                            if isinstance(tt, ast.Name): c.consts[tt.id] = t.value
                    elif isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name):
                        c.consts[t.target.id] = t.value
                self._scan_defs(m, s.body, c.qual, c, outer)
            else:
                for sub in ast.iter_child_nodes(s):
                    if isinstance(sub, ast.stmt): self._scan_defs(m, [sub], prefix, cls, outer)
                    elif isinstance(sub, ast.ExceptHandler): self._scan_defs(m, sub.body, prefix, cls, outer)
                    elif isinstance(sub, ast.expr): self._scan_lambdas(m, sub, prefix, cls, outer)

    def _scan_lambdas(self, m, node, prefix, cls, outer):
        todo = [node]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Lambda):
                self._add_func(m, n, f'{prefix}.<lambda:{n.lineno}:{n.col_offset}>', None, outer)
                continue
            todo.extend(ast.iter_child_nodes(n))

    def _add_func(self, m, node, qual, cls, outer):
        f = Func(); f.node = node; f.mod = m; f.cls = cls; f.outer = outer
        f.name = getattr(node, 'name', '<lambda>'); f.is_lambda = isinstance(node, ast.Lambda)
        # several definitions of one name (platform variants): keep all, suffixing
        q = qual; i = 2
        while q in self.funcs:
            q = f'{qual}#{i}'; i += 1
        f.qual = q
        a = node.args
        f.posonly = [x.arg for x in a.posonlyargs]
        f.params = f.posonly + [x.arg for x in a.args]
        f.vararg = a.vararg.arg if a.vararg else None
        f.kwonly = [x.arg for x in a.kwonlyargs]
        f.kwarg = a.kwarg.arg if a.kwarg else None
        f.defaults = dict(zip(f.params[len(f.params)-len(a.defaults):], a.defaults))
        f.kwdefaults = {k: d for k, d in zip(f.kwonly, a.kw_defaults) if d is not None}
        f.is_gen = _is_gen(node)
        f.decos = [] if f.is_lambda else node.decorator_list
        f.globals_ = set(); f.nonlocals = set(); loc = set(f.params + f.kwonly)
        for x in (f.vararg, f.kwarg):
            if x: loc.add(x)
        f.nstmts = 0
        for n in own_nodes(node):
            if isinstance(n, ast.stmt): f.nstmts += 1
            if isinstance(n, ast.Global): f.globals_.update(n.names)
            elif isinstance(n, ast.Nonlocal): f.nonlocals.update(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx,(ast.Store,ast.Del)): loc.add(n.id)
            elif isinstance(n,(ast.FunctionDef,ast.ClassDef)): loc.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name: loc.add(n.name)
            elif isinstance(n,(ast.Import,ast.ImportFrom)):
                for al in n.names: loc.add((al.asname or al.name).split('.')[0])
        f.locals_ = loc - f.globals_ - f.nonlocals
        m.mutated |= f.globals_
        f.nested = {}
        self.funcs[f.qual] = f
        m.funcs.append(f)
        self.by_name.setdefault(f.name, []).append(f)
        self.node_func[id(node)] = f
        if cls is not None and not f.is_lambda: cls.methods.setdefault(f.name, f)
        if outer is not None: outer.nested.setdefault(f.name, []).append(f)
        body = [ast.Expr(node.body)] if f.is_lambda else node.body
        self._scan_defs(m, body, f.qual, None, f)
        # defaults and decorators can hold lambdas
        for d in list(a.defaults) + [k for k in a.kw_defaults if k]:
            self._scan_lambdas(m, d, f.qual, None, outer)
        f.has_nested = bool(f.nested)

    def add_harness(self, text, name='sa_harness'):
        m = Module(); m.name = name; m.path = f'<{name}>'; m.text = text
        m.tree = ast.parse(text); m.globals_ = {}; m.mutated = set(); m.funcs = []
        self.mods[name] = m
        self._scan_globals(m, m.tree.body, False)
        self._scan_defs(m, m.tree.body, name, None, None)
        for c in self.classes.values():
            if c.mod is m: c.bases = [self.resolve_expr(m, b) for b in c.node.bases]
        self._callnames()

    # ---- static resolution of names
    def resolve_global(self, modname, name, depth=0):
        """-> list of ('fn',qual) ('cls',qual) ('mod',name) ('ext',dotted) ('expr',mod,node) ('unk',)"""
        m = self.mods.get(modname)
        if m is None or depth > 8: return [('ext', f'{modname}.{name}')]
        out = []
        for d in m.globals_.get(name, []):
            if d[0]=='import': out.append(('mod', d[1]) if d[1] in self.mods else ('ext', d[1]))
            elif d[0]=='from':
                full = f'{d[1]}.{d[2]}' if d[1] else d[2]
                if full in self.mods and not (d[1] in self.mods and d[2] in self.mods[d[1]].globals_):
                    out.append(('mod', full))
                elif d[1] in self.mods: out.extend(self.resolve_global(d[1], d[2], depth+1))
                else: out.append(('ext', full))
            elif d[0]=='def': out.append(('fn', d[1]))
            elif d[0]=='class': out.append(('cls', d[1]))
            elif d[0]=='expr': out.append(('expr', modname, d[1]))
            else: out.append(('unk',))
        if not out and m.name in ('bup','bup.cmd','bup.repo') or not out:
            sub = f'{modname}.{name}'
            if sub in self.mods: out.append(('mod', sub))
        seen = []
        for o in out:
            if o not in seen: seen.append(o)
        return seen

    def resolve_expr(self, mod, e):
        """Static resolution of a dotted expression at module scope: one answer or None."""
        if isinstance(e, ast.Name):
            r = self.resolve_global(mod.name, e.id)
            if not r: return ('ext', e.id)
            return r[0]
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if b is None: return None
            if b[0]=='mod':
                r = self.resolve_global(b[1], e.attr)
                return r[0] if r else None
            if b[0]=='ext': return ('ext', f'{b[1]}.{e.attr}')
            if b[0]=='cls':
                m = self.find_method(b[1], e.attr)
                return ('fn', m.qual) if m else None
        return None

    def mro(self, qual):
        out, todo = [], [qual]
        while todo:
            q = todo.pop(0)
            if q in out or q not in self.classes: continue
            out.append(q)
            todo = [b[1] for b in self.classes[q].bases if b and b[0]=='cls'] + todo
        return out

    def find_method(self, clsqual, name, after=None):
        seen = after is None
        for q in self.mro(clsqual):
            if not seen:
                seen = q == after; continue
            c = self.classes[q]
            f = c.methods.get(name)
            if f: return f
            a = c.consts.get(name)
            if isinstance(a, ast.Name) and a.id in c.methods: return c.methods[a.id]    # next = __next__
        return None

    def find_const(self, clsqual, name):
        for q in self.mro(clsqual):
            c = self.classes[q]
            if name in c.consts: return c, c.consts[name]
        return None

    def exc_bases(self, qual):
        """All (repo and external) names of base classes of a repo class."""
        out = set()
        for q in self.mro(qual):
            out.add(q)
            for b in self.classes[q].bases:
                if b and b[0]=='ext': out.add(b[1])
        return out

    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None: raise AnalysisError(f'function {qual} not found')
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None: raise AnalysisError(f'class {qual} not found')
        return c

    # ---- name based call graph (over-approximate), used only to prune
    def _callnames(self):
        for f in self.funcs.values():
            names = set()
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    c = n.func
                    if isinstance(c, ast.Name): names.add(c.id)
                    elif isinstance(c, ast.Attribute): names.add('.' + c.attr)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load): names.add('.' + n.attr)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load): names.add(n.id)
                elif isinstance(n, (ast.With, ast.AsyncWith)): names.add('.__exit__x')
                elif isinstance(n, (ast.Raise,)): names.add('raise')
            f.callnames = names

    def reach_names(self, seeds, stop=(), cold=()):
        """All functions that may (by name) reach a name in seeds. seeds: bare names or '.attr'."""
        seeds = set(seeds)
        rel = set()
        # map: name -> functions it may denote
        changed = True
        hot = set(seeds)
        while changed:
            changed = False
            for f in self.funcs.values():
                if f.qual in rel or f.qual in stop: continue
                hit = f.callnames & hot
                if not hit:
                    for lst in f.nested.values():
                        if any(g.qual in rel for g in lst): hit = True; break
                if hit:
                    rel.add(f.qual); changed = True
                    n = f.name
                    if n in cold: continue
                    if f.cls is not None:
                        if n in ('__init__','__enter__','__exit__','__del__','__iter__','__next__'):
                            hot.add(f.cls.name); hot.add('.'+f.cls.name)
                            for s in self._subclasses(f.cls.qual): hot.add(s.rsplit('.',1)[1]); hot.add('.'+s.rsplit('.',1)[1])
                        else: hot.add('.'+n)
                    elif not f.is_lambda:
                        hot.add(n); hot.add('.'+n)
                        # aliases through import-as
                        for m in self.mods.values():
                            for g, ds in m.globals_.items():
                                for d in ds:
                                    if d[0]=='from' and d[2]==n and g != n: hot.add(g)
        return rel

    def _subclasses(self, q):
        out = []
        todo = list(self.classes[q].subs)
        while todo:
            x = todo.pop(); out.append(x); todo.extend(self.classes[x].subs)
        return out
