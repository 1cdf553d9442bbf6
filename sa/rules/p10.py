"""P10: the indexer.  update_index is followed with one representative path whose index entry and current
stat differ in one chosen field; at the end the entry must have been written back as not valid with the
current values, and so must its ancestors."""
from ..core import *
from .p22 import globals_of

REP = sym('REPPATH'); OPATH = sym('OTHERPATH'); ONAME = sym('OTHERNAME'); TOPP = sym('TOPPATH')
EXC = 'bup.index.ExistingEntry'
ENT = mk('obj', EXC, 'REP'); OTHER = mk('obj', EXC, 'OTHER'); PARENT = mk('obj', EXC, 'PARENT'); GRAND = mk('obj', EXC, 'GRAND'); TOPENT = mk('obj', EXC, 'TOP')
DIRLIST = sym('DIRLIST'); ENTRIES = sym('ENTRIES')
STAT = ('st_dev','st_ino','st_nlink','st_size','st_mode','st_mtime_ns','st_ctime_ns','st_atime_ns','st_uid','st_gid')
FIELDS = {'dev':'st_dev','ino':'st_ino','nlink':'st_nlink','size':'st_size','mode':'st_mode','mtime':'st_mtime_ns','ctime':'st_ctime_ns','atime':'st_atime_ns'}
def stat_of(tag): return mk('nt', 'os.stat_result', STAT, tuple(sym(f'{tag}.{f}') for f in STAT))
NEW = stat_of('NOW'); OST = stat_of('OTHERST'); TOPST = stat_of('TOPST')
IO = mk('exc','OSError',())

def linear(t, now):
    """value of an arithmetic term with time.time() = now"""
    t = unprev(t)
    if t[0]=='c' and isinstance(t[2], (int, float)): return t[2]
    if is_call(t, 'time.time'): return now
    if is_call(t, 'time.time_ns'): return now * 10**9
    if is_call(t, 'int') or is_call(t, 'float') or is_call(t, 'round'): return linear(t[2][0], now)
    if t[0]=='bin':
        a, b = linear(t[2], now), linear(t[3], now)
        if a is None or b is None: return None
        return {'Add': lambda: a+b, 'Sub': lambda: a-b, 'Mult': lambda: a*b, 'Div': lambda: a/b, 'FloorDiv': lambda: a//b, 'Pow': lambda: a**b}.get(t[1], lambda: None)()
    return None
def is_now(t): return contains(t, lambda y: is_call(y, 'time.time', 'time.time_ns'))

def norm(t):
    t = unprev(t)
    if t[0] in ('sub','elem') and contains(t, lambda y: y is DIRLIST): return OPATH
    return t

class IndexRule(Rule):
    max_depth = 20; exact = True
    def __init__(self, rep, consts, scen, recent, paths, entries, cfg):
        self.rep = rep; self.c = consts; self.scen = scen; self.recent = recent; self.paths = paths; self.entries = entries; self.cfg = cfg
        self.caps = set(); self.written_sites = set()
    initial = (('pos','before'),)
    def get(self, m, k, d=None): return dict(m).get(k, d)
    def set(self, m, **kv):
        d = dict(m); d.update(kv)
        return tuple(sorted((k, v) for k, v in d.items() if v is not None))
    def relevant(self, f):
        return f.mod.name in ('bup.cmd.index', 'bup.index', 'bup.xstat', 'sa_harness') and f.name not in ('check_index', '_golevel', 'clear_index', '__repr__') \
            and not (f.cls and f.cls.name in ('MetaStoreReader', 'MetaStoreWriter', 'Reader', 'Level')) and f.name not in ('reduce_paths', 'unique_resolved_paths', '_slashappend_or_add_error')
    def iter_items(self, st, it):
        if it is DIRLIST: return list(self.paths)
        return None
    def unroll(self, f, args, depth): return depth < 4 and any(a in (PARENT, GRAND) for a in args)
    def rep_enter(self, st, it, v):
        if it is DIRLIST: return self.set(st.mon, visited=True)
    def type_of(self, t):
        return None
    def model(self, st, ev):
        n = ev.name; m = st.mon
        if n == 'bup.drecurse.recursive_dirlist': return [(m, DIRLIST)]
        if n in ('bup.index.Reader',): return [(m, mk('obj', 'bup.index.Reader', 'RI'))]
        if n in ('bup.index.MetaStoreWriter',): return [(m, mk('obj', 'bup.index.MetaStoreWriter', 'MSW'))]
        if n == 'bup.index.Reader.iter' or n == '.iter' or n == 'bup.index.Reader.__iter__': return [(m, ENTRIES)]
        if n == 'iter' and ev.args and ev.args[0] is ENTRIES: return [(m, ENTRIES)]
        if n == 'bup.index.Reader.exists': return [(m, TRUE)]
        if n in ('next', '.__next__') and (ev.args and ev.args[0] is ENTRIES or ev.recv is ENTRIES):
            pos = self.get(m,'pos')
            if not isinstance(pos, int):
                out = [(self.set(m, pos='before'), OTHER)] if pos == 'before' else []
                if self.entries and pos == 'before': out.append((self.set(m, pos=0), self.entries[0]))
                if not self.entries and pos == 'before': out.append((self.set(m, pos='after'), NONE))
                if pos == 'after': out += [(m, OTHER), (m, NONE)]
                return out
            if pos + 1 < len(self.entries): return [(self.set(m, pos=pos+1), self.entries[pos+1])]
            return [(self.set(m, pos='after'), OTHER), (self.set(m, pos='after'), NONE)]
        if n in ('bup.metadata.from_path',):
            a = ev.arg(0, 'path', NONE)
            if contains(a, lambda y: y is REP): 
                return [(m, sym('META')), (self.set(m, failed=True), ('raise', IO))]
            return [(m, sym('OMETA')), (m, ('raise', IO))]
        if n == 'bup.helpers.add_error':
            return [(self.set(m, reported=True) if self.get(m,'failed') else m, NONE)]
        if n.startswith('.') and n[1:] in ('store',) or n == 'bup.index.MetaStoreWriter.store': return [(m, sym('METAOFS'))]
        if n == 'min' and len(ev.args) == 2:
            r = self.newer(ev.args[0], ev.args[1])
            if r is not None: return [(m, ev.args[1] if r else ev.args[0])]
        if n in ('stat.S_ISDIR',): return [(m, FALSE)]
        return None
    def newer(self, a, b):
        """is the timestamp a later than b?"""
        ts = lambda t: t[0]=='sym' and t[1].endswith(('.st_mtime_ns','.st_ctime_ns'))
        a, b = unprev(a), unprev(b)
        if is_now(b) and ts(a): self.cap(b); return self.recent if a[1].startswith('NOW.') else None
        if is_now(a) and ts(b): self.cap(a); return not self.recent if b[1].startswith('NOW.') else None
        return None
    def cap(self, t): self.caps.add(t)
    def decide(self, st, t):
        if t in (ENT, OTHER, PARENT, GRAND, TOPENT, NEW, OST, TOPST): return True
        if t is self.c['EMPTY']: return True
        if t[0]=='sym' and t[1] in ('REALSHA','REALMODE'): return True
        if t[0]!='cmp': return None
        op, a, b = t[1], norm(t[2]), norm(t[3])
        if op in ('==','!=') and a[0]=='sym' and b[0]=='sym':
            x = self.equal(a, b)
            if x is not None: return x == (op == '==')
        if op in ('==','!=') and {a, b} & {sym('REALSHA'), sym('REALMODE')} and a is not b and (a[0]=='c' or b[0]=='c'): return op == '!='
        if op in ('==','!=') and a[0]==b[0]=='tuple' and len(a[1])==len(b[1]):
            rs = [self.equal(x, y) if x is not y else True for x, y in zip(a[1], b[1])]
            if any(r is False for r in rs): return op == '!='
            if all(r is True for r in rs): return op == '=='
        if op in ('<','>','<=','>='):
            if op[0] == '<': a, b = b, a
            r = self.newer(a, b)
            if r is not None: return r
            return self.order(st, a, b)
        return None
    def equal(self, a, b):
        a, b = norm(a), norm(b)
        if a is b: return True
        names = {REP, OPATH, ONAME, TOPP}
        if a in names and b in names: return None if {a, b} == {OPATH, ONAME} else False
        for x, y in ((a, b), (b, a)):
            if x[0]=='sym' and y[0]=='sym' and x[1].startswith('OLD.') and y[1].startswith('NOW.'):
                f = x[1][4:]
                if FIELDS.get(f) != y[1][4:]: return None
                return f != self.scen
            if x[0]=='c' and y[0]=='c': return x is y
        if a in (sym('REALSHA'), sym('REALMODE')) or b in (sym('REALSHA'), sym('REALMODE')): return False
        return None
    def order(self, st, a, b):
        """does the name a come before b in the (descending) walk?"""
        m = st.mon; pos = self.get(m,'pos'); vis = self.get(m,'visited')
        def rank(x):
            if x is REP: return 1
            if x is TOPP: return 2
            if x is OPATH: return 0 if not vis else 3
            if x is ONAME: return 0 if pos == 'before' else 3 if pos == 'after' else None
        if a is b: return False
        ra, rb = rank(a), rank(b)
        if ra is None or rb is None or ra == rb: return None
        if {a, b} == {OPATH, REP} and self.entries and TOPENT in self.entries: return None   # a path that went away: anywhere among the others
        return ra < rb
    def call(self, st, ev):
        m = st.mon; n = ev.name
        if n in ('[]=', 'struct.pack_into'):
            for o, key in ((ENT,'ent'), (PARENT,'par'), (GRAND,'grand')):
                buf = mk('sym', 'MAP'+o[2])
                if ev.recv is buf or n == 'struct.pack_into' and buf in ev.args:
                    fl = st.heap.get((o,'flags'), TOP)
                    self.rep.count('entry_writes'); self.written_sites.add(ev.where)
                    self.rep.sample(f'{ev.where}: {key} written back with flags {show(fl)}')
                    return [self.set(m, **{key: self.snapshot(st, o)})]
        objs = [a for a in ev.args if a[0]=='obj' and a[1] in ('bup.index.NewEntry','bup.index.Entry') or a[0]=='obj' and a[1]=='bup.index.BlankNewEntry']
        if objs and n.rsplit('.',1)[-1] not in ('__init__',) and (n.startswith('bup.index._golevel') or ev.callee is None or not self.relevant(ev.callee) or n.endswith('.write')):
            o = objs[0]
            if contains(st.heap.get((o,'name'), TOP), lambda y: y is REP):
                self.rep.count('entry_writes')
                return [self.set(m, new=self.snapshot(st, o))]
        return None
    def snapshot(self, st, o):
        g = lambda f: st.heap.get((o, f), TOP)
        return (g('flags'),) + tuple(unprev(g(f)) for f in ('dev','ino','nlink','size','mode','mtime','ctime'))

def consts_of(prog):
    out = {}
    mod = prog.mods['bup.index']
    for n in mod.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.targets[0], ast.Name): out[n.targets[0].id] = n.value.value
    return out

def check(prog, rep, tier):
    rep.rule('P10', 'bup.cmd.index.update_index is followed with a representative path whose index entry and stat differ in one chosen way: at every normal end the entry was written back '
             'with the current stat values, not marked valid, and its ancestors are not marked valid; timestamps later than one second before the start are never recorded; a path that is '
             'gone is written back as deleted; a new path enters the index not valid; the options reach update_index unchanged')
    k = consts_of(prog)
    try: EX, HV = k['IX_EXISTS'], k['IX_HASHVALID']
    except KeyError as e: raise AnalysisError(f'bup.index has no constant {e}')
    f = prog.funcs.get('bup.cmd.index.update_index')
    if f is None: raise AnalysisError('bup.cmd.index.update_index not found')
    where = f'{f.mod.path}:{f.node.lineno}'
    empty = const(b'\0'*20)
    def ancestors(heap):
        for o, par in ((PARENT, GRAND), (GRAND, NONE)):
            heap.update({(o,'flags'): const(EX|HV), (o,'parent'): par, (o,'tmax'): NONE, (o,'_m'): mk('sym','MAP'+o[2]), (o,'_ofs'): sym('OFS'+o[2]), (o,'sha'): sym('REALSHA'), (o,'gitmode'): sym('REALMODE')})
            for x in FIELDS: heap[(o, x)] = sym(f'{o[2]}.{x}')
    def entry(heap, o, name, flags, **kv):
        heap.update({(o,'name'): name, (o,'basename'): sym('BASE'), (o,'flags'): flags, (o,'parent'): PARENT, (o,'tmax'): NONE, (o,'_m'): mk('sym','MAP'+o[2]), (o,'_ofs'): sym('OFS'+o[2]),
                     (o,'sha'): sym('REALSHA'), (o,'gitmode'): sym('REALMODE')})
        for x in FIELDS: heap[(o, x)] = sym(f'{"OLD" if o is ENT else o[2]}.{x}')
        heap.update({(o, a): b for a, b in kv.items()})
    def run(scen, recent, paths, entries, flags=EX|HV, check_device=True, fake_invalid=False, **kv):
        cfg = f'{scen}{", recent" if recent else ""}{"" if check_device else ", --no-check-device"}{", --fake-invalid" if fake_invalid else ""}'
        rule = IndexRule(rep, {'EMPTY': None, 'EX': EX, 'HV': HV}, scen, recent, paths, entries, cfg)
        heap = {}
        ancestors(heap)
        entry(heap, ENT, REP, const(flags), **kv); entry(heap, TOPENT, TOPP, const(EX))
        heap.update({(OTHER,'name'): ONAME, (OTHER,'_m'): sym('MAPX'), (OTHER,'parent'): NONE, (OTHER,'tmax'): NONE, (OTHER,'flags'): const(EX)})
        heap[(TOPENT,'parent')] = NONE
        it = Interp(prog, rule)
        kw = dict(check=FALSE, check_device=const(check_device), fake_valid=FALSE, fake_invalid=const(fake_invalid), out=sym('OUT'), verbose=const(0))
        rets, excs = it.run(f, [sym('TOP'), sym('EXCL'), sym('RX'), sym('FSINDEX')], kwargs=kw, heap=heap, env={(('mod', 'bup.index'), 'EMPTY_SHA'): const(b'\0'*20)})
        rep.analysed(it); rep.count('scenarios')
        if not rets: raise AnalysisError(f'update_index never ends normally ({cfg})')
        if not rule.caps and scen not in ('deleted',) and recent: rep.violation('P10', f'not-capped {f.qual}', f'a modification or change time is recorded without being compared with the start of the run ({cfg})', where)
        for c in rule.caps:
            v = linear(c, 1000)
            if v is None: raise AnalysisError(f'time limit {show(c)} not understood')
            rep.count('time_limits')
            if v > 999 * 10**9: rep.violation('P10', f'cap-too-late {f.qual}', f'the limit for recorded timestamps, {show(c)}, is later than one second before the start of the run', where)
        return rets, cfg
    def say(rid, msg, cfg, s): rep.violation('P10', f'{rid} {f.qual}', f'{msg} ({cfg})', where, s.trail_list())
    def flag(v):
        """set of possible flag words"""
        vs = alts(v)
        return [x[2] if x[0]=='c' else None for x in vs]
    def judge_stat(s, snap, cfg, recent):
        fl, dev, ino, nlink, size, mode, mtime, ctime = snap
        for name, t, want in (('device',dev,'st_dev'), ('inode',ino,'st_ino'), ('link count',nlink,'st_nlink'), ('size',size,'st_size'), ('mode',mode,'st_mode')):
            if t is not sym('NOW.'+want): say('stat-not-recorded', f'the {name} recorded for a path that changed is {show(t)[:60]}, not the current one', cfg, s)
        for name, t, want in (('modification time',mtime,'st_mtime_ns'), ('change time',ctime,'st_ctime_ns')):
            for x in alts(t):
                x = unprev(x)
                if recent and not is_now(x): say('time-not-capped', f'a {name} later than one second before the start of the run is recorded as {show(x)[:60]}', cfg, s)
                if not recent and x is not sym('NOW.'+want) : say('stat-not-recorded', f'the {name} recorded for a path that changed is {show(x)[:60]}, not the current one', cfg, s)
    def judge_ancestors(s, cfg):
        for key, what in (('par','parent'), ('grand','grandparent')):
            w = dict(s.mon).get(key)
            if w is None: say('ancestor-valid', f'the {what} of a path that needs saving is not written back as invalid', cfg, s)
            elif any(x is None or x & HV for x in flag(w[0])): say('ancestor-valid', f'the {what} of a path that needs saving is written back still marked valid', cfg, s)
    def changed(scen, recent=False, flags=EX|HV, **kv):
        rets, cfg = run(scen, recent, [mk('tuple', (REP, NEW))], [ENT], flags=flags, **kv)
        ok = 0
        for s, v in rets:
            m = dict(s.mon)
            if m.get('failed'):
                if not m.get('reported'): say('failure-not-reported', 'a path whose metadata cannot be read keeps its old entry and no error is recorded', cfg, s)
                continue
            if not m.get('visited'): continue
            w = m.get('ent'); rep.count('judged')
            if w is None:
                if scen == 'same': continue
                say('change-not-recorded', 'the entry of a path that changed is not written back', cfg, s); continue
            if any(x is None or x & HV for x in flag(w[0])):
                if scen != 'same': say('still-valid', f'the entry of a path that changed is written back still marked valid', cfg, s)
                continue
            if any(not x & EX for x in flag(w[0])): say('marked-deleted', 'the entry of a path that is there is written back as deleted', cfg, s); continue
            if scen not in ('same', 'fake-invalid'): judge_stat(s, w, cfg, recent); ok += 1
            judge_ancestors(s, cfg)
        if scen != 'same' and not ok and scen != 'fake-invalid': say('change-not-recorded', 'no path records the change', cfg, rets[0][0])
    for scen in ('size','mtime','ctime','ino','nlink','dev'):
        for recent in (False, True):
            changed(scen, recent)
        if scen != 'dev': changed(scen, False, check_device=False)
    for recent in (False, True):
        changed('no-id', recent, sha=empty); changed('no-mode', recent, gitmode=const(0)); changed('was-deleted', recent, flags=0)
    changed('was-deleted', False, flags=HV)
    changed('same'); changed('same', flags=EX); changed('fake-invalid', fake_invalid=True)
    changed('size', flags=EX)
    # a path that is gone
    for flags in (EX|HV, EX):
        rets, cfg = run('deleted', False, [mk('tuple', (TOPP, TOPST))], [ENT, TOPENT], flags=flags)
        for s, v in rets:
            m = dict(s.mon)
            if not m.get('visited'): continue
            w = m.get('ent'); rep.count('judged')
            if w is None: say('deletion-not-recorded', 'the entry of a path that is gone is not written back', cfg, s); continue
            if any(x is None or x & (EX|HV) for x in flag(w[0])): say('deletion-not-recorded', 'the entry of a path that is gone is written back as existing or valid', cfg, s)
            judge_ancestors(s, cfg)
    # a new path
    for recent in (False, True):
        rets, cfg = run('new', recent, [mk('tuple', (REP, NEW))], [])
        for s, v in rets:
            m = dict(s.mon)
            if m.get('failed'):
                if not m.get('reported'): say('failure-not-reported', 'a new path whose metadata cannot be read is left out and no error is recorded', cfg, s)
                continue
            if not m.get('visited'): continue
            w = m.get('new'); rep.count('judged')
            if w is None: say('new-path-lost', 'a new path is not added to the index', cfg, s); continue
            if any(x is None or x & HV or not x & EX for x in flag(w[0])): say('new-path-valid', 'a new path is added to the index already marked valid, or as deleted', cfg, s)
            judge_stat(s, w, cfg, recent)
    options(prog, rep)
    rep.need('scenarios', 20); rep.need('judged', 30); rep.need('entry_writes', 20); rep.need('time_limits', 4)

class MainRule(Rule):
    max_depth = 3
    def __init__(self): self.calls = []
    def relevant(self, f): return f.mod.name == 'bup.cmd.index' and f.name in ('main',)
    def model(self, st, ev):
        if ev.name == 'bup.options.Options.parse_bytes' or ev.name == '.parse_bytes': return [(st.mon, mk('tuple', (sym('OPT'), sym('FLAGS'), sym('EXTRA'))))]
    def call(self, st, ev):
        if ev.name == 'bup.cmd.index.update_index': self.calls.append((st, ev))
def options(prog, rep):
    f = prog.funcs['bup.cmd.index.main']; u = prog.funcs['bup.cmd.index.update_index']
    rule = MainRule(); it = Interp(prog, rule)
    it.run(f, [sym('ARGV')]); rep.analysed(it)
    if not rule.calls: raise AnalysisError('bup index never calls update_index')
    names = [a.arg for a in u.node.args.args + u.node.args.kwonlyargs]
    for st, ev in rule.calls:
        rep.count('option_uses')
        for opt in ('check_device', 'fake_valid', 'fake_invalid'):
            if opt not in names: raise AnalysisError(f'update_index has no parameter {opt}')
            t = ev.arg(names.index(opt), opt, None)
            if t is None or not all(x[0]=='attr' and x[1] is sym('OPT') and x[2]==opt for x in alts(t)):
                rep.violation('P10', f'option {ev.func.qual}:{opt}', f'update_index is given {show(t)[:60] if t is not None else "nothing"} for {opt}, not the option of that name', ev.where)
