"""P09: save reuses stored data only when it is known to be there.  save_tree is followed with a representative
file and the representative directory that holds it, in every state of their index entries."""
from ..core import *
from .p10 import consts_of

EXC = 'bup.index.ExistingEntry'
FILE = mk('obj', EXC, 'FILE'); DIR = mk('obj', EXC, 'DIR'); UP = mk('obj', EXC, 'UP')
FNAME = sym('FILE.name'); DNAME = sym('DIR.name'); UNAME = sym('UP.name'); SHA = {FILE: sym('FILE.sha'), DIR: sym('DIR.sha')}
NAMES = {FILE: FNAME, DIR: DNAME, UP: UNAME}
DIRP = sym('DIRP'); FS = sym('DIR.fs'); COMP = sym('DIR.component')
WID = sym('WRITTEN'); WMODE = sym('WRITTENMODE'); NEWTREE = sym('NEWTREE')
OPT = sym('OPT'); READER = sym('READER'); STACK = mk('obj', 'bup.tree.Stack', 'STACK')
IO = mk('exc','OSError',())

def mentions(t, x): return contains(t, lambda y: y is x)

class SaveRule(Rule):
    max_depth = 12
    def __init__(self, rep, scen, items, dirfail, cfg):
        self.rep = rep; self.scen = scen; self.items = items; self.dirfail = dirfail; self.cfg = cfg; self.lists = set()
    initial = ()
    def get(self, m, k, d=None): return dict(m).get(k, d)
    def set(self, m, **kv):
        d = dict(m); d.update(kv)
        return tuple(sorted((k, v) for k, v in d.items() if v is not None))
    def say(self, rid, msg, ev, st):
        self.rep.violation('P09', f'{rid} {ev.func.qual}', f'{msg} ({self.cfg})', ev.where, st.trail_list())
    def relevant(self, f):
        g = f
        while g.outer is not None: g = g.outer
        if g.mod.name == 'bup.index': return f.cls is not None and f.cls.name in ('Entry', 'ExistingEntry', 'NewEntry') and f.name not in ('packed', 'iter', '__init__')
        return g.mod.name == 'bup.cmd.save' and g.name not in ('main', 'commit_tree', 'opts_from_cmdline', 'before_saving_regular_file', 'after_nondir_metadata_stat')
    def is_entries(self, it): return it[0]=='sym' and it[1]=='ENTRIES'
    def iter_items(self, st, it):
        if self.is_entries(it): return list(self.items)
        if self.dirfail and mentions(it, DIRP) and (it[0] in ('sub','slice') or it[0]=='call' and callee_name(it) == 'itertools.islice'): return [mk('tuple', (COMP, FS))]
        return None
    def unroll(self, f, args, depth): return depth < 4 and UP in args
    def rep_enter(self, st, it, v):
        if self.is_entries(it):
            m = self.set(st.mon, cur=v[1][1][2])
            if v[1][1] is FILE: m = self.set(m, appended=None, wrote=None, fileskip=None, seenfile=True, fexists=None)
            if v[1][1] is DIR: m = self.set(m, popped=None, dexists=None, validated=None)
            return m
    def cur(self, ev, st):
        return self.get(st.mon, 'cur') if ev.interp.rep_stage > 0 else None
    def model(self, st, ev):
        n = ev.name; m = st.mon; cur = self.cur(ev, st); a0 = ev.args[0] if ev.args else None
        if n in ('bup.index.Reader.filter', '.filter') and (ev.recv is READER): return [(m, sym('ENTRIES'))]
        if n == 'bup.tree.Stack': return [(m, STACK)]
        if n in ('bup.helpers.path_components','bup.helpers.stripped_path_components','bup.helpers.grafted_path_components'): return [(m, DIRP)]
        if n == 'len' and a0 is STACK or n == 'bup.tree.Stack.__len__':
            return [(m, mk('nat', 2 if cur else 1))]
        if n.endswith('.exists') and a0 in SHA.values() and (ev.recv is sym('REPO') or n != 'os.path.exists'):
            key = 'fexists' if a0 is SHA[FILE] else 'dexists'
            if self.get(m, key) is not None: return [(m, const(self.get(m, key)))]
            self.rep.count('existence_checks')
            return [(self.set(m, **{key: True}), TRUE), (self.set(m, **{key: False}), FALSE), (m, ('raise', mk('exc','*',())))]
        if n == 'bup.metadata.from_path':
            if mentions(a0, FNAME): return [(m, sym('META')), (self.set(m, fileskip=True), ('raise', IO))]
            if mentions(a0, FS): return [(m, sym('DIRMETA')), (self.set(m, dirfail=True), ('raise', IO))]
            return [(m, sym('OMETA')), (m, ('raise', IO))]
        if n == 'bup.helpers.add_error': return [(self.set(m, reported=True) if cur == 'FILE' or self.get(m,'dirfail') else m, NONE)]
        w = n.rsplit('.',1)[-1]
        if w in ('write_data','write_symlink','write_tree','write_bupm') and (ev.recv is sym('REPO') or n.startswith('bup.repo')):
            if cur == 'FILE': return [(self.set(m, wrote=True), WID), (self.set(m, fileskip=True), ('raise', IO))]
            return [(m, sym('OTHERID')), (m, ('raise', IO))]
        if n in ('bup.hashsplit.split_to_blob_or_tree',):
            if cur == 'FILE': return [(self.set(m, wrote=True), mk('tuple', (WMODE, WID))), (self.set(m, fileskip=True), ('raise', IO))]
            return [(m, mk('tuple', (sym('OTHERMODE'), sym('OTHERID')))), (m, ('raise', IO))]
        if n in ('bup._helpers.open_noatime','open','os.open') and cur == 'FILE':
            return [(m, sym('FD')), (self.set(m, fileskip=True), ('raise', IO))]
        if n == 'bup.tree.Stack.pop':
            ov = ev.arg(0, 'override_tree', NONE)
            if cur == 'DIR':
                for x in alts(ov):
                    if x in (NONE, FALSE): continue
                    fl = st.heap.get((DIR,'flags'), TOP)
                    ok = x is SHA[DIR] and self.get(m,'dexists') is True and fl[0]=='c' and fl[2] & self.HV and fl[2] & self.EX
                    self.rep.count('reuse_decisions')
                    if not ok: self.say('tree-reused', f'a directory is stored as {show(x)[:60]} although its index entry is not valid or the repository was not found to have that object', ev, st)
                if all(x in (NONE, FALSE) for x in alts(ov)):
                    return [(self.set(m, popped='new'), NEWTREE), (m, ('raise', mk('exc','*',())))]
                return [(self.set(m, popped='old'), ov)]
            if any(x not in (NONE, FALSE) and mentions(x, SHA[DIR]) for x in alts(ov)): self.say('tree-reused', 'a directory is stored with the id of another one', ev, st)
            return [(m, sym('OTHERTREE')), (m, ('raise', mk('exc','*',())))]
        if n == '.startswith' and a0 is not None:
            r = self.below(st, ev.recv, a0)
            if r is not None: return [(m, const(r))]
        if w in ('__lt__',): return None
        return None
    def below(self, st, a, b):
        """does path a start with path b?"""
        b = unprev(b)
        if a[0]=='phi':
            rs = {self.below(st, x, b) for x in a[1]}
            return rs.pop() if len(rs) == 1 else None
        if b not in (DNAME, UNAME): return None
        a = unprev(a)
        if mentions(a, FNAME): return True if a is FNAME else None
        if a in (DNAME, UNAME): return a is b or b is UNAME
        if a is COMP or a is FS: return False
        if mentions(a, FS):         # the path of the directory with a slash after it
            return a[0] in ('bin','call','fstr') if not is_call(a, 'os.path.split', 'os.path.basename', 'os.path.dirname') else False
        # some other path: what is visited between the file and its directory is below the directory
        if self.get(st.mon,'seenfile') or self.get(st.mon,'dirfail'): return True
        return None
    def decide(self, st, t):
        if t in (FILE, DIR, UP, STACK, WID, NEWTREE, WMODE, FNAME, DNAME, UNAME) or t in SHA.values() or t is FS: return True
        if t[0]=='cmp' and t[1]=='==' and t[2] is not t[3]:
            s = set((t[2], t[3]))
            if s & set(SHA.values()) and all(x[0] in ('c','sym') for x in s): return False
        if t[0]=='cmp' and t[1]=='<' and (contains(t[2], lambda y: is_call(y,'bup.tree.Stack.path')) or contains(t[3], lambda y: is_call(y,'bup.tree.Stack.path'))) and self.get(st.mon,'cur') == 'DIR': return False
        for x, isfile in ((FNAME, True), (DNAME, False), (UNAME, False)):
            if t[0]=='sub' and is_call(t[1], 'os.path.split') and t[1][2][0] is x and t[2] is const(1): return isfile
            if is_call(t, 'os.path.basename') and t[2][0] is x: return isfile
            if is_call(t, '.endswith') and unprev(t[1][1]) is x: return not isfile
        if t[0]=='cmp' and t[1]=='is' and t[3] is NONE and (t[2] in (WID, NEWTREE, WMODE, FNAME, DNAME, FS) or t[2] in SHA.values()): return False
        if t[0]=='bin' and t[1]=='Add' and any(x[0]=='c' and x[2] for x in t[2:4]): return True
        if t[0]=='attr' and t[2]=='name' and contains(t, self.is_entries) or is_call(t, 'os.path.join'): return True
        if is_call(t, 'stat.S_ISDIR') and contains(t, lambda y: y is sym('FILE.mode')): return False
        return None
    def call(self, st, ev):
        n = ev.name; m = st.mon; cur = self.cur(ev, st)
        if n == 'bup.tree.Stack.append_to_current' or ev.recv is STACK and n == '.append_to_current':
            if cur != 'FILE': return None
            self.rep.count('entries_added')
            name, mode, gm, oid, meta = (ev.arg(i, k, TOP) for i, k in enumerate(('name','mode','gitmode','oid','meta')))
            fl = st.heap.get((FILE,'flags'), TOP); orig = st.heap.get((FILE,'flags0'), fl)
            for x in alts(oid):
                if x is WID:
                    if not self.get(m,'wrote'): self.say('id-not-written', 'a file is added to its directory with an id that was not written', ev, st)
                elif x is SHA[FILE]:
                    self.rep.count('reuse_decisions')
                    if not (orig[0]=='c' and orig[2] & self.HV and orig[2] & self.EX): self.say('file-reused', 'the id of an index entry that is not valid is reused', ev, st)
                    elif self.get(m,'fexists') is not True: self.say('file-reused', 'the id of an index entry is reused although the repository was not found to have that object', ev, st)
                    if gm is not sym('FILE.gitmode'): self.say('file-reused', f'the id of an index entry is reused with the mode {show(gm)[:40]}, not the one recorded with it', ev, st)
                else: self.say('id-unknown', f'a file is added to its directory with the id {show(x)[:60]}, neither the one it was stored under nor the one in the index', ev, st)
            if self.get(m,'fileskip'): self.say('failed-file-added', 'a file that could not be read completely is added to its directory', ev, st)
            if mode is not sym('FILE.mode'): self.say('wrong-mode', f'a file is added with mode {show(mode)[:40]}, not its own', ev, st)
            if not mentions(name, FNAME): self.say('wrong-name', f'a file is added under the name {show(name)[:40]}', ev, st)
            return [self.set(m, appended=True)]
        return None
    def leave(self, st, f, val):
        if f.qual == 'bup.index.Entry.validate' or f.name == 'validate' and f.mod.name == 'bup.index':
            pass
        return None
    def store_attr(self, st, obj, name, val, node, func):
        if obj not in (FILE, DIR) or name not in ('flags','sha','gitmode'): return None
        m = st.mon
        class E: pass
        ev = E(); ev.func = func; ev.where = f'{func.mod.path}:{node.lineno}'
        if name == 'sha':
            want = WID if obj is FILE else NEWTREE
            for x in alts(val):
                if x is not want: self.say('wrong-id-recorded', f'the index entry of a {"file" if obj is FILE else "directory"} gets the id {show(x)[:60]}, not the one it was just stored under', ev, st)
            return None
        if name == 'gitmode':
            return None
        old = st.heap.get((obj,'flags'), TOP)
        for v in alts(val):
            if v[0]!='c': self.say('flags-unknown', f'the flags of an index entry become {show(v)[:60]}', ev, st); continue
            if v[2] & self.HV and not (old[0]=='c' and old[2] & self.HV):
                self.rep.count('validations'); self.rep.sample(f'{ev.where}: entry of the {"file" if obj is FILE else "directory"} marked valid in state {dict(m)}')
                if obj is FILE:
                    if not self.get(m,'wrote') and not self.get(m,'fexists'): self.say('validated-unsaved', 'the index entry of a file is marked valid although it was not stored', ev, st)
                    if self.get(m,'fileskip'): self.say('validated-failed', 'the index entry of a file is marked valid although storing it failed', ev, st)
                    if st.heap.get((FILE,'sha')) is not WID: self.say('wrong-id-recorded', 'the index entry of a file is marked valid without the id it was stored under', ev, st)
                else:
                    if self.get(m,'popped') != 'new': self.say('validated-unsaved', 'the index entry of a directory is marked valid although it was not stored', ev, st)
                    if FILE in [x[1][1] for x in self.items] and self.get(m,'seenfile') and self.get(m,'cur') == 'DIR' and not self.get(m,'appended') and self.ff & self.EX:
                        self.say('validated-incomplete', 'the index entry of a directory is marked valid although a file in it was left out', ev, st)
                    if self.get(m,'dirfail'): self.say('validated-incomplete', 'the index entry of a directory is marked valid although its metadata could not be read', ev, st)
                    if st.heap.get((DIR,'sha')) is not NEWTREE: self.say('wrong-id-recorded', 'the index entry of a directory is marked valid without the id it was stored under', ev, st)
        return None

def check(prog, rep, tier):
    rep.rule('P09', 'bup.cmd.save.save_tree is followed with a representative file and its directory in every state of their index entries, with any other entries before, between and after: '
             'an id is reused only if the entry is valid and the repository was asked for that id and has it; an entry is marked valid only with the id just stored, and a directory only if every '
             'existing file in it was added to its tree and its metadata could be read; an existing file is added, or an error is recorded')
    k = consts_of(prog)
    try: EX, HV, SM = k['IX_EXISTS'], k['IX_HASHVALID'], k.get('IX_SHAMISSING', 0)
    except KeyError as e: raise AnalysisError(f'bup.index has no constant {e}')
    SaveRule.EX = EX; SaveRule.HV = HV
    f = prog.funcs.get('bup.cmd.save.save_tree')
    if f is None: raise AnalysisError('bup.cmd.save.save_tree not found')
    where = f'{f.mod.path}:{f.node.lineno}'
    params = f.params + f.kwonly
    def run(ff, df, smaller, progress, dirfail=False, withfile=True):
        items = ([FILE] if withfile else []) + [DIR]
        nm = lambda v: {EX|HV: 'valid', EX|HV|SM: 'valid, id missing', EX: 'not valid', 0: 'deleted', HV: 'deleted'}[v]
        cfg = f'{"file " + nm(ff) + ", " if withfile else ""}directory {nm(df)}{", --smaller" if smaller else ""}{", --progress" if progress else ""}{", directory metadata may be unreadable" if dirfail else ""}'
        rule = SaveRule(rep, None, [mk('tuple', (sym('TRANS'), x)) for x in items], dirfail, cfg)
        rule.ff = ff
        heap = {(OPT,'smaller'): sym('SMALLER') if smaller else NONE, (OPT,'progress'): const(progress), (OPT,'verbose'): const(0), (OPT,'sources'): sym('SOURCES'),
                (OPT,'strip'): FALSE, (OPT,'strip_path'): NONE, (OPT,'grafts'): NONE}
        for o, fl in ((FILE, ff), (DIR, df)):
            t = o[2]
            heap.update({(o,'flags'): const(fl), (o,'flags0'): const(fl), (o,'sha'): SHA[o], (o,'name'): NAMES[o], (o,'parent'): UP, (o,'_m'): sym('MAP'+t), (o,'_ofs'): sym('OFS'), (o,'tmax'): NONE})
            for x in ('mode','gitmode','size','mtime','ctime','atime','dev','ino','nlink','meta_ofs','basename'): heap[(o, x)] = sym(f'{t}.{x}')
        heap.update({(UP,'flags'): const(EX|HV), (UP,'parent'): NONE, (UP,'name'): UNAME, (UP,'_m'): sym('MAPUP'), (UP,'tmax'): NONE})
        args = {'opt': OPT, 'reader': READER, 'hlink_db': sym('HLINK'), 'msr': sym('MSR'), 'repo': sym('REPO'), 'split_cfg': sym('CFG')}
        if not set(params) <= set(args): raise AnalysisError(f'parameters of save_tree: {params}')
        it = Interp(prog, rule)
        rets, excs = it.run(f, [args[p] for p in params], heap=heap)
        rep.analysed(it); rep.count('scenarios')
        if not rets: raise AnalysisError(f'save_tree never ends normally ({cfg})')
        def say(rid, msg, s): rep.violation('P09', f'{rid} {f.qual}', f'{msg} ({cfg})', where, s.trail_list())
        for s, v in rets:
            m = dict(s.mon); rep.count('ends')
            if withfile and m.get('seenfile'):
                if ff & EX:
                    if not m.get('appended') and not m.get('reported') and not smaller: say('file-lost', 'a file in the index is left out of the tree and no error is recorded', s)
                elif m.get('appended'): say('deleted-added', 'a file that is marked as deleted is added to the tree', s)
            if df & EX and not m.get('popped') and df & HV: say('directory-lost', 'a directory in the index is left out of the tree', s)
            if dirfail and m.get('dirfail') and not m.get('reported'): say('failure-not-reported', 'the metadata of a directory cannot be read and no error is recorded', s)
        return rets
    seen = set()
    for smaller in (False, True):
        for progress in (False, True):
            if smaller and progress: continue
            for ff in (EX|HV, EX, 0):
                for df in (EX,):
                    for s, v in run(ff, df, smaller, progress): seen.add(('file', ff, dict(s.mon).get('appended')))
            for s, v in run(EX|HV, EX|HV, smaller, progress, withfile=False): seen.add(('dir', dict(s.mon).get('popped')))
    run(EX|HV|SM, EX|HV|SM, False, False)
    run(EX, EX, False, False, dirfail=True, withfile=False); run(EX, EX, False, False, dirfail=True)
    for need in (('file', EX|HV, True), ('file', EX, True), ('dir', 'old'), ('dir', 'new')):
        if need not in seen: raise AnalysisError(f'no path of save_tree with {need}')
    rep.need('scenarios', 12); rep.need('validations', 4); rep.need('reuse_decisions', 4); rep.need('existence_checks', 4); rep.need('entries_added', 6); rep.need('ends', 12)
