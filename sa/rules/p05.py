"""P05: garbage collection.  One representative live object is followed from a ref through the mark
phase and the sweep of the pack that holds it: whatever else is in the repository, no path may remove
that pack before the object is in a published pack."""
from ..core import *
from ..files import RENAME
from . import p03, p04

X, O, REF, PREFIX, DATA = sym('PACK-IDX'), sym('OID'), sym('REF'), sym('NEW-PACK'), sym('DATA')
REPO = mk('obj', 'bup.repo.local.LocalRepo', 'gc')
IDX = lambda name: mk('idxof', name)
UNLINKS = {'os.unlink','os.remove','bup.helpers.unlink','shutil.rmtree','.unlink','os.removedirs','shutil.move'} | set(RENAME)
ANCHORS = {'bup.git.walk_object','bup.git.list_refs','bup.git.open_idx','bup.git.catpipe','bup.midx.clear_midxes','bup.bloom.clear_bloom'}

def has(t, x): return contains(t, lambda y: y is x)
def glob_of(t):
    """Pattern terms of the directory listings t comes from."""
    return [y[2][0] for y in subterms(t) if y[0]=='call' and y[1][0]=='ext' and y[1][1] in ('glob.glob','glob.iglob') and y[2]]
def idx_listing(t):
    return any(tail(g).endswith(b'*.idx') and not has(g, X) for g in glob_of(t))

class GcRule(Rule):
    empty_lists = True
    initial = frozenset()
    def __init__(self, rep, prog, kind, missing, rel):
        self.rep = rep; self.p = prog; self.kind = kind; self.missing = missing; self.rel = rel
        self.cb = None; self.compared = False; self.unlinks = 0; self.stops = []
        self.what = kind + (' (missing)' if missing else '')
    def relevant(self, f):
        if f.qual in ANCHORS: return False
        if f.cls and f.cls.qual == 'bup.repo.local.LocalRepo': return f.name in ('__enter__','__exit__')
        return f.mod.name == 'bup.gc' and f.qual not in ('bup.gc.count_objects',)
    def bad(self, st, rid, msg, ev):
        self.rep.violation('P05', f'{rid} {ev.func.qual} {self.what}', msg, ev.where, st.trail_list())
    def item(self, st, gen):
        env = dict(gen[3]) if gen[0]=='gen' else {}
        nt = mk('nt', 'bup.git.WalkItem', ('oid','name','mode','type','data'),
                (O, sym('NAME'), sym('MODE'), const(self.kind.encode()), FALSE if self.missing else NONE))
        r = env.get('result')
        return nt if r is not None and r[0]=='c' and r[2]=='item' else mk('list', (nt,), site_id('p05walk'))
    def iter_items(self, st, it):
        if it[0]=='gen' and it[1]=='bup.git.list_refs':
            if any(v is not NONE and v is not FALSE for k, v in it[3] if k != 'repo_dir'): return []
            return [mk('tuple', (sym('REFNAME'), REF))]
        if it[0]=='gen' and it[1]=='bup.git.walk_object':
            env = dict(it[3])
            if not has(env.get('oidx', TOP), REF): return []
            return [self.item(st, it)]
        if it[0]=='call' and it[1][0]=='ext' and it[1][1] in ('glob.glob','glob.iglob') and it[2]:
            t = tail(it[2][0])
            if t.endswith(b'*.idx'): return [X]
            if has(it[2][0], X): return [mk('file', it[2][0])]
            return []
        if it[0]=='idxof': return [O] if it[1] is X else []
    def decide(self, st, t):
        if t[0]=='cmp' and t[1]=='==' and has(t, PREFIX): self.compared = True
    def model(self, st, ev):
        n = ev.name; last = n.rsplit('.',1)[-1]; m = st.mon
        anyex = mk('exc','*',())
        if n == 'bup.git.open_idx': return [(m, IDX(ev.args[0])), (m, ('raise', anyex))]
        if n == 'bup.repo.local.LocalRepo' or ev.callee is not None and getattr(ev.callee,'qual','')=='bup.repo.local.LocalRepo':
            self.cb = dict(ev.kw).get('on_pack_finish'); self.rep.count('collector_repositories')
            return [(m, REPO), (m, ('raise', anyex))]
        if last == 'get' and ev.args and is_call(ev.args[0], 'binascii.hexlify', '.hex') and has(ev.args[0], O):
            self.rep.count('live_object_reads')
            return [(m, mk('tuple', (ev.args[0], const(self.kind.encode()), sym('SIZE'), DATA))), (m, ('raise', anyex))]
        if last == 'exists' and ev.args and ev.args[0] is O:
            if ('added', ev.recv) in m: return [(m, TRUE)]
            return [(m, TRUE), (m, FALSE)]
        if ev.recv is REPO:
            if last == 'just_write':
                ok = ev.arg(0,'oid',TOP) is O and has(ev.arg(2,'content',TOP), DATA) and ev.arg(1,'type',TOP) is const(self.kind.encode())
                if ok: self.rep.count('live_object_writes')
                m2 = m | ({'pending','open'} if ok and 'published' not in m else {'open'})
                s = st.with_mon(m2)
                return [(s, NONE), (m | {'open'}, ('raise', anyex))] + self.flush(s, ev, None)
            if last in ('close','finish_writing'):
                if 'open' not in m: return [(m, NONE)]
                return self.flush(st, ev, None) + [(m - {'pending','open'}, ('raise', anyex))]
            if last in ('abort_writing','abort'):
                return [(m - {'pending','open'}, NONE), (m - {'pending','open'}, ('raise', anyex))]
    def flush(self, st, ev, val):
        """A pack is finished: everything pending is published, then the callback runs."""
        m = st.mon
        s = st.with_mon((m - {'pending','open'}) | ({'published'} if 'pending' in m else set()))
        if self.cb is None or self.cb is NONE: return [(s, NONE)]
        self.rep.count('finish_callbacks')
        R = []
        out = [(x.with_mon(x.mon - {'callback'}), NONE) for x, _ in ev.interp.call_value(s.with_mon(s.mon | {'callback'}), self.cb, (PREFIX,), (), ev.node, R)]
        return out + [(x.with_mon(x.mon - {'callback'}), ('raise', e)) for x, e in R]
    def call(self, st, ev):
        n = ev.name; last = n.rsplit('.',1)[-1]; m = st.mon
        if n == 'iter' and ev.recv[0]=='gen' and ev.recv[1]=='bup.git.walk_object':
            self.check_stop(st, ev, dict(ev.recv[3])); return None
        if last in ('add','append') and ev.args and ev.args[0] is O: return [m | {('added', ev.recv)}]
        if last in ('update','|=') and ev.args and has(ev.args[0], O) and ev.recv is not None: return [m | {('added', ev.recv)}]
        if n == 'bup.midx.clear_midxes': return [m | {'midx'}]
        if n == 'bup.bloom.clear_bloom': return [m | {'bloom'}]
        if n in UNLINKS or last == 'unlink' and n.startswith('bup.'):
            p = ev.args[0] if ev.args else ev.recv
            if p is None: return None
            if contains(p, lambda t: is_call(t, 'tempfile.mkstemp', 'tempfile.NamedTemporaryFile', 'tempfile.mkdtemp')): return None
            self.unlink(st, ev, p)
        return None
    def call_raises(self, st, ev): return None
    def unlink(self, st, ev, p):
        m = st.mon
        self.rep.count('pack_removals_visited'); self.unlinks += 1
        if not (has(p, X) or idx_listing(p)):
            return self.bad(st, 'removes-unexamined', f'{show(p)} is removed, which is no file of a pack whose index was examined', ev)
        if 'midx' not in m: self.bad(st, 'midx-not-cleared', 'a pack is removed while multi-indexes may still name its objects', ev)
        if 'bloom' not in m: self.bad(st, 'bloom-not-cleared', 'a pack is removed while the bloom filter may still name its objects', ev)
        if self.missing:
            return self.bad(st, 'missing-ignored', 'a pack is removed although the walk of the refs met a missing object', ev)
        if 'callback' in m:
            same = [v for t, v in st.facts.items() if t[0]=='cmp' and t[1]=='==' and has(t, PREFIX) and has(t, X)]
            if True in same or not same and not self.compared:
                self.bad(st, 'removes-new-pack', 'a pack just finished may have the name of a stale pack and is removed again', ev)
        if has(p, X) and 'published' not in m:
            self.bad(st, 'live-object-lost', f'the pack that holds a live {self.kind} is removed on a path on which that object '
                     + ('was written but its new pack is not finished' if 'pending' in m else 'was not kept'), ev)
        for c in self.stops:
            if self.kind != 'blob' and not any(o is c or o in alts(c) for f in m if isinstance(f, tuple) for o in (f[1],)):
                self.bad(st, 'stop-set', 'the walk stops at objects found in a collection to which the walked objects are not added', ev)
    def check_stop(self, st, ev, env):
        """stop_at may only be true for an object that the walk has already delivered."""
        f = env.get('stop_at')
        if f is None or f is NONE: return
        z = mk('call', mk('ext','binascii.hexlify'), (sym('WALKED'),), (), 0)
        for s, v in ev.interp.call_value(st, f, (z,), (), ev.node, []):
            t = ev.interp.assume(s, v, True)
            if t is None: continue
            self.rep.count('stop_conditions')
            cs = [c[3] for c, val in t.facts.items() if val is True and c[0]=='cmp' and c[1]=='in' and has(c[2], sym('WALKED'))]
            if not cs: self.bad(st, 'stop-condition', 'the walk may stop at an object for another reason than that it was delivered before', ev)
            for c in cs:
                if c not in self.stops: self.stops.append(c)
    def raises(self, ev, default):
        n = ev.name
        if n in ('bup.git.walk_object','iter'): return False
        return default

# ------------------------------------------------------------------ the walk
WALK = '''
from bup.git import walk_object
def top(get_ref, oidx, stop_at, oid_exists):
    for it in walk_object(get_ref, oidx, stop_at=stop_at, include_data=None, oid_exists=oid_exists):
        delivered(it)
def top_data(get_ref, oidx, stop_at, oid_exists):
    for it in walk_object(get_ref, oidx, stop_at=stop_at, include_data=True, oid_exists=oid_exists):
        delivered(it)
def delivered(it): pass
'''
CHILD = sym('CHILD-OID')
class WalkRule(Rule):
    """Every object taken from the work list is stopped, delivered, or its children are put on the list."""
    initial = ('start', frozenset())
    max_depth = 12
    def __init__(self, rep): self.rep = rep
    def relevant(self, f): return f.mod.name in ('sa_harness',) and f.name != 'delivered' or f.qual == 'bup.git.walk_object' or (f.outer is not None and f.outer.qual == 'bup.git.walk_object')
    def iter_items(self, st, it):
        if it[0]=='attr' and it[2]=='parents': return [CHILD]
        if it[0] in ('gen','call') and has(it, DATA) and not contains(it, lambda t: t[0] in ('slice','comp')):
            return [mk('tuple', (sym('EMODE'), sym('ENAME'), CHILD))]
    def bad(self, ev, st, rid, msg):
        self.rep.violation('P05-walk', f'{rid}', msg, ev.where if ev else None, st.trail_list())
    def done(self, st, ev):
        ph, pushed = st.mon
        if ph in ('start','ok'): return
        if ph == 'tree' and 'child' not in pushed: self.bad(ev, st, 'tree-entry-not-walked', 'an entry of a tree is not put on the work list')
        elif ph == 'commit' and 'child' not in pushed: self.bad(ev, st, 'parent-not-walked', 'a parent of a commit is not put on the work list')
        elif ph == 'commit' and 'tree' not in pushed: self.bad(ev, st, 'commit-tree-not-walked', 'the tree of a commit is not put on the work list')
        elif ph in ('tree','commit') and not ({'self','yield'} & pushed): self.bad(ev, st, f'{ph}-not-delivered', f'a {ph} is neither delivered nor put on the list for delivery')
        elif ph == 'popped': self.bad(ev, st, 'object-dropped', 'an object taken from the work list is dropped without being stopped or delivered')
        elif ph in ('blob','missing') and 'yield' not in pushed: self.bad(ev, st, f'{ph}-not-delivered', f'a {ph} object is not delivered')
    def model(self, st, ev):
        n = ev.name; last = n.rsplit('.',1)[-1]
        ph, pushed = st.mon
        if n == 'STOP': return [(('ok', frozenset()) if ph == 'popped' else st.mon, TRUE), (st.mon, FALSE)]
        if n == 'GET':
            if ph != 'popped': return [(st.mon, TOP)]
            self.rep.count('object_reads_visited')
            ok = const(b'0'*40)
            out = [((k, frozenset()), mk('tuple', (ok, const(k.encode()), sym('SIZE'), DATA))) for k in ('commit','tree','blob')]
            return out + [(('missing', frozenset()), mk('tuple', (NONE, NONE, NONE, NONE))), (st.mon, ('raise', mk('exc','*',())))]
        if n == 'sa_harness.delivered':
            return [((ph, pushed | {'yield'}) if ph != 'popped' else ('ok', frozenset()), NONE)] if ph != 'start' else [(st.mon, NONE)]
    def call(self, st, ev):
        n = ev.name; last = n.rsplit('.',1)[-1]
        ph, pushed = st.mon
        if last in ('pop','popleft') and ev.recv is not None and ev.recv[0] in ('list','call'):
            self.done(st, ev); self.rep.count('work_list_pops')
            return [('popped', frozenset())]
        if last in ('append','extend','insert','appendleft') and ev.recv is not None and ph in ('tree','commit'):
            add = set()
            for t in ev.args:
                if contains(t, lambda x: x is CHILD): add.add('child')
                if contains(t, lambda x: x[0]=='attr' and x[2]=='tree'): add.add('tree')
                if contains(t, lambda x: x is TRUE): add.add('self')
            return [(ph, pushed | add)]
        return None

class ClearRule(Rule):
    initial = frozenset()
    def __init__(self, suffix): self.suffix = suffix
    def relevant(self, f): return f.nstmts < 14 and f.name != 'unlink'
    def iter_items(self, st, it):
        if it[0]=='call' and it[1][0]=='ext' and it[1][1] in ('glob.glob','glob.iglob') and tail(it[2][0]).endswith(self.suffix): return [X]
    def call(self, st, ev):
        if ev.name in UNLINKS and ev.args:
            if ev.args[0] is X or tail(ev.args[0]).endswith(b'/bup.bloom') and self.suffix == b'bup.bloom': return [st.mon | {'gone'}]

WRITER = '''
from bup.repo.local import LocalRepo
from bup.git import LocalPackStore
def drive(oid, kind, content):
    r = LocalRepo(on_pack_finish=cb, allow_duplicates=True, run_midx=False)
    r.just_write(oid, kind, content)
def finish(oid, data):
    s = LocalPackStore(on_pack_finish=cb, allow_duplicates=True, run_midx=False)
    s.write(data, oid)
    s.finish_pack()
def abort(oid, data):
    s = LocalPackStore(on_pack_finish=cb, allow_duplicates=True, run_midx=False)
    s.write(data, oid)
    s.finish_pack(abort=True)
def abort_close(oid, data):
    s = LocalPackStore(on_pack_finish=cb, allow_duplicates=True, run_midx=False)
    s.write(data, oid)
    s.abort()
    s.close()
def cb(prefix): pass
'''
class FinishRule(Rule):
    '''The finish callback runs only once the pack and its index have their final names.'''
    initial = frozenset()
    def __init__(self, rep, mode): self.rep = rep; self.mode = mode
    def relevant(self, f):
        return f.mod.name == 'sa_harness' and f.name != 'cb' or f.cls is not None and f.cls.qual == 'bup.git.LocalPackStore' or f.mod.name == 'bup.git' and f.name in ('fsync',)
    def call(self, st, ev):
        if ev.name in RENAME:
            t = tail(ev.args[1])
            if t.endswith(b'.pack'): return [st.mon | {'pack'}]
            if t.endswith(b'.idx'): return [st.mon | {'idx'}]
        if ev.name == 'sa_harness.cb':
            self.rep.count('finish_callback_sites')
            if self.mode == 'abort' or not {'pack','idx'} <= st.mon:
                self.rep.violation('P05', f'callback-before-publication {ev.func.qual}', 'the finish callback runs although the pack and its index do not have their final names yet' if self.mode != 'abort' else 'the finish callback runs for an aborted pack', ev.where, st.trail_list())

class WriterRule(Rule):
    initial = frozenset()
    def __init__(self, rep): self.rep = rep
    def relevant(self, f):
        q = f.qual
        return f.mod.name == 'sa_harness' and f.name != 'cb' or q.startswith('bup.repo.local.LocalRepo.') and f.name in ('__init__','just_write','_ensure_packwriter') \
            or q.startswith('bup.git.PackWriter.') or q == 'bup.git.LocalPackStore.__init__'
    def model(self, st, ev):
        n = ev.name
        if n == 'bup.git.LocalPackStore.write':
            ok = sym('oid') in (ev.arg(1,'sha',TOP),)
            return [(st.mon | ({'stored'} if ok else set()), mk('tuple',(sym('SIZE'),sym('CRC')))), (st.mon, ('raise', mk('exc','*',())))]
    def call(self, st, ev):
        if ev.name in ('bup.git.LocalPackStore.finish_pack',): return [st.mon]

def check(prog, rep, tier):
    rep.rule('P05', 'a representative live object is followed through mark and sweep (per object type): on every path it must be recorded live, '
             'and the files of the pack that holds it are removed only after it is in a finished pack; before the first removal multi-indexes and bloom filter are cleared; '
             'a finished pack is compared with the stale ones; nothing is removed after a missing object')
    rep.rule('P05-walk', 'every object taken from the work list of walk_object is stopped by stop_at or delivered, and every parent, the tree of a commit and every tree entry is put on the list')
    rel = None
    gc = prog.funcs.get('bup.gc.bup_gc')
    if gc is None: raise AnalysisError('bup.gc.bup_gc not found')
    for kind in ('commit','tree','blob'):
        for missing in (False, True):
            r = GcRule(rep, prog, kind, missing, rel)
            it = Interp(prog, r)
            rets, excs = it.run(gc, [sym('threshold'), sym('compression'), sym('verbosity'), FALSE])
            rep.analysed(it)
            if r.stops: rep.count('stop_collections', len(r.stops))
            if not missing and not r.unlinks: raise AnalysisError('no pack removal reached in bup_gc')
            rep.count('liveness_configurations')
    walk(prog, rep)
    for q, suf in (('bup.midx.clear_midxes', b'*.midx'), ('bup.bloom.clear_bloom', b'bup.bloom')):
        it = Interp(prog, ClearRule(suf)); f = prog.funcs[q]
        rets, excs = it.run(f, [sym('dir')]); rep.analysed(it); rep.count('cache_clearers')
        for s, v in rets:
            if 'gone' not in s.mon: rep.violation('P05', f'not-cleared {q}', f'{q} can return while a file remains', f.where if hasattr(f,'where') else q, s.trail_list())
    prog.add_harness(WRITER); r = WriterRule(rep); it = Interp(prog, r)
    rets, excs = it.run(prog.funcs['sa_harness.drive'], [sym('oid'), sym('kind'), sym('content')])
    rep.analysed(it); rep.count('writer_states', len(rets))
    for s, v in rets:
        if 'stored' not in s.mon: rep.violation('P05', 'just-write-skips bup.git.PackWriter.just_write', 'just_write can return without having stored the object', None, s.trail_list())
    for c in [v for k, v in (rets[0][0].heap.items() if rets else ()) if k[1]=='_on_pack_finish']:
        if not any(x[0]=='fn' and x[1].endswith('.cb') for x in alts(c)): rep.violation('P05', 'callback-lost', 'the finish callback does not reach the pack store', None, [])
    for name in ('finish','abort','abort_close'):
        it = Interp(prog, FinishRule(rep, 'abort' if name != 'finish' else name)); it.run(prog.funcs['sa_harness.'+name], [sym('oid'), sym('data')]); rep.analysed(it)
    for n, k in (('finish_callback_sites',1),('pack_removals_visited',6),('finish_callbacks',6),('live_object_reads',6),('live_object_writes',3),('stop_conditions',3),('work_list_pops',2),('writer_states',1)): rep.need(n, k)

def walk(prog, rep):
    prog.add_harness(WALK)
    for name in ('top','top_data'):
        r = WalkRule(rep); it = Interp(prog, r)
        get, stop = sym('GET'), sym('STOP')
        rets, excs = it.run(prog.funcs['sa_harness.'+name], [get, sym('OIDX'), stop, sym('EXISTS')])
        rep.analysed(it)
        for s, v in rets: r.done(s, None)
        rep.count('walk_states', len(rets))
