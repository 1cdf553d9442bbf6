"""P03: refs move only after everything written has been published; failed stores leave refs alone."""
from ..core import *

WRITES = {'write_data','write_tree','write_commit','write_symlink','write_bupm','just_write','new_blob','new_tree','new_commit','maybe_write'}
UPDATES = {'update_ref','delete_ref'}
FLUSH = {'finish_writing'}
LOWER = ('bup.repo.','bup.git.','bup.client.','bup.protocol.','bup.gc.','bup.vfs.','bup.helpers.','bup.io.')

def last(n): return n.rsplit('.',1)[-1]

HARNESS = '''
from bup.git import LocalPackStore, PackWriter
from bup.repo.local import LocalRepo
from bup.repo.remote import RemoteRepo
from bup.client import RemotePackStore
def store_write(data, sha):
    s = LocalPackStore(repo_dir=repodir, run_midx=False)
    s.write(data, sha)
def store_finish(data, sha):
    s = LocalPackStore(repo_dir=repodir, run_midx=False)
    try: s.write(data, sha)
    except BaseException: pass
    s.finish_pack()
def store_close(data, sha):
    s = LocalPackStore(repo_dir=repodir, run_midx=False)
    try: s.write(data, sha)
    except BaseException: pass
    s.close()
def local_update(ref, new, old, data):
    r = LocalRepo(repodir)
    r.write_data(data)
    r.update_ref(ref, new, old)
def local_close(data):
    r = LocalRepo(repodir)
    r.write_data(data)
    r.close()
def remote_update(ref, new, old, data):
    r = RemoteRepo(repodir)
    r.write_data(data)
    r.update_ref(ref, new, old)
repodir = object()
'''

# ---------------------------------------------------------------- 1. what a failing store raises
class StoreRule(Rule):
    def __init__(self, rel): self.rel = rel
    def relevant(self, f): return f.qual in self.rel
    def raises(self, ev, default):
        if not default or ev.name.startswith('os.path.'): return False
        if ev.name.startswith(('os.','tempfile.','shutil.')) or ev.name in ('open','builtins.open','io.open') or \
           ev.name in ('.write','.flush','.read','.seek','.close','.truncate') or last(ev.name) in ('fsync','fdatasync','auto_midx'):
            return mk('exc','OSError',())
        return False

def store_errors(prog, rep):
    """Classes of the exceptions by which storing or finishing a pack reports a failure of the file system."""
    rel = {q for q in prog.funcs if q.startswith(('bup.git.LocalPackStore','bup.git.PackIdxV2Writer','sa_harness','bup.helpers.temp_dir','bup.helpers.finalized','bup.helpers.nullcontext_if_not'))}
    rel |= {q for q in prog.funcs if q.startswith(('bup.git.','bup.helpers.')) and prog.funcs[q].nstmts <= 8}
    out = {}
    for n in ('store_write','store_finish','store_close'):
        it = Interp(prog, StoreRule(rel))
        rets, excs = it.run(prog.func('sa_harness.'+n)); rep.analysed(it)
        for s, e in excs: out.setdefault(e[1], n)
    out.pop('AssertionError', None)
    return out

# ---------------------------------------------------------------- 2. commands
class CmdRule(Rule):
    # clean: nothing unpublished; dirty: objects written, not yet published; lost: a store failed
    initial = ('clean', ())
    def __init__(self, rep, inline, writers, exc, own):
        self.rep=rep; self.inline=inline; self.writers=writers; self.exc=exc; self.own=own
        self.swallow=None; self.updates=[]
    def kind(self, ev):
        l = last(ev.name)
        q = ev.callee.qual if ev.callee is not None and hasattr(ev.callee,'is_gen') else None
        if q in self.inline: return None
        if l in UPDATES: return 'U'
        if l in FLUSH: return 'F'
        if l in WRITES: return 'W'
        if q is not None and q in self.writers: return 'W'
        if l in ('close','__exit__') and ev.recv is not None and any(self.iswriter(x) for x in alts(ev.recv)): return 'F'
        if any(a[0] in ('fn','bm') and (a[1] if a[0]=='fn' else a[2]) in self.writers or a[0]=='attr' and a[2] in WRITES for a in ev.all_terms()) and q is not None: return 'W'
        return None
    def iswriter(self, t):
        t = unprev(t)
        return t[0]=='obj' and t[1].rsplit('.',1)[-1]=='PackWriter' or t[0]=='call' and ('PackWriter' in callee_name(t) or 'repo_for' in callee_name(t) or 'LocalRepo' in callee_name(t))
    def relevant(self, f): return f.qual in self.inline
    def raises(self, ev, default):
        if self.kind(ev): return mk('exc', self.exc, ())
        return default
    def call_raises(self, st, ev):
        k = self.kind(ev); m, t = st.mon
        # (A failed update may have failed to finish the data; git itself then refuses the other refs whose
        # commit is missing, and a commit is stored after everything it names.)
        if k in ('W','F'): return [('lost', (ev.where,))]
        return None
    def finishes(self, ev): return ev.recv is not None and ev.callee is None   # a repo method publishes first
    def call(self, st, ev):
        k = self.kind(ev); m, t = st.mon
        if k=='W':
            self.rep.count('store_sites'); return [('lost' if m=='lost' else 'dirty', t)]
        if k=='F': return [('lost' if m=='lost' else 'clean', t)]
        if k=='U':
            if not self.finishes(ev) and m=='dirty':
                self.rep.violation('update-before-publish', f'{ev.func.qual}:{last(ev.name)}', 'a ref is moved directly although objects written for it have not been finished into a published pack', ev.where, st.trail_list())
            self.rep.count('update_sites_visited')
            self.rep.sample(f'{ev.where}: {last(ev.name)} in state {m}')
            if m=='lost':
                self.rep.violation('update-after-failed-store', f'{ev.func.qual}:{last(ev.name)}', f'a ref can still be moved after storing or finishing data failed with {self.exc} (at {", ".join(t)}) and the failure was caught', ev.where, st.trail_list())
            self.updates.append((st, ev))
            return [('clean', t)]
    def before_update(self, st, ev): pass

class PreRule(CmdRule):
    """The state in which an update starts matters also on its failing edge."""
    def call_raises(self, st, ev):
        k = self.kind(ev)
        if k=='U' and st.mon[0]=='lost': self.call(st, ev)
        return CmdRule.call_raises(self, st, ev)

def sets(prog):
    up = prog.reach_names(UPDATES | {'.'+x for x in UPDATES})
    up = {q for q in up if not q.startswith(LOWER) and not q.startswith('sa_harness')}
    wr = prog.reach_names({'.'+x for x in WRITES}, cold={'pop','append','get','add','update','clear','close','write','read','items','keys','insert','remove','copy','main'})
    wr = {q for q in wr if not q.startswith(LOWER) and not q.startswith('sa_harness')}
    mods = {prog.funcs[q].mod.name for q in up | wr if prog.funcs[q].callnames & {'.'+x for x in WRITES | UPDATES}}
    wr = {q for q in wr if prog.funcs[q].mod.name in mods}
    up = {q for q in up if prog.funcs[q].mod.name in mods}
    return up, wr

def commands(prog, rep, errs):
    up, wr = sets(prog)
    # functions that move a ref themselves (directly or through callees in the command layer)
    direct = set()
    for q in up:
        f = prog.funcs[q]
        if any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in UPDATES or isinstance(n.func, ast.Name) and n.func.id in UPDATES) for n in own_nodes(f.node)): direct.add(q)
    roots = set(direct)
    # callers within the same module, so that extracting a helper changes nothing
    changed = True
    while changed:
        changed = False
        for q in up - roots:
            f = prog.funcs[q]
            if any(prog.funcs[r].mod is f.mod and prog.funcs[r].name in f.callnames for r in roots if not prog.funcs[r].is_lambda and prog.funcs[r].name!='main'): roots.add(q); changed = True
    rep.count('ref_moving_functions', len(roots))
    called = {q for q in roots if any(prog.funcs[q].name in prog.funcs[r].callnames for r in roots if r!=q and prog.funcs[r].mod is prog.funcs[q].mod and prog.funcs[q].name!='main')}
    small = {q for q in wr if prog.funcs[q].nstmts <= 25}
    for q in sorted(roots - called):
        f = prog.funcs[q]
        inl = roots | {g for g in small if prog.funcs[g].mod is f.mod and g.startswith('bup.cmd') } | {q}
        for exc in sorted(errs):
            rule = PreRule(rep, inl, wr - inl, exc, q)
            it = Interp(prog, rule)
            rets, excs = it.run(f); rep.analysed(it); rep.count('entry_points')
    # functions below that write: a failed store must leave them as an exception
    n = 0
    for q in sorted(wr - roots):
        f = prog.funcs[q]
        if f.is_lambda and f.outer is None: continue
        if any(q in (g.qual for lst in prog.funcs[r].nested.values() for g in lst) for r in wr) : continue
        n += 1
        inl = {q} | {g for g in wr if g.startswith(q+'.')}
        for exc in sorted(errs):
            rule = CmdRule(rep, inl, wr - inl, exc, q)
            it = Interp(prog, rule)
            rets, excs = it.run(f); rep.analysed(it)
            for s, v in rets:
                if s.mon[0]=='lost':
                    rep.violation('failed-store-swallowed', q, f'a failure to store data ({exc} at {", ".join(s.mon[1])}) is caught here and the function returns as if nothing had happened', None, s.trail_list())
    rep.count('writing_functions', n)

# ---------------------------------------------------------------- 3. repositories
class RepoRule(Rule):
    initial = ('clean',)
    def __init__(self, rep, rel, name): self.rep=rep; self.rel=rel; self.name=name; self.seen=0
    def relevant(self, f): return f.qual in self.rel
    def kind(self, ev):
        l = last(ev.name); owner = ev.name.rsplit('.',2)[-2] if ev.name.count('.')>=2 else ''
        if l in ('new_blob','new_tree','new_commit','just_write','maybe_write','write'): return 'W'
        if l=='close' and (ev.callee is None or not ev.name.startswith('bup.repo.')): return 'F'
        if l=='abort': return 'A'
        if ev.name in ('bup.git.update_ref','bup.client.Client.update_ref','.update_ref','bup.git.delete_ref'): return 'U'
    def raises(self, ev, default):
        return mk('exc','bup.git.GitError',()) if self.kind(ev) in ('W','F','U') else False
    def opaque_value(self, st, ev):
        if last(ev.name)=='new_packwriter': return mk('obj','bup.git.PackWriter','remote')
    def call_raises(self, st, ev):
        k = self.kind(ev)
        if k in ('W','F'): return [('lost',)]
    def call(self, st, ev):
        k = self.kind(ev); m, = st.mon
        if k=='W': return [('lost',) if m=='lost' else ('dirty',)]
        if k=='F': return [('lost',) if m=='lost' else ('clean',)]
        if k=='U':
            self.seen += 1; self.rep.count('repository_updates_visited')
            if m!='clean':
                self.rep.violation('update-before-publish', f'{self.name}:{ev.func.qual}', 'the repository moves the ref '+('although finishing the data failed' if m=='lost' else 'before the objects written so far are published'), ev.where, st.trail_list())

def repos(prog, rep):
    rel = {q for q in prog.funcs if q.startswith(('bup.repo.','sa_harness'))}
    for n in ('local_update','remote_update','local_close'):
        rule = RepoRule(rep, rel, n)
        it = Interp(prog, rule)
        rets, excs = it.run(prog.func('sa_harness.'+n)); rep.analysed(it); rep.count('driver_programs')
        if n.endswith('update') and not rule.seen: rep.violation('no-update', n, 'the repository method that moves a ref never reaches the underlying update', None)
        for s, v in rets:
            if s.mon[0] != 'clean':
                rep.violation('close-loses-data', n, 'the repository returns normally although objects written were not published' if s.mon[0]=='dirty' else 'a failure to publish is swallowed', None, s.trail_list())

# ---------------------------------------------------------------- 4. remote pack store: acknowledged by the server
class RemoteRule(Rule):
    initial = ('open',)
    def __init__(self, rel): self.rel=rel
    def relevant(self, f): return f.qual in self.rel
    def raises(self, ev, default): return False
    def model(self, st, ev):
        if ev.name in ('.check_ok',) or last(ev.name)=='check_ok' and ev.callee is not None and ev.callee.cls is not None and ev.callee.cls.name!='Client':
            m, = st.mon
            nm = 'acked' if m=='ended' else m
            return [((nm,), NONE), (('failed',), mk('exc','bup.helpers.NotOk',()))]
        return None
    def call(self, st, ev):
        m, = st.mon
        if ev.name=='.write' and ev.args and ev.args[0]==const(b'\0\0\0\0'): return [('ended',)]

def remote(prog, rep):
    rel = {q for q in prog.funcs if q.startswith(('bup.client.RemotePackStore.','bup.client.Client.check_ok','bup.client.Client._suggest_packs','bup.client.Client._not_busy','bup.client.Client._call'))}
    f = prog.func('bup.client.RemotePackStore.close')
    it = Interp(prog, RemoteRule(rel))
    o = it.obj('bup.client.RemotePackStore')
    client = it.obj('bup.client.Client', 'client')
    sp = prog.func('bup.client.Client._suggest_packs')
    # the constructor call tells what the store calls back
    heap = {(o,'_packopen'): TRUE, (o,'_suggest_packs'): mk('bm', client, sp.qual), (o,'_onclose'): sym('onclose')}
    new = prog.func('bup.client.Client.new_packwriter')
    ok = any(isinstance(n, ast.keyword) and n.arg=='suggest_packs' and isinstance(n.value, ast.Attribute) and n.value.attr=='_suggest_packs' for n in ast.walk(new.node))
    if not ok: raise AnalysisError('new_packwriter does not hand _suggest_packs to the remote store')
    rets, excs = it.run(f, args=[], selfobj=o, heap=heap); rep.analysed(it); rep.count('driver_programs')
    if not rets: rep.violation('remote-unacknowledged', f.qual, 'closing a remote pack never returns', None)
    for s, v in rets:
        rep.count('remote_close_states')
        if s.facts.get(mk('attr', o, '_conn')) is False: continue
        if s.mon[0]!='acked':
            rep.violation('remote-unacknowledged', f.qual, {'open':'closing a remote pack returns without having told the server to finish it','ended':'closing a remote pack returns without reading the acknowledgement of the server','failed':'an error reported by the server while finishing a pack is ignored'}.get(s.mon[0], s.mon[0]), None, s.trail_list())

# ---------------------------------------------------------------- 5. server: success is reported only after the effect
class ServerRule(Rule):
    initial = (False, False)    # effect done, ok sent
    def __init__(self, rep, rel, effects, f): self.rep=rep; self.rel=rel; self.effects=effects; self.f=f; self.oks=0
    def relevant(self, f): return f.qual in self.rel
    def raises(self, ev, default): return default
    def store_attr(self, st, obj, name, val, node, func):
        if name=='suspended' and val is TRUE and 'suspended' in self.effects: return (True, st.mon[1])
    def call(self, st, ev):
        done, ok = st.mon
        if ev.recv is not None and last(ev.name) in self.effects: return [(True, ok)]
        if last(ev.name)=='ok' and ev.recv is not None:
            self.oks += 1
            if not done: self.rep.violation('ok-before-effect', f'{self.f.qual}', 'the server reports success on a path where the requested update has not been made', ev.where, st.trail_list())
            return [(done, True)]
        if last(ev.name) in ('write','just_write') and '_store' in show(ev.recv or NONE): return [(False, ok)]

def server(prog, rep):
    for name, eff in (('update_ref', {'update_ref'}), ('receive_objects_v2', {'finish_writing','suspended'})):
        f = prog.func('bup.protocol.Server.'+name)
        small = {q for q in prog.funcs if q.startswith('bup.protocol.Server._') and prog.funcs[q].nstmts <= 15}
        rule = ServerRule(rep, {f.qual}|small, eff, f)
        it = Interp(prog, rule)
        rets, excs = it.run(f, selfobj=it.obj('bup.protocol.Server')); rep.analysed(it); rep.count('server_requests')
        if not rule.oks: rep.violation('never-ok', f.qual, 'the request never reports success', None)

def check(prog, rep, tier):
    rep.rule('P03', 'exceptions by which the pack store reports a failure are computed; on every path of every command that moves a ref, no handler catches such a failure and still reaches the update, and direct updates follow the close of the writer; repositories publish before they update; the remote store reads the acknowledgement; the server confirms only after the effect')
    prog.add_harness(HARNESS)
    errs = store_errors(prog, rep)
    rep.sample('a failing pack store raises: ' + ', '.join(sorted(errs)))
    if not errs: raise AnalysisError('the pack store never fails')
    es = set(errs) | {'bup.git.GitError'}
    es.discard('*')
    commands(prog, rep, es)
    repos(prog, rep); remote(prog, rep); server(prog, rep)
    rep.need('update_sites_visited', 4); rep.need('store_sites', 20); rep.need('writing_functions', 20); rep.need('repository_updates_visited', 2); rep.need('remote_close_states', 1)
