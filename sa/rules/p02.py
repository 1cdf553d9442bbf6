"""P02: derived files are produced under temporary names and renamed only when complete."""
from ..core import *
from ..files import *

HARNESS = '''
from bup.helpers import atomically_replaced_file, fsync
from bup.hlinkdb import HLinkDB
from bup import index, bloom
from bup.bloom import BloomWriter
from bup.cmd import midx as cmd_midx, bloom as cmd_bloom
target = object()
def produce(f): return f.write(object())
def replace_ok():
    with atomically_replaced_file(target, 'wb') as f:
        produce(f)
        f.flush()
        fsync(f.fileno())
def replace_ok_nosync():
    with atomically_replaced_file(target, 'wb', sync=False) as f:
        produce(f)
        f.flush()
        fsync(f.fileno())
def replace_fail():
    with atomically_replaced_file(target, 'wb') as f:
        produce(f)
        f.flush()
        fsync(f.fileno())
        raise ValueError()
def replace_cancel():
    a = atomically_replaced_file(target, 'wb')
    with a as f:
        produce(f)
        f.flush()
        fsync(f.fileno())
        a.cancel()
def hlink_commit(p, dev, ino):
    with HLinkDB(target) as db:
        db.add_path(p, dev, ino)
        db.prepare_save()
        db.commit_save()
def hlink_abort(p, dev, ino):
    with HLinkDB(target) as db:
        db.add_path(p, dev, ino)
        db.prepare_save()
        raise ValueError()
def index_close(ms, tmax, name, st, ofs):
    with index.Writer(target, ms, tmax) as w:
        w.close()
def index_abort(ms, tmax, name, st, ofs):
    with index.Writer(target, ms, tmax) as w:
        w.add(name, st, ofs)
def index_raise(ms, tmax, name, st, ofs):
    with index.Writer(target, ms, tmax) as w:
        w.add(name, st, ofs)
        raise ValueError()
def bloom_close(ix):
    with BloomWriter(target, 'w+b', 100) as b:
        b.add_idx(ix)
def bloom_raise(ix):
    with BloomWriter(target, 'w+b', 100) as b:
        b.add_idx(ix)
        raise ValueError()
def bloom_update(ix):
    with BloomWriter(target, 'wb', 100) as b:
        b.add_idx(ix)
def midx_make(outdir, names, out):
    cmd_midx.do_midx(outdir, target, names, b'', out)
def midx_auto(outdir, names, out):
    cmd_midx.do_midx(outdir, None, names, b'', out, auto=True)
def bloom_make(path, force):
    cmd_bloom.do_bloom(path, target, None, force)
'''
# driver, publishes?, status the file needs at the rename
DRIVERS = [('replace_ok',True,'S'),('replace_ok_nosync',True,'S'),('replace_fail',False,'S'),('replace_cancel',False,'S'),
           ('hlink_commit',True,'S'),('hlink_abort',False,'S'),
           ('index_close',True,'S'),('index_abort',False,'S'),('index_raise',False,'S'),
           ('bloom_close',True,'O'),('bloom_raise',False,'O'),('bloom_update',True,'O'),
           ('midx_make',True,'S'),('midx_auto',True,'S'),('bloom_make',True,'O')]
WRITEISH = {'.write','.writelines','.flush','.truncate','.seek','pickle.dump','bup._helpers.merge_into'} | set(FSYNC)

def is_temp(t):
    return contains(t, lambda x: x[0]=='call' and callee_name(x) in ('tempfile.mkdtemp','tempfile.mkstemp','bup.helpers.temp_dir','tempfile.NamedTemporaryFile')
                    or x[0]=='c' and isinstance(x[2], bytes) and x[2].startswith(b'bup.tmp.'))

class AtomicRule(Rule):
    # files, failed paths ('w' failures), pending uncaught failure, published?, unsynced dirs
    initial = (frozenset(), frozenset(), False, False, frozenset(), frozenset())
    def __init__(self, rep, rel, name, expect, need):
        self.rep=rep; self.rel=rel; self.name=name; self.expect=expect; self.need=need
        self.opened=set()
    def relevant(self, f): return f.qual in self.rel
    def call_raises(self, st, ev):
        files, failed, pend, pub, dirs, inpl = st.mon
        hot = {k for k, v in files}
        if not hot: return None
        f2 = set(failed)
        if ev.name in WRITEISH:
            for a in ([ev.recv] if ev.recv is not None else []) + list(ev.args):
                for p, m in opened_any(a):
                    if pathparts(p) in hot: f2.add(pathparts(p))
        if ev.name in RENAME or ev.name in ('.close','os.close','.__exit__'): return None
        return [(files, frozenset(f2), True, pub, dirs, inpl)]
    def on_raise(self, st, exc, node, func):
        files, failed, pend, pub, dirs, inpl = st.mon
        if files: return [(files, failed, True, pub, dirs, inpl)]
    def on_handler(self, st, exc, h, func):
        files, failed, pend, pub, dirs, inpl = st.mon
        return (files, failed, False, pub, dirs, inpl)
    def call(self, st, ev):
        files, failed, pend, pub, dirs, inpl = st.mon
        nf = FileState.apply(dict(files), ev); changed=False
        if nf is not None:
            if ev.name in OPENERS or ev.name=='os.open':
                p, m = opened(mk('call', mk('ext', ev.name), ev.args, ev.kw, 0))
                rp = p
                o = dict(ev.kw).get('opener')
                self.rep.count('write_opens')
                tmp = is_temp(p) or (o is not None)
                if not tmp and not (m[0]=='c' and 'a' in str(m[2])):
                    if m[0]=='c' and str(m[2])[:1] in ('w','x'):
                        self.rep.violation('in-place', f'{ev.func.qual}:{self.name}', f'a file that is to be replaced is opened for writing under its final name ({show(p)})', ev.where, st.trail_list())
                    else: inpl = inpl | {pathparts(p)}
                failed = failed - {pathparts(p)}
            files = frozenset(nf.items()); changed=True
        if inpl and (ev.name in ('.write','.writelines','.truncate','os.write','os.truncate','[]=','pickle.dump') or ev.name.startswith('bup._helpers.')):
            for a in ([ev.recv] if ev.recv is not None else []) + list(ev.args):
                for p, m in opened_any(a):
                    if pathparts(p) in inpl:
                        self.rep.violation('in-place', f'{ev.func.qual}:{self.name}', f'a file that is to be replaced is written to under its final name ({show(p)})', ev.where, st.trail_list())
        if ev.name in RENAME and len(ev.args)>=2:
            src, dst = rename_paths(ev)
            if pathparts(src) in inpl and is_temp(dst):
                # an existing file moved aside for updating; it keeps being known by the path it was opened with
                return [(files, failed, pend, pub, dirs, (inpl - {pathparts(src)}) | {('aside', pathparts(dst), pathparts(src))})]
            for x in inpl:
                if x[0]=='aside' and any(pathparts(y)==x[1] for y in alts(src)): src = dst
            raw = dict(ev.kw)
            s = None
            fd = dict(files)
            srcs = alts(src)
            for x in srcs:
                k = pathparts(x)
                if k in fd: s = fd[k]; key = k
            if s is None:
                k = pathparts(ev.args[0])
                if k in fd: s = fd[k]; key = k
            self.rep.count('publications')
            self.rep.sample(f'{self.name}: {ev.where} rename in state {s!r}')
            c = f'{ev.func.qual}:{self.name}'
            if s is None:
                if self.name == 'bloom_make':
                    # renames a closed temporary filter; its content was checked by its own close
                    key = pathparts(src)
                    if not is_temp(src): self.rep.violation('publish-unknown', c, f'renames {show(src)}, which is not the file that was produced', ev.where, st.trail_list())
                else:
                    self.rep.violation('publish-unknown', c, f'renames {show(src)}, which is not the file that was produced', ev.where, st.trail_list())
                    key = None
            elif s=='B': self.rep.violation('publish-unflushed', c, 'the file gets its final name while written data is still in a userspace buffer', ev.where, st.trail_list())
            elif s=='O' and self.need=='S': self.rep.violation('publish-unsynced', c, 'the file gets its final name on a path where it was not fsynced after its last write', ev.where, st.trail_list())
            if pend or (key is not None and key in failed):
                self.rep.violation('publish-after-failure', c, 'the file gets its final name although producing it failed', ev.where, st.trail_list())
            if not self.expect:
                self.rep.violation('publish-cancelled', c, 'the file gets its final name although its replacement was cancelled or failed', ev.where, st.trail_list())
            return [(files, failed, pend, True, dirs | {('fd', raw['dst_dir_fd']) if 'dst_dir_fd' in raw else ('path', dir_of(dst))}, inpl)]
        if ev.name in FSYNC and ev.args and dirs:
            for x in alts(ev.args[0]):
                if x is NONE: continue
                r = opened(unprev(x))
                for d in dirs:
                    if d[0]=='fd' and x in alts(d[1]) or r and d[0]=='path' and d[1] == pathparts(r[0]): dirs = dirs - {d}; changed=True
        if changed:
            st.trail = (f'{ev.where} {ev.name} {",".join(show(a,2) for a in ev.args)[:80]}', st.trail)
            return [(files, failed, pend, pub, dirs, inpl)]

class Par2Rule(Rule):
    initial = ((), )
    def __init__(self, rep, rel): self.rep=rep; self.rel=rel
    def relevant(self, f): return f.qual in self.rel
    def call(self, st, ev):
        if ev.name in RENAME and len(ev.args)>=2:
            self.rep.count('parity_publications')
            seen, = st.mon
            ok = any(k[0]=='cmp' and k[1]=='==' and v and k[3]==const(0) and contains(k[2], lambda t: t[0]=='call' and 'par2' in callee_name(t)) or
                     (v is False and k[0]=='call' and 'par2' in callee_name(k)) for k, v in st.facts.items())
            if not ok:
                self.rep.violation('parity-unchecked', ev.func.qual, 'parity files are published on a path where the parity tool is not known to have succeeded', ev.where, st.trail_list())
            t = tail(ev.args[1])
            isidx = t.endswith(b'.par2')
            if not is_temp(ev.args[0]) and not contains(ev.args[0], lambda x: x[0]=='call' and 'mkdtemp' in callee_name(x)):
                self.rep.violation('parity-in-place', ev.func.qual, 'published parity files do not come from a temporary directory', ev.where, st.trail_list())
            if 'idx' in seen:
                self.rep.violation('parity-order', ev.func.qual, 'a parity file is published after the index that declares the set complete', ev.where, st.trail_list())
            k = 'idx' if isidx else 'vol'
            st.trail = (f'{ev.where} publish {k}', st.trail)
            return [(seen + (k,) if k not in seen else seen,)]

def check(prog, rep, tier):
    rep.rule('P02', 'for every driver program over the writers of derived files, on every path: files are opened for writing only under temporary names, the rename to the final name happens only in state flushed (fsynced where required), and never after a failure to produce the content or a cancel')
    prog.add_harness(HARNESS)
    rel = prog.reach_names({'.rename','rename','replace','.replace','fsync','.fsync','fdatasync','mmap','.mmap'}, stop=())
    keep = ('bup.helpers.','bup.hlinkdb.','bup.index.','bup.bloom.','bup.cmd.midx.','bup.cmd.bloom.','sa_harness')
    rel = {q for q in rel if q.startswith(keep)}
    rel |= {q for q in prog.funcs if q.startswith(('bup.bloom.','bup.hlinkdb.','bup.helpers.atomically_replaced_file','bup.helpers.finalized','bup.index.Writer','sa_harness','bup.helpers.temp_dir','bup.helpers.open_in','bup.helpers.open_path_fd','bup.helpers._mmap_do','bup.helpers.mmap_','bup.index.Level','bup.index._golevel'))}
    for q in ('bup.helpers.log','bup.helpers.debug1','bup.helpers.debug2','bup.helpers.progress','bup.helpers.qprogress','bup.helpers._log','bup.helpers.merge_iter','bup.helpers.chunkyreader','bup.helpers.unlink','bup.index.resolve_parent','bup.helpers.resolve_parent'): rel.discard(q)
    for name, expect, need in DRIVERS:
        rule = AtomicRule(rep, rel, name, expect, need)
        it = Interp(prog, rule)
        rets, excs = it.run(prog.func('sa_harness.'+name))
        rep.analysed(it); rep.count('driver_programs')
        pub = [s for s, v in rets if s.mon[3]]
        if expect and not pub:
            rep.violation('never-published', name, 'no normal path gives the produced file its final name', None)
        if not expect and any(s.mon[3] for s, v in rets + excs): pass
        if name=='replace_ok':
            for s, v in rets:
                if s.mon[4]: rep.violation('rename-not-durable', name, 'the replacement returns although the directory was not fsynced', None, s.trail_list())
    # parity files
    g = prog.func('bup.cmd.fsck.par2_generate')
    it = Interp(prog, Par2Rule(rep, {g.qual} | {q for q in prog.funcs if q.startswith('bup.cmd.fsck.') and prog.funcs[q].nstmts < 40 and q not in ('bup.cmd.fsck.par2',)} | {q for q in rel if q.startswith('bup.helpers.')}))
    rets, excs = it.run(g); rep.analysed(it); rep.count('driver_programs')
    if not any('idx' in s.mon[0] for s, v in rets): rep.violation('never-published', 'par2_generate', 'a successful parity run is never published', None)
    # client index cache
    rule = AtomicRule(rep, rel | {'bup.client.Client.sync_index','bup.client.Client.send_index'}, 'sync_index', True, 'S')
    it = Interp(prog, rule)
    f = prog.func('bup.client.Client.sync_index')
    rets, excs = it.run(f, selfobj=it.obj('bup.client.Client'))
    rep.analysed(it); rep.count('driver_programs')
    if not any(s.mon[3] for s, v in rets): rep.violation('never-published', 'sync_index', 'a received index never gets its final name', None)
    rep.need('publications', 6); rep.need('parity_publications', 2); rep.need('write_opens', 6)
