"""P01: pack publication: complete, flushed, fsynced, pack before index, directory synced, abort publishes nothing."""
from ..core import *
from ..files import *

HARNESS = '''
from bup.git import LocalPackStore
def full(data, sha, more, sha2):
    s = LocalPackStore(on_pack_finish=cb, repo_dir=repodir, run_midx=False)
    s.write(data, sha)
    s.write(more, sha2)
    return s.finish_pack()
def full_close(data, sha):
    s = LocalPackStore(on_pack_finish=cb, repo_dir=repodir)
    s.write(data, sha)
    return s.close()
def aborted(data, sha):
    s = LocalPackStore(on_pack_finish=cb, repo_dir=repodir)
    s.write(data, sha)
    s.abort()
def aborted_finish(data, sha):
    s = LocalPackStore(on_pack_finish=cb, repo_dir=repodir)
    s.write(data, sha)
    s.finish_pack(abort=True)
def empty():
    s = LocalPackStore(on_pack_finish=cb, repo_dir=repodir)
    return s.close()
def failed_write(data, sha):
    s = LocalPackStore(on_pack_finish=cb, repo_dir=repodir)
    try:
        s.write(data, sha)
    except BaseException:
        s.abort()
        raise
def cb(prefix): pass
repodir = object()
'''

class PackRule(Rule):
    initial = (frozenset(), (), frozenset(), ())
    # mon: (files, published kinds in order, dirs needing sync, flags)
    def __init__(self, rep, rel, expect):
        self.rep = rep; self.rel = rel; self.expect = expect
    def relevant(self, f):
        return f.qual in self.rel or f.nstmts <= 12 and not f.is_gen and f.mod.name in ('bup.git','bup.helpers','sa_harness')
    def raises(self, ev, default):
        return default
    def call(self, st, ev):
        files, pub, dirs, flags = st.mon
        n = ev.name
        nf = FileState.apply(files and dict(files) or {}, ev)
        fl = dict(flags)
        changed = False
        if nf is not None: files = frozenset(nf.items()); changed = True
        fd = dict(files)
        if n in ('.write',) and ev.recv is not None:
            for p, m in opened_any(ev.recv):
                pp = pathparts(p)
                a = ev.args[0] if ev.args else TOP
                prev = dict(fl.get(pp, ()))
                if prev.get('pos') == 8:
                    prev['count'] = bool(contains(a, lambda t: is_call(t,'struct.pack')))
                    prev['trailer'] = False
                elif contains(a, lambda t: t[0]=='call' and t[1][0]=='attr' and t[1][2]=='digest'):
                    prev['trailer'] = True
                else:
                    if prev.get('trailer') is not None: prev['trailer'] = False
                    if m[0]=='c' and 'a' in str(m[2]): prev['trailer'] = False
                prev['pos'] = None
                fl[pp] = tuple(sorted(prev.items())); changed = True
        if n == '.seek' and ev.recv is not None and ev.args and ev.args[0][0]=='c':
            for p, m in opened_any(ev.recv):
                pp = pathparts(p); prev = dict(fl.get(pp, ())); prev['pos'] = ev.args[0][2]
                fl[pp] = tuple(sorted(prev.items())); changed = True
        if n in RENAME and len(ev.args) >= 2:
            src, dst = rename_paths(ev)
            t = tail(dst)
            if t.endswith(b'.pack') or t.endswith(b'.idx'):
                kind = 'pack' if t.endswith(b'.pack') else 'idx'
                self.rep.count('publication_sites_visited')
                self.rep.sample(f'{ev.where}: {kind} published in state {fd.get(pathparts(src))!r}')
                s = fd.get(pathparts(src))
                where = ev.where
                if self.expect == 'none':
                    self.rep.violation('abort-publishes', f'{ev.func.qual}:{kind}', f'an aborted or failed write gives the {kind} its final name', where, st.trail_list())
                if s is None:
                    self.rep.violation('publish-unknown', f'{ev.func.qual}:{kind}', f'the {kind} renamed to its final name is not the file that was written ({show(src)})', where, st.trail_list())
                elif s == 'B':
                    self.rep.violation('publish-unflushed', f'{ev.func.qual}:{kind}', f'the {kind} becomes visible while written data is still in a userspace buffer or was not fsynced after the flush', where, st.trail_list())
                elif s == 'O':
                    self.rep.violation('publish-unsynced', f'{ev.func.qual}:{kind}', f'the {kind} becomes visible on a path where it was not fsynced after its last write', where, st.trail_list())
                f = dict(fl.get(pathparts(src), ()))
                if kind=='pack':
                    if not f.get('count'): self.rep.violation('pack-count', ev.func.qual, 'the pack becomes visible without the object count having been written at its header', where, st.trail_list())
                    if not f.get('trailer'): self.rep.violation('pack-trailer', ev.func.qual, 'the last thing written to the pack is not its checksum', where, st.trail_list())
                else:
                    if not f.get('trailer'): self.rep.violation('idx-trailer', ev.func.qual, 'the last thing written to the index is not its checksum', where, st.trail_list())
                    if 'pack' not in pub: self.rep.violation('idx-before-pack', ev.func.qual, 'the index becomes visible before its pack', where, st.trail_list())
                pub = pub + (kind,) if kind not in pub else pub
                dirs = dirs | {dir_of(dst)}; changed = True
        if n in FSYNC and ev.args:
            for x in alts(ev.args[0]):
                r = opened(unprev(x))
                if r:
                    pp = pathparts(r[0])
                    for d in dirs:
                        if d == pp: dirs = dirs - {d}; changed = True
        if n.endswith('.cb') and n.startswith('sa_harness'):
            self.rep.count('finish_callbacks_visited')
            if dirs: self.rep.violation('dir-not-synced', 'finish-callback', 'the pack is reported finished before the directory holding its name was fsynced', ev.where, st.trail_list())
            if set(pub) != {'pack','idx'}: self.rep.violation('report-unpublished', 'finish-callback', 'the pack is reported finished before both pack and index are visible', ev.where, st.trail_list())
        if changed:
            s2 = (files, pub, frozenset(dirs), tuple(sorted(fl.items(), key=repr)))
            self_trail = f'{ev.where} {n} {",".join(show(a,2) for a in ev.args)[:80]}'
            st.trail = (self_trail, st.trail)
            return [s2]
        return None
    def enter(self, st, f, ev):
        return None

def check(prog, rep, tier):
    rep.rule('P01', 'along every path (exceptions included) through the pack store, the file typestate buffered->flushed->fsynced must reach fsynced before the rename to *.pack/*.idx; count and checksum written; idx after pack; directory of the final name fsynced before normal return or finish callback; no rename on abort paths')
    prog.add_harness(HARNESS)
    rel = prog.reach_names({'.rename','rename','replace','.replace','fsync','.fsync','fdatasync','.write_idx'}, stop=())
    rel = {q for q in rel if q.startswith('bup.git.') or q.startswith('bup.helpers.') or q.startswith('sa_harness')}
    rel -= {'bup.git.auto_midx'}
    rel |= {'bup.git.PackIdxV2Writer.write','bup.helpers.chunkyreader'} & set(prog.funcs)
    for name, expect in (('full','both'),('full_close','both'),('aborted','none'),('aborted_finish','none'),('empty','none'),('failed_write','none')):
        rule = PackRule(rep, rel, expect)
        it = Interp(prog, rule)
        rets, excs = it.run(prog.func('sa_harness.'+name))
        rep.analysed(it)
        rep.count('driver_programs')
        done = False
        for s, v in rets:
            files, pub, dirs, flags = s.mon
            rep.count('exit_states')
            if dirs:
                rep.violation('dir-not-synced', name, 'finishing a pack returns although the directory holding its name was not fsynced', None, s.trail_list())
            if set(pub) == {'pack','idx'}: done = True
        for s, v in excs: rep.count('exception_exit_states')
        if expect == 'both' and not done:
            rep.violation('never-published', name, 'finishing a pack with objects never makes pack and index visible', None)
        for s, v in rets:
            if expect == 'both' and v is not NONE and set(s.mon[1]) != {'pack','idx'} and set(s.mon[1]):
                rep.violation('half-published', name, 'a path finishes normally with only part of pack and index visible', None, s.trail_list())
    rep.need('publication_sites_visited', 4)
    rep.need('finish_callbacks_visited', 2)
