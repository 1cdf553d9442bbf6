"""P28: an object id is only returned for an object that is stored.  The pack writer is followed with
every answer of the stores and every failure of its writes."""
import re
from ..core import *

HARNESS = '''
from bup.git import LocalPackStore, PackWriter
from bup.client import RemotePackStore
def local(pub):
    return PackWriter(store=LocalPackStore(repo_dir=REPODIR, on_pack_finish=pub))
def remote(conn):
    s = RemotePackStore(conn, cache=CACHE, suggest_packs=SUGGEST, onopen=ONOPEN, onclose=ONCLOSE, ensure_busy=ENSURE)
    return PackWriter(store=s)
def twice(w, op, args1, args2):
    try:
        w_op(w, op, *args1)
    except Exception:
        FAILED()
    return w_op(w, op, *args2)
def w_op(w, op, *args):
    if op == 'maybe_write': return w.maybe_write(*args)
    if op == 'just_write': return w.just_write(*args)
    if op == 'new_blob': return w.new_blob(*args)
    if op == 'new_tree': return w.new_tree(*args)
    if op == 'new_commit': return w.new_commit(*args)
def L(op, args1, args2):
    return twice(local(PUBLISHED), op, args1, args2)
def R(op, args1, args2):
    return twice(remote(CONN), op, args1, args2)
def publish(how, args1, args2, args3):
    w = local(PUBLISHED)
    try:
        w.just_write(*args1)
        w.just_write(*args2)
    except Exception:
        FAILED()
    if how == 'abort':
        w.abort()
        return
    if how == 'two':
        w.breakpoint()
        BETWEEN()
        w.just_write(*args3)
    w.close()
def fetch(repo, ref):
    oidx, typ, size, it = repo.cat(ref)
    if oidx is None:
        return False
    for data in it:
        SINK(data)
    return True
'''

def is_join(t): return is_call(t) and callee_name(t).rsplit('.',1)[-1]=='join' and len(t[2])==1 and t[1][0] in ('attr','bm') and t[1][1][0]=='c' and not t[1][1][2]
def parts(t, out=None):
    """What a byte string is put together from."""
    out = [] if out is None else out
    if is_join(t): return parts(t[2][0], out)
    if t[0] in ('tuple','list'):
        for x in t[1]: parts(x, out)
    elif t[0]=='bin' and t[1]=='Add':
        parts(t[2], out); parts(t[3], out)
    else: out.append(t)
    return out
def length_of(t):
    return t[2][0] if is_call(t) and callee_name(t)=='len' and len(t[2])==1 else None

class StoreRule(Rule):
    """mon: (stored pairs (id, blob) of the open pack, ids in published packs, answered present, appended to the
    file but not yet indexed, write failed, published number)"""
    exact = True
    initial = (frozenset(), frozenset(), frozenset(), None, False, ())
    max_depth = 14
    def __init__(self, rep, cfg): self.rep = rep; self.cfg = cfg; self.said = set(); self.nw = 0
    def say(self, rid, msg, ev, st): self.rep.violation('P28', f'{rid} {ev.func.qual}', f'{msg} ({self.cfg})', ev.where, st.trail_list())
    def relevant(self, f):
        if f.mod.name == 'sa_harness': return True
        q = f.qual
        if f.cls is not None and f.cls.qual in ('bup.git.PackWriter','bup.git.LocalPackStore','bup.client.RemotePackStore','bup.helpers.finalized','bup.helpers.nullcontext_if_not'): return True
        if f.name in ('create_commit_blob','tree_encode') or q in ('bup.git.auto_midx','bup.git.repo','bup.git.PackIdxList','bup.helpers.temp_dir','bup.client._raw_write_bwlimit','bup.helpers.log'): return False
        return f.mod.name in ('bup.git','bup.client','bup.helpers') and f.nstmts <= 20 and not (f.cls is not None and f.cls.name.startswith('PackIdx'))
    @staticmethod
    def brief(m): return f'stored={len(m[0])} pub={len(m[1])} present={len(m[2])} loose={m[3] is not None} failed={m[4]} {m[5]}'
    # ---- terms
    def pieces(self, ts):
        """Contents given to a hash, as a flat list: constants, text forms of terms ('text', t) and terms."""
        out = []
        def put(x):
            if x[0]=='c' and isinstance(x[2], (bytes, str)):
                b = x[2] if isinstance(x[2], bytes) else x[2].encode()
                if out and isinstance(out[-1], bytes): out[-1] += b
                elif b: out.append(b)
            else: out.append(x)
        def go(t):
            if t[0]=='bin' and t[1]=='Mod' and t[2][0]=='c':
                fmt = t[2][2] if isinstance(t[2][2], bytes) else t[2][2].encode()
                vals = list(t[3][1]) if t[3][0]=='tuple' else [t[3]]
                bits = re.split(rb'(%[sdbi])', fmt)
                for b in bits:
                    if re.fullmatch(rb'%[sdbi]', b):
                        if not vals: return put(t)
                        v = vals.pop(0)
                        if b in (b'%d', b'%i'): put(mk('bin','Mod', const('%d'), v)) if v[0]!='c' else put(const(str(v[2])))
                        else: go(v)
                    elif b: put(const(b))
            elif t[0]=='bin' and t[1]=='Add': go(t[2]); go(t[3])
            elif is_call(t) and callee_name(t).rsplit('.',1)[-1]=='encode' and t[1][0] in ('attr','bm'): go(t[1][1])
            elif is_call(t) and callee_name(t).rsplit('.',1)[-1]=='str' and len(t[2])==1: put(mk('bin','Mod', const('%d'), t[2][0]))
            elif is_join(t):
                for p in parts(t): go(p)
            elif t[0]=='fstr':
                for x in t[1]: go(x)
            else: put(t)
        for t in ts: go(t)
        return out
    def id_of(self, kind, content):
        """Is t the id git gives to this object?"""
        def ok(t):
            if not is_call(t, 'sha1digest'): return False
            p = self.pieces(t[2])
            want = self.pieces([kind, const(b' '), mk('bin','Mod',const('%d'),self.len(content)), const(b'\0'), content])
            def norm(x):
                if isinstance(x, tuple) and x[0]=='bin' and x[1]=='Mod' and length_of(x[3]) is not None: return ('length', length_of(x[3]))
                return x
            return [norm(x) for x in p] == [norm(x) for x in want]
        return ok
    def len(self, c): return mk('call', mk('ext','len'), (c,), (), None)
    def encoded(self, ps):
        """(kind, content) of the encoded object a list of parts is, or None."""
        e = [p for p in ps if p[0]=='enc']
        if len(ps)==len(e)==3 and [x[1] for x in e]==[0,1,2] and len({x[2:] for x in e})==1: return e[0][2:4]
        return None
    def is_len(self, t, data):
        if is_call(t) and callee_name(t)=='len' and len(t[2])==1: return parts(t[2][0])==parts(data)
        return False
    def is_crc(self, t, data):
        if t[0]=='bin' and t[1]=='BitAnd' and any(x is const(0xffffffff) for x in t[2:4]): t = t[2] if t[3] is const(0xffffffff) else t[3]
        return is_call(t, 'zlib.crc32') and len(t[2])==1 and parts(t[2][0])==parts(data)
    # ---- events
    def model(self, st, ev):
        n = ev.name; last = n.rsplit('.',1)[-1]; stored, published, present, loose, failed, nb = st.mon
        oserr = ('raise', mk('exc','OSError',()))
        r = ev.recv
        if n in ('hashlib.sha1','hashlib.new') :
            a = ev.args[1:] if n == 'hashlib.new' else ev.args
            t = mk('sym', f'SHA@{site_id(ev.func.qual, nid(ev.node))}'); s = st.fork(); s.heap[(t,'$parts')] = mk('tuple', tuple(a))
            return [(s, t)]
        if r is not None and r[0]=='sym' and r[1].startswith('SHA@'):
            p = st.heap.get((r,'$parts'), TOP)
            if last == 'update':
                s = st.fork(); a = tuple(ev.args)
                if len(a)==1 and a[0][0]=='elem' and a[0][1] is sym('CHUNKS'): a = ()        # chunks other than the representative
                s.heap[(r,'$parts')] = mk('tuple', p[1] + a) if p[0]=='tuple' else p
                if a == (CHUNK,):
                    self.rep.count('checksum_updates')
                    if nb and nb[0]=='open': self.say('checksum-early', 'the checksum of a pack is computed before the number of objects has been filled in', ev, st)
                return [(s, NONE)]
            if last in ('digest','hexdigest'):
                d = mk('call', mk('ext','sha1digest'), p[1] if p[0]=='tuple' else (TOP,), (), None)
                return [(st, d if last == 'digest' else mk('call', mk('ext','hex'), (d,), (), None))]
            return [(st, TOP)]
        if n == 'bup.git._encode_packobj':
            k, c = ev.arg(0,'type',TOP), ev.arg(1,'content',TOP)
            return [(st.mon, mk('tuple', tuple(mk('enc', i, k, c) for i in range(3)))), (st.mon, ('raise', mk('exc','ValueError',())))]
        if n == 'bup.git.PackIdxList': return [(st.mon, OBJCACHE)]
        if n.rsplit('.',1)[-1] in ('tree_encode','create_commit_blob') and isinstance(ev.callee, Func):
            return [(st.mon, mk('call', mk('ext', last), tuple(ev.arg(i, p, NONE) for i, p in enumerate(ev.callee.params)), (), None))]
        if n in ('bup.helpers.temp_dir','tempfile.mkdtemp'): return [(st.mon, TMP), (st.mon, oserr)]
        if r is TMP and last == '__enter__': return [(st.mon, TMP)]
        if r is TMP and last == '__exit__': return [((frozenset(), published, present, None, False, ()), NONE)]
        if r is PACK and last == 'write' and not nb: return [(st.mon, ('raise', mk('exc','ValueError',())))]       # closed
        if n == 'open' and ev.args and contains(ev.args[0], lambda y: y is TMP):
            return [((frozenset(), published, present, None, False, ('open', 0, 0)), PACK), (st.mon, oserr)]
        if n in ('bup.helpers.chunkyreader',) and ev.args and ev.args[0] is PACK: return [(st.mon, sym('CHUNKS'))]
        if n == 'next' and ev.args and ev.args[0] is sym('CHUNKS') or r is sym('CHUNKS') and last == '__next__':
            if nb and nb[0]=='read': return [(st.mon, ev.args[1] if len(ev.args) > 1 else ('raise', mk('exc','StopIteration',())))]
            return [((stored, published, present, loose, failed, (('read',) + nb[1:]) if nb and nb[0]=='counted' else nb), CHUNK)]
        if r is OBJCACHE:
            if last == 'exists':
                self.rep.count('existence_answers')
                return [((stored, published, present | {ev.args[0]}, loose, failed, nb), FOUND), (st.mon, NONE)]
            if last in ('__enter__',): return [(st.mon, r)]
            return [(st.mon, NONE)]
        if n == 'bup.git.PackIdxV2Writer': return [(st.mon, IDXW)]
        if n == 'bup.client._raw_write_bwlimit':
            return self.append(st, ev, ev.arg(1,'buf',TOP), mk('tuple', (sym('BWC'), sym('BWT'))))
        if r is CONN and last == 'write':
            d = ev.args[0]
            if any(p[0]=='enc' for p in parts(d)): return self.append(st, ev, d, NONE)
            if d is const(b'\0\0\0\0'):
                return [((frozenset(), published | frozenset(stored), present, None, False, nb), NONE), (st.mon, oserr)]
            return [(st.mon, NONE), (st.mon, oserr)]
        if r is CONN and last == 'has_input': return [(st.mon, TRUE), (st.mon, FALSE)]
        if r is PACK:
            if last == '__enter__': return [(st.mon, PACK)]
            if last == 'write':
                if any(p[0]=='enc' for p in parts(ev.args[0])): return self.append(st, ev, ev.args[0], TOP)
                if nb and nb[0]=='open' and is_call(ev.args[0], 'struct.pack'):
                    self.rep.count('object_counts_written')
                    v = ev.args[0][2][-1]
                    return [((stored, published, present, loose, failed, ('counted', nb[1], nb[2], v[2] if v[0]=='c' else None)), TOP), (st.mon, oserr)]
                if nb and nb[0] in ('counted','read') and is_call(ev.args[0], 'sha1digest') and ev.args[0][2] == (CHUNK,):
                    return [((stored, published, present, loose, failed, ('summed',) + nb[1:]), TOP), (st.mon, oserr)]
                return [(st.mon, TOP), (st.mon, oserr)]
            if last == 'tell': return [(st.mon, mk('sym', f'TELL@{nb[1] if nb else 0}'))]
            if last in ('seek','flush','close','fileno','__exit__'): return [(st, TOP)] + ([(st, oserr)] if last in ('flush','seek') else [])
        if r is IDXW or n.startswith('bup.git.PackIdxV2Writer.'):
            if last == 'add':
                self.rep.count('index_additions')
                oid, crc, off = (ev.arg(i, k, TOP) for i, k in enumerate(('sha','crc','offs')))
                if loose is None:
                    self.say('indexed-not-appended', 'an object is entered into the index of a pack without having been appended to it', ev, st); return [(st.mon, NONE)]
                kind, content, data = loose
                if not self.is_crc(crc, data): self.say('index-crc', f'the checksum in the pack index ({show(crc)[:60]}) is not that of the bytes appended', ev, st)
                n1 = nb[1]
                after = off[0]=='bin' and off[1]=='Sub' and off[2] is mk('sym', f'TELL@{n1}') and self.is_len(off[3], data)
                if not (after or off is mk('sym', f'TELL@{n1-1}')): self.say('index-offset', f'the offset in the pack index ({show(off)[:60]}) is not where the object was appended', ev, st)
                return [((stored | {(oid, kind, content)}, published, present, None, failed, (nb[0], n1, nb[2]+1)), NONE)]
            if last == 'write':
                self.rep.count('indexes_written')
                a = ev.arg(1,'packbin',TOP)
                if not (is_call(a,'sha1digest') and a[2] == (CHUNK,)): self.say('index-checksum', f'the index names its pack by {show(a)[:60]}, not by the checksum of the complete pack', ev, st)
                if nb and nb[0] not in ('summed',): self.say('index-checksum', 'the index of a pack is written before the pack is complete', ev, st)
                return [(st.mon, NONE), (st.mon, oserr)]
            return None
        if n in ('os.rename','os.replace','os.link') and ev.args and contains(ev.args[0], lambda y: y is TMP):
            if tail(ev.args[0]).endswith(b'pack'):
                self.rep.count('packs_published')
                if failed: self.say('failed-pack-published', 'a pack is published although appending an object to it failed, so it can end in part of an object', ev, st)
                if not nb or nb[0] != 'summed': self.say('pack-incomplete', 'a pack is published before its object count and checksum have been written', ev, st)
                elif nb[3] != nb[1]: self.say('pack-count', f'a pack with {nb[1]} objects is published with an object count of {nb[3]}', ev, st)
                elif nb[2] != nb[1]: self.say('pack-unindexed', f'a pack with {nb[1]} objects is published but {nb[2]} of them are in its index', ev, st)
            return [((stored, published | stored, present, loose, failed, nb), NONE), (st.mon, oserr)]
        if n in ('os.rename','os.replace') : return [(st.mon, NONE), (st.mon, oserr)]
        if n == 'FAILED': self.rep.count('failures_survived')
        if n in ('bup.helpers.rmtree','shutil.rmtree') and ev.args and ev.args[0] is TMP:      # what was not published is gone
            m = (frozenset(), published, present, None, False, ())
            return [(m, NONE), (m, oserr)]
        if n in ('bup.helpers.rmtree','shutil.rmtree','os.close','bup.helpers.fsync','bup.io.fsync','bup.git.auto_midx','PUBLISHED'): return [(st.mon, NONE), (st.mon, oserr)]
        if n in ('FAILED','BETWEEN','ENSURE','ONOPEN','ONCLOSE','SUGGEST'): return [(st.mon, NONE)]
        return None
    def append(self, st, ev, data, val):
        """Bytes of an object go to the pack (or the connection)."""
        stored, published, present, loose, failed, nb = st.mon
        ps = parts(data)
        self.rep.count('objects_appended')
        if loose is not None and ev.recv is PACK: self.say('unindexed', 'another object is appended before the previous one was entered into the index', ev, st)
        remote = ev.recv is not PACK
        body = [p for p in ps if p[0]=='enc']
        enc = self.encoded(body)
        if enc is None: self.say('mangled', f'the bytes appended ({show(data)[:80]}) are not one encoded object', ev, st); enc = (TOP, TOP)
        kind, content = enc
        new = st.mon
        if not remote:
            if len(ps) != 3: self.say('mangled', f'more than one encoded object is appended ({show(data)[:80]})', ev, st)
            new = (stored, published, present, (kind, content, data), failed, ('open', (nb[1] if nb else 0) + 1, nb[2] if nb else 0))
        else:
            oid = TOP
            ok = len(ps) == 6 and is_call(ps[0],'struct.pack') and is_call(ps[2],'struct.pack') and ps[3:] == body
            if ok:
                b = mk('tuple', tuple(body))
                n_, crc = ps[0][2][-1], ps[2][2][-1]
                if not (ps[0][2][0][0]=='c' and ps[2][2][0][0]=='c' and ps[0][2][0][2] in ('!I','>I',b'!I') and ps[2][2][0][2] in ('!I','>I',b'!I')): ok = False
                k = 0
                while n_[0]=='bin' and n_[1]=='Add' and n_[3][0]=='c': k += n_[3][2]; n_ = n_[2]
                while n_[0]=='bin' and n_[1]=='Add' and n_[2][0]=='c': k += n_[2][2]; n_ = n_[3]
                if not self.is_len(n_, b) or k != 24: self.say('frame-length', f'the length announced for an object ({show(ps[0][2][-1])[:60]}) is not that of what is sent', ev, st)
                if not self.is_crc(crc, b): self.say('frame-crc', f'the checksum announced for an object ({show(crc)[:60]}) is not that of the bytes sent', ev, st)
                oid = ps[1]
            if not ok: self.say('frame', f'an object is not sent as length, id, checksum and data ({show(data)[:100]})', ev, st)
            self.rep.count('objects_sent')
            new = (stored | {(oid, kind, content)}, published, present, None, failed, nb)
        bad = (stored, published, present, loose, True, nb)
        return [(new, val), (bad, ('raise', mk('exc','OSError',())))]
    def call(self, st, ev): return None
    def raises(self, ev, default): return False if ev.name in ('zlib.crc32','struct.pack','len','time.time','bup.helpers.log','bup.helpers.debug1') else default
    def iter_items(self, st, it):
        if it is sym('CHUNKS'): return [CHUNK]
        return None
    def decide(self, st, t):
        if t in (CHUNK, FOUND, OBJCACHE, PACK, CONN, TMP, IDXW, CONTENT, OTHER, OID, OID2, REPODIR): return True
        if is_call(t, 'sha1digest') : return True
        if length_of(t) is not None and any(p[0]=='enc' for p in parts(t)+parts(length_of(t))): return True
        if t[0]=='cmp' and t[1]=='==' and t[2] is not t[3] and all(is_call(x,'sha1digest') or x in (OID, OID2, OID3) for x in t[2:4]): return False
        if t[0]=='cmp' and t[1]=='==' and any(is_call(x,'sum') for x in t[2:4]) and any(is_call(x,'len') for x in t[2:4]): return True     # assertion on sizes
        if t[0]=='cmp' and t[1]=='is' and t[3] is NONE and (t[2] in (CHUNK, FOUND, OBJCACHE, PACK, CONN, TMP, IDXW) or is_call(t[2],'sha1digest')): return False
        return None

CHUNK, PACK, CONN, TMP, IDXW, OBJCACHE, FOUND, REPODIR = (sym(x) for x in ('CHUNK','PACKFILE','CONN','TMP','IDXW','OBJCACHE','FOUND','REPODIR'))
CONTENT, OTHER, KIND, OID, OID2, OID3 = (sym(x) for x in ('CONTENT','OTHER','KIND','OID','OID2','OID3'))

ENV = {(('mod','sa_harness'), n): sym(n) for n in ('REPODIR','CACHE','SUGGEST','ONOPEN','ONCLOSE','ENSURE','CONN','PUBLISHED','FAILED','BETWEEN','SINK')}

def writers(prog, rep):
    com = tuple(sym(f'COMMIT{i}') for i in range(9)); com2 = (sym('TREE2'),) + com[1:]
    tc = lambda q, a: mk('call', mk('ext', q), a, (), None)
    ops = {'maybe_write': ((KIND, CONTENT), (KIND, OTHER), KIND, lambda a: a[1]),
           'just_write': ((OID, KIND, CONTENT), (OID2, KIND, OTHER), KIND, lambda a: a[2]),
           'new_blob': ((CONTENT,), (OTHER,), const(b'blob'), lambda a: a[0]),
           'new_tree': ((sym('SHALIST'),), (sym('SHALIST2'),), const(b'tree'), lambda a: tc('tree_encode', a)),
           'new_commit': (com, com2, const(b'commit'), lambda a: tc('create_commit_blob', a))}
    for side in 'LR':
        fn = prog.funcs['sa_harness.'+side]
        for op, (a1, a2, kind, content_of) in ops.items():
            for x, y in ((a1, a1), (a1, a2)):
                cfg = f'{"local" if side=="L" else "remote"} {op}, {"the same object twice" if x is y else "two objects"}'
                rule = StoreRule(rep, cfg)
                it = Interp(prog, rule)
                rets, excs = it.run(fn, [const(op), mk('tuple', x), mk('tuple', y)], env=ENV)
                rep.analysed(it); rep.count('writer_scenarios')
                if not rets: raise AnalysisError(f'{cfg}: never returns')
                content = content_of(y); isid = rule.id_of(kind, content)
                f = prog.funcs.get('bup.git.PackWriter.'+op)
                where = f'{f.mod.path}:{f.node.lineno}' if f else ''
                def say(rid, msg, s): rep.violation('P28', f'{rid} bup.git.PackWriter.{op}', f'{msg} ({cfg})', where, s.trail_list())
                ways = set()
                for s, v in rets:
                    stored, published, present, loose, failed, nb = s.mon
                    rep.count('ids_returned')
                    oid = y[0] if op == 'just_write' else v
                    if op != 'just_write' and not isid(oid): say('wrong-id', f'the id returned ({show(oid)[:120]}) is not that of the object', s); continue
                    if loose is not None: say('not-indexed', 'an object was appended to a pack and not entered into its index', s)
                    all_ = stored | published
                    if any(o is oid and k is kind and c is content for o, k, c in all_): ways.add('stored')
                    elif any(o is oid for o, k, c in all_): say('wrong-content', 'what is stored under an id is not the object the id was computed from', s)
                    elif oid in present: ways.add('present')
                    else: say('not-stored', 'an id is returned for an object that was neither stored nor found in the repository', s)
                if op == 'just_write' and 'present' in ways: pass
                if 'stored' not in ways: raise AnalysisError(f'{cfg}: no path stores the object')
    for how in ('one','two','abort'):
        rule = StoreRule(rep, f'publishing, {how}')
        it = Interp(prog, rule)
        a = [mk('tuple', (o, KIND, c)) for o, c in ((OID, CONTENT), (OID2, OTHER), (OID3, sym('THIRD')))]
        rets, excs = it.run(prog.funcs['sa_harness.publish'], [const(how)] + a, env=ENV)
        rep.analysed(it)
        for s, v in rets:
            if how == 'abort': continue
            if s.mon[0] and not s.mon[1]: rep.violation('P28', f'never-published bup.git.LocalPackStore', f'closing a writer succeeds without publishing the objects added to it', '', s.trail_list())
        if how != 'abort' and not any(len(s.mon[1]) >= 2 for s, v in rets): raise AnalysisError('no path publishes both objects')

class FetchRule(StoreRule):
    initial = (False, False)        # (the data has been consumed by the caller, the caller got an object)
    def __init__(self, rep, match, full): super().__init__(rep, f'{"matching" if match else "wrong"} data'); self.match = match; self.full = full
    def relevant(self, f): return f.mod.name in ('sa_harness','bup.repo.remote') or f.mod.name in ('bup.git','bup.helpers') and f.nstmts <= 6 and f.name in ('start_sha1','calc_hash')
    @staticmethod
    def brief(m): return str(m)
    def model(self, st, ev):
        n = ev.name; last = n.rsplit('.',1)[-1]
        if last == 'cat_batch' : return [(st.mon, BATCH)]
        if n == 'next' and ev.args and ev.args[0] is BATCH or ev.recv is BATCH and last == '__next__':
            if not st.mon[1]: return [((st.mon[0], 'found'), REPLY), ((st.mon[0], 'missing'), mk('tuple', (NONE,)*4))]
            return [(st.mon, NONE), (st.mon, sym('EXTRA'))]
        if n == 'SINK' :
            self.rep.count('data_delivered')
            return [((True, st.mon[1]), NONE)]
        if n == 'hashlib.sha1' or ev.recv is not None and ev.recv[0]=='sym' and ev.recv[1].startswith('SHA@'):
            st2 = st.with_mon((frozenset(), frozenset(), frozenset(), None, False, ()))
            if n.endswith('.update') or last == 'update':
                if ev.args and ev.args[0][0]=='elem' and ev.args[0][1] is DATA: return [(st.mon, NONE)]
            out = super().model(st2, ev); res = []
            for m, v in out or []:
                z = m if isinstance(m, State) else st.with_mon(st.mon)
                if isinstance(m, State): z = m.with_mon(st.mon)
                res.append((z, v))
            return res or None
        return None
    def iter_items(self, st, it):
        if it is DATA: return [CHUNK]
        if it is BATCH: return [REPLY]
    def decide(self, st, t):
        if t in (OIDX, TYP, SIZE, DATA, BATCH, REF): return True
        if is_call(t, '.fullmatch', '.match', '.search'): return self.full
        if t[0]=='cmp' and t[1]=='==':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                d = a
                while is_call(d, 'binascii.hexlify', 'hex', '.hex', '.encode', 'bytes.hex') or d[0]=='call' and d[1][0]=='attr' and d[1][2] in ('hex','encode'): d = d[2][0] if d[2] and d[1][0]!='attr' else d[1][1]
                if is_call(d, 'sha1digest') and contains(b, lambda y: y is REF):
                    self.rep.count('id_comparisons')
                    want = [TYP, b' ', mk('bin','Mod',const('%d'),SIZE), b'\0', CHUNK]
                    if self.pieces(d[2]) == want: return self.match
        return None
BATCH, REPLY_, OIDX, TYP, SIZE, DATA, REF = (sym(x) for x in ('BATCH','REPLY','OIDX','TYP','SIZE','DATA','REF'))
REPLY = mk('tuple', (OIDX, TYP, SIZE, DATA))

def readers(prog, rep):
    f = prog.funcs.get('bup.repo.remote.RemoteRepo.cat')
    if f is None: raise AnalysisError('RemoteRepo.cat not found')
    ok = False
    for match in (True, False):
        rule = FetchRule(rep, match, True)
        it = Interp(prog, rule)
        repo = mk('obj','bup.repo.remote.RemoteRepo','R')
        rets, excs = it.run(prog.funcs['sa_harness.fetch'], [repo, REF], heap={(repo,'client'): sym('CLIENT'), (repo,'closed'): FALSE}, env=ENV)
        rep.analysed(it); rep.count('fetch_scenarios')
        for s, v in rets:
            if v is not TRUE: continue
            if match: ok = ok or s.mon[0]
            else: rep.violation('P28', f'unverified {f.qual}', 'data received for an id is delivered completely without an error although it does not hash to that id', f'{f.mod.path}:{f.node.lineno}', s.trail_list()); break
    if not ok: raise AnalysisError('RemoteRepo.cat never delivers data')

class EncRule(Rule):
    initial = ()
    def relevant(self, f): return f.mod.name == 'bup.git'
    def call(self, st, ev): return None
def small(prog, rep):
    f = prog.funcs.get('bup.git._encode_packobj')
    if f is None: raise AnalysisError('_encode_packobj not found')
    it = Interp(prog, EncRule()); rets, excs = it.run(f, [KIND, CONTENT, const(1)]); rep.analysed(it)
    n = 0
    for s, v in rets:
        for t in alts(v):
            n += 1; rep.count('encodings')
            ts = t[1] if t[0] in ('tuple','list') else (t,)
            z = [x for x in subterms(t) if x[0]=='call' and callee_name(x).rsplit('.',1)[-1]=='compress' and CONTENT in x[2]]
            fl = [x for x in subterms(t) if x[0]=='call' and callee_name(x).rsplit('.',1)[-1]=='flush']
            if not (z and (fl or is_call(z[0],'zlib.compress'))): rep.violation('P28', f'encoding {f.qual}', f'the encoded object ({show(t)[:120]}) is not the compressed content', f'{f.mod.path}:{f.node.lineno}', [])
            elif len(ts) == 3 and not (z[0] in (ts[1],) and fl[0] is ts[2] and unprev(z[0][1][1]) is unprev(fl[0][1][1])): rep.violation('P28', f'encoding {f.qual}', f'the parts of the encoded object are not its header, its compressed content and the rest of the same compressor ({show(t)[:160]})', f'{f.mod.path}:{f.node.lineno}', [])
            elif not contains(ts[0], lambda y: y is KIND): rep.violation('P28', f'encoding {f.qual}', 'the header of the encoded object does not depend on its kind', f'{f.mod.path}:{f.node.lineno}', [])
    if not n: raise AnalysisError('_encode_packobj never returns')
    f = prog.funcs.get('bup.git.PackIdxV2Writer.add')
    if f is None: raise AnalysisError('PackIdxV2Writer.add not found')
    class AddRule(Rule):
        initial = (False,)
        def relevant(self, g): return False
        def call(self, st, ev):
            if ev.name.rsplit('.',1)[-1] in ('append','add','insert') and ev.args and ev.args[-1] is mk('tuple', (OID, sym('CRC'), sym('OFF'))) and ev.recv is not None and ev.recv[0]=='sub' and contains(ev.recv, lambda y: y is mk('sub', OID, const(0))):
                rep.count('index_entries'); return [(True,)]
    W = mk('obj','bup.git.PackIdxV2Writer','W')
    it = Interp(prog, AddRule()); rets, excs = it.run(f, [OID, sym('CRC'), sym('OFF')], selfobj=W, heap={(W,'idx'): sym('IDXLIST'), (W,'count'): const(7)}); rep.analysed(it)
    for s, v in rets:
        if not s.mon[0]: rep.violation('P28', f'index-entry {f.qual}', 'an entry is not added under the first byte of its id', f'{f.mod.path}:{f.node.lineno}', s.trail_list())
        if s.heap.get((W,'count')) is not const(8): rep.violation('P28', f'index-entry {f.qual}', 'the number of entries is not counted', f'{f.mod.path}:{f.node.lineno}', s.trail_list())
    if not rets: raise AnalysisError('PackIdxV2Writer.add never returns')

def check(prog, rep, tier):
    rep.rule('P28', 'the pack writer is followed with the local and the remote store, every answer of the existence checks and every failing write: an id that is returned is the hash of kind, length and '
             'content, and was appended and indexed with the checksum and offset of exactly those bytes, or found present; only complete packs without a failed write are published')
    prog.add_harness(HARNESS)
    for q in ('bup.git.PackWriter','bup.git.LocalPackStore','bup.client.RemotePackStore'):
        if q not in prog.classes: raise AnalysisError(f'{q} not found')
    writers(prog, rep); readers(prog, rep); small(prog, rep)
    rep.need('fetch_scenarios', 2); rep.need('id_comparisons', 2); rep.need('data_delivered', 2); rep.need('encodings', 1); rep.need('index_entries', 1); rep.need('writer_scenarios', 20); rep.need('ids_returned', 40); rep.need('objects_appended', 20); rep.need('objects_sent', 10); rep.need('index_additions', 10)
    rep.need('packs_published', 2); rep.need('object_counts_written', 2); rep.need('checksum_updates', 1); rep.need('indexes_written', 2); rep.need('existence_answers', 10); rep.need('failures_survived', 10)
