"""Operations of a remote repository followed on both sides of the connection at once."""
from .wire import *
from .absint import Interp, State
import ast

HARNESS = '''
from bup.client import Client
from bup.protocol import Server
from bup.repo.remote import RemoteRepo
class ServedPacks:
    def write(self, datalist, sha=None):
        data = b''.join(datalist)
        CALLED('store', data, sha)
        return LEN(data), CRC(data)
class ServedWriter:
    def __init__(self, store): self._store = store
    def object_count(self): return 1
class ServedRepo:
    def __init__(self, repo_dir=None, server=False):
        CALLED('open', repo_dir)
        self.repo_dir = repo_dir
        self._packwriter = None
    @staticmethod
    def create(repo_dir=None): CALLED('create', repo_dir)
    def close(self): pass
    def config_get(self, name, opttype=None):
        if name == b'bup.server.deduplicate-writes': return ANSWER('dedup')
        CALLED('config_get', name, opttype)
        return ANSWER('config')
    def list_indexes(self):
        CALLED('list_indexes')
        for x in ANSWERS('index'): yield x
    def send_index(self, name, conn, send_size):
        CALLED('send_index', name)
        data = ANSWER('indexdata')
        send_size(LEN(data))
        CALLED('end')
        conn.write(data)
    def read_ref(self, refname):
        CALLED('read_ref', refname)
        return ANSWER('ref')
    def update_ref(self, refname, newval, oldval): CALLED('update_ref', refname, newval, oldval)
    def join(self, ref):
        CALLED('join', ref)
        for x in ANSWERS('joined'): yield x
        CALLED('end')
    def cat(self, ref):
        CALLED('cat', ref)
        oidx, kind, size, it = ANSWER('cat')
        return oidx, kind, size, self._parts(it)
    def _parts(self, it):
        if it is not None:
            for x in it: yield x
        CALLED('end')
    def refs(self, patterns=None, limit_to_heads=False, limit_to_tags=False):
        CALLED('refs', patterns, limit_to_heads, limit_to_tags)
        for x in ANSWERS('refs'): yield x
        CALLED('end')
    def rev_list_raw(self, refs, fmt):
        CALLED('rev_list', refs, fmt)
        for x in ANSWERS('revs'): yield x
        CALLED('end')
    def resolve(self, path, parent=None, want_meta=True, follow=True):
        CALLED('resolve', path, parent, want_meta, follow)
        return ANSWER('resolved')
    def exists(self, oid, want_source=False):
        CALLED('exists', oid)
        return ANSWER('exists')
    def _ensure_packwriter(self):
        if not self._packwriter: self._packwriter = ServedWriter(ServedPacks())
    def finish_writing(self):
        if self._packwriter:
            self._packwriter = None
            CALLED('finish')
            return PACKPATH
        return None
    def abort_writing(self): CALLED('abort')

class FileSink:
    def write(self, b): GOT(b)
    def flush(self): pass
    def fileno(self): return 9
class Location:
    def __init__(self, user): self._user = user
def parse_body(conn):
    return conn.read(LEN(BODY))

def repo(): return RemoteRepo(LOCATION, compression_level=1, max_pack_size=1, max_pack_objects=1)
def op_list_indexes(r):
    for x in r.list_indexes(): GOT(x)
def op_sync_indexes(r):
    r.client.sync_indexes()
def op_send_index(r): r.send_index(IDX, FileSink(), SIZE)
def op_read_ref(r): GOT(r.read_ref(REF))
def op_update_ref(r): r.update_ref(REF, NEWID, OLDID)
def op_update_new_ref(r): r.update_ref(REF, NEWID, None)
def op_update_empty_ref(r): r.update_ref(REF, NEWID, b'')
def op_join(r):
    for x in r.join(NAME): GOT(x)
def op_cat(r):
    for oidx, kind, size, it in r.client.cat_batch((NAME, NAME2)):
        GOT(oidx)
        GOT(kind)
        GOT(size)
        if it is not None:
            for x in it: GOT(x)
def op_refs(r):
    for name, oid in r.refs(): GOT(name, oid)
def op_refs_first(r):
    for name, oid in r.refs():
        GOT(name, oid)
        break
def op_list_indexes_first(r):
    for x in r.list_indexes():
        GOT(x)
        break
def op_rev_list_first(r):
    for x in r.rev_list(NAME):
        GOT(x)
        break
def op_refs_heads(r):
    for name, oid in r.refs((PAT, PAT2), True, False): GOT(name, oid)
def op_refs_tags(r):
    for name, oid in r.refs(patterns=(PAT, PAT2), limit_to_tags=True): GOT(name, oid)
def op_rev_list(r):
    for x in r.rev_list(NAME): GOT(x)
def op_rev_list_many(r):
    for x in r.rev_list((NAME, NAME2)): GOT(x)
def op_rev_list_parsed(r):
    for x in r.rev_list((NAME, NAME2), parse=parse_body, format=FORMAT): GOT(x)
def op_resolve(r): GOT(r.resolve(PATH))
def op_resolve_under(r): GOT(r.resolve(PATH, PARENT, False, False))
def op_resolve_follow(r): GOT(r.resolve(PATH, parent=PARENT, want_meta=False, follow=True))
def op_resolve_meta(r): GOT(r.resolve(PATH, None, want_meta=True, follow=False))
def op_config(r): GOT(r.config_get(b'pack.packSizeLimit'))
def op_config_int(r): GOT(r.config_get(b'pack.packSizeLimit', opttype='int'))
def op_config_bool(r): GOT(r.config_get(b'bup.split.trees', opttype='bool'))
def op_config_other(r): GOT(r.config_get(b'other.option'))
def op_write(r):
    w = r.client.new_packwriter()
    w.just_write(OBJ, b'blob', DATA)
    w.just_write(OBJ2, b'blob', DATA2)
    w.close()
def op_write_nothing(r):
    w = r.client.new_packwriter()
    w.close()
def op_start(r): pass

def client(op):
    r = repo()
    try:
        op(r)
    except Exception as e:
        RAISED(e)
    DONE(r.client._busy)
    GOT(r.read_ref(AGAIN))
def start(create):
    c = Client(URL, create=create)
    DONE(c._busy)
    GOT(c.read_ref(AGAIN))
def serve(s):
    s.handle()
'''
def S_(n): return S[n]
CONN = 'bup.helpers.Conn'
SERVER = 'bup.protocol.Server'
CLIENT = 'bup.client.Client'
TEXT = tuple(sym(x) for x in ('REF','AGAIN','NAME','NAME2','PAT','PAT2','FORMAT','IDX','IDX1','IDX2','MSG','RNAME','RNAME2','RPATH','NAME_','PAT_','RPATH_','REPOID','PACK','DIRNAME','HOST'))
IDS = tuple(sym(x) for x in ('NEWID','OLDID','OBJ','OBJ2','OID1','OID2','RID','RID2'))
DATA = tuple(sym(x) for x in ('DATA','DATA2','BODY','BLOB1','BLOB2','ENC1','ENC2','INDEXDATA','PATH','SVAL'))
OTHER = tuple(sym(x) for x in ('PARENT','RESOLVED','LOCATION','SIZE','PACKPATH','URL','CACHEDIR'))
FUNS = tuple(sym(x) for x in ('GOT','CALLED','ANSWER','ANSWERS','RAISED','DONE','LEN','CRC'))
S = {x[1]: x for x in TEXT + IDS + DATA + OTHER + FUNS}
for _n in ('NAME','RPATH','PAT'): S[_n] = cat([sym(_n), const(b' '), sym(_n + '_')])      # these may contain blanks
S['IDX'] = cat([sym('IDX'), const(b'.idx')])
S['IDX1'] = cat([sym('IDX1'), const(b'.idx')]); S['IDX2'] = cat([sym('IDX2'), const(b'.idx')])
ENV = {(('mod','sa_harness'), n): v for n, v in S.items()}

IVAL = sym('IVAL')
HEX1, HEX2 = X('hex', S['RID']), X('hex', S['RID2'])
def T(*a): return mk('tuple', tuple(a))
NL = const(b'\n')
PACKIDX = cat([S['PACK'], const(b'.idx')])
PRESENT = mk('nt', 'sa_harness.Found', ('pack',), (X('path', PACKIDX),))
MISSING = T(NONE, NONE, NONE, NONE)
FOUND = T(HEX1, const(b'blob'), unlin({X('len', S['BLOB1']): 1, X('len', S['BLOB2']): 1}, 0), T(S['BLOB1'], S['BLOB2']))
IOERR = mk('exc', 'bup.vfs.IOError', (S['MSG'],))
ANSWERS = dict(dedup=(NONE,), config=(NONE, TRUE, FALSE, IVAL, S['SVAL']), index=(T(), T(S['IDX1'], S['IDX2'])), indexdata=(S['INDEXDATA'],), ref=(S['OID1'], NONE),
               joined=(T(S['BLOB1'], S['BLOB2']), T()), cat=(FOUND, MISSING), refs=(T(T(S['RNAME'], S['RID']), T(S['RNAME2'], S['RID2'])), T()),
               revs=(T(cat([HEX1, NL, HEX2, NL])), T(cat([HEX1, NL]), cat([HEX2, NL])), T()), resolved=(S['RESOLVED'], IOERR), exists=(NONE, PRESENT))
PARSED = (T(cat([const(b'commit '), HEX1, NL, S['BODY'], const(b'commit '), HEX2, NL, S['BODY']])), T())

def commands_of(prog):
    """The requests the server implements: its methods marked as such and the other names they have."""
    c = prog.classes.get(SERVER)
    if c is None: raise AnalysisError(f'{SERVER} not found')
    out = {}
    for st in c.node.body:
        if isinstance(st, ast.FunctionDef) and any('command' in ast.unparse(d) for d in st.decorator_list): out[st.name] = f'{SERVER}.{st.name}'
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Name) and st.value.id in out:
            for t in st.targets:
                if isinstance(t, ast.Name): out[t.id] = out[st.value.id]
    if len(out) < 8: raise AnalysisError(f'only {len(out)} requests found in {SERVER}')
    return out

def tyname(t):
    if is_call(t, 'type') and t[2] == (NONE,): return 'NoneType'
    return t[1].rsplit('.',1)[-1] if len(t) > 1 and isinstance(t[1], str) else None
def last_(n): return n.rsplit('.',1)[-1]
def lastname(ev): return ev.name.rsplit('.',1)[-1]

class Side(WireRule):
    text = frozenset(TEXT)
    ids = frozenset(IDS)
    max_depth = 30
    def relevant(self, f):
        if f.mod.name == 'sa_harness': return True
        while f.outer is not None: f = f.outer      # with what contains it
        q = f.qual
        if q in ('bup.client._raw_write_bwlimit','bup.helpers.log','bup.helpers.mkdirp','bup.helpers.fsync','bup.git.auto_midx','bup.path.index_cache','bup.client._legacy_cache_id_for_remote',
                 'bup.client._legacy_cache_id_for_host_path','bup.repo.base._make_base'): return False
        if f.mod.name in ('bup.client','bup.repo.remote'): return True
        if f.mod.name == 'bup.protocol': return f.name not in ('read_resolution','write_resolution','read_ioerror','write_ioerror','read_item','write_item')
        if f.mod.name == 'bup.helpers': return f.cls is not None and f.cls.name in ('BaseConn','Conn','finalized','nullcontext_if_not') or f.name in ('linereader','lines_until_sentinel','nullcontext_if_not','finalized')
        if f.mod.name == 'bup.git': return f.cls is not None and f.cls.name == 'PackWriter'
        return f.mod.name not in ('bup.vint','bup.metadata','bup.vfs') and f.nstmts <= 12
    def midway(self, ev): return True
    def model(self, st, ev):
        n = ev.name; last = lastname(ev); m = st.mon; a = ev.args
        if n == 'LEN': return [(m, X('len', a[0]) if a[0][0]!='c' else const(len(a[0][2])))]
        if n in ('zlib.crc32','CRC') and a: return [(m, X('crc', a[0]))]
        if n == 'getattr' and len(a) >= 2 and a[1][0]=='c' and isinstance(a[1][2], bytes): return None
        if n == 'bup.protocol.write_resolution':
            v = a[1][2][0] if is_call(a[1], 'list', 'tuple') and len(a[1][2])==1 else a[1]
            return self.write(st, ev, X('R', v))
        if n == 'bup.protocol.write_ioerror': return self.write(st, ev, X('E', a[1]))
        if n == 'bup.protocol.read_resolution': return self.field(st, ev, 'R', none_at_eof=False)
        if n == 'bup.protocol.read_ioerror': return self.field(st, ev, 'E', none_at_eof=False)
        if n == 'bup.helpers.chunkyreader' and len(a) == 2:
            r = a[0]
            out = []
            for mm, v in self.read(st, ev, self.norm(st, a[1])) :
                if isinstance(v, tuple) and v[0] != 'raise':
                    d, k = {}, 0
                    for x in flat(v):
                        z = self.size(x)
                        if z is None: d[X('len', x)] = d.get(X('len', x), 0) + 1
                        else: k += z
                    v = mk('tuple', (v,)) if unlin(d, k) is unlin(*lin(self.norm(st, a[1]))) else ('raise', mk('exc','OSError',()))
                out.append((mm, v))
            return out
        if n == 'next' and a and a[0][0]=='tuple': return [(m, a[1] if len(a) > 1 else TOP)]
        if n == 'ord' and a and a[0][0]=='c': return [(m, const(ord(a[0][2])))] if len(a[0][2])==1 else [(m, ('raise', mk('exc','TypeError',())))]
        if n == 'isinstance' and len(a) == 2:
            k = self.kind_of(a[0])
            if k is not None:
                names = {tyname(t) for t in (a[1][1] if a[1][0]=='tuple' else (a[1],))}
                if None in names: return None
                return [(m, TRUE if k & names else FALSE)]
        if n == 'GOT':
            x = a[0] if len(a)==1 else mk('tuple', tuple(a))
            return [(m[:3] + (m[3] + (x,), m[4]), NONE)]
        if n == 'RAISED': return [(m[:3] + (m[3] + (mk('exc','!',(a[0],)),), m[4]), NONE)]
        if n == 'DONE': return [(m[:3] + (m[3] + (X('busy', a[0]),), m[4]), NONE)]
        if n.startswith('time.') or n in ('bup.helpers.progress','bup.helpers.qprogress'): return [(m, sym('NOW'))]
        return super().model(st, ev)
    def kind_of(self, t):
        """The names of the types of a value, or None."""
        if t is TRUE or t is FALSE: return {'bool','int'}
        if t is NONE: return {'NoneType'}
        if t[0]=='c': return {type(t[2]).__name__}
        if istext(t) or t in self.text or t in self.ids or t in DATA: return {'bytes'}
        if t is sym('IVAL'): return {'int'}
        if t[0]=='exc': return {t[1].rsplit('.',1)[-1], 'Exception', 'BaseException', 'OSError'} if t[1].rsplit('.',1)[-1]=='IOError' else {t[1].rsplit('.',1)[-1], 'Exception', 'BaseException'}
        if is_call(t, 'list', 'tuple'): return {'list','tuple'}
        if t is IVAL: return {'int'}
        if t in (S['RESOLVED'], S['PARENT']) or t[0] in ('tuple','list'): return {'tuple','list'}
        return None
    def decide(self, st, t):
        if t in (S['RESOLVED'], S['PARENT'], S['PACKPATH'], PRESENT) or t in DATA: return True
        if t[0]=='bin' and t[1] in ('Add','Sub'):
            d, k = lin(t)
            if d and all(isx(x,'len') and n > 0 for x, n in d.items()) and k >= 0: return True
        if isx(t, 'len'): return True
        if is_call(t, 'all') and len(t[2])==1 and t[2][0][0] in ('gen','xgen','comp'): return True      # assertions on argument types
        if t[0]=='cmp' and t[1]=='==':
            if any(is_call(x, 'sum') for x in t[2:4]): return True      # the writer's own check of what the store reports
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                d, k = lin(a)
                if b[0]=='c' and isinstance(b[2], int) and not isinstance(b[2], bool) and d and all(isx(x,'len') for x in d): return False
                if isx(a, 'len') and a[2][0] in self.ids and b[0]=='c': return b[2] == 20
        if t[0]=='cmp' and t[1]=='<' and t[2][0]=='c' and isinstance(t[2][2], int) and t[2][2] <= 0:
            d, k = lin(t[3])
            if d and all(isx(x,'len') and n > 0 for x, n in d.items()) and k >= 0: return True
        if t[0]=='cmp' and t[1]=='in' and is_call(t[3], 'frozenset', 'set', 'tuple', 'list') and len(t[3][2])==1 and t[3][2][0][0] in ('tuple','list','set') and (t[3],'$ex') not in st.heap:
            el = t[3][2][0][1]
            if t[2][0]=='c' and all(x[0]=='c' for x in el): return any(x[2]==t[2][2] for x in el)
        if t[0]=='cmp' and t[1]=='is':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b is NONE and (a in (IVAL, S['RESOLVED'], S['PARENT'], S['PACKPATH']) or a in DATA or a[0] in ('tuple','exc')): return False
        return super().decide(st, t)

class ServerSide(Side):
    def __init__(self, answers, fail=None):
        super().__init__(); self.answers = answers; self.fail = fail; self.idle = []
    def midway(self, ev): return any(f.cls is not None and f.cls.qual == SERVER and f.name != 'handle' for f, _ in ev.interp.stack)
    def starve(self, st, ev):
        if not self.midway(ev): return [(st.mon, const(b''))]
        return super().starve(st, ev)
    def model(self, st, ev):
        n = ev.name; m = st.mon; a = ev.args
        if n == 'CALLED':
            m2 = m[:2] + (m[2] + (mk('tuple', tuple(a)),),) + m[3:]
            out = [(m2, NONE)]
            what = a[0][2]
            if self.fail and what in self.fail: out = [(m2, ('raise', mk('exc', self.fail[what], (S['MSG'],))))]
            return out
        if n in ('ANSWER','ANSWERS'):
            out = []
            for v in self.answers.get(a[0][2], (NONE,) if n=='ANSWER' else (mk('tuple',()),)):
                if a[0][2] == 'dedup': out.append((m[:2] + (m[2] + (mk('tuple', (const('$dedup'), v)),),) + m[3:], v)); continue
                m2 = m[:3] + (m[3] + (v,), m[4])
                if v[0]=='exc': out.append((m2, ('raise', v)))
                else: out.append((m2, v))
            return out
        if n == 'str' and a and a[0][0]=='exc': return [(m, S['MSG'])]
        if n == 'os.path.split' and isx(a[0], 'path'): return [(m, mk('tuple', (S['DIRNAME'], a[0][2][0])))]
        if last_(n) == 'endswith' and ev.recv is not None and isx(ev.recv, 'path'): return [(m, TRUE)]
        if n == 'os.path.split' and a[0] is S['PACKPATH']: return [(m, mk('tuple', (S['DIRNAME'], S['PACK'])))]
        if n == 'sorted' and a and a[0][0] in ('tuple','list') and all(x[0]=='c' for x in a[0][1]): return [(m, mk('tuple', tuple(sorted(a[0][1], key=lambda x: x[2]))))]
        return super().model(st, ev)

    def call(self, st, ev):
        if ev.func.qual == f'{SERVER}.handle' and ev.name.startswith(SERVER + '.') and ev.name.rsplit('.',1)[-1] in self.requests:
            m = st.mon
            return [m[:2] + (m[2] + (mk('tuple', (const('$req'), const(ev.name.rsplit('.',1)[-1]))),),) + m[3:]]

class ClientSide(Side):
    def __init__(self, ex=None, fed=()): super().__init__(); self.polled = {}; self.ex = ex; self.fed = fed
    def causal(self, res):
        """Only what the server may have sent in reply to all that was sent so far can be read."""
        out = []
        for m, v in res:
            mon = m.mon if isinstance(m, State) else m
            if self.ex is None or isinstance(v, tuple) and v and v[0]=='raise' or self.ex.replies(strip_end(self.fed, mon[0]), mon[1]): out.append((m, v))
            else: out.append((mon[:4] + ('blocked',), ('raise', mk('exc','$blocked',()))))
        return out
    def read(self, st, ev, n): return self.causal(super().read(st, ev, n))
    def readline(self, st, ev): return self.causal(super().readline(st, ev))
    def field(self, st, ev, kind, none_at_eof=True): return self.causal(super().field(st, ev, kind, none_at_eof))
    def poll(self, st):
        """Is there input, given what was sent and what was read so far?"""
        m = st.mon
        if self.ex is None: return [(m, TRUE), (m, NONE)]
        read = strip_end(self.fed, m[0])
        more = [w for how, w, r in self.ex.replies(read, m[1]) if w != tuple(flat(cat(read)))]
        if not more: return [(m, NONE)]
        if not m[0]:
            for w in more: self.polled[w] = st
            return [(m, NONE)]
        return [(m, TRUE), (m, NONE)]
    def model(self, st, ev):
        n = ev.name; last = lastname(ev); m = st.mon; a = ev.args
        if n in ('bup.client.Client','bup.client.Client.__init__') and ev.func.mod.name == 'bup.repo.remote': return [(m, mk('obj', CLIENT, 'C'))]
        if n == 'bup.repo.base._make_base': return [(m, sym('BASE'))]
        if last == 'has_input': return self.poll(st)
        if n == 'bup.git._encode_packobj': return [(m, mk('tuple', ({S['DATA']: S['ENC1'], S['DATA2']: S['ENC2']}.get(a[1], TOP),)))]
        if n == 'bup.client._raw_write_bwlimit':
            return [(mm, mk('tuple', (sym('BWC'), sym('BWT')))) for mm, v in self.write(st, ev, a[1])]
        if n == 'bup.client.Client.sync_index':
            c = mk('tuple', (const('sync'), a[-1]))
            return [(m if c in m[2] else m[:2] + (m[2] + (c,),) + m[3:], NONE)]
        if n == 'os.listdir': return [(m, mk('tuple', ()))]
        if n in ('os.path.exists',): return [(m, FALSE)]
        if n.startswith(('bup.git.PackIdxList','bup.git.auto_midx','bup.helpers.mkdirp','os.','shutil.','bup.helpers.fsync')): return [(m, sym('FS'))]
        if last == 'exists' and ev.recv is not None: return [(m, NONE)]
        if ev.recv is sym('FS') or ev.recv is not None and ev.recv[0]=='attr' and ev.recv[1] is sym('FS'): return [(m, NONE)]
        if n == 'SIZE': return [(m, NONE)]
        if n in ('bup.client.Client.ViaSsh','bup.client.Client.ViaSsh.__init__'): return [(m, TRANSPORT)]
        if n == 're.search': return [(m, NONE)]
        if last == 'wait' and ev.recv is sym('PROC'): return [(m, const(0))]
        if n == '.poll' or last == 'poll' and ev.recv is sym('PROC'): return [(m, NONE)]
        if n == 'isinstance' and a[0] is S['URL']: return [(m, TRUE if tyname(a[1]) == 'URL' else FALSE)]
        if n == 'CACHEDIR': return [(m, NONE)]
        if n == 'str' and a and a[0][0]=='exc': return [(m, S['MSG'])]
        return super().model(st, ev)

STARTS = ('start_create','start_set','start_default')
TRANSPORT = mk('obj', 'bup.client.Client.ViaSsh', 'T')
class Exchange:
    """One operation of the client against the server, with every answer the repository may give."""
    def __init__(self, prog, rep, op, answers, fail=None, rounds=8, start=None, heap=None, commands=None):
        self.prog = prog; self.rep = rep; self.op = op; self.answers = answers; self.fail = fail; self.rounds = rounds
        self.start = start; self.cmds = commands_of(prog); self.heap = heap or {}
        self.offered = commands or tuple(n.replace('_','-').encode() for n in self.cmds)
        self.faults = []        # (kind, message, where, trail)
        self.done = []          # (client state, server results)
        self.served = {}
    def client(self, fed, eof):
        rule = ClientSide(self, tuple(flat(cat(fed))))
        it = Interp(self.prog, rule)
        C = mk('obj', CLIENT, 'C'); K = mk('obj', CONN, 'CK'); T = sym('TRANSPORT')
        avail = mk('tuple', tuple(const(x) for x in sorted(self.offered)))
        heap = {(K,'inp'): rule.conn_in, (K,'outp'): rule.conn_out, (C,'conn'): K, (C,'_busy'): NONE, (C,'_available_commands'): avail,
                (C,'_call'): mk('partial', mk('cls','bup.client._TypicalCall'), (C,), ()), (C,'_line_based_call'): mk('partial', mk('cls','bup.client._LineBasedCall'), (C,), ()),
                (C,'_transport'): K, (C,'cachedir'): sym('CACHEDIR'), (C,'closed'): FALSE, (C,'path'): sym('RPATH')}
        heap.update(self.heap)
        q = tuple(flat(cat(fed))) + ((EOF,) if eof else ())
        if self.op in STARTS:
            U = S['URL']
            for k in ('_available_commands','_call','_line_based_call','_transport','cachedir','closed','path','conn','_busy'): heap.pop((C,k), None)
            heap.update({(U,'scheme'): const(b'ssh'), (U,'host'): S['HOST'], (U,'path'): NONE if self.op == 'start_default' else S['RPATH'], (TRANSPORT,'conn'): K, (TRANSPORT,'_proc'): sym('PROC'), (TRANSPORT,'_closed'): FALSE})
            f = self.prog.funcs['sa_harness.start']; args = [TRUE if self.op == 'start_create' else FALSE]
        else:
            f = self.prog.funcs['sa_harness.client']; opf = self.prog.funcs[f'sa_harness.op_{self.op}']
            args = [mk('fn', opf.qual, None)]
        rets, excs = it.run(f, args, mon=(q, (), (), (), ''), heap=heap, env=ENV)
        self.rep.analysed(it)
        return rule, rets, excs
    def server(self, sent):
        sent = tuple(flat(cat(sent)))
        if sent in self.served: return self.served[sent]
        rule = ServerSide(self.answers, self.fail); rule.requests = self.cmds
        it = Interp(self.prog, rule)
        V = mk('obj', SERVER, 'V'); K = mk('obj', CONN, 'SK')
        heap = {(K,'inp'): rule.conn_in, (K,'outp'): rule.conn_out, (V,'conn'): K, (V,'_backend'): mk('cls','sa_harness.ServedRepo'), (V,'repo'): NONE, (V,'suspended'): FALSE,
                (V,'_deduplicate_writes'): TRUE, (V,'_commands'): mk('tuple', tuple(const(x) for x in sorted(self.offered))),
                (V,'_vet_init_dir'): NONE, (V,'_vet_set_dir'): NONE, (V,'_vet_update_ref'): NONE}
        rets, excs = it.run(self.prog.funcs['sa_harness.serve'], [V], mon=(sent, (), (), (), ''), heap=heap, env=ENV)
        self.rep.analysed(it)
        out = []
        for k, (kind, ev, st) in rule.bad.items(): self.faults.append((kind, f'{k[0]} {k[1]}', ev.where, st.trail_list(), k[0]))
        for s, v in rets: out.append(('idle', s))
        for s, x in excs:
            if x[1] == '$protocol': continue
            out.append(('waits' if x[1]=='$blocked' else 'ended', s, x))
        self.served[sent] = out
        return out
    def replies(self, fed, sent):
        """What the server may have replied to all that was sent: [(how it stands, reply, state)]"""
        out = []
        fed = tuple(flat(cat(fed)))
        for r in self.server(sent):
            w = tuple(flat(cat(r[1].mon[1])))
            if prefix(fed, w) is None: continue
            out.append((r[0], w, r))
        return out
    def run(self):
        todo = [((), False, 0)]; seen = set()
        while todo:
            fed, eof, depth = todo.pop()
            if (fed, eof) in seen: continue
            seen.add((fed, eof))
            if depth > self.rounds: raise AnalysisError(f'{self.op}: more than {self.rounds} rounds'); 
            rule, rets, excs = self.client(fed, eof)
            self.rep.count('client_runs')
            for k, (kind, ev, st) in rule.bad.items(): self.faults.append((kind, f'{k[0]} {k[1]}', ev.where, st.trail_list(), k[0]))
            for w in rule.polled: todo.append((w, False, depth+1))
            for (sent, mid), (st, ev) in rule.blocked.items():
                rs = self.replies(fed, sent)
                if not rs and not any(f[0]=='parse' for f in self.faults): self.faults.append(('parse', f'{self.op}: the server does not understand {show(cat(sent))[:100]}', ev.where, st.trail_list(), ev.func.qual))
                for how, w, r in rs:
                    if how == 'ended': todo.append((w, True, depth+1))
                    elif w != fed: todo.append((w, False, depth+1))
                    elif how == 'waits': self.faults.append(('wait', f'{self.op}: client and server wait for each other', ev.where, st.trail_list(), ev.func.qual))
                    else: self.faults.append(('wait', f'{self.op}: the client waits for more of a reply that is complete', ev.where, st.trail_list(), ev.func.qual))
            for s, v in rets: self.finish(fed, eof, s, None)
            for s, x in excs:
                if x[1] in ('$blocked','$protocol'): continue
                self.finish(fed, eof, s, x)
        return self
    def finish(self, fed, eof, s, x):
        rs = [r for how, w, r in self.replies(fed, s.mon[1]) if w == tuple(flat(cat(fed)))]
        self.done.append((fed, eof, s, x, rs))
def strip_end(a, b):
    """a without its end b."""
    a, b = [x for x in a if x is not EOF], [x for x in b if x is not EOF]
    while b:
        x, y = a.pop(), b.pop()
        if x is y: continue
        if x[0]=='c' and y[0]=='c' and x[2].endswith(y[2]): a.append(const(x[2][:-len(y[2])])); continue
        raise AnalysisError('what is left to read is not the end of what was received')
    return tuple(a)
def prefix(a, b):
    """What b has beyond its beginning a, or None."""
    a, b = list(a), list(b)
    while a:
        if not b: return None
        x, y = a.pop(0), b.pop(0)
        if x is y: continue
        if x[0]=='c' and y[0]=='c':
            if y[2].startswith(x[2]): b.insert(0, const(y[2][len(x[2]):])); continue
        return None
    return tuple(b)

# ---- what every operation has to do
def H(n): return S[n]
SEQ = mk('sym','*')
def strip_calls(cs): return [c for c in cs if c[1][0][2] not in ('open','end','finish','exists','abort','close') and not str(c[1][0][2]).startswith('$')]
class Op:
    """client method, calls expected at the server's repository (name and arguments), what the client must obtain from
    what the repository gave"""
    def __init__(self, name, method, calls, got, answers=None, fails=(), extra=None, errors=None):
        self.extra = extra; self.errors = errors or {}
        self.name = name; self.method = method; self.calls = calls; self.got = got; self.answers = dict(ANSWERS, ref=(S['OID1'],)); self.answers.update(answers or {})
        self.fails = fails
def each(gave): return [x for g in gave for x in g[1]]
def same(gave): return list(gave)
def nothing(gave): return []
def cats(gave):
    out = []
    for g in gave:
        out += [NONE, NONE, NONE] if g is MISSING else [g[1][0], g[1][1], g[1][2], cat(g[1][3][1])]
    return out
def first(f): return lambda gave: f(gave)[:1]
def oids(gave): return [y for x in each(gave) for y in flat(x) if isx(y,'hex')]
def commits(gave): return [T(y, S['BODY']) for y in oids(gave)]
def resolved(gave): return [mk('exc','!',(IOERR,))] if gave and gave[0] is IOERR else list(gave)
def refused(gave): return [mk('exc','!',(mk('exc','PermissionError',()),))]
def C(*a): return T(const(a[0]), *a[1:])
SIZEOPT, TREEOPT = const(b'pack.packsizelimit'), const(b'bup.split.trees')
REPOID_OPT = const(b'bup.repo.id')
def opened(path):
    def f(calls, gave, s):
        o = [c for c in calls if c[1][0][2]=='open']
        if not o or any(not eqish(c[1][1], path) for c in o): return f'opens {shown(o)}, not {show(path)}'
    return f
def loaded(calls, gave, s):
    d = [c[1][1] for c in calls if c[1][0][2]=='$dedup']
    want = {x for g in gave for x in g[1]} if d and d[0] is FALSE else set()
    have = {x for c in s.mon[2] if c[1][0][2]=='sync' for x in alts(c[1][1])}
    if have != want: return f'fetches {shown(have)} of {shown(want)}'
def ops():
    s = S
    return [
        Op('list_indexes', 'list_indexes', [C('list_indexes')], each, fails=('list_indexes',)),
        Op('sync_indexes', '_list_indexes', [C('list_indexes')], nothing, answers=dict(dedup=(NONE, TRUE, FALSE)), extra=loaded, fails=('list_indexes',)),
        Op('send_index', 'send_index', [C('send_index', s['IDX'])], same, fails=('send_index','end')),
        Op('read_ref', 'read_ref', [C('read_ref', s['REF'])], same, answers=dict(ref=(S['OID1'], NONE)), fails=('read_ref',)),
        Op('update_ref', 'update_ref', [C('update_ref', s['REF'], s['NEWID'], s['OLDID'])], nothing, fails=('update_ref',)),
        Op('update_new_ref', 'update_ref', [C('update_ref', s['REF'], s['NEWID'], const(b''))], nothing, fails=('update_ref',)),
        Op('update_empty_ref', 'update_ref', [C('update_ref', s['REF'], s['NEWID'], const(b''))], nothing, fails=('update_ref',)),
        Op('join', 'join', [C('join', s['NAME'])], each, fails=('join','end'), errors={'KeyError': 'KeyError'}),
        Op('cat', 'cat_batch', [C('cat', s['NAME']), C('cat', s['NAME2'])], cats, fails=('cat','end')),
        Op('refs', 'refs', [C('refs', T(), const(0), const(0))], each, fails=('refs','end')),
        Op('refs_first', 'refs', [C('refs', T(), const(0), const(0))], first(each), fails=('refs',)),
        Op('list_indexes_first', 'list_indexes', [C('list_indexes')], first(each), fails=('list_indexes',)),
        Op('rev_list_first', 'rev_list', [C('rev_list', T(s['NAME']), NONE)], first(oids), fails=('rev_list',)),
        Op('refs_heads', 'refs', [C('refs', T(s['PAT'], s['PAT2']), const(1), const(0))], each, fails=('refs','end')),
        Op('refs_tags', 'refs', [C('refs', T(s['PAT'], s['PAT2']), const(0), const(1))], each, fails=('refs',)),
        Op('rev_list', 'rev_list', [C('rev_list', T(s['NAME']), NONE)], oids, fails=('rev_list','end')),
        Op('rev_list_many', 'rev_list', [C('rev_list', T(s['NAME'], s['NAME2']), NONE)], oids, fails=('rev_list','end')),
        Op('rev_list_parsed', 'rev_list', [C('rev_list', T(s['NAME'], s['NAME2']), s['FORMAT'])], commits, answers=dict(revs=PARSED), fails=('rev_list','end')),
        Op('resolve', 'resolve', [C('resolve', s['PATH'], NONE, TRUE, TRUE)], resolved, fails=('resolve',)),
        Op('resolve_under', 'resolve', [C('resolve', s['PATH'], s['PARENT'], FALSE, FALSE)], resolved, fails=('resolve',)),
        Op('resolve_follow', 'resolve', [C('resolve', s['PATH'], s['PARENT'], FALSE, TRUE)], resolved, fails=('resolve',)),
        Op('resolve_meta', 'resolve', [C('resolve', s['PATH'], NONE, TRUE, FALSE)], resolved, fails=('resolve',)),
        Op('config', 'config_get', [C('config_get', SIZEOPT, NONE)], same, fails=('config_get',)),
        Op('config_int', 'config_get', [C('config_get', SIZEOPT, const('int'))], same, fails=('config_get',)),
        Op('config_bool', 'config_get', [C('config_get', TREEOPT, const('bool'))], same, fails=('config_get',)),
        Op('config_other', 'config_get', [], refused),
        Op('start_create', '__init__', [C('create', s['RPATH']), C('config_get', REPOID_OPT, NONE)], nothing, answers=dict(config=(NONE, s['REPOID'])), extra=opened(s['RPATH']), fails=('create','open','config_get')),
        Op('start_set', '__init__', [C('config_get', REPOID_OPT, NONE)], nothing, answers=dict(config=(NONE, s['REPOID'])), extra=opened(s['RPATH']), fails=('open','config_get')),
        Op('start_default', '__init__', [C('config_get', REPOID_OPT, NONE)], nothing, answers=dict(config=(NONE, s['REPOID'])), extra=opened(NONE), fails=('open','config_get')),
        Op('write', 'new_packwriter', None, nothing, answers=dict(index=(T(S['IDX1'], S['IDX2']),)), fails=('list_indexes','store','finish')),
        Op('write_nothing', 'new_packwriter', [C('list_indexes')], nothing, answers=dict(index=(T(),))),
    ]
def eqish(a, b):
    """Equal, where flags may be numbers or truth values."""
    if a is b: return True
    if a[0]=='c' and b[0]=='c': return a[2]==b[2] and (isinstance(a[2], (int, bool)) or type(a[2]) is type(b[2]))
    if a[0] in ('tuple','list') and b[0] in ('tuple','list'): return len(a[1])==len(b[1]) and all(eqish(x, y) for x, y in zip(a[1], b[1]))
    if a[0]=='exc' and b[0]=='exc': return a[1]==b[1] and (a[1]!='!' or a[2][0][1].rsplit('.',1)[-1]==b[2][0][1].rsplit('.',1)[-1])
    return False
def where_of(prog, q):
    f = prog.funcs.get(q)
    return f'{f.mod.path}:{f.node.lineno}' if f is not None else q

def strip_answer(gave):
    return list(gave[:-1])      # the last is the answer to the request that follows
class Verdict:
    def __init__(self, ex, op): self.ex = ex; self.op = op; self.bad = []
    def say(self, kind, msg, st=None): 
        if not any(k == kind and m == msg for k, m, _ in self.bad): self.bad.append((kind, msg, st.trail_list() if st is not None else []))
def shown(xs): return '[' + ', '.join(show(x)[:60] for x in xs) + ']'
def ended(x): return [i for i, g in enumerate(x) if isx(g,'busy')]
def judge(ex, op, fail=None):
    """What every completed run of the operation must look like."""
    v = Verdict(ex, op)
    for kind, msg, where, trail, qual in ex.faults:
        v.bad.append((kind, msg, trail))
    complete = 0
    for fed, eof, s, x, rs in ex.done:
        got = list(s.mon[3]); k = ended(got)
        raised = [g[2][0][1] for g in got if g[0]=='exc' and g[1]=='!']
        left = [b for b in s.mon[0] if b is not EOF]
        if not rs: continue                     # not what any reply leads to
        if fail is None:
            if x is not None:
                for r in rs:
                    if r[0]=='ended': v.say('ended', f'{op.name}: the server ends with {show(r[2])[:60]} though nothing went wrong', s)
                v.say('args' if not k else 'step', f'{op.name}: ends with {show(x)[:80]} {"in" if not k else "in the request after"} it though nothing went wrong', s); continue
            complete += 1
            if left: v.say('step', f'{op.name}: {show(cat(left))[:60]} is left unread after it', s)
            if s.facts and False: pass
            busy = got[k[0]][2][0] if k else None
            if busy is None or ex_true(busy): v.say('busy', f'{op.name}: the connection is left marked as in use', s)
            mine = [g for i, g in enumerate(got) if i not in k][:-1] if True else []
            for r in rs:
                how, ss = r[0], r[1]
                gave = strip_answer(ss.mon[3]); calls = strip_calls(ss.mon[2])[:-1]
                if not (ss.mon[2] and eqish(ss.mon[2][-1] if not strip_calls(ss.mon[2]) else strip_calls(ss.mon[2])[-1], C('read_ref', S['AGAIN']))):
                    v.say('step', f'{op.name}: the request after it is not understood as sent', s); continue
                if op.calls is not None and not eqish(mk('tuple', tuple(calls)), mk('tuple', tuple(op.calls))):
                    v.say('args', f'{op.name}: the repository is asked {shown(calls)}, not {shown(op.calls)}', s)
                want = op.got(gave)
                if not eqish(mk('tuple', tuple(mine)), mk('tuple', tuple(want))):
                    v.say('values', f'{op.name}: gives {shown(mine)} where the repository gave {shown(want)}', s)
                if op.extra is not None:
                    msg = op.extra(ss.mon[2], gave, s)
                    if msg: v.say('values', f'{op.name}: {msg}', s)
        else:
            what, name = next(iter(fail.items()))
            for r in rs:
                # did the failure occur in that run of the server?
                calls = [c[1][0][2] for c in r[1].mon[2] if c[1][0][0]=='c']
                if what not in calls: continue
                if what == 'read_ref' and op.name != 'read_ref': continue
                complete += 1
                if not raised and ended(got): v.say('silent', f'{op.name}: completes though {what} failed at the server', s)
                if r[0] == 'idle':
                    k = ended(got)
                    left = [b for b in s.mon[0] if b is not EOF]
                    if x is not None or left: v.say('step', f'{op.name}: out of step after an error reply', s)
                    elif not k or ex_true(got[k[0]][2][0]): v.say('busy', f'{op.name}: the connection is left marked as in use after an error reply', s)
                want = op.errors.get(name)
                if want and raised and raised[0].rsplit('.',1)[-1] != want: v.say('kind', f'{op.name}: {name} at the server arrives as {raised[0]}', s)
    if not complete and not v.bad: v.say('none', f'{op.name}: no completed run found' + (f' with {fail}' if fail else ''))
    return v.bad
def ex_true(t): return not (t is NONE or t is FALSE or t[0]=='c' and not t[2])

def method_where(prog, op):
    f = prog.funcs.get(f'{CLIENT}.{op.method}')
    return f.qual if f is not None else CLIENT
def outcomes(prog, rep, with_failures=True):
    """Every operation followed with every answer, and with a failure at each step of the server."""
    out = []
    for op in ops():
        cases = [None] + ([{w: 'bup.git.GitError'} for w in op.fails] + [{'join': n} for n in op.errors] if with_failures else [])
        for f in cases:
            ex = Exchange(prog, rep, op.name, op.answers, f)
            try: ex.run()
            except AnalysisError as e: raise AnalysisError(f'{op.name}: {e}')
            rep.count('operations_followed' if f is None else 'failures_followed')
            rep.count('completed_exchanges', len(ex.done))
            out.append((op, f, ex, judge(ex, op, f)))
    return out
def report(prog, rep, prop, results, kinds):
    seen = set()
    for op, f, ex, bad in results:
        for kind, msg, trail in bad:
            if kind not in kinds: continue
            q = method_where(prog, op)
            if kind in ('parse','wait'):
                hits = [x for x in ex.faults if x[1] == msg]
                if hits and len(hits[0]) > 4: q = hits[0][4]
            if (q, kind, msg) in seen: continue
            seen.add((q, kind, msg))
            rep.violation(prop, q, f'[{kind}] {msg}' + (f' (when {next(iter(f))} fails at the server)' if f else ''), where_of(prog, q), trail)
def requests_handled(ex):
    """Names of the requests the server handled."""
    return {c[1][1][2] for rs in ex.served.values() for r in rs for c in r[1].mon[2] if c[1][0][2]=='$req'}
def withheld(prog, rep, results):
    """The requests of each operation are withheld by the server: [(op, request)] of those that are sent nevertheless."""
    cmds = commands_of(prog); out = []
    for op, f, ex, bad in results:
        if f is not None: continue
        for q in requests_handled(ex) - {'help','quit'}:
            names = {n for n, fq in cmds.items() if fq == f'{SERVER}.{q}'}
            if not names or q == 'read_ref' and op.name != 'read_ref' or op.name in STARTS and q in ('init_dir','set_dir'): continue
            e2 = Exchange(prog, rep, op.name, op.answers, commands=tuple(n.replace('_','-').encode() for n in cmds if n not in names)).run()
            rep.count('requests_withheld')
            for rs in e2.served.values():
                for r in rs:
                    if r[0] == 'ended': out.append((op, f'sends {q} to a server that does not offer it', r[1].trail_list()))
            if op.name in STARTS:
                for fed, eof, s, x, rs in e2.done:
                    if rs and x is not None: out.append((op, f'fails with a server that does not offer {q}', s.trail_list()))
    return out
