"""P19: what is cut short or not of a known format is not taken for something complete."""
from ..wire import *
from .. import absint
from ..absint import Interp, State
from . import p18
from .p18 import MetaRule, stored, S, PORT, EMPTY, META, V, v, s as bv

HARNESS = p18.HARNESS + '''
from bup import vint
def read_vuint(): return vint.read_vuint(PORT)
def read_vint(): return vint.read_vint(PORT)
def read_bvec(): return vint.read_bvec(PORT)
def skip_bvec(): return vint.skip_bvec(PORT)
def recv(types): return vint.recv(PORT, types)
def unpack(types, data): return vint.unpack(types, data)
def encode_vuint(x): return vint.encode_vuint(x)
def encode_vint(x): return vint.encode_vint(x)
def open_idx(path):
    from bup.git import open_idx
    return open_idx(path)
def open_midx(path):
    from bup.midx import open_midx
    return open_midx(path)
def open_object_idx(path):
    from bup.git import open_object_idx
    return open_object_idx(path)
def open_bloom(path):
    from bup.bloom import BloomReader
    return BloomReader(path)
def open_index(path):
    from bup.index import Reader
    return Reader(path)
'''
CUTTEXT = sym('CUTTEXT')            # part of a text, then nothing more
CUTINT = X('cutint')                # part of a number, then nothing more
OPENED, PATH = sym('OPENED'), sym('PATH')
class CutRule(MetaRule):
    """Streams that end within a field."""
    def field(self, st, ev, kind, none_at_eof=True):
        if st.mon[0] and st.mon[0][0] is CUTINT: return [(((EOF,),) + st.mon[1:], ('raise', mk('exc','EOFError',())))]
        return super().field(st, ev, kind, none_at_eof)
    def cuts(self, a): return a is CUTTEXT or isx(a, 'cat') and CUTTEXT in a[2]
    def read(self, st, ev, n):
        q = list(st.mon[0])
        if CUTTEXT in q and n is not NONE:
            i = q.index(CUTTEXT); d, k = {}, 0
            for a in q[:i]:
                if a[0]=='c': k += len(a[2])
                else: d[X('len', a)] = d.get(X('len', a), 0) + 1
            w, m = lin(self.norm(st, n)); over = {x: c - d.get(x, 0) for x, c in w.items() if c > d.get(x, 0)}
            if all(w.get(x, 0) >= c for x, c in d.items()) and (over or m > k): return [(((EOF,),) + st.mon[1:], cat(q[:i+1]))]
        return super().read(st, ev, n)
    def decide(self, st, t):
        if t is CUTTEXT: return True
        if t[0]=='cmp' and t[1] in ('==','<'):
            a, b = self.norm(st, t[2]), self.norm(st, t[3])
            # a part is shorter than the whole
            ca, cb = contains(a, self.cuts), contains(b, self.cuts)
            if ca != cb and all(isx(x,'len') or x[0] in ('c','bin') for x in (a, b)): return ca if t[1]=='<' else False
        if t[0]=='cmp' and t[1]=='is' and t[3] is NONE and t[2] is CUTTEXT: return False
        return super().decide(st, t)
# ---- numbers, byte by byte
def byte(i, more): return X('byte', const(i), const(more))
class ByteRule(WireRule):
    conn_in = conn_out = PORT
    max_depth = 12
    bounded_loops = True
    def relevant(self, f): return f.mod.name in ('sa_harness','bup.vint')
    def size(self, a): return 1 if isx(a,'byte') else super().size(a)
    def norm(self, st, t):
        if t[0]=='bin':
            op, a, b = t[1:4]
            if a[0]=='c' and b[0]=='c' and isinstance(a[2], int) and isinstance(b[2], int):
                f = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'LShift': lambda x, y: x << y, 'RShift': lambda x, y: x >> y, 'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y}.get(op)
                if f: return const(f(a[2], b[2]))
            if op in ('BitAnd','BitOr','Add') and a[0]=='c': a, b = b, a
            if isx(a,'digits') and b[0]=='c':
                w = a[2][0][2]; ds = a[2][1:]
                if op == 'BitAnd' and b[2] == (1 << w) - 1: return ds[0]
                if op == 'BitAnd' and b[2] < (1 << w) and (b[2] & (b[2] + 1)) == 0: return X('bits', ds[0], b)
                if op == 'RShift' and b[2] == w: return X('digits', const(7), *ds[1:]) if len(ds) > 1 else const(0)
            if op in ('BitOr','Add','LShift') and b is const(0): return a
            if op == 'BitOr' and b[0]=='c': return X('with', a, b)
            if op == 'BitOr' and isx(a,'or') or op == 'BitOr' and isx(b,'or'):
                return X('or', *(list(a[2]) if isx(a,'or') else [a]), *(list(b[2]) if isx(b,'or') else [b]))
            if op in ('BitOr','Add') and (self.isnum(a) and self.isnum(b)): return X('or', *(list(a[2]) if isx(a,'or') else [a]), *(list(b[2]) if isx(b,'or') else [b]))
            return mk('bin', op, a, b)
        return super().norm(st, t)
    def isnum(self, t): return isx(t,'ord') or isx(t,'or') or t[0]=='bin'
    def model(self, st, ev):
        n = ev.name; last = n.rsplit('.',1)[-1]; m = st.mon
        if n.startswith('bup.vint.'): return None
        if n == 'ord' and ev.args:
            if isx(ev.args[0],'byte'): return [(m, X('ord', ev.args[0]))]
            return [(m, ('raise', mk('exc','TypeError',())))]
        if n == 'isinstance': return [(m, TRUE)]
        if last in ('vuint_encode','vint_encode'): return [(m, ('raise', mk('exc','OverflowError',())))]
        if last == 'to_bytes': return [(m, X('out', ev.recv))]
        if n == 'bytes' and len(ev.args)==1:
            q = ev.interp.exact_seq(st, ev.args[0])
            if q is not None: return [(m, cat([X('out', x) for x in q]))]
        return super().model(st, ev)
    def flags(self, t):
        """(byte, constant) of byte & constant."""
        if t[0]=='bin' and t[1]=='BitAnd':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if isx(a,'ord') and b[0]=='c': return a[2][0], b[2]
    negative = False
    def decide(self, st, t):
        if isx(t,'digits') or isx(t,'byte') or isx(t,'out'): return True
        f = self.flags(t)
        if f:
            if f[1] == 0x80: return bool(f[0][2][1][2])
            if f[1] == 0x40: return self.negative
        if isx(t,'ord'): return True
        if t[0]=='cmp':
            a, b = self.norm(st, t[2]), self.norm(st, t[3])
            for x, y in ((a, b), (b, a)):
                if isx(x,'ord') and y is const(0) and t[1]=='==': return False
                if isx(x,'digits') and y is const(0) and t[1]=='==': return False
                if t[1] in ('is','==') and y is NONE and (isx(x,'byte') or isx(x,'ord') or isx(x,'or')): return False
                f = self.flags(x)
                if f and y is const(0) and t[1] in ('==','<'):
                    on = self.decide(st, x)
                    if t[1]=='==': return not on
                    if x is b: return on
            if t[1]=='<' and isx(a,'digits') and b is const(0): return self.negative
            if t[1]=='<' and isx(b,'digits') and a is const(0): return not self.negative
            # the first bit that says that more follows is the highest
            if t[1]=='<' and isx(a,'ord') and b is const(0x80): return not a[2][0][2][1][2]
            if t[1]=='<' and isx(b,'ord') and a is const(0x7f): return bool(b[2][0][2][1][2])
        return super().decide(st, t)
def parts(t):
    """{(byte, mask of its bits, shift)} of a number put together from bytes, or None."""
    if isx(t,'or'):
        out = set()
        for x in t[2]:
            p = parts(x)
            if p is None: return None
            out |= p
        return out
    if t[0]=='bin' and t[1] in ('BitOr','Add'):
        a, b = parts(t[2]), parts(t[3])
        return a | b if a is not None and b is not None and not a & b else None
    sh = 0
    if t[0]=='bin' and t[1]=='LShift' and t[3][0]=='c': sh = t[3][2]; t = t[2]
    elif t[0]=='bin' and t[1]=='Mult':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if b[0]=='c' and isinstance(b[2], int) and b[2] > 0 and b[2] & (b[2]-1) == 0: sh = b[2].bit_length()-1; t = a; break
    mask = 0xff
    if t[0]=='bin' and t[1]=='BitAnd':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if b[0]=='c': mask = b[2]; t = a; break
    if not isx(t,'ord'): return None
    b = t[2][0]
    if not b[2][1][2]: mask &= 0x7f         # the last byte has no high bit
    return {(b, mask, sh)}
def neg(t):
    """(negated?, the rest)"""
    if t[0]=='bin' and t[1]=='Sub' and t[2] is const(0): return True, t[3]
    if t[0]=='bin' and t[1]=='Mult' and const(-1) in (t[2], t[3]): return True, t[3] if t[2] is const(-1) else t[2]
    if t[0]=='un' and t[1]=='USub': return True, t[2]
    if t[0]=='call' and t[1]==mk('ext','USub'): return True, t[2][0]
    return False, t
class FileRule(WireRule):
    conn_in = conn_out = mk('obj','sa_harness.File','F')
    SIG, OTHER = sym('SIG'), sym('OTHERSIG')
    text = frozenset((SIG, OTHER))
    map = None
    exists = True
    ext = b''
    def relevant(self, f): return f.mod.name in ('sa_harness','bup.git','bup.midx','bup.bloom','bup.index') and not (f.cls is not None and f.cls.name in ('PackIdxV1','PackIdxV2','PackMidx')) and f.nstmts < 60
    def norm(self, st, t):
        if t[0]=='sub' and t[1] is sym('MAP') and t[2][0]=='slice' and all(x[0]=='c' for x in t[2][1:]) and t[2][2] is not NONE and t[2][3] is NONE:
            lo = t[2][1][2] or 0; hi = t[2][2][2]
            if 0 <= lo <= hi and (self.map is not None) and (hi <= len(self.map) or len(self.map) < 16): return const(self.map[lo:hi])
        return super().norm(st, t)
    def model(self, st, ev):
        n = ev.name; last = n.rsplit('.',1)[-1]; m = st.mon
        if last == 'open' and n in ('open','builtins.open','io.open'):
            if not self.exists: return [(m, ('raise', mk('exc','FileNotFoundError',())))]
            return [(m, self.conn_in)]
        if n in ('bup.git.PackIdxV1','bup.git.PackIdxV2','bup.midx.PackMidx'): return [(m, X('opened', const(last)))]
        if last in ('mmap_read','mmap_readwrite'): return [(m, sym('MAP'))]
        if ev.recv is PATH and last == 'endswith': return [(m, TRUE if ev.args[0] is const(self.ext) else FALSE)]
        if n == 'ord' and isx(ev.args[0],'pk'): return [(m, ev.args[0][2][1])]
        if last == 'calcsize': return [(m, X('calcsize', *ev.args))]
        if last in ('fstat','fileno'): return [(m, sym(last))]
        if n == 'struct.unpack' and ev.args[1][0]!='c' and not isx(ev.args[1],'pk'): return [(m, mk('tuple', tuple(sym(f'N{i}') for i in range(len([c for c in str(ev.args[0][2]) if c.isalpha()]) if ev.args[0][0]=='c' else 1))))]
        if n in ('sys.exit','exit'): return [(m, ('raise', mk('exc','SystemExit',tuple(ev.args))))]
        if last == 'debug1' or last == 'log': return [(m, NONE)]
        if ev.recv is self.conn_in and last == 'read': return self.read(st, ev, self.norm(st, ev.args[0]))
        if ev.recv is self.conn_in: return [(m, NONE)]
        return super().model(st, ev)
    def decide(self, st, t):
        if t[0]=='cmp' and t[1]=='==' and t[2][0]==t[3][0]=='sym' and all(x[1] in ('SIG','OTHERSIG','SIG7') for x in t[2:4]): return t[2] is t[3]
        if t is sym('MAP') or isx(t,'opened') or t[0]=='attr' and t[2]=='st_size': return True
        return super().decide(st, t)
def check(prog, rep, tier):
    rep.rule('P19', 'the decoders are followed on streams that end before, between and within the fields they read, byte by byte for the numbers, on records whose content is shorter than it must be, and on files of other or later formats: '
             'each has to end with an error (or, for nothing at all, with nothing), and a number that is complete has to be made of exactly the bits of its bytes')
    prog.add_harness(HARNESS)
    absint.MAXTERM = 4000
    seen = set()
    def bad(what, q, msg, st=None):
        if (what, msg) in seen: return
        seen.add((what, msg)); f = prog.funcs[q]
        rep.violation('P19', q, f'{what}: {msg}', f'{f.mod.path}:{f.node.lineno}', st.trail_list() if st is not None else [])
    def run(rule, fn, args, fed=(), heap=None, env=p18.ENV):
        if 'sa_harness.'+fn not in prog.funcs: raise AnalysisError(fn)
        it = Interp(prog, rule)
        rets, excs = it.run(prog.funcs['sa_harness.'+fn], args, mon=(tuple(fed), (), (), (), ''), env=env, heap=dict(heap or {}))
        rep.analysed(it); rep.count('streams')
        return it, rets, excs
    for q in ('bup.vint.read_vuint','bup.vint.read_vint','bup.vint.read_bvec','bup.vint.skip_bvec','bup.vint.recv','bup.vint.unpack','bup.vint.encode_vuint','bup.vint.encode_vint',META+'.read','bup.git.open_idx','bup.midx.open_midx','bup.bloom.BloomReader.__init__','bup.index.Reader.__init__'):
        if q not in prog.funcs: raise AnalysisError(f'{q} not found')
    # numbers
    N = 12
    for fn, first in (('read_vuint', 7), ('read_vint', 6)):
        q = 'bup.vint.' + fn
        for negative in (False, True) if first == 6 else (False,):
            for k in range(N):
                more = [byte(i, True) for i in range(k)]
                for last in (False, True):
                    rule = ByteRule(); rule.negative = negative
                    bs = more + ([byte(k, False)] if last else [])
                    it, rets, excs = run(rule, fn, [], fed=bs + [EOF])
                    what = f'a {"negative " if negative else ""}number of {k + last} bytes' + ('' if last else ' without its end')
                    if rule.bad or rule.blocked: bad(what, q, 'more is read than there is'); continue
                    if not k and not last:
                        for st, x in excs: bad('nothing', q, f'ends with {show(x)[:60]}', st)
                        for st, x in rets:
                            if x is not NONE: bad('nothing', q, f'is read as {show(x)[:60]}', st)
                        continue
                    if not last:
                        for st, x in rets: bad(what, q, f'is read as {show(x)[:60]}', st)
                        if not excs and not rets: raise AnalysisError(f'{what}: no ending found')
                        rep.count('rejected'); continue
                    for st, x in excs: bad(what, q, f'cannot be read: {show(x)[:60]}', st)
                    want = {(b, (0x3f if i == 0 and first == 6 else 0x7f), 0 if i == 0 else first + 7*(i-1)) for i, b in enumerate(bs)}
                    for st, x in rets:
                        ng, y = neg(x); p = parts(y)
                        if tuple(a for a in st.mon[0] if a is not EOF): bad(what, q, 'not all of it is read', st)
                        elif ng != negative: bad(what, q, f'is read with the wrong sign', st)
                        elif p != want: bad(what, q, f'is read as {show(x)[:80]}', st)
                        else: rep.count('numbers')
    # numbers too large for the C code
    for fn, w in (('encode_vuint', 7), ('encode_vint', 6)):
        q = 'bup.vint.' + fn
        for negative in (False, True):
            for k in (2, 3, 10, 11):
                rule = ByteRule(); rule.negative = negative
                ds = [sym(f'D{i}') for i in range(k)]
                x = X('digits', const(w), *ds)
                it, rets, excs = run(rule, fn, [x])
                what = f'a {"negative " if negative else ""}number of {k} digits'
                if w == 7 and negative:
                    for st, y in rets: bad(what, q, f'is encoded as {show(y)[:60]}', st)
                    continue
                for st, y in excs: bad(what, q, f'cannot be encoded: {show(y)[:60]}', st)
                for st, y in rets:
                    got = [enc(a, ds) for a in flat(y)]
                    want = [(d, 0x80*(i < k-1) | (0x40 if negative and w == 6 and i == 0 else 0)) for i, d in enumerate(ds)]
                    if got != want: bad(what, q, f'is encoded as {show(y)[:100]}', st)
                    else: rep.count('numbers')
    # fields
    TX = S['path']
    for fn, args, fields, some in (('read_bvec', [], bv(TX), NONE), ('skip_bvec', [], bv(TX), 'raise'), ('recv', [const('Vvs')], [V(S['uid']), v(S['gid'])] + bv(TX), 'raise'), ('recv', [const('V')], [V(S['uid'])], 'raise'), ('recv', [const('v')], [v(S['uid'])], 'raise'), ('recv', [const('s')], bv(TX), 'raise'), ('recv', [const('ss')], bv(TX)+bv(ACL0), 'raise')):
        q = 'bup.vint.' + fn
        for what, cut in cuts(fields):
            for data in (False, True) if fn == 'recv' else (False,):
                if data: it, rets, excs = run(CutRule(), 'unpack', args + [cat(cut) if cut else const(b'')])
                else: it, rets, excs = run(CutRule(), fn, args, fed=tuple(cut) + (EOF,))
                name = f'{fn} {args[0][2] if args else ""} {what}'
                if not cut and some is NONE and not data:
                    for st, x in rets:
                        if x is not NONE: bad(name, q, f'is read as {show(x)[:60]}', st)
                    for st, x in excs: bad(name, q, f'ends with {show(x)[:60]}', st)
                else:
                    for st, x in rets: bad(name, q if not data else 'bup.vint.unpack', f'is read as {show(x)[:60]}', st)
                    if excs: rep.count('rejected')
    # metadata
    for name, fields, want in stored():
        fields = flat(cat(fields))
        for what, cut in cuts(fields):
            it, rets, excs = run(CutRule(), 'read', [], fed=tuple(cut) + (EOF,))
            if not cut:
                for st, x in rets:
                    if x is not NONE: bad('nothing', META+'.read', f'is read as {show(x)[:60]}', st)
                for st, x in excs: bad('nothing', META+'.read', f'ends with {show(x)[:60]}', st)
            else:
                for st, x in rets: bad(f'{name} {what}', META+'.read', f'is read as {show(x)[:60]}', st)
                if excs: rep.count('rejected')
    for name, tag, inner in records():
        for i in range(len(inner)):
            it, rets, excs = run(CutRule(), 'read', [], fed=tuple(flat(cat([V(tag)] + bv(*inner[:i]) + [V(0)]))) + (EOF,))
            for st, x in rets: bad(f'{name} with only {i} of its {len(inner)} fields', META+'.read', f'is read as {show(x)[:60]}', st)
            if excs: rep.count('rejected')
    # formats
    def file(what, fn, q, ext, header, good, mapped=True, fed=None, exists=True):
        rule = FileRule(); rule.ext = ext; rule.map = header; rule.exists = exists
        env = {**p18.ENV, (('mod','bup.index'),'ENTRY_SIG'): FileRule.SIG, (('mod','bup.index'),'ENTRY_SIG_V7'): sym('SIG7'), (('mod','bup.index'),'ENTLEN'): sym('ENTLEN'), (('mod','bup.index'),'FOOTLEN'): const(8)}
        it, rets, excs = run(rule, fn, [PATH], fed=fed if fed is not None else ((const(header),) if header else ()) + (EOF,), env=env)
        if good:
            for st, x in excs: bad(what, q, f'is not opened: {show(x)[:60]}', st)
            for st, x in rets:
                if x is NONE or x[0]=='phi': bad(what, q, f'is not opened', st)
                elif isx(x,'opened') and x[2][0][2] != good: bad(what, q, f'is opened as {x[2][0][2]}', st)
                else: rep.count('files')
        else:
            for st, x in rets:
                if x is not NONE: bad(what, q, f'is opened', st)
            rep.count('files')
    I = b'\377tOc'
    for fn in ('open_idx','open_object_idx'):
        file('a pack index of version 2', fn, 'bup.git.open_idx', b'.idx', I + b'\0\0\0\2' + b'\0'*64, 'PackIdxV2')
        file('a pack index of version 1', fn, 'bup.git.open_idx', b'.idx', b'\0\0\0\1\0\0\0\2' + b'\0'*64, 'PackIdxV1')
        for n in (0, 1, 3, 4, 255, 256, 2**31): file(f'a pack index of version {n}', fn, 'bup.git.open_idx', b'.idx', I + struct.pack('!I', n) + b'\0'*64, None)
        for h in (b'', b'\0', b'\0\0\0', b'\0\0\0\1', b'\0\0\0\1\0\0\0', I, I + b'\0\0\0', b'\377tOd\0\0\0\2' + b'\0'*64, b'\377\377\377\377\0\0\0\2' + b'\0'*64): file(f'a pack index that begins with {h[:8]!r}', fn, 'bup.git.open_idx', b'.idx', h, None)
        file('a pack index with another name', fn, 'bup.git.open_idx', b'.pack', I + b'\0\0\0\2' + b'\0'*64, None)
    for fn in ('open_midx','open_object_idx'):
        file('a multi-index of version 4', fn, 'bup.midx.open_midx', b'.midx', b'MIDX\0\0\0\4' + b'\0'*64, 'PackMidx')
        for n in (0, 1, 2, 3, 5, 256, 2**31): file(f'a multi-index of version {n}', fn, 'bup.midx.open_midx', b'.midx', b'MIDX' + struct.pack('!I', n) + b'\0'*64, None)
        for h in (b'', b'MID', b'MIDX', b'MIDX\0\0\0', b'MIDY\0\0\0\4' + b'\0'*64): file(f'a multi-index that begins with {h[:8]!r}', fn, 'bup.midx.open_midx', b'.midx', h, None)
    B = 'bup.bloom.BloomReader.__init__'
    file('a bloom filter of version 2', 'open_bloom', B, b'.bloom', b'BLOM\0\0\0\2\0\4\0\5\0\0\0\1' + b'\0'*64, 'x')
    for n in (0, 1, 3, 256, 2**31): file(f'a bloom filter of version {n}', 'open_bloom', B, b'.bloom', b'BLOM' + struct.pack('!I', n) + b'\0\4\0\5\0\0\0\1' + b'\0'*64, None)
    for h in (b'', b'BLO', b'BLOM', b'BLOM\0\0\0', b'BLOM\0\0\0\2\0\4', b'BLOM\0\0\0\2\0\4\0\5\0\0\0', b'BLON\0\0\0\2\0\4\0\5\0\0\0\1' + b'\0'*64): file(f'a bloom filter that begins with {h[:16]!r}', 'open_bloom', B, b'.bloom', h, None)
    R = 'bup.index.Reader.__init__'; SIG, OTHER = FileRule.SIG, FileRule.OTHER
    pk = lambda x: X('pk', const('B'), X('len', x))
    file('an index', 'open_index', R, b'', b'', 'x', fed=(const(b'BUPI\0\0\0\x08'), pk(SIG), SIG, sym('REST'), EOF))
    file('no index', 'open_index', R, b'', b'', 'x', exists=False)
    for what, fed in (('an index with other entries', (const(b'BUPI\0\0\0\x08'), pk(OTHER), OTHER, sym('REST'), EOF)), ('an empty index', (EOF,)), ('an index of only a signature', (const(b'BUPI\0\0\0\x08'), EOF)), ('an index whose description of its entries is cut', (const(b'BUPI\0\0\0\x08'), pk(SIG), EOF)),
                      *((f'an index that begins with {h!r}', (const(h), pk(SIG), SIG, sym('REST'), EOF)) for h in (b'BUPI\0\0\0\x06', b'BUPI\0\0\0\x09', b'BUPJ\0\0\0\x08', b'BUPI\0\0\0\x07'))):
        file(what, 'open_index', R, b'', b'', None, fed=fed)
    rep.need('streams', 300); rep.need('rejected', 100); rep.need('numbers', 30); rep.need('files', 60)
ACL0 = p18.ACL[0]
def enc(a, ds):
    """(digit, flags) of a byte of an encoded number."""
    if not isx(a,'out'): return a
    t = a[2][0]; fl = 0
    while isx(t,'with'): fl |= t[2][1][2]; t = t[2][0]
    return (t, fl)
def cuts(fields):
    """Every way to end too early."""
    yield 'of nothing', []
    for i, a in enumerate(fields):
        if i: yield f'ending after {i} of {len(fields)} fields', list(fields[:i])
        if a[0]=='call' and a[1][1] in ('V','v'):
            if a[2][0][0]!='c' or a[2][0][2] > 127: yield f'ending within the number {show(a)[:30]}', list(fields[:i]) + [CUTINT]
        elif a[0]!='c' or len(a[2]) > 1: yield f'ending within {show(a)[:30]}', list(fields[:i]) + [CUTTEXT]
def records():
    for name, f, want in stored():
        # one record: tag, length, content, the end
        if f and f[0][0]=='call' and f[-1] is V(0) and name.startswith(('a common','an access list','extended','attributes','a path')) and not name.startswith('an access list of version 1'):
            inner = f[2:-1]
            if name == 'a path' or name.startswith(('a common','attributes','extended','an access')): yield name, f[0][2][0][2], inner
