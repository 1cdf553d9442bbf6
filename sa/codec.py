"""What is written with the encoders of the remote protocol is what the decoders give back."""
from .wire import *
from .absint import Interp, State

HARNESS = '''
from bup.vfs import Item, Chunky, FakeLink, Root, Tags, RevList, Commit
from bup.vfs import IOError as VfsError
from bup.protocol import read_item, write_item, read_resolution, write_resolution, read_ioerror, write_ioerror
def value(kind, meta):
    if kind == 'Item': return Item(oid=OID, meta=meta)
    if kind == 'Chunky': return Chunky(oid=OID, meta=meta)
    if kind == 'RevList': return RevList(oid=OID, meta=meta)
    if kind == 'Root': return Root(meta=meta)
    if kind == 'Tags': return Tags(meta=meta)
    if kind == 'Commit': return Commit(oid=OID, coid=OID2, meta=meta)
    return FakeLink(target=TARGET, meta=meta)
def w_item(x): write_item(PORT, x)
def r_item(): return read_item(PORT)
def w_resolution(x): write_resolution(PORT, x)
def r_resolution(): return read_resolution(PORT)
def w_ioerror(x): write_ioerror(PORT, x)
def r_ioerror():
    e = read_ioerror(PORT)
    return e
'''
KINDS = ('Item','Chunky','RevList','Root','Tags','Commit','FakeLink')
OID, OID2, TARGET, META, MODE, NAME, NAME2, MSG, ERRNO = (sym(x) for x in ('OID','OID2','TARGET','META','MODE','NAME','NAME2','MSG','ERRNO'))
ITEMS = (sym('ITEM1'), sym('ITEM2'))
PORT = mk('obj', 'sa_harness.Port', 'P')
class CodecRule(WireRule):
    ids = frozenset((OID, OID2)); text = frozenset((NAME, NAME2))
    conn_in = conn_out = PORT
    max_depth = 20
    nested = False       # items are followed
    def relevant(self, f): return f.mod.name in ('sa_harness',) or f.mod.name == 'bup.protocol' and f.cls is None
    def model(self, st, ev):
        n = ev.name; m = st.mon; a = ev.args; last = n.rsplit('.',1)[-1]
        if ev.recv is PORT:
            if last == 'read': return self.read(st, ev, self.norm(st, a[0]))
            if last == 'write': return self.write(st, ev, a[0])
        if n.startswith('bup.metadata.') and last == 'write':
            inc = ev.arg(2, 'include_path', TRUE)
            return self.write(st, ev, X('M', a[0] if a[0] is not PORT else a[1], inc))
        if n.startswith('bup.metadata.') and last == 'read': return self.field(st, ev, 'M', none_at_eof=True)
        if self.nested:
            if n == 'bup.protocol.write_item': return self.write(st, ev, X('I', a[1]))
            if n == 'bup.protocol.read_item': return self.field(st, ev, 'I', none_at_eof=False)
        if n == 'bup.protocol.write_resolution' and self.nested == 'error': return self.write(st, ev, X('R', a[1]))
        if n == 'bup.protocol.read_resolution' and self.nested == 'error': return self.field(st, ev, 'R', none_at_eof=False)
        if n == 'isinstance' and len(a) == 2:
            if a[0] is META: return [(m, TRUE)]
            if a[0] is MODE: return [(m, FALSE)]
            if a[0][0]=='exc': return [(m, TRUE)]
        if n == 'bup.vfs.IOError':
            g = lambda i, k: ev.arg(i, k, NONE)
            return [(m, X('exc', g(0,'errno'), g(1,'message'), g(2,'terminus')))]
        if n == 'isinstance' and a[0] is sym('EX'): return [(m, TRUE)]
        if n == 'ord' and a and a[0][0]=='c' and len(a[0][2])==1: return [(m, const(ord(a[0][2])))]
        if n == 'type' and a and a[0][0]=='nt': return [(m, mk('ntcls', a[0][1], a[0][2]))]
        if n == 'range' and len(a)==1 and a[0][0]=='c' and 0 <= a[0][2] < 9: return [(m, mk('tuple', tuple(const(i) for i in range(a[0][2]))))]
        return super().model(st, ev)
    def decide(self, st, t):
        if t in (META, MODE, ERRNO, MSG, TARGET, *ITEMS): return True
        if t[0]=='cmp' and t[1]=='is' and t[3] is NONE and t[2] in (META, MODE, ERRNO, MSG, TARGET, OID, OID2): return False
        return super().decide(st, t)

ENV = {(('mod','sa_harness'), n): v for n, v in dict(OID=OID, OID2=OID2, TARGET=TARGET, PORT=PORT).items()}
def T(*a): return mk('tuple', tuple(a))
def run(prog, rep, q, args, fed=(), nested=False, heap=None):
    rule = CodecRule(); rule.nested = nested
    it = Interp(prog, rule)
    rets, excs = it.run(prog.funcs[q], args, mon=(fed, (), (), (), ''), env=ENV, heap=heap or {})
    rep.analysed(it)
    return rule, rets, excs
class Codec:
    def __init__(self, prog, rep, prop): self.prog = prog; self.rep = rep; self.prop = prop
    def bad(self, what, where, msg, st=None):
        f = self.prog.funcs[where]
        self.rep.violation(self.prop, where, f'{what}: {msg}', f'{f.mod.path}:{f.node.lineno}', st.trail_list() if st is not None else [])
    def roundtrip(self, what, wq, rq, args, value, writer, reader, nested=False, heap=None):
        self.rep.count('encodings_followed')
        rule, rets, excs = run(self.prog, self.rep, wq, args, nested=nested, heap=heap)
        for s, x in excs: return self.bad(what, writer, f'cannot be encoded: {show(x)[:60]}', s)
        if not rets: return self.bad(what, writer, 'cannot be encoded')
        for s, v in rets:
            fields = tuple(flat(cat(s.mon[1])))
            # followed by something else, to see that exactly this is read
            r2, rets2, excs2 = run(self.prog, self.rep, rq, [], fed=fields + (X('s', sym('REST')),), nested=nested)
            for k, (kind, ev, st) in r2.bad.items(): self.bad(what, reader, f'{k[0].rsplit(".",1)[-1]} {k[1]} (encoded as {show(cat(fields))[:80]})', st)
            if r2.bad: continue
            if r2.blocked: self.bad(what, reader, f'more is read than the encoding {show(cat(fields))[:80]} has'); continue
            for s2, x in excs2: self.bad(what, reader, f'{show(cat(fields))[:80]} cannot be decoded: {show(x)[:60]}', s2)
            for s2, v2 in rets2:
                if tuple(s2.mon[0]) != (X('s', sym('REST')),): self.bad(what, reader, f'{show(cat(s2.mon[0]))[:80]} is not read', s2)
                elif not same(v2, value): self.bad(what, reader, f'{show(value)[:80]} comes back as {show(v2)[:80]}', s2)
                else: self.rep.count('decodings_equal')
def same(a, b):
    if a is b: return True
    if a[0] in ('tuple','list') and b[0] in ('tuple','list'): return len(a[1])==len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    if isx(a,'exc') and isx(b,'exc'): return len(a[2])==len(b[2]) and all(same(x, y) for x, y in zip(a[2], b[2]))
    if a[0]=='nt' and b[0]=='nt': return a[1]==b[1] and a[2]==b[2] and all(same(x, y) for x, y in zip(a[3], b[3]))
    return False
def check(prog, rep, prop):
    c = Codec(prog, rep, prop)
    P = 'bup.protocol.'
    for q in ('read_item','write_item','read_resolution','write_resolution','read_ioerror','write_ioerror'):
        if P + q not in prog.funcs: raise AnalysisError(f'{P}{q} not found')
    for k in KINDS:
        for meta in (META, MODE):
            rule, rets, excs = run(prog, rep, 'sa_harness.value', [const(k), meta])
            if len(rets) != 1 or excs: raise AnalysisError(f'no value of kind {k}')
            v = rets[0][1]
            c.roundtrip(f'{k} with {"metadata" if meta is META else "a mode"}', 'sa_harness.w_item', 'sa_harness.r_item', [v], v, P+'write_item', P+'read_item')
    I1, I2 = ITEMS
    res = [T(), T(T(NAME, I1)), T(T(NAME, I1), T(NAME2, NONE)), T(T(const(b''), I1), T(NAME, I2))]
    for r in res: c.roundtrip(f'path of {len(r[1])}', 'sa_harness.w_resolution', 'sa_harness.r_resolution', [r], r, P+'write_resolution', P+'read_resolution', nested=True)
    EX = sym('EX')
    for errno in (NONE, ERRNO):
        for msg in (NONE, MSG):
            for term in (NONE, T(T(NAME, I1))):
                heap = {(EX,'errno'): errno, (EX,'strerror'): msg, (EX,'terminus'): term}
                c.roundtrip(f'error with number {show(errno)}, message {show(msg)}, path {show(term)[:20]}', 'sa_harness.w_ioerror', 'sa_harness.r_ioerror', [EX], X('exc', errno, msg, term), P+'write_ioerror', P+'read_ioerror', nested='error', heap=heap)
    rep.need('encodings_followed', 20); rep.need('decodings_equal', 1)
