"""P18: metadata is read back as it was written, and compared by all it holds."""
import itertools
from ..wire import *
from .. import absint
from ..absint import Interp, State

HARNESS = '''
from bup.metadata import Metadata
def encode(m, inc): return m.encode(include_path=inc)
def write(m, inc): m.write(PORT, include_path=inc)
def read(): return Metadata.read(PORT)
def equal(a, b): return a.__eq__(b)
def unequal(a, b): return a.__ne__(b)
def hashed(a): return a.__hash__()
'''
META = 'bup.metadata.Metadata'
TEXT = dict(user='USER', group='GROUP', path='PATH', symlink_target='TARGET', hardlink_target='HARDLINK')
NUM = dict(mode='MODE', uid='UID', gid='GID', rdev='RDEV', atime='ATIME', mtime='MTIME', ctime='CTIME', size='SIZE', linux_attr='ATTR')
S = {k: sym(v) for k, v in {**TEXT, **NUM}.items()}
ACL = tuple(sym(f'ACL{i}') for i in range(4)); XA = tuple(sym(f'XATTR{i}') for i in range(4))
UNKNOWN, REST, EMPTYTEXT = sym('UNKNOWN'), sym('REST'), const(b'')
NS = tuple(sym(f'NS{i}') for i in range(3))
FIELDS = ('mode','uid','gid','user','group','rdev','atime','mtime','ctime','path','size','symlink_target','hardlink_target','linux_attr','linux_xattr','posix1e_acl')
COMMON = ('mode','uid','gid','user','group','rdev','atime','mtime','ctime','size')
PORT = mk('obj','sa_harness.Port','P')
def V(x): return X('V', x if isinstance(x, tuple) else const(x))
def v(x): return X('v', x if isinstance(x, tuple) else const(x))
def s(*fields):
    """A byte string with its length before it."""
    ats = flat(cat([a for f in fields for a in flat(f)])); d = {}; k = 0
    for a in ats:
        if a[0]=='c': k += len(a[2])
        else: d[X('len', a)] = d.get(X('len', a), 0) + 1
    return [V(unlin(d, k))] + ats
class MetaRule(WireRule):
    text = frozenset({S[k] for k in TEXT} | set(ACL) | set(XA) | {UNKNOWN, REST})
    numbers = frozenset({S[k] for k in NUM} | set(NS))
    conn_in = conn_out = PORT
    max_depth = 20
    max_items = 40
    comma = None                # the entries of an access list that have a comma
    def relevant(self, f):
        m = f.mod.name
        return m in ('sa_harness','bup.metadata','bup.xstat') or m == 'bup.vint' and f.name not in ('read_vuint','read_vint','encode_vuint','encode_vint')
    def size(self, a): return super().size(a)
    def norm(self, st, t):
        if t[0]=='bin' and t[1] in ('FloorDiv','Mod','Mult') and all(x[0]=='c' and isinstance(x[2], int) for x in t[2:4]) and (t[1]=='Mult' or t[3][2]):
            x, y = t[2][2], t[3][2]
            return const(x // y if t[1]=='FloorDiv' else x % y if t[1]=='Mod' else x * y)
        if t[0]=='bin' and t[1]=='Add':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b[0]=='bin' and b[1]=='Mod' and a[0]=='bin' and a[1]=='Mult':
                    for q, k in ((a[2], a[3]), (a[3], a[2])):
                        if k is b[3] and q[0]=='bin' and q[1]=='FloorDiv' and q[2] is b[2] and q[3] is k: return b[2]
            if any(isx(x, 'V') or isx(x, 'v') for x in flat(t)): return cat(flat(t))
        return super().norm(st, t)
    def truth(self, t):
        if t in self.numbers or isx(t,'V') or isx(t,'v') or t[0]=='bin' and t[1]=='Add' and any(isx(x, 'V') for x in flat(t)): return True
        return super().truth(t)
    def ismem(self, r): return r is not None and r[0]=='obj' and r[1]=='io.BytesIO'
    def at(self, st, ev, port, fn):
        """Something done with a port in memory."""
        if port is PORT: return fn(st)
        m = st.mon; q = st.heap.get((port,'$q'))
        if q is None: raise AnalysisError(f'{ev.func.qual}: unknown port {show(port)[:60]}')
        s1 = st.fork().with_mon((tuple(q[1]) + (EOF,),) + m[1:])
        out = []
        for mm, x in fn(s1):
            s2 = mm if isinstance(mm, State) else s1.with_mon(mm)
            rest = tuple(a for a in s2.mon[0] if a is not EOF)
            s2 = s2.fork(); s2.heap[(port,'$q')] = mk('tuple', rest)
            out.append((s2.with_mon((m[0],) + s2.mon[1:]), x))
        return out
    def pack(self, st, types, args):
        out = []
        for k, x in zip(types, args):
            x = self.norm(st, x)
            if k == 's':
                if x is NONE: return None
                out += s(x)
            elif k in 'Vv':
                if x is NONE: return None
                out.append(X(k, x))
            else: return None
        return cat(out)
    def model(self, st, ev):
        n = ev.name; m = st.mon; a = ev.args; last = n.rsplit('.',1)[-1]; r = ev.recv
        if n in ('io.BytesIO','BytesIO'):
            k = st.heap.get((PORT,'$n'), const(0)); p = mk('obj','io.BytesIO',f'm{k[2]}')
            s2 = st.fork(); s2.heap[(PORT,'$n')] = const(k[2]+1); s2.heap[(p,'$q')] = mk('tuple', tuple(flat(self.norm(st, a[0]))) if a else ())
            return [(s2, p)]
        if self.ismem(r):
            if last == 'read': return self.at(st, ev, r, lambda st: self.read(st, ev, self.norm(st, a[0]) if a else NONE))
            if last in ('getvalue','getbuffer') and (r,'$q') in st.heap: return [(m, cat(st.heap[(r,'$q')][1]))]
            if last == 'write':
                s2 = st.fork(); s2.heap[(r,'$q')] = mk('tuple', tuple(flat(cat(list(st.heap[(r,'$q')][1]) + flat(self.norm(st, a[0]))))))
                return [(s2, NONE)]
            if last in ('seek','close'): return [(m, NONE)]
        if n in ('bup.vint.read_vuint','bup.vint.read_vint'):
            p = ev.arg(0,'port',TOP)
            return self.at(st, ev, p, lambda st: self.field(st, ev, 'V' if last=='read_vuint' else 'v'))
        if n in ('bup.vint.encode_vuint','bup.vint.encode_vint') or last in ('vuint_encode','vint_encode'):
            x = self.norm(st, a[0])
            return [(m, X('V' if 'vuint' in last else 'v', x))] if x is not NONE else [(m, ('raise', mk('exc','TypeError',())))]
        if last == 'limited_vint_pack':
            if a[0][0]!='c' or a[1][0] not in ('tuple','list'): return None
            if len(a[0][2]) != len(a[1][1]): return [(m, ('raise', mk('exc','Exception',())))]
            x = self.pack(st, a[0][2], a[1][1])
            if x is None: return [(m, ('raise', mk('exc','TypeError',())))]
            return [(m, x), (st.fork(), ('raise', mk('exc','OverflowError',())))] if self.overflow else [(m, x)]
        if n.startswith('bup.vint.'): return None
        if n == 'int' and a and a[0] in self.numbers: return [(m, a[0])]
        if n == 'isinstance' and len(a)==2:
            if a[0][0]=='obj' and a[0][1]==META: return [(m, TRUE)]
        if n == 'divmod' and len(a)==2: return [(m, mk('tuple', (mk('bin','FloorDiv',a[0],a[1]), mk('bin','Mod',a[0],a[1]))))]
        if n == 'hash': return [(m, X('hash', a[0]))]
        if n == 'copy.copy' or n == 'copy.deepcopy': return [(m, a[0])] if a[0][0]!='obj' else None
        if last == 'replace' and r is not None and r in ACL and len(a)==2: return [(m, X('replaced', r, *a))]
        if n in ('bup.helpers.note_error','bup.helpers.add_error'): return [((m[:2] + (m[2] + (const('noted'),),) + m[3:]), NONE)]
        if n.startswith('bup.metadata.') and last in ('read','write','encode') : return None
        return super().model(st, ev)
    overflow = False
    def read(self, st, ev, n):
        if n is NONE or n[0]=='c' and isinstance(n[2], int) and n[2] < 0:
            return [(((EOF,),) + st.mon[1:], cat([x for x in st.mon[0] if x is not EOF]))]
        q = st.mon[0]
        if n[0]=='c' and isinstance(n[2], int) and n[2] > 0 and q and q[0][0]=='call' and q[0][2] and q[0][1][1] in ('V','v'):
            return self.fault(st, ev, f'reads {n[2]} bytes where {show(q[0])[:60]} is stored')
        return super().read(st, ev, n)
    def decide(self, st, t):
        if t in self.numbers or t in self.text or t[0]=='bin' and self.truth(t): return True
        if isx(t, 'replaced') or isx(t,'len'): return True
        if t[0]=='cmp' and t[1]=='is':
            def isdefault(x): return x[0]=='call' and x[1]==mk('ext','object') or x[0]=='glob' and x[2]=='_use_empty_metadata'
            if isdefault(t[2]) and isdefault(t[3]): return True
            if isdefault(t[2]) and t[3][0]=='obj' or isdefault(t[3]) and t[2][0]=='obj': return False
        if t[0]=='cmp':
            a, b = self.norm(st, t[2]), self.norm(st, t[3])
            if t[1]=='==':
                if a is b: return True
                at = lambda x: x in self.numbers or x in self.text or isx(x,'len') or isx(x,'replaced') or x[0]=='c' or isx(x,'other')
                if at(a) and at(b): return False
                if a[0]=='tuple' and b[0]=='tuple':
                    if len(a[1]) != len(b[1]): return False
                    vs = [self.decide(st, mk('cmp','==',x,y)) for x, y in zip(a[1], b[1])]
                    return False if False in vs else None if None in vs else True
                if a[0] in ('tuple','list') and b[0]=='c' or b[0] in ('tuple','list') and a[0]=='c': return False
            if t[1]=='<' and (a in self.numbers or isx(a,'len')) and b is const(0): return False      # what is stored is not negative
            if t[1]=='<' and (b in self.numbers or isx(b,'len')) and a is const(0): return True
            if t[1]=='<' and a in self.numbers and b[0]=='c' and isinstance(b[2], int) and b[2] < 0: return False
            if t[1]=='<' and b in self.numbers and a[0]=='c' and isinstance(a[2], int) and a[2] < 0: return True
            if t[1]=='is' and (b is NONE and (a in self.numbers or a in self.text or isx(a,'replaced') or isx(a,'len') or isx(a,'V') or isx(a,'v') or a[0] in ('tuple','list','obj'))): return False
            if t[1]=='in' and a is const(b',') and b in ACL: return bool(self.comma and b in self.comma)
        return super().decide(st, t)
EMPTY = mk('obj', META, 'EMPTY')
ENV = {(('mod','sa_harness'),'PORT'): PORT, (('mod','bup.metadata'),'empty_metadata'): EMPTY}
def T(*a): return mk('tuple', tuple(a))
class Codec:
    def __init__(self, prog, rep): self.prog = prog; self.rep = rep; self.seen = set()
    def bad(self, what, where, msg, st=None):
        f = self.prog.funcs[where]
        if (what, msg) in self.seen: return
        self.seen.add((what, msg))
        self.rep.violation('P18', where, f'{what}: {msg}', f'{f.mod.path}:{f.node.lineno}', st.trail_list() if st is not None else [])
    def run(self, q, args, fed=(), heap=None, comma=None, overflow=False):
        rule = MetaRule(); rule.comma = comma; rule.overflow = overflow
        it = Interp(self.prog, rule)
        rets, excs = it.run(self.prog.funcs['sa_harness.'+q], args, mon=(tuple(fed), (), (), (), ''), env=ENV, heap=dict(heap or {}))
        self.rep.analysed(it)
        return it, rule, rets, excs
    def read(self, what, fields, want, comma=None, notes=0):
        """These fields, followed by something else, are read as this value (a dictionary of attributes; None: nothing is there; 'empty')."""
        tail_ = (X('V', REST),)
        it, rule, rets, excs = self.run('read', [], fed=tuple(flat(cat(fields))) + tail_, comma=comma)
        R = META + '.read'
        for k, (kind, ev, st) in rule.bad.items(): self.bad(what, k[0] if k[0] in self.prog.funcs else R, f'{k[1]} (stored as {show(cat(fields))[:100]})', st)
        if rule.bad: return
        if rule.blocked: self.bad(what, R, f'more is read than is stored'); return
        for st, x in excs: self.bad(what, R, f'{show(cat(fields))[:100]} cannot be read: {show(x)[:60]}', st)
        if not rets and not excs: self.bad(what, R, 'cannot be read')
        for st, val in rets:
            if tuple(st.mon[0]) != tail_: self.bad(what, R, f'{show(cat(st.mon[0]))[:80]} is left or too much is read', st); continue
            if want == 'empty':
                if val is not self.empty: self.bad(what, R, f'the empty record is read as {show(val)[:60]}', st)
                else: self.rep.count('values_equal')
                continue
            if val[0]!='obj' or val[1]!=META or val is self.empty: self.bad(what, R, f'is read as {show(val)[:60]}', st); continue
            ok = True
            for f in FIELDS:
                got = st.heap.get((val, f)); got = NONE if got is None else it.rule.norm(st, got)
                w = want.get(f, NONE)
                if not self.same(it, st, got, w): ok = False; self.bad(what, R, f'{f} {show(w)[:60]} comes back as {show(got)[:60]}', st)
            n = sum(1 for c in st.mon[2] if c is const('noted'))
            if n != notes: self.bad(what, R, f'{n} errors are reported', st); ok = False
            if ok: self.rep.count('values_equal')
    def items(self, it, st, t):
        if t[0]=='tuple': return [t[1]]
        ex = it.ex_get(st, t)
        return ex if ex is not None else [t[1]] if t[0]=='list' else None
    def same(self, it, st, a, b):
        """a is what was read, b what was written: a tuple stands for any sequence of these."""
        if a is b: return True
        if b[0]=='tuple':
            xs = self.items(it, st, a)
            return xs is not None and all(len(x)==len(b[1]) and all(self.same(it, st, p, q) for p, q in zip(x, b[1])) for x in xs) and len(xs) > 0
        return False
def objects(tier):
    """(name, attributes) for every combination of the records that may be there."""
    common = {k: S[k] for k in COMMON}
    ZERO = {**{k: const(0) for k in COMMON}, 'mode': S['mode'], 'user': EMPTYTEXT, 'group': EMPTYTEXT}
    opt = [('path', [{}, {'path': S['path']}]),
           ('common', [{}, common, {**common, 'size': NONE}, {**common, 'user': EMPTYTEXT, 'group': EMPTYTEXT}, ZERO, {**common, 'atime': const(-1), 'mtime': const(-10**9), 'ctime': const(-10**9-1)}]),
           ('symlink', [{}, {'symlink_target': S['symlink_target'], 'size': X('len', S['symlink_target'])}]),
           ('hardlink', [{}, {'hardlink_target': S['hardlink_target']}]),
           ('acl', [{}, {'posix1e_acl': T(*ACL[:2])}, {'posix1e_acl': T(*ACL)}]),
           ('attr', [{}, {'linux_attr': S['linux_attr']}]),
           ('xattr', [{}, {'linux_xattr': T()}, {'linux_xattr': T(T(*XA[:2]))}, {'linux_xattr': T(T(*XA[:2]), T(*XA[2:]))}])]
    for pick in itertools.product(*[range(len(o[1])) for o in opt]):
        # the plain cases in full, the rest of the combinations pairwise
        if sum(1 for p in pick if p) > (3 if tier == 'thorough' else 2) and not all(pick): continue
        d = {}
        for (n, o), p in zip(opt, pick): d.update(o[p])
        if 'mode' not in d and 'size' in d and 'symlink_target' not in d: continue
        yield ' '.join(f'{n}{p if p > 1 else ""}' for (n, o), p in zip(opt, pick) if p) or 'nothing', d
def heap_of(o, d):
    h = {(o, f): NONE for f in FIELDS}; h[(o,'_frozen')] = TRUE
    for k, x in d.items(): h[(o, k)] = x
    return h
# the records as they have been written by every version
TIMES = lambda k: [X(k, x) for i, t in enumerate(('atime','mtime','ctime')) for x in (S[t], NS[i])]
def ntime(t, i): return mk('bin','Add', mk('bin','Mult', S[t], const(10**9)), NS[i])
OLDTIMES = {t: ntime(t, i) for i, t in enumerate(('atime','mtime','ctime'))}
def times(secs): return [y for i, t in enumerate(('atime','mtime','ctime')) for y in (X(secs, S[t]), V(NS[i]))]
def stored():
    c = {k: S[k] for k in COMMON if k != 'size'}; c.update(OLDTIMES)
    com = lambda k: [X(k, S['mode']), X(k, S['uid'])] + s(S['user']) + [X(k, S['gid'])] + s(S['group'])
    v1 = com('V') + [V(S['rdev'])] + times('v'); v2 = com('v') + [v(S['rdev'])] + times('v')
    rec = lambda tag, *f: [V(tag)] + s(*f)
    END = [V(0)]
    yield 'the empty record', END, 'empty'
    yield 'a common record of version 1', rec(2, *v1) + END, c
    yield 'a common record of version 2', rec(9, *v2) + END, c
    yield 'a common record of version 3', rec(10, *v2, v(S['size'])) + END, {**c, 'size': S['size']}
    yield 'a common record of version 3 with size 0', rec(10, *v2, v(0)) + END, {**c, 'size': const(0)}
    yield 'a common record of version 3 without a size', rec(10, *v2, v(-1)) + END, c
    yield 'a path', rec(1, *s(S['path'])) + END, {'path': S['path']}
    yield 'a symlink', rec(3, S['symlink_target']) + END, {'symlink_target': S['symlink_target'], 'size': X('len', S['symlink_target'])}
    yield 'a symlink with a size', rec(10, *v2, v(X('len', S['symlink_target']))) + rec(3, S['symlink_target']) + END, {**c, 'symlink_target': S['symlink_target'], 'size': X('len', S['symlink_target'])}
    yield 'a hard link', rec(8, S['hardlink_target']) + END, {'hardlink_target': S['hardlink_target']}
    acl = lambda *x: [y for e in x for y in s(e)]
    NL = lambda x: X('replaced', x, const(b'\n'), const(b','))
    yield 'an access list', rec(11, *acl(ACL[0], ACL[1], EMPTYTEXT, EMPTYTEXT)) + END, {'posix1e_acl': T(*ACL[:2])}
    yield 'an access list of a directory', rec(11, *acl(*ACL)) + END, {'posix1e_acl': T(*ACL)}
    yield 'an access list of version 1', rec(4, *acl(ACL[0], ACL[1], EMPTYTEXT, EMPTYTEXT)) + END, {'posix1e_acl': T(*map(NL, ACL[:2]))}
    yield 'an access list of version 1 of a directory', rec(4, *acl(*ACL)) + END, {'posix1e_acl': T(*map(NL, ACL))}
    yield 'attributes', rec(6, V(S['linux_attr'])) + END, {'linux_attr': S['linux_attr']}
    yield 'extended attributes', rec(7, V(2), *acl(*XA)) + END, {'linux_xattr': T(T(*XA[:2]), T(*XA[2:]))}
    for tag in (5, 12, 13, 99, 1000000):
        yield f'a record {tag} that is not known', rec(tag, UNKNOWN) + END, {}
        yield f'an empty record {tag} that is not known', rec(tag) + END, {}
        yield f'a record {tag} that is not known among others', rec(1, *s(S['path'])) + rec(tag, UNKNOWN) + rec(10, *v2, v(S['size'])) + rec(tag, UNKNOWN) + rec(6, V(S['linux_attr'])) + END, {**c, 'path': S['path'], 'size': S['size'], 'linux_attr': S['linux_attr']}
    full = [rec(1, *s(S['path'])), rec(10, *v2, v(X('len', S['symlink_target']))), rec(3, S['symlink_target']), rec(8, S['hardlink_target']), rec(11, *acl(*ACL)), rec(6, V(S['linux_attr'])), rec(7, V(1), *acl(*XA[:2]))]
    fullv = {**c, 'path': S['path'], 'size': X('len', S['symlink_target']), 'symlink_target': S['symlink_target'], 'hardlink_target': S['hardlink_target'], 'posix1e_acl': T(*ACL), 'linux_attr': S['linux_attr'], 'linux_xattr': T(T(*XA[:2]))}
    yield 'all records', sum(full, []) + END, fullv
    yield 'all records in reverse', sum(full[::-1], []) + END, fullv
def check(prog, rep, tier):
    rep.rule('P18', 'Metadata.encode and write are followed for every combination of records that may be there, and what they produce is fed, field by field, to Metadata.read, which has to give back the same attributes and read no more and no less; '
             'records of every version, and unknown ones, are laid out by their documented tags and have to be read as they were meant; equality is followed for objects that differ in one attribute')
    if META not in prog.classes: raise AnalysisError(f'{META} not found')
    prog.add_harness(HARNESS)
    absint.MAXTERM = 4000       # a record is one long sum of fields
    c = Codec(prog, rep)
    c.empty = EMPTY
    o = mk('obj', META, 'M'); o2 = mk('obj', META, 'N')
    E = META + '.encode'
    for name, d in objects(tier):
        for how in ('encode','write'):
            for inc in (TRUE, FALSE):
                if how == 'write' and len(name.split()) > 1 and len(d) < 16: continue
                rep.count('encodings')
                it, rule, rets, excs = c.run(how, [o, inc], heap=heap_of(o, d), overflow=len(name.split()) == 1)
                for st, x in excs: c.bad(name, E, f'cannot be encoded: {show(x)[:60]}', st)
                if not rets: c.bad(name, E, 'cannot be encoded')
                got = set()
                for st, val in rets:
                    f = tuple(flat(val)) if how == 'encode' else tuple(st.mon[1])
                    if f in got: continue
                    got.add(f)
                    want = {k: x for k, x in d.items() if x is not NONE}
                    if inc is FALSE: want.pop('path', None)
                    if want.get('linux_xattr') is T(): want.pop('linux_xattr')
                    if 'mode' not in d and 'symlink_target' not in d: want.pop('size', None)
                    c.read(name + (' written without its path' if inc is FALSE else ''), f, want if want else 'empty')
    for name, f, want in stored():
        rep.count('layouts'); c.read(name, f, want)
    acl = [y for e in ACL for y in s(e)]
    for bad_ in ((ACL[0],), (ACL[1],), (ACL[2],)):
        rep.count('layouts'); c.read(f'an access list of version 1 with a comma in one of its entries', [V(4)] + s(*acl) + [V(0)], {}, comma=bad_, notes=1)
    # comparing
    full = {**{k: S[k] for k in FIELDS if k in S}, 'posix1e_acl': T(*ACL), 'linux_xattr': T(T(*XA[:2]))}
    def compare(what, a, b, want, hashes=False):
        rep.count('comparisons')
        for q, w in (('equal', want), ('unequal', not want)):
            it, rule, rets, excs = c.run(q, [o, o2], heap={**heap_of(o, a), **heap_of(o2, b)})
            for st, x in excs: c.bad(what, META+'.__eq__', f'cannot be compared: {show(x)[:60]}', st)
            for st, v_ in rets:
                if v_ is not (TRUE if w else FALSE): c.bad(what, META+('.__eq__' if q=='equal' else '.__ne__'), f'compare as {"equal" if q=="equal" and v_ is TRUE or q!="equal" and v_ is FALSE else "different" if v_[0]=="c" else show(v_)[:60]}', st)
        if hashes:
            hs = set()
            for x, d in ((o, a), (o2, b)):
                it, rule, rets, excs = c.run('hashed', [x], heap=heap_of(x, d))
                hs |= {v_ for st, v_ in rets}
            if len(hs) != 1: c.bad(what, META+'.__hash__', 'are equal and have different hashes')
    compare('two of the same', full, full, True, True)
    compare('two of nothing', {}, {}, True, True)
    compare('no extended attributes and none known', full | {'linux_xattr': T()}, full | {'linux_xattr': NONE}, True, True)
    for k in FIELDS:
        other = T(*XA[:2]) if k in ('posix1e_acl',) else T(T(*XA[2:])) if k == 'linux_xattr' else X('other', S.get(k, sym(k)))
        compare(f'two that differ in {k}', full, full | {k: other}, False)
        compare(f'two of which one has no {k}', full, full | {k: NONE}, False)
    rep.need('encodings', 100); rep.need('values_equal', 100); rep.need('layouts', 20); rep.need('comparisons', 20)
