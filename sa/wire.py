"""Client and server followed together over a symbolic connection.  What one side writes is kept as a sequence of
fields (constant bytes, decimal numbers, hexadecimal ids, packed integers, length-prefixed values, raw data) and the
other side is followed reading exactly these fields."""
import re, struct
from .core import *

def X(name, *a): return mk('call', mk('ext', name), tuple(a), (), None)
def isx(t, name): return t[0]=='call' and t[1]==mk('ext', name) and t[4] is None
def cat(atoms):
    out = []
    for a in atoms:
        if a[0]=='c' and isinstance(a[2], str): a = const(a[2].encode())
        if a[0]=='c' and isinstance(a[2], bytes) and out and out[-1][0]=='c': out[-1] = const(out[-1][2] + a[2])
        elif a is not const(b''): out.append(a)
    if not out: return const(b'')
    return out[0] if len(out)==1 else X('cat', *out)
def dec(x): return const(b'%d' % x[2]) if x[0]=='c' and isinstance(x[2], int) else X('dec', x)
def hexed(x):
    if x[0]=='c' and isinstance(x[2], bytes): return const(x[2].hex().encode())
    if isx(x,'unhex'): return x[2][0]
    return X('hex', x)
def unhexed(x):
    if x[0]=='c' and isinstance(x[2], (bytes, str)):
        try: return const(bytes.fromhex(x[2] if isinstance(x[2], str) else x[2].decode()))
        except ValueError: return None
    if isx(x,'hex'): return x[2][0]
    return X('unhex', x)
def istext(t): return t[0]=='c' and isinstance(t[2], (bytes, str)) or any(isx(t, n) for n in ('cat','dec','hex','pk')) \
    or t[0]=='bin' and t[1]=='Mod' and t[2][0]=='c' and isinstance(t[2][2], (bytes, str))
def flat(t):
    """The fields of a byte string."""
    if t[0]=='c' and isinstance(t[2], str): return [const(t[2].encode())] if t[2] else []
    if t[0]=='c' and isinstance(t[2], bytes): return [t] if t[2] else []
    if isx(t,'cat'): return list(t[2])
    if t[0]=='bin' and t[1]=='Mod' and t[2][0]=='c' and isinstance(t[2][2], (bytes, str)):
        fmt = t[2][2] if isinstance(t[2][2], bytes) else t[2][2].encode()
        vals = list(t[3][1]) if t[3][0]=='tuple' else [t[3]]
        out = []
        for b in re.split(rb'(%[sdbi])', fmt):
            if re.fullmatch(rb'%[sdbi]', b):
                if not vals: return [t]
                v = vals.pop(0)
                out += [dec(v)] if b in (b'%d', b'%i') else flat(v)
            elif b: out.append(const(b))
        return flat(cat(out))
    if t[0]=='bin' and t[1]=='Add': return flat(cat(flat(t[2]) + flat(t[3])))
    return [t]
def lin(t):
    """An integer term as (sorted terms with factors, constant)."""
    if t[0]=='c' and isinstance(t[2], int): return {}, t[2]
    if t[0]=='bin' and t[1] in ('Add','Sub'):
        a, k = lin(t[2]); b, m = lin(t[3]); s = 1 if t[1]=='Add' else -1
        a = dict(a)
        for x, n in b.items():
            a[x] = a.get(x, 0) + s*n
            if not a[x]: del a[x]
        return a, k + s*m
    if t[0]=='bin' and t[1]=='Mult':
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if y[0]=='c' and isinstance(y[2], int) and x[0]!='c':
                a, k = lin(x)
                return {z: n*y[2] for z, n in a.items() if n*y[2]}, k*y[2]
    return {t: 1}, 0
def unlin(d, k):
    t = None
    for x in sorted(d, key=repr):
        n = d[x]
        y = x if abs(n)==1 else mk('bin','Mult',x,const(abs(n)))
        if t is None: t = y if n > 0 else mk('bin','Sub',const(0),y)
        else: t = mk('bin','Add' if n > 0 else 'Sub', t, y)
    if t is None: return const(k)
    return t if not k else mk('bin','Add' if k > 0 else 'Sub', t, const(abs(k)))
EOF = X('EOF')
BIN = ('V','v','s','R','E','M','pk')

class WireRule(Rule):
    """mon: (fields to read, fields written, calls of the repository, values given or got, flag)"""
    exact = True
    collect = True
    max_depth = 24
    text = frozenset()          # symbols that stand for text without blanks or newlines
    ids = frozenset()           # symbols that stand for binary object ids
    conn_in, conn_out = sym('IN'), sym('OUT')
    def __init__(self): self.blocked = {}; self.bad = {}
    @staticmethod
    def brief(m): return f'q={show(cat(m[0]))[-60:]} w={show(cat(m[1]))[-60:]} {m[4]}'
    def relevant(self, f):
        while f.outer is not None and f.mod.name == 'bup.helpers': f = f.outer
        return f.mod.name in ('sa_harness','bup.client','bup.protocol') or f.mod.name == 'bup.helpers' and (f.cls is not None and f.cls.name in ('BaseConn','Conn') or f.name in ('linereader','lines_until_sentinel'))
    # ---- terms
    def size(self, a):
        if a[0]=='c': return len(a[2])
        if isx(a,'pk'): return struct.calcsize(a[2][0][2])
        if isx(a,'hex'): return 2*self.size(a[2][0]) if self.size(a[2][0]) is not None else None
        if a in self.ids: return 20
        return None
    def istextatom(self, a): return a[0]=='c' or isx(a,'dec') or isx(a,'hex') or a in self.text
    def norm(self, st, t):
        if t[0]=='jstr': return cat([a for x in t[1] for a in flat(x)]) if all(self.istextatom(a) for x in t[1] for a in flat(x)) else t
        if t[0]=='phi': return phi([self.norm(st, x) for x in t[1]])
        if t[0]=='bin' and t[1]=='Mod' and t[2][0]=='c' and isinstance(t[2][2], bytes): return cat(flat(t))
        if t[0]=='bin' and t[1]=='Add' and (istext(t[2]) or istext(t[3])): return cat(flat(t))
        if t[0]=='bin' and t[1]=='BitAnd':
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if isx(x,'crc') and y is const(0xffffffff): return x
        if t[0]=='bin' and t[1] in ('Add','Sub'): return unlin(*lin(t))
        if t[0]=='sub' and t[2][0]=='slice' and (istext(t[1]) or t[1] in self.text): return self.slice(t)
        return t
    def slice(self, t):
        lo, hi, step = t[2][1:]
        if any(x is not NONE and not (x[0]=='c' and isinstance(x[2], int)) for x in (lo, hi, step)) or step is not NONE: return t
        ats = flat(t[1]); l = 0 if lo is NONE else lo[2]; h = None if hi is NONE else hi[2]
        if l < 0 and h is None:                             # the last bytes
            if ats and ats[-1][0]=='c' and len(ats[-1][2]) >= -l: return const(ats[-1][2][l:])
            return t
        if h is not None and h >= 0:
            out = []; n = h
            for a in ats:
                z = self.size(a)
                if not n: break
                if z is None or a[0]!='c' and z > n: return t
                out.append(const(a[2][:n]) if a[0]=='c' else a); n -= min(n, z)
            ats = out; h = None
        while l > 0 and ats:
            z = self.size(ats[0])
            if z is None or ats[0][0]!='c' and z > l: return t
            if z <= l: ats = ats[1:]; l -= z
            else: ats = [const(ats[0][2][l:])] + ats[1:]; l = 0
        h = -h if h is not None else 0
        while h > 0 and ats:
            z = self.size(ats[-1])
            if z is None or ats[-1][0]!='c' and z > h: return t
            if z <= h: ats = ats[:-1]; h -= z
            else: ats = ats[:-1] + [const(ats[-1][2][:-h])]; h = 0
        return cat(ats)
    def textmethod(self, name, recv, args, kw):
        v = self.textmethod_(name, recv, args, kw)
        if v is not None and v[0]=='c' and isinstance(v[2], bytes) and recv[0]=='c' and isinstance(recv[2], str) and name != 'encode': return const(v[2].decode())
        return v
    def textmethod_(self, name, recv, args, kw):
        """A method of a byte string, or None."""
        ats = flat(recv)
        a = [const(x[2].encode()) if x[0]=='c' and isinstance(x[2], str) else x for x in args]
        if name == 'decode' and all(x[0]=='c' for x in ats):
            try: return const(b''.join(x[2] for x in ats).decode())
            except ValueError: return None
        if name in ('encode','decode'): return cat(ats)
        if name == 'hex' and not args: return hexed(recv)
        if name == 'lower': return cat([const(x[2].lower()) if x[0]=='c' else x for x in ats])
        if name in ('strip','rstrip','lstrip') and not a:
            ats = list(ats)
            while ats and name != 'rstrip' and ats[0][0]=='c':
                b = ats[0][2].lstrip(); ats = ([const(b)] if b else []) + ats[1:]
                if b: break
            while ats and name != 'lstrip' and ats[-1][0]=='c':
                b = ats[-1][2].rstrip(); ats = ats[:-1] + ([const(b)] if b else [])
                if b: break
            return cat(ats)
        if any(x[0]!='c' for x in a): return None
        if name in ('startswith','endswith') and a:
            want = a[0][2] if isinstance(a[0][2], bytes) else a[0][2].encode() if isinstance(a[0][2], str) else None
            if want is None: return None
            if not ats: return TRUE if not want else FALSE
            x = ats[0] if name=='startswith' else ats[-1]
            if x[0]!='c': return FALSE
            if len(x[2]) >= len(want) or len(ats)==1: return TRUE if getattr(x[2], name)(want) else FALSE
            return FALSE if not getattr(want, name)(x[2]) else None
        if name == 'find' and a: return const(-1) if not any(x[0]=='c' and a[0][2] in x[2] for x in ats) else None
        if name == 'replace' and len(a)==2: return cat([const(x[2].replace(a[0][2], a[1][2])) if x[0]=='c' else x for x in ats])
        if name == 'partition' and a:
            for i, x in enumerate(ats):
                if x[0]=='c' and a[0][2] in x[2]:
                    b = x[2].partition(a[0][2])
                    return mk('tuple', (cat(ats[:i] + [const(b[0])]), a[0], cat([const(b[2])] + ats[i+1:])))
            return mk('tuple', (cat(ats), const(b''), const(b'')))
        if name == 'split':
            n = a[1][2] if len(a) > 1 else -1; sep = a[0][2] if a else None
            if sep is None: ats = flat(self.textmethod('strip', recv, [], ())); 
            out = [[]]
            for x in ats:
                if x[0]!='c': out[-1].append(x); continue
                bits = x[2].split(sep, n) if sep is not None else re.split(rb'\s+', x[2])
                if n >= 0: n -= len(bits)-1
                for i, b in enumerate(bits):
                    if i: out.append([])
                    if b: out[-1].append(const(b))
            return mk('tuple', tuple(cat(x) for x in out))
        return None
    # ---- the connection
    def fault(self, st, ev, msg, kind='parse'):
        """The side being followed does not understand what it is sent."""
        k = (ev.func.qual, msg)
        self.bad.setdefault(k, (kind, ev, st))
        s = st.fork(); m = st.mon
        return [(s.with_mon(m[:4] + ('bad',)), ('raise', mk('exc','$protocol',())))]
    def midway(self, ev): return True
    def starve(self, st, ev):
        """Nothing (more) to read."""
        m = st.mon
        key = (m[1], self.midway(ev))
        if key not in self.blocked: self.blocked[key] = (st, ev)
        return [(m[:4] + ('blocked',), ('raise', mk('exc','$blocked',())))]
    def read(self, st, ev, n):
        q = list(st.mon[0]); m = st.mon
        def done(rest, v): return [((tuple(flat(cat(rest))),) + m[1:], v)]
        if n is const(0): return [(m, const(b''))]
        if not q: return self.starve(st, ev)
        if q[0] is EOF: return [(m, const(b''))]
        if n[0]=='c' and isinstance(n[2], int):
            need = n[2]; got = []
            while need:
                if not q: return self.starve(st, ev)
                if q[0] is EOF: break
                z = self.size(q[0])
                if z is None: return self.fault(st, ev, f'reads {n[2]} bytes where {show(q[0])[:60]} is sent')
                if q[0][0]=='c' and z > need: got.append(const(q[0][2][:need])); q[0] = const(q[0][2][need:]); need = 0
                elif z > need: return self.fault(st, ev, f'reads {n[2]} bytes of {show(q[0])[:60]}')
                else: got.append(q.pop(0)); need -= z
            return done(q, cat(got))
        want, k = lin(n)
        got = []
        while want or k:
            if not q: return self.starve(st, ev)
            if q[0] is EOF: break
            a = q[0]; ln = X('len', a)
            if want.get(ln): want[ln] -= 1; want = {x: y for x, y in want.items() if y}; got.append(q.pop(0)); continue
            z = self.size(a)
            if z is not None and k >= z: got.append(q.pop(0)); k -= z; continue
            return self.fault(st, ev, f'reads {show(n)[:60]} bytes where {show(a)[:60]} is sent')
        return done(q, cat(got))
    def readline(self, st, ev):
        q = list(st.mon[0]); m = st.mon; got = []
        if not q: return self.starve(st, ev)
        while True:
            if not q: return self.starve(st, ev)
            a = q[0]
            if a is EOF: break
            if not self.istextatom(a): return self.fault(st, ev, f'reads a line where {show(a)[:60]} is sent')
            if a[0]=='c' and b'\n' in a[2]:
                i = a[2].index(b'\n') + 1
                got.append(const(a[2][:i])); q[0] = const(a[2][i:])
                if not q[0][2]: q.pop(0)
                break
            got.append(q.pop(0))
        return [((tuple(q),) + m[1:], cat(got))]
    def field(self, st, ev, kind, none_at_eof=True):
        q = list(st.mon[0]); m = st.mon
        if not q: return self.starve(st, ev)
        if q[0] is EOF: return [(m, NONE)] if none_at_eof else [(m, ('raise', mk('exc','EOFError',())))]
        if not isx(q[0], kind): return self.fault(st, ev, f'reads a field of kind {kind} where {show(q[0])[:60]} is sent')
        return [((tuple(q[1:]),) + m[1:], q[0][2][0])]
    def write(self, st, ev, data):
        m = st.mon
        if data[0]=='phi': raise AnalysisError(f'{ev.func.qual}: what is written to the connection is not known: {show(data)[:80]}')
        return [((m[0], tuple(flat(cat(list(m[1]) + flat(data))))) + m[2:], NONE)]
    def isport(self, t): return t[0]=='obj' and t[1]=='bup.helpers.Conn'
    def model(self, st, ev):
        n = ev.name; last = n.rsplit('.',1)[-1]; m = st.mon; r = ev.recv
        if m[4] == 'blocked' and (r in (self.conn_in, self.conn_out)): return [(m, ('raise', mk('exc','$blocked',())))]
        if r is self.conn_in:
            if last == 'read': return self.read(st, ev, self.norm(st, ev.args[0]))
            if last == 'readline': return self.readline(st, ev)
        if r is self.conn_out:
            if last == 'write': return self.write(st, ev, ev.args[0])
            return [(m, NONE)]
        if n.startswith('bup.vint.') and ev.args:
            if last in ('write_vuint','write_vint','write_bvec'): return self.write(st, ev, X({'write_vuint':'V','write_vint':'v','write_bvec':'s'}[last], self.norm(st, ev.arg(1,'x',TOP))))
            if last in ('read_vuint','read_vint','read_bvec'): return self.field(st, ev, {'read_vuint':'V','read_vint':'v','read_bvec':'s'}[last])
            if last == 'send' and ev.arg(1,'types',TOP)[0]=='c':
                ty = ev.args[1][2]
                if len(ty) != len(ev.args)-2: return [(m, ('raise', mk('exc','ValueError',())))]
                return self.write(st, ev, cat([X(k, self.norm(st, v)) for k, v in zip(ty, ev.args[2:])]))
            if last == 'recv' and ev.arg(1,'types',TOP)[0]=='c':
                cur = [(st, [])]; out = []
                for k in ev.args[1][2]:
                    nxt = []
                    for s, vs in cur:
                        for mm, v in self.field(s, ev, k, none_at_eof=False):
                            s2 = mm if isinstance(mm, State) else s.with_mon(mm)
                            if isinstance(v, tuple) and v[0]=='raise': out.append((s2, v))
                            else: nxt.append((s2, vs + [v]))
                    cur = nxt
                return out + [(s, mk('tuple', tuple(vs))) for s, vs in cur]
            return None
        if n == 'struct.pack' and ev.args[0][0]=='c':
            a = [self.norm(st, x) for x in ev.args[1:]]
            fmt = ev.args[0][2]
            if all(x[0]=='c' for x in a):
                try: return [(m, const(struct.pack(fmt, *[x[2] for x in a])))]
                except struct.error: return [(m, ('raise', mk('exc','struct.error',())))]
            return [(m, X('pk', const(fmt if isinstance(fmt, str) else fmt.decode()), *a))]
        if n == 'struct.unpack' and ev.args[0][0]=='c':
            fmt = ev.args[0][2]; d = ev.args[1]
            if isinstance(fmt, bytes): fmt = fmt.decode()
            if d[0]=='c':
                try: return [(m, mk('tuple', tuple(const(x) for x in struct.unpack(fmt, d[2]))))]
                except struct.error: return [(m, ('raise', mk('exc','struct.error',())))]
            if isx(d,'pk'):
                if d[2][0][2].replace('>','!') == fmt.replace('>','!'): return [(m, mk('tuple', d[2][1:]))]
                return self.fault(st, ev, f'unpacks {fmt} from {show(d)[:60]}')
            return None
        if last in ('hexlify','b2a_hex'): return [(m, hexed(ev.args[0]))]
        if last in ('unhexlify','a2b_hex','fromhex'):
            v = unhexed(ev.args[0])
            return [(m, v if v is not None else ('raise', mk('exc','ValueError',())))]
        if n == 'len' and ev.args:
            ats = flat(ev.args[0])
            if ev.args[0][0] in ('tuple','list'): return None
            d = {}; k = 0
            for a in ats:
                z = self.size(a)
                if z is not None: k += z
                else: d[X('len', a)] = d.get(X('len', a), 0) + 1
            return [(m, unlin(d, k))]
        if n == 'int' and ev.args:
            x = ev.args[0]
            if isx(x,'cat'): x = self.textmethod('strip', x, [], ())
            if isx(x,'dec'): return [(m, x[2][0])]
            if x[0]=='c':
                try: return [(m, const(int(x[2])))]
                except ValueError: return [(m, ('raise', mk('exc','ValueError',())))]
            return None
        if n in ('bytes','bytearray','memoryview') and len(ev.args)==1 and istext(ev.args[0]): return [(m, ev.args[0])]
        if last == 'join' and r is not None and r[0]=='c' and isinstance(r[2], bytes) and len(ev.args)==1:
            out = []
            parts = ev.interp.exact_seq(st, ev.args[0])
            if parts is None: return None
            for i, x in enumerate(parts):
                if i and r[2]: out.append(r)
                out += flat(x)
            return [(m, cat(out))]
        if r is not None and (istext(r) or r in self.text or last in ('hex','encode','decode')):
            v = self.textmethod(last, r, ev.args, ev.kw)
            if v is not None: return [(m, v)]
        if n == 're.sub' and len(ev.args)==3: return [(m, ev.args[2])]
        if last in ('debug1','debug2','log','progress','qprogress') or n in ('bup.git.shorten_hash','bup.io.path_msg'): return [(m, sym('MSG'))]
        return None
    def call(self, st, ev): return None
    def raises(self, ev, default): return False
    def truth(self, t):
        if t[0]=='c': return bool(t[2])
        if istext(t) or t in self.text or t in self.ids: return True
        return None
    def decide(self, st, t):
        v = self.truth(t) if t[0] in ('call','sym') else None
        if v is not None: return v
        if t[0]=='cmp' and t[1]=='==':
            a, b = t[2], t[3]
            if a[0]=='bin': a = self.norm(st, a)
            if b[0]=='bin': b = self.norm(st, b)
            if a is b: return True
            for x, y in ((a, b), (b, a)):
                if y[0]=='c' and (istext(x) and x[0]!='c' or x in self.text): return False
                if y[0]=='c' and x[0]=='c': return x[2] == y[2]
                if isinstance(y[2] if y[0]=='c' else None, int) and isx(x,'len'): return False
            if istext(a) and istext(b): return None
        if t[0]=='cmp' and t[1]=='in' and t[2][0]=='c' and (istext(t[3]) or t[3] in self.text):
            return any(x[0]=='c' and t[2][2] in x[2] for x in flat(t[3]))
        if t[0]=='cmp' and t[1]=='is' and t[3] is NONE and (istext(t[2]) or t[2] in self.text or t[2] in self.ids): return False
        return None
