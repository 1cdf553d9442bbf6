"""P17: received objects are stored only when intact."""
from ..core import *
from ..absint import Interp
from .. import exch
from ..exch import ServerSide, S, T, X, cat, flat, isx, lin, unlin, SERVER, CONN, ANSWERS, PRESENT, eqish
from ..wire import EOF

# closing the repository keeps what was written and not aborted
HARNESS = exch.HARNESS.replace('    def close(self): pass\n', '    def close(self): self.finish_writing()\n') + '''
def receive(s):
    with s: s.handle()
'''
RECEIVE = 'receive_objects_v2'
CUTSYM = tuple(sym(f'CUT{i}') for i in range(4))        # less than what was announced, then nothing more
BADCRC = sym('BADCRC')
def pk(x): return X('pk', const('!I'), x)
REQUEST, END, SUSPEND = const(b'receive-objects-v2\n'), const(b'\0\0\0\0'), const(b'\xff\xff\xff\xff')
def ln(*d): return {X('len', x): 1 for x in d}
def obj(o, d): return [pk(unlin(ln(d), 24)), o, pk(X('crc', d)), d]
A, B = obj(S['OBJ'], S['DATA']), obj(S['OBJ2'], S['DATA2'])
INTACT = {(S['DATA'], S['OBJ']), (S['DATA2'], S['OBJ2'])}
def streams():
    """(what it is, what is sent, the objects of a complete stream or None, requests completed before it goes wrong)"""
    a, b = (S['DATA'], S['OBJ']), (S['DATA2'], S['OBJ2'])
    yield 'nothing', [REQUEST, END], [], 1
    yield 'an object', [REQUEST] + A + [END], [a], 1
    yield 'two objects', [REQUEST] + A + B + [END], [a, b], 1
    yield 'two objects, suspended in between', [REQUEST] + A + [SUSPEND, REQUEST] + B + [END], [a, b], 2
    yield 'two requests', [REQUEST] + A + [END, REQUEST] + B + [END], [a, b], 2
    for before, what, done in (([REQUEST], 'the first object', 0), ([REQUEST] + A, 'the second object', 0), ([REQUEST] + A + [SUSPEND, REQUEST], 'the object after a pause', 1), ([REQUEST] + A + [END, REQUEST], 'an object of the second request', 1)):
        for after, then in (([], ''), (A + [END], ' and more follows')):
            yield f'{what} has another checksum{then}', before + B[:2] + [pk(BADCRC), B[3]] + after, None, done
        yield f'{what} has the checksum of another', before + B[:2] + [A[2], B[3]] + [END], None, done
        yield f'{what} is announced longer than it is', before + [pk(unlin(ln(S['DATA'], S['DATA2']), 24))] + B[1:], None, done
        yield f'{what} is announced shorter than its id and checksum', before + [const(b'\0\0\0\x0a')] + B[1:], None, done
        for i, part in enumerate(('length', 'id', 'checksum', 'data')):
            yield f'the connection ends before the {part} of {what}', before + B[:i], None, done
            yield f'the connection ends within the {part} of {what}', before + B[:i] + [CUTSYM[i]], None, done
        yield f'the connection ends after {what}', before + B, None, done
class ReceiveRule(ServerSide):
    def size(self, a): return None if a in CUTSYM else super().size(a)
    def decide(self, st, t):
        if t[0]=='cmp' and t[1] in ('==','is'):
            x, y = t[2], t[3]
            for a, b in ((x, y), (y, x)):
                if isx(a, 'crc') and b is BADCRC: return False
                if isx(a, 'crc') and isx(b, 'crc'): return a is b
            # a part is never as long as the whole
            if any(contains(z, lambda q: q in CUTSYM) for z in (x, y)):
                d, k = lin(mk('bin', 'Sub', self.norm(st, x), self.norm(st, y)))
                if d or k: return False
            (d, k), (e, l) = lin(self.norm(st, x)), lin(self.norm(st, y))
            if all(isx(q, 'len') for q in list(d) + list(e)) and (d or e):
                f = {q: d.get(q, 0) - e.get(q, 0) for q in {*d, *e}}; f = {q: n for q, n in f.items() if n}
                if not f: return k == l
                if all(n > 0 for n in f.values()) and k >= l or all(n < 0 for n in f.values()) and k <= l: return False
        if t in CUTSYM: return True
        if t[0]=='cmp' and t[1]=='<' and any(contains(z, lambda q: q in CUTSYM) for z in t[2:4]):
            (d, k), (e, l) = lin(self.norm(st, t[2])), lin(self.norm(st, t[3]))
            cut = lambda d: any(contains(q, lambda r: r in CUTSYM) for q in d)
            if cut(d) and not cut(e): return True
            if cut(e) and not cut(d): return False
        return super().decide(st, t)
    def read(self, st, ev, n):
        q = list(st.mon[0])
        n = self.norm(st, n)
        if n[0]=='c' and isinstance(n[2], int) and n[2] < 0: return [(((EOF,),) + st.mon[1:], cat([x for x in q if x is not EOF]))]     # all there is
        # what precedes the part that was cut off is read as usual
        for i, a in enumerate(q):
            if a not in CUTSYM: continue
            k, d = 0, {}
            for x in q[:i]:
                z = self.size(x)
                if z is None: d[X('len', x)] = d.get(X('len', x), 0) + 1
                else: k += z
            w, m = lin(n)
            over = {x: c - d.get(x, 0) for x, c in w.items() if c != d.get(x, 0)}
            if all(c >= 0 for c in over.values()) and all(x in w for x in d) and (over or m > k):
                return [(((EOF,),) + st.mon[1:], cat(q[:i] + [a]))]
            break
        return super().read(st, ev, n)
    def write(self, st, ev, data):
        out = super().write(st, ev, data)
        if any(x[0]=='c' and b'ok\n' in x[2] for x in flat(data)): out = [(m[:2] + (m[2] + (T(const('$ok')),),) + m[3:], v) for m, v in out]
        return out
    def model(self, st, ev):
        if ev.name == 'struct.unpack' and len(ev.args)==2 and contains(ev.args[1], lambda q: q in CUTSYM): return [(st.mon, ('raise', mk('exc','struct.error',())))]
        if ev.name == 'bup.helpers.chunkyreader' : return None
        return super().model(st, ev)
def check(prog, rep, tier):
    rep.rule('P17', 'the handling of receive-objects is followed, to the end of the session, for streams of objects that are complete or are damaged or cut off at every position: '
             'only objects received in full whose checksum is the announced one are ever in a pack that is kept, a complete stream is stored entirely before success is reported, and a damaged one ends with an error')
    prog.add_harness(HARNESS)
    cmds = exch.commands_of(prog)
    if f'{SERVER}.{RECEIVE}' not in cmds.values(): raise AnalysisError(f'{SERVER}.{RECEIVE} not found')
    f = prog.funcs[cmds[RECEIVE]]
    where = f'{f.mod.path}:{f.node.lineno}'
    seen = set()
    def bad(what, msg, st):
        if (what, msg) in seen: return
        seen.add((what, msg)); rep.violation('P17', f.qual, f'{what}: {msg}', where, st.trail_list())
    for what, sent, want, done in streams():
        for dedup in (TRUE, FALSE):
            answers = dict(ANSWERS, dedup=(dedup,), exists=(NONE, PRESENT))
            rule = ReceiveRule(answers); rule.requests = cmds
            it = Interp(prog, rule)
            V = mk('obj', SERVER, 'V'); K = mk('obj', CONN, 'SK')
            heap = {(K,'inp'): rule.conn_in, (K,'outp'): rule.conn_out, (V,'conn'): K, (V,'_backend'): mk('cls','sa_harness.ServedRepo'), (V,'repo'): NONE, (V,'suspended'): FALSE,
                    (V,'_deduplicate_writes'): NONE, (V,'_commands'): T(*[const(n.replace('_','-').encode()) for n in cmds]), (V,'_vet_init_dir'): NONE, (V,'_vet_set_dir'): NONE, (V,'_vet_update_ref'): NONE}
            rets, excs = it.run(prog.funcs['sa_harness.receive'], [V], mon=(tuple(flat(cat(sent))) + (EOF,), (), (), (), ''), heap=heap, env=exch.ENV)
            rep.analysed(it); rep.count('streams')
            for k, (kind, ev, st) in rule.bad.items(): bad(what, f'{k[1]}', st)
            n = 0
            for st, x in [(s, None) for s, _ in rets] + excs:
                if x is not None and x[1] in ('$protocol',): continue
                if x is not None and x[1]=='$blocked': bad(what, 'waits for more than is sent', st); continue
                n += 1; rep.count('endings')
                calls = st.mon[2]; kept, pend, oks = [], [], 0
                known = 0
                for i, c in enumerate(calls):
                    k = c[1][0][2]
                    if k=='store':
                        if want is not None and (c[1][1], c[1][2]) in pend: bad(what, 'stores an object twice', st)
                        pend.append((c[1][1], c[1][2]))
                    elif k=='abort': pend = []
                    elif k=='finish': kept += pend; pend = []
                    elif k=='$ok':
                        oks += 1
                for d, o in kept:
                    if (d, o) not in INTACT: bad(what, f'keeps {show(d)[:60]} as {show(o)[:40]}', st)
                    if want is None and (d, o) == (S['DATA2'], S['OBJ2']) and not what.startswith('the connection ends after'): bad(what, 'keeps the damaged object', st)
                if want is None:
                    if PRESENT in st.mon[3]: continue       # what the server has already is not looked at
                    if x is None: bad(what, 'the session ends as if nothing was wrong', st)
                    if oks > done: bad(what, 'success is reported', st)
                else:
                    if x is not None: bad(what, f'ends with {show(x)[:60]}', st); continue
                    if oks != done: bad(what, f'{oks} replies to {done} requests', st)
                    if pend: bad(what, 'objects received are not kept', st)
                    # what is there already need not be stored again
                    there = [v for v in st.mon[3] if v is PRESENT]
                    if len(kept) + (len(there) if dedup is TRUE else 0) < len(want): bad(what, f'keeps {len(kept)} of {len(want)} objects', st)
                    if any(y not in want for y in kept): bad(what, 'keeps other objects than were sent', st)
                    # success only once they are kept
                    last = max([i for i, c in enumerate(calls) if c[1][0][2]=='$ok'], default=-1)
                    if any(c[1][0][2]=='finish' for c in calls[last+1:]) and kept: bad(what, 'success is reported before the pack is complete', st)
            if not n and not seen: raise AnalysisError(f'{what}: no ending found')
    # what the client sends for an object
    op = [o for o in exch.ops() if o.name == 'write']
    res = []
    for o in op:
        ex = exch.Exchange(prog, rep, o.name, o.answers); ex.run()
        rep.count('sent_followed'); res.append((o, None, ex, exch.judge(ex, o, None)))
    exch.report(prog, rep, 'P17', res, ('parse','args','step','wait','none'))
    rep.need('streams', 100); rep.need('endings', 100); rep.need('sent_followed', 1)
