"""P13: a server executes the requests it offers, for the repository asked for, after what restricts it has agreed."""
import ast
from ..core import *
from ..absint import Interp
from .. import exch
from ..exch import ServerSide, S, T, X, cat, flat, isx, SERVER, CONN, ANSWERS
from ..wire import EOF, hexed

REPO = 'bup.repo.local.LocalRepo'
ON = sym('SSH')
BASE = {'help','quit','init-dir','set-dir','list-indexes','send-index'}
OFFERED = {'server': None, 'get': None, 'restore': {'cat-batch','config-get','resolve'} | BASE,
           'save': {'config-get','read-ref','receive-objects-v2','update-ref'} | BASE, 'split': {'config-get','read-ref','receive-objects-v2','update-ref'} | BASE}
NOSERVER = ('features','help','index','version')
REFUSED = ('init','daemon','gc','rm','prune-older','meta','fuse','web','join','ls','cat-file','-')
KEYS = {b'bup.repo.id', b'bup.split.trees', b'bup.split.files', b'pack.packsizelimit', b'core.compression', b'pack.compression'}
OTHERKEYS = (b'user.name', b'bup.server.deduplicate-writes', b'bup.repo', b'bup.repo.idx', b'', b'core.sshcommand', b'http.proxy')
REQ = sym('REQ'); DIR1, DIR2 = sym('DIR1'), sym('DIR2'); NEW, OLD = sym('NEWID'), sym('OLDID')
BRANCH, OTHERNAME = sym('BRANCH'), sym('OTHERNAME')
HERE = sym('HERE')       # the configured repository
NL = const(b'\n')
class SessionRule(ServerSide):
    max_items = 64
    text = ServerSide.text | {REQ, DIR1, DIR2, BRANCH, OTHERNAME}
    def __init__(self, cmds, argv, same=(), cats=(), parent=None, stop=True):
        super().__init__(ANSWERS); self.cmds = cmds; self.requests = cmds; self.argv = argv; self.same = same; self.cats = dict(cats); self.parent = parent; self.stop = stop
    def relevant(self, f):
        while f.outer is not None: f = f.outer
        if f.mod.name in ('bup.cmd.on','bup.cmd.server'): return True
        if f.mod.name.startswith('bup.') and f.name in ('opts_from_cmdline','connect','check_repo_or_die','repo','establish_default_repo','parse_commit','stopped','byte_stream','exe','guess_repo'): return False
        if f.cls is not None and f.mod.name.startswith('bup.repo.'): return False
        return super().relevant(f)
    def rec(self, st, *a): return st.mon[:2] + (st.mon[2] + (mk('tuple', (const('$' + a[0]),) + a[1:]),),) + st.mon[3:]
    def sameas(self, a, b):
        a, b = (x[2][0] if is_call(x, 'os.path.realpath','os.path.abspath','os.stat') and x[2] else x for x in (a, b))
        if a is HERE: a, b = b, a
        if b is HERE and a in (DIR1, DIR2): return a in self.same
        return None
    def model(self, st, ev):
        n = ev.name; m = st.mon; a = ev.args; last = n.rsplit('.',1)[-1]
        if self.stop and ev.func.cls is not None and n in self.cmds.values(): return [(self.rec(st, 'req', const(last)), ('raise', mk('exc','$entered',())))]
        if n == 'dir' and a and a[0][0]=='obj':
            names = set()
            for q in ev.interp.p.mro(a[0][1]):
                c = ev.interp.p.classes[q]; names |= set(c.methods) | set(c.consts)
            return [(m, T(*[const(x) for x in sorted(names)]))]
        if last == 'parse_bytes': return [(m, T(sym('OPT0'), sym('FLAGS'), T(*self.argv)))]
        if last == 'opts_from_cmdline':
            s = st.fork(); s.heap[(sym('OPT'),'name')] = BRANCH
            return [(s, T(sym('OPT'), sym('FLAGS'), sym('EXTRA')))]
        if last == 'fatal': return [(m, ('raise', mk('exc','SystemExit',())))]
        if n == 'bup.compat.argv_bytes': return [(m, a[0])]
        if n == 'bup.ssh.connect':
            s = st.fork(); s.heap[(ON,'stdout')] = self.conn_in; s.heap[(ON,'stdin')] = self.conn_out; s.mon = self.rec(st, 'start')
            return [(s, ON)]
        if n == 'bup.io.byte_stream': return [(m, self.conn_out if 'stdout' in show(a[0]) else self.conn_in)]
        if n == 'bup.git.repo': return [(m, HERE)] if not a else None
        if n in ('bup.git.check_repo_or_die','bup.git.establish_default_repo'): return [(self.rec(st, 'check', *a), NONE)]
        if n == 'os.path.samefile' and len(a)==2:
            v = self.sameas(a[0], a[1])
            return [(m, TRUE), (m, FALSE)] if v is None else [(m, TRUE if v else FALSE)]
        if n in ('os.path.realpath','os.path.abspath'): return [(m, X(n, a[0]))] if a else None
        if last == 'join' and a and ev.recv is not None and ev.recv[0]=='c': return [(m, X('joined', *a))]
        if n.startswith(REPO + '.') or ev.recv is not None and ev.recv[0]=='obj' and REPO in ev.interp.p.mro(ev.recv[1]) and ev.recv[1] in ev.interp.p.classes and not n.startswith('bup.cmd.'):
            obj = ev.recv if ev.recv is not None and ev.recv[0] in ('obj','cls') else (a[0] if a and a[0][0] in ('obj','cls') else None)
            args = a[1:] if a and a[0] is obj else a
            kw = tuple(v for k, v in ev.kw)
            if last == '__init__':
                s = st.fork(); s.heap[(obj,'$dir')] = args[0] if args else next((v for k, v in ev.kw if k=='repo_dir'), NONE); s.mon = self.rec(st, 'open', s.heap[(obj,'$dir')])
                s.heap[(obj,'repo_dir')] = sym('RDIR')
                return [(s, NONE)]
            if last == 'create': return [(self.rec(st, 'create', *args, *kw), NONE)]
            where = st.heap.get((obj,'$dir'), TOP)
            if last == 'config_get' and args and args[0] is const(b'bup.server.deduplicate-writes'): return [(m, TRUE)]
            m2 = self.rec(st, last, where, *args, *kw)
            if last == 'cat':
                x = flat(args[0]); v = self.cats.get(args[0])
                if v is None: return [(m2, T(sym('OIDX'), sym('KIND'), sym('SIZE'), T(X('part', args[0]))))]
                return [(m2, T(NONE, NONE, NONE, NONE) if v is NONE else T(sym('OIDX'), v, sym('SIZE'), T(X('part', args[0]))))]
            if last == 'list_indexes': return [(m2, T(S['IDX1']))]
            if last in ('join','refs','rev_list','rev_list_raw'): return [(m2, T())]
            if last == 'read_ref': return [(m2, NONE)]
            if last == 'config_get': return [(m2, NONE)]
            return [(m2, NONE)]
        if n.startswith(('bup.helpers.stopped','subprocess.')): return [(m, sym('CHILD'))]
        return super().model(st, ev)
    def decide(self, st, t):
        if t[0]=='cmp' and t[1] in ('==','is'):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                v = self.sameas(a, b)
                if v is not None: return v
                if b[0]=='c' and (a in (REQ, DIR1, DIR2) or a in (sym('KIND'),)): return False
            x, y = flat(t[2]), flat(t[3])
            if x and y and all(self.istextatom(z) for z in x + y) and (len(x) > 1 or len(y) > 1) :
                return x == y
        if t[0]=='cmp' and t[1]=='in':
            if t[2] is X('hex', OLD) and contains(t[3], lambda q: q is X('part', hexed(NEW))): return self.parent
            if t[2] is REQ and not contains(t[3], lambda q: q is REQ): return False
        if t in (ON, sym('CHILD'), sym('OPT'), HERE) or t[0]=='tuple' and t[1]: return True
        if isx(t,'joined') or isx(t,'part'): return True
        if t is BRANCH or t in (DIR1, DIR2): return True
        return super().decide(st, t)
    def call(self, st, ev):
        if ev.func.cls is not None and ev.name in self.cmds.values(): return [self.rec(st, 'req', const(ev.name.rsplit('.',1)[-1]))]

class Sessions:
    def __init__(self, prog, rep):
        self.prog = prog; self.rep = rep; self.cmds = exch.commands_of(prog); self.seen = set()
    def main(self, mode): return self.prog.funcs['bup.cmd.server.main' if mode=='server' else 'bup.cmd.on.main']
    def run(self, mode, words, empty=False, **kw):
        """[(calls, exception or None, state)] of every way the session can go."""
        f = self.main(mode)
        rule = SessionRule(self.cmds, () if mode=='server' else (sym('DEST'), const(mode.encode()), sym('ARG')), **kw)
        it = Interp(self.prog, rule)
        rets, excs = it.run(f, [sym('ARGV')], mon=(tuple(flat(cat([a for w in words for a in flat(w)]))) + (EOF,), (), (), (), ''), env=exch.ENV)
        self.rep.analysed(it); self.rep.count('sessions')
        out = []
        for st, x in [(s, None) for s, _ in rets] + excs:
            if x is not None and x[1] == '$blocked': continue
            out.append(([(c[1][0][2], c[1][1:]) for c in st.mon[2] if c[1][0][2][0]=='$'], x, st))
        if not out and not empty: raise AnalysisError(f'{f.qual}: {show(cat(words))[:80]}: no ending found')
        self.rep.count('endings', len(out))
        for k, (kind, ev, st) in rule.bad.items(): self.bad(mode, 'reading of requests', k[1], st)
        return out
    def bad(self, mode, what, msg, st):
        if (mode, what, msg) in self.seen: return
        self.seen.add((mode, what, msg)); f = self.main(mode)
        self.rep.violation('P13', f.qual, f'{"server" if mode=="server" else "on ... " + mode}: {what}: {msg}', f'{f.mod.path}:{f.node.lineno}', st.trail_list())

def names(prog, cmds):
    """(request, the method it stands for or None): those there are, and others that would name something of the server."""
    for n in sorted(cmds): yield n.replace('_','-'), cmds[n].rsplit('.',1)[-1]
    for n in sorted(cmds):
        if '_' in n: yield n, None
    for q in prog.mro(SERVER):
        for n in sorted(prog.classes[q].methods):
            if n not in cmds: yield n, None; yield n.replace('_','-'), None
    for n in ('conn','repo','suspended','-commands','--init--','','receive-objects','get','LIST-INDEXES'): yield n, None

EFFECTS = ('$open','$create')
def check(prog, rep, tier):
    rep.rule('P13', 'bup server and bup on are followed from their main functions through the session they serve: only requests that are offered reach their method, '
             'a directory or ref update is used only if it is the one agreed on, only published options are told, and nothing follows a refusal')
    prog.add_harness(exch.HARNESS)
    S_ = Sessions(prog, rep); cmds = S_.cmds
    for q in ('bup.cmd.server.main','bup.cmd.on.main', REPO + '.__init__'):
        if q not in prog.funcs: raise AnalysisError(f'{q} not found')
    after = [const(b'set-dir '), DIR1, NL, const(b'list-indexes\n')]
    for mode, offered in OFFERED.items():
        reqs = [(const(n.encode() + b' x\n'), n, m) for n, m in names(prog, cmds) if n] + [(cat([REQ, const(b' x\n')]), 'any other', None)]
        for line, n, m in reqs:
            ok = m is not None and (offered is None or n in offered)
            for calls, x, st in S_.run(mode, [line] + after, same=(DIR1,)):
                rep.count('requests')
                what = f'request {n}'
                if n == 'quit':
                    if x is not None or any(c[0] in ('$req',) + EFFECTS and c[1:] != ((const('quit'),),) for c in calls): S_.bad(mode, what, 'the session does not end there', st)
                    continue
                reached = [c[1][0][2] for c in calls if c[0]=='$req']
                if ok:
                    if reached[:1] != [m]: S_.bad(mode, what, f'is offered and not executed ({show(x)[:40] if x else "nothing happens"})', st)
                elif reached: S_.bad(mode, what, f'is not offered and {reached[0]} is executed', st)
                elif x is None: S_.bad(mode, what, 'is not offered and not refused', st)
                elif any(c[0] in EFFECTS for c in calls): S_.bad(mode, what, 'is not offered and a repository is opened', st)
    # the repository
    for mode, offered in OFFERED.items():
        for req in ('set-dir','init-dir'):
            def line(d): return [const(req.encode() + b' '), d, NL]
            ask = [const(b'list-indexes\n')]
            both = (DIR1, DIR2)
            want = lambda *ds: [e for d in ds for e in ([('$create', (d,))] if req=='init-dir' else []) + [('$open', (d,)), ('$list_indexes', (d,)), ('$close', (d,))]]
            def events(calls): return [c for c in calls if c[0] in ('$open','$create','$list_indexes','$close')]
            def order(c):       # creating the next repository may come before the previous one is closed
                return [e for e in c if e[0]!='$create'], [e for e in c if e[0]=='$create']
            for same in ((), (DIR1,), (DIR2,), both):
                limited = mode != 'server'
                allowed1, allowed2 = not limited or DIR1 in same, not limited or DIR2 in same
                for calls, x, st in S_.run(mode, line(DIR1) + ask + line(DIR2) + ask, same=same, stop=False):
                    rep.count('directories')
                    what = f'{req} of {"the repository" if DIR1 in same else "a directory"} and then {"the repository" if DIR2 in same else "another"}'
                    c = events(calls)
                    w = want(*([DIR1] if allowed1 else []) + ([DIR2] if allowed1 and allowed2 else []))
                    if order(c) != order(w): S_.bad(mode, what, f'expected {brief(w)}, found {brief(c)}', st)
                    elif allowed1 and allowed2:
                        if x is not None: S_.bad(mode, what, f'ends with {show(x)[:60]}', st)
                        elif [e for e in c if e[0] in EFFECTS] != [e for e in w if e[0] in EFFECTS]: S_.bad(mode, what, 'a repository is opened before it is created', st)
                    elif x is None: S_.bad(mode, what, 'is not refused', st)
        # without being told, the configured one
        for calls, x, st in S_.run(mode, [const(b'list-indexes\n')], stop=False):
            o = [c for c in calls if c[0] in EFFECTS]
            if x is not None or len(o) != 1 or o[0][1] not in ((NONE,), (HERE,), ()): S_.bad(mode, 'no directory is given', f'{show(x)[:40] if x else brief(o)}', st)
    # updates of refs
    good = cat([const(b'refs/heads/'), BRANCH])
    others = [cat(w) for w in ([const(b'refs/heads/'), OTHERNAME], [const(b'refs/tags/'), BRANCH], [const(b'refs/heads/'), BRANCH, const(b'x')], [BRANCH], [const(b'refs/heads/x/'), BRANCH], [const(b'refs/remotes/'), BRANCH])]
    K = {k: const(k) for k in (b'commit',b'tree',b'blob',b'tag')}; K[None] = NONE
    for mode in OFFERED:
        cases = [(good, p, n, par) for p in K for n in K for par in (True, False) if not (p is None and par)] if mode in ('save','split') else [(good, b'commit', b'commit', True)]
        cases += [(r, p, b'commit', True) for r in others for p in (b'commit', None)] if mode in ('save','split') else [(r, b'commit', b'tree', False) for r in others]
        for ref, prev, new, par in cases if mode != 'restore' else ():
            for first in ((True, False) if mode in ('save','split') and (ref is not good or new != b'commit') else (True,)):
                words = ([const(b'set-dir '), DIR1, NL] if first else []) + [const(b'update-ref '), ref, NL, hexed(NEW), NL, hexed(OLD), NL, const(b'list-indexes\n')]
                cats = {hexed(NEW): K[new], hexed(OLD): K[prev]}
                ok = mode not in ('save','split') or ref is good and prev in (None, b'commit') and new == b'commit' and (prev is None or par)
                for calls, x, st in S_.run(mode, words, empty=not first, same=(DIR1,), cats=cats, parent=par, stop=False):
                    rep.count('updates')
                    kind = lambda k: 'nothing' if k is None else f'a {k.decode()}'
                    what = f'update-ref of {show(ref)} from {kind(prev)} to {kind(new)}' + (f' that {"has" if par else "lacks"} the former as parent' if prev == b'commit' == new else '')
                    done = [c[1] for c in calls if c[0]=='$update_ref']
                    if ok:
                        if x is not None: S_.bad(mode, what, f'ends with {show(x)[:60]}', st)
                        elif done != [(DIR1, ref, NEW, OLD)]: S_.bad(mode, what, f'is executed as {[tuple(map(show, d)) for d in done]}', st)
                    elif done: S_.bad(mode, what, 'is executed', st)
                    elif x is None: S_.bad(mode, what, 'is not refused', st)
                    elif any(c[0]=='$list_indexes' for c in calls): S_.bad(mode, what, 'the next request is executed', st)
    # options
    for mode in OFFERED:
        for key in sorted(KEYS) + list(OTHERKEYS) + [None]:
            k = const(key) if key is not None else REQ
            for calls, x, st in S_.run(mode, [const(b'set-dir '), DIR1, NL, const(b'config-get\n'), X('s', k), X('s', const(b''))], same=(DIR1,), stop=False):
                rep.count('options')
                got = [c[1] for c in calls if c[0]=='$config_get']
                if key in KEYS:
                    if x is not None or not any(g[1:2] == (k,) for g in got): S_.bad(mode, f'config-get of {key.decode()}', 'is not answered', st)
                elif got: S_.bad(mode, f'config-get of {"any other option" if key is None else key.decode() or "nothing"}', 'the option is looked up', st)
    # commands that need no server, and those that are not supported
    for cmd in NOSERVER:
        for calls, x, st in S_.run(cmd, after, same=(DIR1,), stop=False):
            if any(c[0] in ('$req',) + EFFECTS for c in calls): S_.bad(cmd, 'needs no repository', 'requests are served', st)
            if x is None and not any(c[0]=='$start' for c in calls): S_.bad(cmd, 'is supported', 'nothing is started', st)
    for cmd in REFUSED:
        for calls, x, st in S_.run(cmd, after, same=(DIR1,), stop=False):
            if any(c[0] in ('$req','$start') + EFFECTS for c in calls): S_.bad(cmd, 'is not supported', 'is started', st)
    rep.need('requests', 150); rep.need('directories', 40); rep.need('updates', 100); rep.need('options', 60)
def brief(c): return ', '.join(f'{e[0][1:]}({", ".join(show(a)[:24] for a in e[1])})' for e in c) or 'nothing'
