"""P08: the result of every child process is checked.  Every call that starts a child process is found;
the status it delivers is split into success and several failures, and a failure must end in an exception,
a recorded error or a result that the callers in turn turn into one."""
from ..core import *

STARTERS = {'subprocess.run','subprocess.call','subprocess.check_call','subprocess.check_output','subprocess.Popen',
            'subprocess.getoutput','subprocess.getstatusoutput','os.system','os.popen','os.spawnv','os.spawnvp','os.spawnvpe','os.posix_spawn','os.posix_spawnp',
            'os.wait','os.waitpid','os.wait3','os.wait4','os.waitid'}
WAITS = {'os.wait','os.waitpid','os.wait3','os.wait4'}
CODES = (0, 1, 2, 128, -9)
WAITED = (0, 1<<8, 2<<8, 99<<8, 9)
ERRORS = ('bup.helpers.add_error','bup.helpers.note_error')

def flat(st, t, out=None, depth=0):
    """Constants in an argument vector, with what was added to a list display."""
    out = set() if out is None else out
    if depth > 4: return out
    for y in subterms(t):
        if y[0]=='c' and isinstance(y[2], (bytes, str)): out.add(y[2] if isinstance(y[2], bytes) else y[2].encode())
        if y[0]=='list':
            for k in ('$seq','$vals'):
                v = st.heap.get((y, k))
                if v is not None and v is not t: flat(st, v, out, depth+1)
    return out
def expected(st, argv):
    """Exit codes that are a documented answer of this command."""
    a = flat(st, argv)
    if b'show-ref' in a: return {1}                       # no matching ref
    if b'config' in a and b'--get' in a: return {1}       # not set
    return set()
def is_probe(st, ev, argv):
    """Commands run only to learn whether a feature is there."""
    a = flat(st, argv)
    if b'cat-file' in a and ev.arg(None,'stdin',NONE)[0]=='ext' and ev.arg(None,'stdout',NONE)[0]=='ext' and 'DEVNULL' in ev.arg(None,'stdin',NONE)[1] and 'DEVNULL' in ev.arg(None,'stdout',NONE)[1]: return True
    return b'par2' in a and (b'--help' in a or b'create' in a and b'-t1' in a and b'--' not in a)

WSTATUS = {'os.WIFEXITED': os.WIFEXITED, 'os.WEXITSTATUS': os.WEXITSTATUS, 'os.WIFSIGNALED': os.WIFSIGNALED, 'os.WTERMSIG': os.WTERMSIG,
           'os.waitstatus_to_exitcode': lambda s: os.WEXITSTATUS(s) if os.WIFEXITED(s) else -os.WTERMSIG(s)}
class ProcRule(Rule):
    """mon: (bad site or None, reported, some process ran, just now)"""
    initial = (None, False, False, False)
    max_depth = 12
    def __init__(self, rep, root, inline):
        self.rep = rep; self.root = root; self.inline = inline; self.sites = set(); self.popens = {}; self.summaries = {}
    def relevant(self, f):
        g = f
        while g.outer is not None: g = g.outer
        if f.qual in self.inline or g.qual in self.inline: return True
        if f.qual in self.summaries: return False
        if f.cls is not None and f.cls.qual in ('bup.helpers.stopped','bup.helpers.finalized'): return True
        if f.mod is self.root.mod and f.nstmts <= 12 and f.name not in ('main',): return True
        if f.nstmts <= 6 and 'raise' in f.callnames and not f.is_gen: return True
        return False
    def site(self, ev): return f'{ev.func.qual}:{ev.name}'
    def bad(self, st, ev, how):
        b, rep, ran, _ = st.mon
        # the fourth part keeps a failure that was just obtained apart from one obtained by an earlier call
        return (b, rep, True, False) if b is not None and rep is False else (self.site(ev), False, True, how)
    def fine(self, st): return st.mon[:2] + (True, False)
    def outcome(self, st, ev, codes, exp, mkval):
        groups = {}
        for c in codes: groups.setdefault('ok' if c == 0 or c in exp else 'signal' if 0 < c < 128 and codes is WAITED else 'exit', []).append(const(c))
        return [(self.fine(st) if g == 'ok' else self.bad(st, ev, g), mkval(phi(cs))) for g, cs in groups.items()]
    def model(self, st, ev):
        n = ev.name; anyos = mk('exc','OSError',())
        if isinstance(ev.callee, Func) and ev.callee.qual in self.summaries and ev.callee.qual not in self.inline:
            good, bad = self.summaries[ev.callee.qual]
            return ([(self.fine(st), good)] if good is not None else []) + [(self.bad(st, ev, 'exit'), bad), (st.mon, ('raise', mk('exc','*',())))]
        if n in STARTERS:
            argv = ev.arg(0, 'args', NONE)
            if (ev.func.qual, n) not in self.sites: self.sites.add((ev.func.qual, n))
            self.rep.count('process_starts_visited')
        if n in ('os.fork','os.forkpty'): return [(st.mon, mk('obj','builtins.int','PID')), (self.initial, const(0))]   # the child answers for its own work only
        if n in ('subprocess.run','subprocess.check_output','subprocess.check_call','subprocess.call','os.system','os.popen','subprocess.getoutput'):
            probe = is_probe(st, ev, argv); exp = set(CODES) if probe else expected(st, argv)
            self.rep.sample(f'{ev.where}: {n} {sorted(flat(st,argv))[:6]} expected {sorted(exp) if not probe else "probe"}')
            chk = ev.arg(None,'check',FALSE)
            if n in ('subprocess.check_call','subprocess.check_output') or chk is TRUE:
                return [(st.mon, TOP), (st.mon, ('raise', mk('exc','subprocess.CalledProcessError',()))), (st.mon, ('raise', anyos))]
            if n in ('subprocess.call','os.system'): mkval = lambda c: c
            elif n == 'subprocess.run': mkval = lambda c: mk('nt','CompletedProcess',('returncode','stdout','stderr'),(c, mk('sym','STDOUT'), mk('sym','STDERR')))
            else: mkval = lambda c: TOP
            return self.outcome(st, ev, CODES, exp, mkval) + [(st.mon, ('raise', anyos))]
        if n in WAITS:
            pid = mk('sym','PID')
            return self.outcome(st, ev, WAITED, (), lambda c: mk('tuple', (pid, c) + ((TOP,) if n in ('os.wait3','os.wait4') else ()))) + [(st.mon, ('raise', anyos))]
        if n in WSTATUS and ev.args and all(a[0]=='c' and isinstance(a[2], int) for a in alts(ev.args[0])):
            return [(st.mon, phi([const(WSTATUS[n](a[2])) for a in alts(ev.args[0])]))]
        if n == 'subprocess.Popen':
            p = mk('sym', f'POPEN@{site_id(ev.func.qual, nid(ev.node))}'); s = st.fork()
            s.heap.pop((p,'returncode'), None)
            s.heap[(p,'$expected')] = mk('tuple', tuple(const(c) for c in sorted(expected(st, argv))))
            self.popens[p] = ev.where
            return [(s, p), (st.mon, ('raise', anyos))]
        if ev.recv is not None and self.is_proc(ev.recv):
            p = ev.recv; l = n.rsplit('.',1)[-1]
            if l in ('wait','communicate','poll','__exit__'):
                have = st.heap.get((p,'returncode'))
                val = lambda c: c if l != 'communicate' else mk('tuple', (TOP, TOP))
                if have is not None: return [(st.mon, val(have))]
                self.rep.count('process_waits_visited')
                exp = {c[2] for c in st.heap.get((p,'$expected'), EMPTY)[1]}
                out = []
                for m, c in self.outcome(st, ev, CODES, exp, lambda c: c):
                    s = st.with_mon(m)
                    s.heap[(p,'returncode')] = c; out.append((s, val(c)))
                if l == 'poll': out.append((st.mon, NONE))
                elif l != '__exit__' and (ev.args or ev.kw): out.append((st.mon, ('raise', mk('exc','subprocess.TimeoutExpired',()))))
                return out
            if l in ('kill','terminate','send_signal'): return [(st.mon, NONE)]
            if l == '__enter__': return [(st.mon, p)]
        return None
    def decide(self, st, t):
        if t[0]=='cmp' and t[1]=='in' and t[2] is mk('sym','PID'): return True   # the waited-for child is one of ours
        return None
    def is_proc(self, t): return t[0]=='sym' and t[1].startswith('POPEN@')
    def call(self, st, ev):
        if ev.name in ERRORS: return [(st.mon[0], True) + st.mon[2:]]
        return None
    def raises(self, ev, default):
        if ev.func is not None and ev.name in ('bup.helpers.log','bup.helpers.debug1'): return False
        return default

def failing(v, good):
    """A value that by convention reports a failure to the caller."""
    if v[0]=='c':
        if isinstance(v[2], bool): return v[2] is False and good != {FALSE}
        if isinstance(v[2], int): return v[2] != 0
        if v[2] is None: return bool(good - {NONE})
    return v[0]=='nt' and 'returncode' in v[2] and nonzero(v[3][v[2].index('returncode')])
def plain(v): return v[0]=='c' or v[0]=='nt' and 'returncode' in v[2] and v[3][v[2].index('returncode')][0]=='c'
def nonzero(v):
    """Could this exit status be zero?  False only if it certainly is not."""
    return all(a[0]!='c' or a[2] not in (0, None, False) for a in alts(v))

def open_procs(rule, st, v):
    """Processes started on this path whose status was never obtained and that did not leave the function."""
    out = []
    for p, where in rule.popens.items():
        if (p,'$expected') not in st.heap or (p,'returncode') in st.heap: continue
        if v is not None and contains(v, lambda t: t is p): continue
        if any(contains(val, lambda t: t is p) for k, val in st.heap.items() if k[0] is not p and k[1] != '$cb'): continue
        out.append((p, where))
    return out

STREAM = 'a git that answers requests one at a time; its answers are checked for completeness one at a time'
def callers(prog, g):
    out = set()
    for h in prog.funcs.values():
        if h.mod.name == 'sa_harness' or h is g: continue
        hit = False
        if g.cls is not None:
            nm = g.cls.name if g.name == '__init__' else g.name
            hit = '.'+nm in h.callnames or g.name == '__init__' and nm in h.callnames
        else:
            for n in own_nodes(h.node):
                if isinstance(n, ast.Call):
                    r = prog.resolve_expr(h.mod, n.func)
                    if r is not None and r[0]=='fn' and r[1]==g.qual: hit = True; break
        if hit:
            while h.outer is not None: h = h.outer
            out.add(h.qual)
    return out - {g.qual}

def status_of_exit(exc):
    return exc[2][0] if exc[0]=='exc' and exc[1]=='SystemExit' and exc[2] else None

class Driver:
    def __init__(self, prog, rep):
        self.p = prog; self.rep = rep; self.done = set(); self.seen = set(); self.holders = {}; self.summaries = {}
    def report(self, rule, con, msg, where, st): self.rep.violation('P08', f'{rule} {con}', msg, where, st.trail_list())
    def root(self, q, chain):
        key = (q, chain, tuple(sorted(x for x in self.summaries if x.rsplit('.',1)[-1] in self.p.funcs[q].callnames)))
        if key in self.done: return
        self.done.add(key)
        f = self.p.funcs[q]
        rule = ProcRule(self.rep, f, set(chain) | {q}); rule.summaries = self.summaries
        it = Interp(self.p, rule)
        if f.cls is not None: rets, excs = it.run(f, [sym(p) for p in f.params[1:]], {k: sym(k) for k in f.kwonly}, selfobj=it.obj(f.cls.qual))
        else: rets, excs = it.run(f)
        self.rep.analysed(it); self.rep.count('roots')
        self.seen |= rule.sites
        self.judge(q, chain, rule, rets, excs)
        return rule
    def judge(self, q, chain, rule, rets, excs):
        f = self.p.funcs[q]; where = f'{f.mod.path}:{f.node.lineno}'
        ok = [(s, v) for s, v in rets if s.mon[0] is None and s.mon[2]]
        good = set()
        for s, v in ok: good |= set(alts(v))
        up = False
        for s, v in rets:
            for p, w in open_procs(rule, s, v):
                if any(b'cat-file' in flat(s, y) for y in ()): continue
                self.report('status-not-obtained', q, f'{q} can return without the exit status of the process started at {w}', w, s)
            if v is not None and any(rule.is_proc(y) for y in subterms(v)): up = True
            for p, w in list(rule.popens.items()):
                hs = [k for k, val in s.heap.items() if k[0][0]=='obj' and k[1][0] != '$' and contains(val, lambda t: t is p)]
                for k in hs: self.holders.setdefault(k[0][1], []).append((q, s, p))
            b, reported, ran, _ = s.mon
            if b is None or reported: continue
            self.rep.count('failure_outcomes')
            vals = alts(v)
            if f.name == 'main' and f.mod.name.startswith('bup.cmd.'):
                if nonzero(v) or contains(v, lambda t: t[0]=='attr' and t[2]=='returncode'): continue
                self.report('ignored', f'{q} {b}', f'the command can exit with status {show(v)} although the process started by {b} failed', where, s); continue
            if all(failing(x, good) for x in vals): up = True
            elif any(x in good for x in vals):
                self.report('ignored', f'{q} {b}', f'{q} returns {show(v)}, as on success, although the process started by {b} failed', where, s)
            else: up = True
        for s, x in excs:
            b, reported, ran, _ = s.mon
            if b is None or reported or x[0]!='exc' or x[1]!='SystemExit': continue
            code = x[2][0] if x[2] else const(0)
            self.rep.count('failure_outcomes')
            if not nonzero(code):
                self.report('ignored', f'{q} {b}', f'the process exits with status {show(code)} although the process started by {b} failed', where, s)
        if up:
            cs = callers(self.p, f)
            if len(chain) > 6: raise AnalysisError(f'{q}: the status is handed up more than 6 levels')
            # callers see the function as: success with its results on success, or failure with its results on failure
            good, bad = set(), set()
            for s, v in rets: (bad if s.mon[0] is not None and not s.mon[1] else good).update(alts(v))
            if q not in self.summaries and not chain and bad and not f.is_gen and f.cls is None and all(plain(v) for v in good | bad):
                self.summaries[q] = (phi(sorted(good, key=repr)) if good else None, phi(sorted(bad, key=repr)))
            for c in sorted(cs): self.root(c, () if q in self.summaries else tuple(sorted(set(chain) | {q})))

def roots_of(prog):
    """Outermost functions that contain a process start, with the number of start sites."""
    out = {}
    for f in prog.funcs.values():
        if f.mod.name == 'sa_harness': continue
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call): continue
            r = prog.resolve_expr(f.mod, n.func)
            name = r[1] if isinstance(r, tuple) and len(r) > 1 and r[0]=='ext' else None
            if name in STARTERS or name in ('os.fork','os.forkpty'):
                g = f
                while g.outer is not None: g = g.outer
                out.setdefault(g.qual, []).append((name, n.lineno))
    return out

def check(prog, rep, tier):
    rep.rule('P08', 'every call that starts a process is visited; on each path on which its status is a failure (exit code that is no documented answer, or signal) the function ends in an exception, '
             'a recorded error, or a result that differs from all its results on success and that its callers, followed up to the command, turn into one; the status is obtained on every path')
    d = Driver(prog, rep)
    rs = roots_of(prog)
    for q in sorted(rs):
        d.root(q, ())
    for q, ss in rs.items():
        want = {n for n, l in ss if n in STARTERS}
        got = {n for g, n in d.seen if g == q or g.startswith(q+'.')}
        if want - got: raise AnalysisError(f'{q}: {sorted(want-got)} not reached')
    for cq in sorted(d.holders): holder(prog, rep, d, cq)
    replies(prog, rep)
    rep.need('roots', 12); rep.need('process_starts_visited', 12); rep.need('process_waits_visited', 4); rep.need('failure_outcomes', 20)
    rep.need('reply_outcomes', 4)

# stopped is the context manager that ends a process left running after an error; a CatPipe's git answers one
# request at a time and is judged by the completeness of each answer (replies, below)
EXEMPT = {'bup.helpers.stopped', 'bup.git.CatPipe'}
def holder(prog, rep, d, cq):
    """A class that keeps a process: ending it must deliver the process' failure."""
    if cq in EXEMPT: return
    c = prog.classes[cq]; name = cq[4:].replace('.', '_')
    m = next((x for x in ('close', '__exit__', 'stop', 'finish') if x in c.methods), None)
    if m is None:
        d.report('status-not-obtained', cq, f'{cq} starts a process and has no method that waits for it', f'{c.mod.path}:{c.node.lineno}', State()); return
    for q, s0, p in d.holders[cq]:
        rule = ProcRule(rep, c.methods[m], {g.qual for g in prog.funcs.values() if g.cls is c})
        rule.popens[p] = q
        self_ = next(k[0] for k, v in s0.heap.items() if k[0][0]=='obj' and k[0][1]==cq)
        it = Interp(prog, rule)
        args = [NONE]*3 if m == '__exit__' else []
        rets, excs = it.run(c.methods[m], args, selfobj=self_, heap=dict(s0.heap), facts=dict(s0.facts), mon=ProcRule.initial)
        rep.analysed(it); rep.count('holders')
        where = f'{c.methods[m].mod.path}:{c.methods[m].node.lineno}'
        if not rets: raise AnalysisError(f'{cq}.{m} never returns')
        for s, v in rets:
            if (p,'returncode') not in s.heap:
                d.report('status-not-obtained', f'{cq}.{m}', f'{cq}.{m} can return without the exit status of the process started in {q}', where, s)
            elif s.mon[0] is not None and not s.mon[1]:
                d.report('ignored', f'{cq}.{m} {s.mon[0]}', f'{cq}.{m} returns normally although the process started in {q} failed', where, s)

H_REPLY = """
def get(x, ref, DONE):
    x.get(ref)
    DONE()
def data(x, ref, DONE):
    oidx, typ, size, it = x.get(ref)
    for b in it: pass
    DONE()
def chunks(f, n, DONE):
    for b in chunkyreader(f, n): pass
    DONE()
"""
class ReplyRule(Rule):
    """git's end of the pipe: answers with a complete header, or has ended.  mon: what the reader has seen."""
    initial = ('open', None); max_depth = 10
    def __init__(self, prog, ended_at): self.prog = prog; self.ended_at = ended_at; self.outcomes = []
    def relevant(self, f):
        g = f
        while g.outer is not None: g = g.outer
        return g.mod.name == 'sa_harness' or (g.cls is not None and g.cls.qual == 'bup.git.CatPipe') or g.qual == 'bup.helpers.chunkyreader'
    def model(self, st, ev):
        l = ev.name.rsplit('.',1)[-1]; m, got = st.mon
        if ev.name == 'bup.git.require_suitable_git': return [(st.mon, NONE)]
        if ev.name in ('subprocess.run','subprocess.call'):
            return [(st.mon, mk('nt','CompletedProcess',('returncode','stdout','stderr'),(const(c),TOP,TOP))) for c in (0, 1)]
        if ev.name == 'subprocess.Popen': return [(st.mon, mk('sym','GIT'))]
        if ev.name == 'int': return [(st.mon, const(7))]
        if ev.recv is not None and l == 'poll': return [(st.mon, NONE)]
        if ev.recv is not None and l in ('write','flush','close','wait','terminate','kill'): return [(st.mon, NONE)]
        if ev.recv is not None and l == 'readline':
            if m == 'eof' or self.ended_at == 'header' and m == 'open': return [(('eof', got), const(b''))]
            if m == 'open': return [(('head', got), const(b'0123456789abcdef0123456789abcdef01234567 blob 7\n'))]
            return [(st.mon, const(b'\n'))]
        if ev.recv is not None and l in ('read','read1','readinto'):
            n = got or 0
            if m == 'eof' or (self.ended_at == 'data' and n >= 1) or self.ended_at == 'empty': return [(('eof', got), const(b''))]
            # a piece of the data, shorter than asked for
            return [(('data', min(n+1, 2)), const(b'xxxx'))]
        return None
    def call(self, st, ev):
        if ev.name == 'DONE': self.outcomes.append((st, ev.where)); return [('done', st.mon[1])]
        return None
    def raises(self, ev, default): return False if ev.name == 'DONE' else default

def replies(prog, rep):
    """A reader of git cat-file, and of a counted stream in general, must not take the end of the stream for the end of the data."""
    prog.add_harness('from bup.helpers import chunkyreader\n' + H_REPLY)
    gp = prog.classes['bup.git.CatPipe']
    for h, ended in (('get','header'), ('data','header'), ('data','empty'), ('data','data'), ('chunks','empty'), ('chunks','data'), ('data','never'), ('chunks','never')):
        rule = ReplyRule(prog, ended)
        f = prog.funcs['sa_harness.'+h]; it = Interp(prog, rule)
        if h == 'chunks': args = [sym('F'), const(7), sym('DONE')]; mon = ('head', None); heap = {}
        else:
            obj = it.obj(gp.qual); heap = {}
            i2 = Interp(prog, rule)
            r0, _ = i2.run(gp.methods['__init__'], [const(b'r')], selfobj=obj)
            args = [obj, mk('sym','REF'), sym('DONE')]; mon = ('open', None)
            if not r0: raise AnalysisError('CatPipe.__init__ does not return')
            heap = [dict(s.heap) for s, v in r0]
        for hp in (heap if isinstance(heap, list) else [heap]):
            it = Interp(prog, rule)
            rets, excs = it.run(f, args, heap=hp, mon=mon)
            rep.analysed(it); rep.count('reply_outcomes', len(rets) + len(excs))
            if not rets and not excs: raise AnalysisError(f'{h}: no outcome')
            if ended == 'never':
                if not rule.outcomes: raise AnalysisError(f'{h}: a complete answer is not recognized')
                continue
            for st, where in rule.outcomes:
                what = 'CatPipe.get' if h != 'chunks' else 'chunkyreader'
                rep.violation('P08', f'short-reply bup.{"git.CatPipe.get" if h != "chunks" else "helpers.chunkyreader"}',
                              f'{what} accepts the answer as complete although the stream ended at the {ended if ended != "empty" else "first byte of the data"}', where, st.trail_list())
            rule.outcomes.clear()
