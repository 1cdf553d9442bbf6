"""P04: every ref update is a compare-and-swap against the value the new history was built upon."""
from ..core import *
from ..prov import *
from . import p03

def last(n): return n.rsplit('.',1)[-1]
READS = ('read_ref','resolve','try_resolve','refs','list_refs','rev_parse','find_vfs_item','find_git_item','contents','resolve_targets','cat')
COMMITS = ('write_commit','new_commit','append_save')
PARENT = {'write_commit': (1,'parent'), 'new_commit': (1,'parent'), 'append_save': (1,'parent')}

# ------------------------------------------------------------ 1. commands
class CmdRule(ProvRule):
    SOURCES = READS
    ATTRS = ('hash','oid','coid')
    initial = (); widen_at = 5
    def __init__(self, rep, inline, f): self.rep=rep; self.inline=inline; self.f=f; self.n=0
    def relevant(self, f): return f.qual in self.inline or f.outer is not None and f.outer.qual in self.inline
    def raises(self, ev, default): return False
    def opaque_value(self, st, ev):
        l = last(ev.name)
        if l=='write_commit' or l=='new_commit' or l=='append_save':
            p = ev.arg(1, 'parent', NONE)
            roots = set()
            for a in alts(p):
                if a[0]=='wc': roots |= a[1]
                elif contains(a, lambda x: x[0]=='wc'):
                    for x in subterms(a):
                        if x[0]=='wc': roots |= x[1]
                else: roots.add(a)
            v = mk('wc', frozenset(roots))
            if l=='append_save': return mk('tuple', (v, mk('sym','tree'), mk('sym','repairs')))
            return v
        if l=='commit_oid' : return mk('attr', ev.args[0], 'oid')
        return ProvRule.opaque_value(self, st, ev)
    def olds(self, t):
        """Alternatives of an expected value, with the hex encoding taken off."""
        out = []
        for a in alts(t):
            if is_call(a,'binascii.hexlify') and a[2]: out += self.olds(a[2][0])
            elif a[0]=='call' and a[1][0]=='attr' and a[1][2]=='hex': out += self.olds(a[1][1])
            elif a[0]=='phi': out += self.olds(a)
            else: out.append(a)
        return out
    def call(self, st, ev):
        l = last(ev.name)
        if l not in ('update_ref','delete_ref'): return None
        if ev.callee is not None and ev.callee.qual in self.inline: return None
        self.rep.count('update_sites_visited'); self.n += 1
        where, con = ev.where, f'{ev.func.qual}:{l}'
        ref = ev.arg(0,'refname',NONE)
        old = ev.arg(1,'oldvalue',NONE) if l=='delete_ref' else ev.arg(2,'oldval',NONE)
        new = None if l=='delete_ref' else ev.arg(1,'newval',NONE)
        force = ev.arg(4,'force',FALSE)
        tag = all(any(p.startswith(b'refs/tags/') for p in pathparts(a)[:1] if isinstance(p, bytes)) for a in alts(ref))
        self.rep.sample(f'{where}: {l} expects {show(old,3)[:120]}')
        def bad(r, m): self.rep.violation(r, con, m, where, st.trail_list())
        if force is not FALSE and not tag:
            bad('forced-update', 'a branch is moved without an expected old value (force)'); return None
        if tag and (force is not FALSE or l=='delete_ref'): return None        # bup tag -f, -d: documented to replace
        olds = self.olds(old)
        lab = frozenset().union(*[self.labels(a) for a in olds]) if olds else frozenset()
        if all(a[0]=='c' and not a[2] for a in olds):
            if not any(v is False and self.labels(k) for k, v in st.facts.items()):
                bad('no-expected-value', 'a branch is moved or deleted with no expected old value although no path has shown that the ref does not exist')
            return None
        present = [a for a in olds if not (a[0]=='c' and not a[2])]     # (absent alternatives are mixed with present ones)
        wcs = [x for n in alts(new) for x in subterms(n) if x[0]=='wc'] if new is not None else []
        roots = set().union(*[x[1] for x in wcs]) if wcs else set()
        for a in present:
            if contains(a, lambda x: x[0]=='wc'): bad('unexamined-old', 'the expected old value is a commit written by this run'); return None
            if not self.labels(a): bad('unexamined-old', f'the expected old value {show(a,3)} is not a value read from the ref'); return None
            reads = [x for x in subterms(a) if x[0]=='prov' and x[1]=='read_ref']
            for x in reads:
                rn = self.refs.get(x)
                if rn is not None and not (set(map(strip,alts(rn))) & set(map(strip,alts(ref))) or same_path(rn, ref)):
                    bad('other-ref', f'the expected old value was read from {show(rn,3)}, not from the ref that is moved')
            if reads and not any(strip(a) is strip(r) for r in roots if r[0]!='phi') and not any(strip(a) is strip(y) for r in roots if r[0]=='phi' for y in r[1]):
                bad('built-on-other', f'the expected old value {show(a,3)} is read from the ref separately from the commit the new history is built on (so a concurrent update in between is lost)')
        for r in (y for r in roots for y in alts(r)):
            if r[0]=='c' and not r[2]: continue
            if any(strip(r) is strip(a) for a in present): continue
            rl = self.labels(r)
            if rl and rl <= lab: continue        # derived from the examined value (the history of it)
            bad('built-on-other', f'the new history is built on {show(r,3)} but the update expects {show(present[0],3)}')
        if wcs and all(r is NONE for r in roots):
            bad('built-on-nothing', 'the new history has no parent although the update replaces an existing value')
        return None
    refs = None
    def prov(self, st, ev, own=()):
        v = ProvRule.prov(self, st, ev, own)
        if last(ev.name)=='read_ref':
            if self.refs is None: self.refs = {}
            self.refs[v] = ev.arg(0,'refname',NONE)
        return v

def local_reach(prog, mod, names):
    """Functions of a module that call one of the methods, directly or through functions of the module."""
    fs = [g for g in prog.funcs.values() if g.mod is mod]
    out = {g.qual for g in fs if g.callnames & ({'.'+n for n in names} | set(names))}
    while True:
        nm = {prog.funcs[q].name for q in out if prog.funcs[q].name!='main'}
        new = {g.qual for g in fs if g.callnames & nm} - out
        if not new: return out
        out |= new

def commands(prog, rep):
    up, wr = p03.sets(prog)
    direct = {q for q in up if any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in p03.UPDATES or isinstance(n.func, ast.Name) and n.func.id in p03.UPDATES) for n in own_nodes(prog.funcs[q].node))}
    roots = set(direct); changed = True
    while changed:
        changed = False
        for q in up - roots:
            f = prog.funcs[q]
            if any(prog.funcs[r].mod is f.mod and prog.funcs[r].name in f.callnames for r in roots if not prog.funcs[r].is_lambda and prog.funcs[r].name!='main'): roots.add(q); changed = True
    called = {q for q in roots if any(prog.funcs[q].name in prog.funcs[r].callnames for r in roots if r!=q and prog.funcs[r].mod is prog.funcs[q].mod and prog.funcs[q].name!='main')}
    for q in sorted(roots - called):
        f = prog.funcs[q]
        inl = roots | local_reach(prog, f.mod, COMMITS) | {q}
        inl |= {g for g in prog.funcs if prog.funcs[g].mod is f.mod and prog.funcs[g].nstmts <= 6 and not prog.funcs[g].is_gen}
        rule = CmdRule(rep, inl, f)
        it = Interp(prog, rule)
        it.run(f); rep.analysed(it); rep.count('commands')
        if not rule.n: rep.violation('no-update', q, 'the update of the ref was not reached by the analysis', None)

# ------------------------------------------------------------ 2. the underlying update
RUNNERS = ('run','call','check_call','check_output','Popen','exo','_git_exo','git_wait')
class GitRule(Rule):
    initial = ('none',)
    def __init__(self, rep, f, ref, new, old): self.rep=rep; self.f=f; self.ref=ref; self.new=new; self.old=old; self.runs=0
    def relevant(self, f): return f.mod is self.f.mod and f.nstmts <= 12 and not f.is_gen
    def raises(self, ev, default):
        if last(ev.name) in ('check_call','check_output','exo'): return True
        return False
    def model(self, st, ev):
        if last(ev.name) not in RUNNERS: return None
        argv = ev.arg(0, 'args', NONE)
        self.runs += 1; self.rep.count('git_update_invocations')
        self.argv(st, ev, argv)
        chk = ev.arg(None, 'check', FALSE)
        ok = mk('nt', 'CompletedProcess', ('returncode','stdout','stderr'), (const(0), sym('stdout'), sym('stderr')))
        ko = mk('nt', 'CompletedProcess', ('returncode','stdout','stderr'), (const(1), sym('stdout'), sym('stderr')))
        l = last(ev.name)
        if l in ('check_call','check_output','exo') or chk is TRUE: return [(('ok',), ok), (st.mon, ('raise', mk('exc','subprocess.CalledProcessError',())))]
        if l=='call': return [(('ok',), const(0)), (('failed',), const(1))]
        if l=='Popen':
            return None
        return [(('ok',), ok), (('failed',), ko)]
    def hexes(self, t, v):
        if t is v: return False
        return contains(t, lambda x: x is v) and contains(t, lambda x: x==mk('ext','binascii.hexlify') or x[0]=='attr' and x[2]=='hex')
    def argv(self, st, ev, argv):
        con = f'{self.f.qual}:argv'
        def bad(r, m): self.rep.violation(r, con, m, ev.where, st.trail_list())
        for items in sequences(st, argv):
            if items is None:
                bad('unknown-argv', f'the arguments given to git can not be determined: {show(argv,4)}'); continue
            vals = [x[2] if x[0]=='c' else None for x in items]
            if b'update-ref' not in vals: bad('not-update-ref', 'git is not asked to update the ref'); continue
            i = vals.index(b'update-ref')
            opts = [v for v in vals[i+1:] if isinstance(v, bytes) and v.startswith(b'-')]
            rest = [x for x, v in zip(items[i+1:], vals[i+1:]) if not (isinstance(v, bytes) and v.startswith(b'-'))]
            if not rest or rest[0] is not self.ref: bad('wrong-ref', 'the ref given to git is not the one requested'); continue
            rest = rest[1:]
            if self.new is None:
                if b'-d' not in opts: bad('not-delete', 'deleting a ref does not pass -d')
                exp = rest
            else:
                if not rest or not self.hexes(rest[0], self.new): bad('wrong-new', 'the new value given to git is not the one requested'); continue
                exp = rest[1:]
            present = st.facts.get(self.old)
            if present is None and st.facts.get(mk('cmp','is',self.old,NONE)) is not None: present = not st.facts[mk('cmp','is',self.old,NONE)]
            if not exp:
                if self.new is None and present is False: continue
                bad('no-expected-value', 'git is not given the expected old value'); continue
            e = exp[0]
            if present is False:
                if not (e[0]=='c' and isinstance(e[2], bytes) and e[2].strip(b'0')==b''): bad('absent-not-required', f'with no old value, git is not told that the ref must not exist (given {show(e,3)})')
            elif not (e is self.old or self.hexes(e, self.old)) or self.new is not None and e is self.old:
                bad('wrong-old', f'the expected old value given to git is {show(e,3)}, not the one requested')

def gitlayer(prog, rep):
    for name, new in (('bup.git.update_ref', True), ('bup.git.delete_ref', False)):
        f = prog.func(name)
        ref, nv, ov = sym('REF'), sym('NEW'), sym('OLD')
        runs = 0
        for present in (True, False):
            rule = GitRule(rep, f, ref, nv if new else None, ov)
            it = Interp(prog, rule)
            pos = [ref, nv, ov] if new else [ref, ov]
            facts = {ov: present, mk('cmp','is',ov,NONE): not present}
            rets, excs = it.run(f, args=pos, kwargs={'force': FALSE} if 'force' in f.params + f.kwonly else {}, facts=facts); rep.analysed(it)
            runs += rule.runs
            if not rule.runs: rep.violation('no-git', name, 'git is never asked to update the ref', None)
            for s, v in rets:
                if s.mon[0]=='failed': rep.violation('failure-ignored', name, 'git refused the update, but the function returns normally', None, s.trail_list())
                if s.mon[0]=='none': rep.violation('no-update', name, 'the function returns without having asked git to update the ref', None, s.trail_list())

# ------------------------------------------------------------ 3. the routes to it
class RouteRule(Rule):
    initial = ((), 0)       # bytes written, lines read
    def __init__(self, rep, f, inline, ref, new, old): self.rep=rep; self.f=f; self.inline=inline; self.ref=ref; self.new=new; self.old=old; self.n=0
    def relevant(self, f): return f.qual in self.inline or f.outer is not None and f.outer.qual in self.inline
    def raises(self, ev, default): return False
    def model(self, st, ev):
        w, n = st.mon
        if last(ev.name)=='readline' and ev.recv is not None: return [((w, n+1), sym(f'LINE{n+1}'))]
    def call(self, st, ev):
        w, n = st.mon
        l = last(ev.name)
        if l in ('write','send') and ev.recv is not None and ev.args:
            return [(w + (ev.args[0],), n)] if len(w) < 12 else None
        if l=='update_ref' and (ev.callee is None or ev.callee.qual not in self.inline):
            self.n += 1; self.rep.count('routes')
            r, nv, ov = ev.arg(0,'refname',NONE), ev.arg(1,'newval',NONE), ev.arg(2,'oldval',NONE)
            con = self.f.qual
            def bad(rule, m): self.rep.violation(rule, con, m, ev.where, st.trail_list())
            if r is not self.ref: bad('wrong-ref', f'the ref passed on is {show(r,3)}, not the one requested')
            if not self.isval(st, nv, self.new): bad('wrong-new', f'the new value passed on is {show(nv,3)}, not the one requested')
            if not self.isval(st, ov, self.old): bad('wrong-old', f'the expected old value passed on is {show(ov,3)}, not the one requested')
            if ev.arg(4,'force',FALSE) is not FALSE: bad('forced-update', 'the update is forced')
    def isval(self, st, t, v):
        """t carries v: v itself, or v decoded, or nothing where v is known to be empty."""
        for a in alts(t):
            if a is v or contains(a, lambda x: x is v): continue
            if a[0]=='c' and not a[2] and any(val is False and (k is v or contains(k, lambda x: x is v)) for k, val in st.facts.items()): continue
            return False
        return True

def routes(prog, rep):
    ref, nv, ov = sym('REF'), sym('NEW'), sym('OLD')
    for cls in ('bup.repo.local.LocalRepo','bup.repo.remote.RemoteRepo'):
        m = prog.find_method(cls, 'update_ref')
        if m is None: raise AnalysisError(f'{cls} has no update_ref')
        rule = RouteRule(rep, m, {m.qual}, ref, nv, ov)
        it = Interp(prog, rule)
        it.run(m, args=[ref, nv, ov], selfobj=it.obj(cls)); rep.analysed(it)
        if not rule.n: rep.violation('no-update', m.qual, 'the update is not passed on', None)
    # server
    m = prog.func('bup.protocol.Server.update_ref')
    helpers = {q for q in prog.funcs if prog.funcs[q].mod is m.mod and prog.funcs[q].nstmts <= 8 and q.startswith('bup.protocol.Server._')}
    rule = RouteRule(rep, m, {m.qual} | helpers, ref, sym('LINE1'), sym('LINE2'))
    it = Interp(prog, rule)
    it.run(m, args=[ref], selfobj=it.obj('bup.protocol.Server')); rep.analysed(it)
    if not rule.n: rep.violation('no-update', m.qual, 'the update is not passed on', None)
    # client
    m = prog.func('bup.client.Client.update_ref')
    rule = RouteRule(rep, m, {q for q in prog.funcs if prog.funcs[q].mod is m.mod and prog.funcs[q].nstmts <= 4 and q.startswith('bup.client.Client._') and not prog.funcs[q].is_gen} | {m.qual}, ref, nv, ov)
    it = Interp(prog, rule)
    rets, excs = it.run(m, args=[ref, nv, ov], selfobj=it.obj('bup.client.Client')); rep.analysed(it)
    for s, v in rets:
        rep.count('wire_forms')
        flat = []
        for t in s.mon[0]:
            for p in pathparts(t): flat.append(p)
        # split into lines
        lines = [[]]
        for p in flat:
            if isinstance(p, bytes):
                segs = p.split(b'\n')
                for i, seg in enumerate(segs):
                    if i: lines.append([])
                    if seg: lines[-1].append(seg)
            else: lines[-1].append(p)
        if lines[-1]==[]: lines.pop()
        rep.sample('client.update_ref writes ' + ' / '.join(' '.join(show(x,3) if isinstance(x, tuple) else repr(x) for x in l) for l in lines))
        ok = len(lines)==2
        if ok:
            for l, val in zip(lines, (nv, ov)):
                fact = s.facts.get(val)
                if l==[]: ok &= val is ov and (fact is False or s.facts.get(mk('cmp','is',ov,NONE)) is True)
                elif len(l)==1 and isinstance(l[0], tuple):
                    for a in alts(l[0]):
                        if a[0]=='c' and not a[2]: ok &= val is ov and fact in (False, None) and len(alts(l[0])) > 1
                        else: ok &= contains(a, lambda x: x is val) and not contains(a, lambda x: x is (ov if val is nv else nv))
                else: ok = False
        if not ok:
            rep.violation('wire', m.qual, 'the client does not send the new value and then the expected old value, one per line: ' + ' / '.join(' '.join(show(x,3) if isinstance(x, tuple) else repr(x) for x in l) for l in lines), None, s.trail_list())
    if not rets: rep.violation('wire', m.qual, 'the client never completes the request', None)

def check(prog, rep, tier):
    import sa.absint as A
    A.PHI_MAX = 24
    rep.rule('P04', 'in every command that moves a ref, the expected old value is the very value (by dataflow over all paths, calls within the command followed) that was read from the same ref and given as parent of the new history, or the examined item; the repositories, the client, the wire format and the server pass ref, new and old value through in their places; the git invocation states the expected value, or that the ref must not exist, and a refusal raises')
    commands(prog, rep); gitlayer(prog, rep); routes(prog, rep)
    rep.need('commands', 4); rep.need('update_sites_visited', 5); rep.need('git_update_invocations', 2); rep.need('routes', 3); rep.need('wire_forms', 1)
