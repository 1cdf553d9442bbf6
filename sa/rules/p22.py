"""P22: bup fsck.  The command is run abstractly for every configuration of options and tools, with one
representative pack whose state (parity files, checksums, what each tool says about it) is drawn as it is
observed; at every way the process can end, the exit status must follow from what was observed."""
from ..core import *
from .p08 import is_probe

REP = sym('PACKFILE'); PIDREP = sym('PIDREP'); OPT = sym('OPT')
ANYOS = mk('exc','OSError',())
WORKERS = {'good': (0,), 'repaired': (1<<8,), 'bad': (2<<8, 99<<8), 'bad signal': (9,)}

def words(st, t):
    """(constants, does it mention REP) of an argument vector."""
    out = set(); rep = False; seen = set()
    def go(t, d):
        nonlocal rep
        if d > 5: return
        for y in subterms(t):
            if y is REP: rep = True
            if y[0]=='c' and isinstance(y[2], (bytes, str)): out.add(y[2] if isinstance(y[2], bytes) else y[2].encode())
            if y[0]=='list' and y not in seen:
                seen.add(y)
                ex = st.heap.get((y,'$ex'), TOP); sq = st.heap.get((y,'$seq'), EMPTY)
                known = next((x for x in (ex, sq) if all(a[0]=='tuple' for a in alts(x))), None)
                for v in (known,) if known is not None else (sq, st.heap.get((y,'$vals'))):
                    if v is not None: go(v, d+1)
    go(t, 0)
    return out, rep
def has(t): return contains(t, lambda y: y is REP)
def suffix(t):
    """.pack/.idx/.par2/.vol… of a path about REP (None: not about REP)"""
    if not has(t): return None
    s = tail(t)
    for x in (b'.vol000+200.par2', b'.par2', b'.idx', b'.pack'):
        if s.endswith(x): return x[1:].decode()
    return ''

class FsckRule(Rule):
    max_depth = 14; exact = True
    def __init__(self, rep, mode, quick, jobs, tool, disable, extra, parity):
        self.rep = rep; self.mode = mode; self.quick = quick; self.jobs = jobs; self.tool = tool; self.disable = disable
        self.extra = extra; self.parity = parity; self.enabled = tool and not disable
        self.seen = set(); self.exits = []
        self.cfg = f'mode={mode}{" --quick" if quick else ""}{" --jobs" if jobs else ""}{"" if tool else ", no par2"}{" --disable-par2" if disable else ""}, parity files {parity}'
    initial = (('fault', False),)
    def relevant(self, f):
        g = f
        while g.outer is not None: g = g.outer
        return g.mod.name == 'bup.cmd.fsck'
    # mon: sorted tuple of (key, value)
    def get(self, m, k, d=None): return dict(m).get(k, d)
    def set(self, m, **kv):
        d = dict(m); d.update({k.replace('__','.'): v for k, v in kv.items()})
        return tuple(sorted((k, v) for k, v in d.items() if v is not None))
    def fault(self, m): return self.set(m, fault=True)
    def say(self, rid, con, msg, ev, st):
        self.rep.violation('P22', f'{rid} {con}', f'{msg} ({self.cfg})', ev.where if ev is not None else None, st.trail_list())
    def iter_items(self, st, it):
        if is_call(it, 'glob.glob', 'glob.iglob') and contains(it, lambda y: y[0]=='c' and isinstance(y[2], bytes) and y[2].endswith(b'*.pack')) or it is sym('EXTRA'): return [REP]
        return None
    def model(self, st, ev):
        n = ev.name; m = st.mon; last = n.rsplit('.',1)[-1]
        rep_now = ev.interp.rep_stage > 0
        if last == 'parse_bytes': 
            return [(m, mk('tuple', (OPT, sym('FLAGS'), sym('EXTRA') if self.extra else mk('tuple', ()))))]
        if n == 'bup.compat.argv_bytes' and ev.args: return [(m, ev.args[0])]
        if last == 'fatal': return [(self.fault(m), ('raise', mk('exc','SystemExit',(const(99),))))]
        if last in ('endswith','startswith') and ev.recv is not None and has(ev.recv): return [(m, TRUE), (m, FALSE)] if self.extra and ev.recv is REP else None
        if n in ('bup.helpers.log','bup.helpers.progress','bup.helpers.debug1','bup.helpers.debug2','bup.cmd.fsck.debug','bup.io.path_msg',
                 'bup.cmd.fsck.report_stray_pack_related_files'): return [(m, TOP)]
        if n == 'os.stat' and ev.args and has(ev.args[0]) or n in ('os.path.exists','os.path.getsize','os.path.isfile','os.lstat') and ev.args and has(ev.args[0]):
            s = suffix(ev.args[0])
            if s not in ('par2','vol000+200.par2'): return [(m, TOP), (m, ('raise', mk('exc','FileNotFoundError',())))]
            self.rep.count('parity_file_observations')
            out = []
            p = self.get(m,'parity')
            for a, b in {'both': [('ok','ok')], 'none': [('no','no')], 'damaged': [('no','ok'),('ok','no'),('empty','ok'),('ok','empty'),('empty','empty'),('no','empty')]}[p]:
                if self.get(m,'par2',a) != a or self.get(m,'vol',b) != b: continue
                x = a if s == 'par2' else b
                m2 = self.set(m, par2=a, vol=b)
                if p == 'damaged': m2 = self.fault(m2)
                size = {'ok': mk('nat', 1), 'empty': const(0), 'no': None}[x]
                if n == 'os.stat' or n == 'os.lstat' or n == 'os.path.getsize':
                    if size is None: out.append((m2, ('raise', mk('exc','FileNotFoundError',()))))
                    elif last == 'getsize': out.append((m2, size))
                    else:
                        st2 = mk('sym', f'ST@{s}@{x}'); z = st.with_mon(m2)
                        z.heap[(st2,'st_size')] = size; out.append((z, st2))
                else: out.append((m2, TRUE if size is not None else FALSE))
            return out
        if n in ('os.stat','os.lstat','os.path.exists','os.path.getsize','open') and ev.args and not has(ev.args[0]) and not rep_now:
            return [(self.fault(m), TOP), (self.fault(m), ('raise', mk('exc','FileNotFoundError',())))]     # some other pack
        if n == 'open' and ev.args and has(ev.args[0]):
            s = suffix(ev.args[0])
            if s not in ('idx','pack'): return None
            self.rep.count('checksummed_files')
            out = []
            for v in ('ok','bad','missing'):
                if self.get(m, 'sum.'+s, v) != v: continue
                m2 = self.set(m, **{'sum.'+s: v})
                if v != 'ok': m2 = self.fault(m2)
                out.append((m2, mk('sym', f'FILE@{s}@{v}') if v != 'missing' else ('raise', mk('exc','FileNotFoundError',()))))
            return out + [(m, ('raise', mk('exc','PermissionError',())))]
        r = ev.recv
        if r is not None and r[0]=='sym' and r[1].startswith('FILE@'):
            if last == '__enter__': return [(m, r)]
            if last == 'read' and ev.args and ev.args[0] is const(20): return [(m, mk('sym', 'SUM@'+r[1].split('@',1)[1]))]
            if last == 'read': return [(m, mk('sym', 'DATA@'+r[1].split('@',1)[1]))]
            return [(m, TOP)]
        if n == 'len' and ev.args and ev.args[0][0]=='sym' and ev.args[0][1].startswith('SUM@'): return [(m, const(20))]
        if n == 'bup.helpers.chunkyreader': 
            f = ev.args[0]
            if f[0]=='sym' and f[1].startswith('FILE@'): return [(m, mk('tuple', (mk('sym','DATA@'+f[1].split('@',1)[1]),)))]
            return [(m, TOP)]
        if n in ('bup.helpers.Sha1','hashlib.sha1'):
            h = mk('sym', f'HASH@{site_id(ev.func.qual, nid(ev.node))}'); z = st.fork(); z.heap[(h,'$fed')] = ev.args[0] if ev.args else NONE
            return [(z, h)]
        if r is not None and r[0]=='sym' and r[1].startswith('HASH@'):
            if last == 'update': z = st.fork(); z.heap[(r,'$fed')] = ev.args[0]; return [(z, NONE)]
            if last in ('digest','hexdigest'):
                fed = st.heap.get((r,'$fed'))
                if fed is not None and fed[0]=='sym' and fed[1].startswith('DATA@'):
                    _, s, v = fed[1].split('@')
                    return [(m, mk('sym', f'SUM@{s}@{v}' if v == 'ok' else f'ACTUAL@{s}@{v}'))]
                return [(m, mk('sym','DIGEST'))]
        if n == 'subprocess.run': return self.tool_run(st, ev)
        if n in ('subprocess.call','subprocess.check_call','subprocess.Popen'): raise AnalysisError(f'{ev.where}: {n} is not modelled for fsck')
        if n in ('os.rename','os.replace','shutil.move'):
            if len(ev.args) > 1 and has(ev.args[1]) and suffix(ev.args[1]) in ('par2',) and self.get(m,'create') == 'ok':
                # the parity files reach their places; whether the recovery volume really did is observed later
                return [(self.set(m, parity='both', par2='ok', vol='ok', published=True), NONE),
                        (self.fault(self.set(m, parity='damaged', par2='ok', vol='no', published=True)), NONE), (m, ('raise', ANYOS))]
            return [(m, NONE), (m, ('raise', ANYOS))]
        if n in ('os.unlink','os.remove') and ev.args and has(ev.args[0]):
            s = suffix(ev.args[0])
            if s in ('par2','vol000+200.par2') or s == 'pack' or self.mode != 'repair':
                self.say('deletes', f'{ev.func.qual}:{n}', f'a .{s} file of a pack is deleted', ev, st)
            return [(self.set(m, **{'sum.'+s: 'missing', 'idx': None}) if s == 'idx' else m, NONE), (m, ('raise', mk('exc','FileNotFoundError',()))), (m, ('raise', mk('exc','PermissionError',())))]
        if n == 'os.fork':
            if not rep_now: return [(m, mk('sym','PIDX'))]
            self.rep.count('worker_starts')
            child = self.set(m, role='child', waiting=None, stored=None)
            return [(self.set(m, waiting=True, stored=None), PIDREP), (child, const(0)), (m, ('raise', ANYOS))]
        if n in ('os.wait','os.waitpid','os.wait3','os.wait4'):
            out = []
            w = lambda p, cs: mk('tuple', (p, phi([const(c) for c in cs])) + ((TOP,) if n in ('os.wait3','os.wait4') else ()))
            if self.get(m,'waiting'):
                for v, cs in WORKERS.items():
                    if v == 'repaired' and self.mode != 'repair': continue
                    m2 = self.set(m, waiting=None, verdict=v.split()[0], how='signal' if ' ' in v else None)
                    if v != 'good': m2 = self.fault(m2)
                    elif self.mode == 'generate' and self.get(m,'parity') == 'none':
                        out.append((self.fault(self.set(m2, parity='damaged', par2='ok', vol='no')), w(PIDREP, cs)))
                        m2 = self.set(m2, parity='both', par2='ok', vol='ok')
                    out.append((m2, w(PIDREP, cs)))
            if not (n == 'os.waitpid' and ev.args and ev.args[0] is PIDREP):
                out += [(m, w(mk('sym','PIDX'), (0,))), (self.fault(m), w(mk('sym','PIDX'), WORKERS['bad'])), (self.set(m, fault=True, how='other'), w(mk('sym','PIDX'), (9,)))]
                if self.mode == 'repair': out.append((self.fault(m), w(mk('sym','PIDX'), WORKERS['repaired'])))
            return out + [(m, ('raise', mk('exc','ChildProcessError',())))]
        if n in ('os.WIFEXITED','os.WEXITSTATUS','os.WIFSIGNALED','os.WTERMSIG','os.waitstatus_to_exitcode'):
            from .p08 import WSTATUS
            if all(a[0]=='c' for a in alts(ev.args[0])): return [(m, phi([const(WSTATUS[n](a[2])) for a in alts(ev.args[0])]))]
        if n == 'len' and ev.args and self.is_bag(ev.args[0]) and ev.interp.ex_get(st, ev.args[0]) is None:
            s = self.get(m,'stored')
            return [(m, mk('nat', 1 if s is not None and unprev(ev.args[0]) is unprev(s) else 0))]
        return None
    def is_bag(self, t): return t[0] in ('dict','lset') or t[0]=='list' or t[0]=='call' and t[1][0]=='ext' and t[1][1] in ('dict','set','list')
    def decide(self, st, t):
        s = self.get(st.mon,'stored')
        if s is not None and unprev(t) is unprev(s): return True
        if t[0]=='cmp' and t[1]=='in' and t[2] is PIDREP and self.is_bag(t[3]): return s is not None and unprev(t[3]) is unprev(s)
        if t[0]=='cmp' and t[1]=='==' and all(x[0]=='sym' and x[1].split('@')[0] in ('SUM','ACTUAL') for x in t[2:4]): return t[2] is t[3]
        if t[0]=='cmp' and t[1]=='is' and t[3] is NONE and t[2][0]=='sym' and t[2][1].split('@')[0] in ('SUM','ACTUAL','FILE'): return False
        if t is PIDREP or t is mk('sym','PIDX') or t[0]=='sym' and t[1].split('@')[0] in ('SUM','ACTUAL'): return True
        if t[0]=='cmp' and t[1]=='==' and PIDREP in t[2:4] and t[2] is not t[3] and all(x[0] in ('c','sym') for x in t[2:4]): return False
        return None
    def tool_run(self, st, ev):
        m = st.mon; a, rep = words(st, ev.arg(0,'args',NONE)); w = ev.arg(None,'cwd',NONE)
        rep = rep or has(w)
        cp = lambda *cs: mk('nt','CompletedProcess',('returncode','stdout','stderr'),(phi([const(c) for c in cs]), mk('sym','STDOUT'), mk('sym','STDERR')))
        BAD = (1, 2, 128, -9)
        gone = (self.fault(m) if rep else m, ('raise', mk('exc','FileNotFoundError',())))
        if is_probe(st, ev, ev.arg(0,'args',NONE)):
            if b'--help' in a: return [(m, cp(0))] if self.tool else [(m, cp(*BAD)), gone]
            return [(m, cp(0, *BAD)), gone]
        kind = ('git-verify' if b'verify-pack' in a else 'index-pack' if b'index-pack' in a else
                'par2-'+next((x.decode() for x in (b'verify', b'repair', b'create') if x in a), '?') if b'par2' in a else '?')
        self.seen.add(kind); self.rep.count('tool_runs')
        self.rep.sample(f'{ev.where}: {kind}{" on the pack" if rep else ""}')
        if kind in ('?','par2-?'): raise AnalysisError(f'{ev.where}: unknown tool {sorted(a)[:6]}')
        check = ev.arg(None,'check',FALSE)
        if not rep:
            return [(m, cp(0)), (self.fault(m), cp(*BAD)), gone]
        want = {'par2-repair': 'repair', 'index-pack': 'repair', 'par2-create': 'generate'}.get(kind)
        if want and self.mode != want: self.say('modifies', f'{ev.func.qual}:{kind}', f'{kind} is run although --{want} was not asked for', ev, st)
        if kind.startswith('par2') and not self.enabled: self.say('par2-disabled', f'{ev.func.qual}:{kind}', f'{kind} is run although par2 is disabled or not there', ev, st)
        if kind == 'par2-create' and self.get(m,'parity') != 'none': self.say('regenerated', f'{ev.func.qual}:{kind}', 'parity files are generated although there are some', ev, st)
        key = {'git-verify': 'gitv', 'index-pack': 'idx', 'par2-verify': 'par2v', 'par2-repair': 'par2r', 'par2-create': 'create'}[kind]
        extra = {}
        if kind == 'par2-repair': extra = {'sum.idx': None, 'sum.pack': None}
        ok = self.set(m, **{key: 'ok'}, **extra); bad = self.fault(self.set(m, **{key: 'bad'}, **extra))
        if check is TRUE: return [(ok, cp(0)), (bad, ('raise', mk('exc','subprocess.CalledProcessError',()))), gone]
        return [(ok, cp(0)), (bad, cp(*BAD)), gone]
    def call(self, st, ev):
        n = ev.name; m = st.mon
        if self.get(m,'waiting') and n in ('[]=','.add','.append','dict.__setitem__') and PIDREP in ev.args: return [self.set(m, stored=ev.recv)]
        if n in ('del[]','.pop','.remove','.discard') and PIDREP in ev.args: return [self.set(m, stored=None)]
        if n in ('.clear',) and self.get(m,'stored') and unprev(ev.recv) is unprev(self.get(m,'stored')): return [self.set(m, stored=None)]
        return None
    def on_handler(self, st, exc, handler, func):
        # an unexpected exception is a failure of its own
        if exc[0]=='exc' and (exc[1] in ('*','PermissionError','OSError','ChildProcessError') or handler.type is None or ast.unparse(handler.type) in ('Exception','BaseException')): return self.set(st.mon, fault=True, raised=True)
    def raises(self, ev, default):
        n = ev.name.rsplit('.',1)[-1]
        if n in ('flush','write','byte_stream','basename','path_msg','log','progress'): return False
        return default
    def state_of(self, m):
        """What was observed about the pack: good, repaired, bad or None (not examined)."""
        g = lambda k: self.get(m, k)
        if g('verdict'): v = g('verdict')
        elif self.mode == 'generate':
            v = 'bad' if g('create') == 'bad' else 'good' if self.parity == 'both' or g('create') == 'ok' and g('published') else None
        else:
            sums = [g('sum.idx'), g('sum.pack')]
            if not self.quick: git = g('gitv')
            else: git = 'bad' if any(s in ('bad','missing') for s in sums) else 'ok' if all(s == 'ok' for s in sums) else None
            if self.mode == 'verify':
                p = g('par2v') if self.enabled and self.parity == 'both' else 'ok'
                v = 'bad' if 'bad' in (git, p) else 'good' if git == p == 'ok' else None
            elif g('par2r') == 'ok':
                v = 'repaired' if g('idx') == 'ok' or g('sum.idx') == 'ok' and g('idx') is None else 'bad'
            elif g('par2r') == 'bad': v = 'bad'
            else: v = 'bad' if git == 'bad' else 'good' if git == 'ok' else None
        if g('parity') == 'damaged' and not (g('role') == 'child' and g('published')): v = 'bad'     # fsck itself looks again at what a worker made
        return v
    def judge(self, st, code, where):
        m = st.mon; v = self.state_of(m); child = self.get(m,'role') == 'child'
        vals = alts(code)
        self.rep.count('exits')
        who = 'a worker of fsck' if child else 'fsck'; con = 'bup.cmd.fsck.main' + (' worker' if child else '')
        if any(x[0]!='c' for x in vals): 
            self.rep.violation('P22', f'unknown-status {con}', f'{who} exits with {show(code)[:80]}, not one of its statuses ({self.cfg})', where, st.trail_list()); return v
        vals = {x[2] if x[2] is not None else 0 for x in vals}
        def say(rid, msg): self.rep.violation('P22', f'{rid} {con} {self.mode}', f'{msg} ({self.cfg})', where, st.trail_list())
        if v is None and vals & {0, 1}: say('unverified', f'{who} can exit with status {min(vals)} without the enabled checks having been made of a pack')
        elif v == 'bad' and vals & {0, 1}: say('damage-not-reported', f'{who} can exit with status {min(vals)} although a pack or its parity is damaged or a tool failed')
        elif v == 'repaired' and 0 in vals: say('repair-not-reported', f'{who} can exit with status 0 although a pack had to be repaired')
        elif v == 'good' and self.mode != 'repair' and 1 in vals: say('repair-claimed', f'{who} can exit with status 1 although no repair was requested')
        elif v == 'good' and not self.get(m,'fault') and vals - {0}: say('false-alarm', f'{who} can exit with status {max(vals)} although every check succeeded')
        elif v == 'good' and child and vals - {0} and not self.get(m,'raised'): say('false-alarm', f'{who} can exit with status {max(vals)} although every check succeeded')
        if v == 'repaired' and child and vals - {1} and not self.get(m,'raised'): say('repair-not-reported', f'{who} exits with status {max(vals)} after a successful repair')
        return v if not (vals - {0, 1}) else None

def globals_of(prog, mod):
    """Module variables that start out as constants."""
    out = {}
    for n in prog.mods[mod].tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
            for t in n.targets:
                if isinstance(t, ast.Name): out[(('mod', mod), t.id)] = const(n.value.value)
    return out

def check(prog, rep, tier):
    rep.rule('P22', 'bup.cmd.fsck.main is followed for every combination of mode, --quick, --jobs, par2 there, --disable-par2, packs named or found, and state of the parity files, for one '
             'representative pack; at every exit of fsck and of its workers: status 0 or 1 only if the enabled checks were made of the pack and succeeded (or it was repaired), 1 only if repair '
             'was requested, 0 not after a repair, 0 if nothing failed; nothing is repaired, indexed or generated unless asked for, existing parity is not generated again and never deleted')
    main = prog.funcs['bup.cmd.fsck.main']; seen = set(); outcomes = set()
    for mode in ('verify','generate','repair'):
        for quick in (False, True):
            for jobs in (False, True):
                for tool, disable in ((True, False), (True, True), (False, False)):
                    for parity in ('none','both','damaged'):
                        if mode == 'generate' and quick: continue
                        if not (tool and not disable) and (mode != 'verify' or jobs and quick): 
                            if jobs or quick or parity != 'none': continue
                        rule = FsckRule(rep, mode, quick, jobs, tool, disable, jobs != quick, parity)
                        it = Interp(prog, rule)
                        heap = {(OPT, k): const(v) for k, v in dict(par2_ok=False, repair=mode=='repair', generate=mode=='generate', quick=quick, disable_par2=disable).items()}
                        heap[(OPT,'jobs')] = mk('nat', 1) if jobs else NONE
                        heap[(OPT,'verbose')] = mk('sym','VERBOSE')
                        mon = rule.set(rule.initial, parity=parity)
                        rets, excs = it.run(main, [sym('ARGV')], heap=heap, env=globals_of(prog, 'bup.cmd.fsck'), mon=mon)
                        rep.analysed(it); rep.count('configurations')
                        where = f'{main.mod.path}:{main.node.lineno}'
                        ends = [(s, v if v is not None else NONE) for s, v in rets]
                        ends += [(s, x[2][0] if x[2] else NONE) for s, x in excs if x[0]=='exc' and x[1] in ('SystemExit','os._exit')]
                        res = {rule.judge(s, v, where) for s, v in ends}
                        outcomes |= {(mode, r) for r in res if r}
                        if not ends: raise AnalysisError(f'fsck never exits ({rule.cfg})')
                        if not rule.enabled and mode != 'verify' and res != {None}:
                            rep.violation('P22', f'without-par2 {main.qual} {mode}', f'fsck can exit with success although there is no par2 to {mode} with ({rule.cfg})', where, ends[0][0].trail_list())
                        seen |= rule.seen
    for need in (('verify','good'), ('generate','good'), ('repair','good'), ('repair','repaired')):
        if need not in outcomes: raise AnalysisError(f'no run of fsck with mode and result {need}')
    if seen != {'git-verify','index-pack','par2-verify','par2-repair','par2-create'}: raise AnalysisError(f'tools seen: {sorted(seen)}')
    par2_query(prog, rep)
    rep.need('configurations', 30); rep.need('tool_runs', 60); rep.need('exits', 60); rep.need('checksummed_files', 8); rep.need('worker_starts', 10)

def par2_query(prog, rep):
    """--par2-ok answers 0 exactly if par2 works."""
    main = prog.funcs['bup.cmd.fsck.main']
    for tool in (True, False):
        rule = FsckRule(rep, 'verify', False, False, tool, False, False, 'none')
        heap = {(OPT, k): const(v) for k, v in dict(par2_ok=True, repair=False, generate=False, quick=False, disable_par2=False, jobs=None).items()}
        it = Interp(prog, rule)
        rets, excs = it.run(main, [sym('ARGV')], heap=heap, env=globals_of(prog, 'bup.cmd.fsck'), mon=rule.set(rule.initial, parity='none'))
        rep.analysed(it)
        codes = [(s, x[2][0] if x[2] else NONE) for s, x in excs if x[1]=='SystemExit'] + [(s, v) for s, v in rets]
        for s, c in codes:
            if any((a is const(0) or a is NONE or a is FALSE) != tool for a in alts(c)):
                rep.violation('P22', f'par2-ok {main.qual}', f'fsck --par2-ok exits with {show(c)} although par2 is {"there" if tool else "not there"}', f'{main.mod.path}:{main.node.lineno}', s.trail_list())
        if not codes: raise AnalysisError('fsck --par2-ok does not exit')
