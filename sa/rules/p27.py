"""P27: the local repository, the remote repository and the server offer one contract."""
import ast
from ..core import *
from ..absint import Interp, State
from .. import exch

BASE, LOCAL, REMOTE = 'bup.repo.base.RepoProtocol', 'bup.repo.local.LocalRepo', 'bup.repo.remote.RemoteRepo'
CLIENT = 'bup.client.Client'
PW = mk('obj', 'bup.git.PackWriter', 'W'); CL = mk('obj', CLIENT, 'C')
REPODIR, LOCATION = sym('REPODIR'), sym('LOCATION')
# nothing reaches the repository through these
LIMIT = ('compression_level','max_pack_size','max_pack_objects')
LIMITS = ', '.join(f'{x}=A_{x}' for x in LIMIT)
SKIP = {'is_remote','finish_writing','abort_writing','close'}
def holds(x, t): return contains(x, lambda y: y is t)
class Sig:
    """Parameters of a method: those that may be given by position, those that must be named, and the defaults."""
    def __init__(self, node):
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        if self.pos and self.pos[0] in ('self','cls'): self.pos = self.pos[1:]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = {}
        for n, d in zip(reversed(self.pos), reversed(a.defaults)): self.defaults[n] = ast.unparse(d)
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None: self.defaults[n] = ast.unparse(d)
        self.var = bool(a.vararg or a.kwarg)
    def names(self): return self.pos + self.kwonly
class ContractRule(Rule):
    exact = True
    initial = ()            # calls made: (name, args, kw)
    def relevant(self, f): return f.mod.name in ('sa_harness','bup.repo.local','bup.repo.remote')
    def raises(self, ev, default): return False
    def decide(self, st, t):
        if t in (REPODIR, LOCATION, PW, CL) or t[0]=='sym' and t[1].startswith('A_'): return True
        if t[0]=='cmp' and t[1]=='==' and any(x[0]=='sym' and x[1].startswith('A_') for x in t[2:]): return False
        if t[0]=='cmp' and t[1]=='in' and t[2][0]=='sym' and t[2][1].startswith('A_'): return True
        return None
    def model(self, st, ev):
        n = ev.name; m = st.mon; last = n.rsplit('.',1)[-1]; a = ev.args
        if n == 'USE': return [(m, NONE)]
        if last == 'realpath': return [(m, a[0])]
        if n == 'bup.repo.base._make_base': return [(m + (note(ev),), sym('BASE'))]
        if n in ('bup.client.Client','bup.client.Client.__init__'): return [(m, CL)]
        if n.endswith('PackWriter') or n == 'bup.git.PackWriter.__init__': return [(m + (note(ev, 'bup.git.PackWriter'),), PW)]
        if n.endswith('LocalPackStore') or n == 'bup.git.LocalPackStore.__init__': return [(m + (note(ev, 'bup.git.LocalPackStore'),), sym('STORE'))]
        if last == 'supports': return [(m, TRUE)]
        if last == 'new_packwriter': return [(m + (note(ev),), PW)]
        if n.startswith(('bup.git.','bup.vfs.','bup.client.')) or ev.recv is not None and (ev.recv in (PW, CL) or ev.recv[0]=='sym' and ev.recv[1].startswith('A_') or any(len(x) > 4 and x[4] is ev.recv for x in m)):
            r = mk('call', mk('ext', 'result:' + n), tuple(a), tuple(ev.kw), None)
            if ev.recv is not None and ev.recv[0]=='sym': return [(m + ((n, (ev.recv,) + tuple(a), tuple(ev.kw), None, None),), r)]
            return [(m + (note(ev) + (r,),), r)]
        if n.startswith('A_'): return [(m + ((n, (sym(n),) + tuple(a), tuple(ev.kw), None, None),), NONE)]
        if n == 'subprocess.Popen': return [(m + (('Popen', tuple(a), tuple(ev.kw), None, None),), sym('PROC'))]
        if ev.recv is not None and ev.recv[0]=='attr' and ev.recv[1] is sym('PROC'): return [(m, const(b''))]
        if ev.recv is sym('PROC'): return [(m, const(0))]
        return None
    def norm(self, st, t): return t
def note(ev, name=None): return (name or ev.name, tuple(ev.args), tuple(ev.kw), ev.callee.qual if ev.callee is not None else None)
def bound(prog, c):
    """{parameter: value} of a call to a known function, or None."""
    f = prog.funcs.get(c[3]) if c[3] else prog.funcs.get(c[0])
    if f is None and c[0] in prog.classes: f = prog.find_method(c[0], '__init__')
    if f is None: return None
    sig = Sig(f.node); args = list(c[1])
    if args and args[0] in (PW, CL) and f.cls is not None: args = args[1:]
    out = dict(zip(sig.pos, args)); out.update(c[2]); return out

def implementation(prog, cls, name):
    """(how the class implements it, signature or None): its own method, or what it is given when it is made."""
    c = prog.classes[cls]
    f = prog.find_method(cls, name)
    if f is not None and f.cls.qual != BASE: return f, Sig(f.node)
    init = prog.find_method(cls, '__init__')
    for st in ast.walk(init.node):
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr == name: return init, delegate(prog, cls, st.value)
    return None, None
def delegate(prog, cls, e):
    """The signature behind what an attribute is set to."""
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name) and e.value.id == 'self':
            f = prog.find_method(cls, e.attr); return Sig(f.node) if f else None
        f = prog.funcs.get(f'{CLIENT}.{e.attr}') if ast.unparse(e.value) == 'self.client' else None
        return Sig(f.node) if f else None
    return None

def check(prog, rep, tier):
    rep.rule('P27', 'each operation of the repository interface is followed through the local repository to the functions it delegates to, and through the remote repository, the connection and the server: '
             'every argument arrives at the parameter it was given for, what the repository gives is what the caller gets, a missing object is reported as such, and both accept the calls the interface allows')
    for q in (BASE, LOCAL, REMOTE):
        if q not in prog.classes: raise AnalysisError(f'{q} not found')
    iface = {}
    for st in prog.classes[BASE].node.body:
        if isinstance(st, ast.FunctionDef) and not st.name.startswith('_'): iface[st.name] = Sig(st)
    if len(iface) < 12: raise AnalysisError(f'only {len(iface)} operations in {BASE}')
    def where(f): return f'{f.mod.path}:{f.node.lineno}'
    for name, want in iface.items():
        for cls in (LOCAL, REMOTE):
            f, sig = implementation(prog, cls, name)
            if f is None:
                c = prog.classes[cls]
                rep.violation('P27', f'{cls}.{name}', f'{name} of the repository interface is not provided', f'{c.mod.path}:{c.node.lineno}'); continue
            rep.count('implementations')
            if sig is None or sig.var: continue
            msg = None
            for i, p in enumerate(want.pos):
                if i >= len(sig.pos) or sig.pos[i] != p and (sig.pos[i] in want.names() or p in sig.names()): msg = f'parameter {p} is not where the interface has it'; break
            for p in want.kwonly:
                if p not in sig.names(): msg = f'parameter {p} is missing'
            for p, d in want.defaults.items():
                if p in sig.names() and sig.defaults.get(p) != d: msg = f'{p} is {sig.defaults.get(p, "required")}, not {d}, when it is not given'
            for p in sig.names():
                if p not in want.names() and p not in sig.pos[:len(want.pos)] and p not in sig.defaults: msg = f'{p} has to be given'
            if msg: rep.violation('P27', f'{cls}.{name}', msg, where(f))
    # through the local repository and the remote one
    text = ['from bup.repo.local import LocalRepo', 'from bup.repo.remote import RemoteRepo',
            f'def local(): return LocalRepo(repo_dir=REPODIR, {LIMITS})', f'def remote(): return RemoteRepo(LOCATION, {LIMITS})']
    ops = {n: s for n, s in iface.items() if n not in SKIP}
    ops['rev_list'] = Sig(prog.funcs['bup.git.rev_list'].node)
    ops['rev_list'].pos = [p for p in ops['rev_list'].pos if p != 'repo_dir']; ops['rev_list'].kwonly = [p for p in ops['rev_list'].kwonly if p != 'repo_dir']
    env = {(('mod','sa_harness'),'REPODIR'): REPODIR, (('mod','sa_harness'),'LOCATION'): LOCATION, (('mod','sa_harness'),'USE'): sym('USE')}
    for x in LIMIT: env[(('mod','sa_harness'), f'A_{x}')] = sym(f'A_{x}')
    for n, s in ops.items():
        full = ', '.join([f'A_{n}_{p}' for p in s.pos] + [f'{p}=A_{n}_{p}' for p in s.kwonly])
        for p in s.names(): env[(('mod','sa_harness'), f'A_{n}_{p}')] = sym(f'A_{n}_{p}')
        for w in ('local','remote'): text.append(f'def {w}_{n}():\n    r = {w}()\n    x = r.{n}({full})\n    USE(x)\n    return x')
        text.append(f'def iter_{n}():\n    r = local()\n    for x in r.{n}({full}): USE(x)')
    prog.add_harness('\n'.join(text) + '\n' + exch.HARNESS)
    for n, s in ops.items():
        for w, cls in (('local', LOCAL), ('remote', REMOTE)):
            f, sig = implementation(prog, cls, n)
            if f is None: continue
            q = f'{cls}.{n}'
            gen = f.name == n and f.is_gen
            rule = ContractRule(); it = Interp(prog, rule)
            rets, excs = it.run(prog.funcs[f'sa_harness.{"iter" if gen and w == "local" else w}_{n}'], [], mon=(), env=env)
            rep.analysed(it); rep.count('delegations')
            for s_, x in excs:
                if x[1] == 'AssertionError': continue       # what the operation demands of its caller
                rep.violation('P27', q, f'called as the interface allows, raises {show(x)[:80]}', where(f), s_.trail_list())
            for st, v in rets:
                calls = [c for c in st.mon]
                for p in s.names():
                    t = sym(f'A_{n}_{p}')
                    uses = [c for c in calls if any(holds(x, t) for x in c[1]) or any(holds(x, t) for _, x in c[2])]
                    if not uses: rep.violation('P27', q, f'{p} is not passed on', where(f), st.trail_list()); continue
                    rep.count('arguments_passed')
                    for c in uses:
                        b = bound(prog, c)
                        if b is None: continue
                        for k, x in b.items():
                            if x is t and k != p and k in s.names(): rep.violation('P27', q, f'{p} is passed as {k} to {c[0]}', where(f), st.trail_list())
                            if k == p and x is not t and not holds(x, t): rep.violation('P27', q, f'{c[0]} gets {show(x)[:60]} for {p}', where(f), st.trail_list())
                for c in calls:
                    # the limits asked for reach what writes the packs
                    src = {'bup.repo.base._make_base': lambda x: sym(f'A_{x}'), 'bup.git.PackWriter': lambda x: mk('attr', sym('BASE'), x),
                           CLIENT + '.new_packwriter': lambda x: mk('attr', sym('BASE'), x)}.get(c[3] if c[3] and not c[3].endswith('__init__') else c[0])
                    if src is None: continue
                    b = bound(prog, c)
                    if b is None: raise AnalysisError(f'{c[0]} not found')
                    for x in LIMIT:
                        rep.count('limits_passed')
                        if b.get(x) is not src(x): rep.violation('P27', cls, f'{c[0].rsplit(".", 1)[-1]} gets {show(b.get(x, NONE))[:60]} for {x}, not {show(src(x))}', where(f), st.trail_list())
                if w == 'local':
                    for c in calls:
                        g = prog.funcs.get(c[3]) if c[3] else prog.funcs.get(c[0])
                        b = bound(prog, c)
                        if g is None or b is None or g.mod.name != 'bup.git': continue
                        for p in ('repo_dir', 'path'):
                            if p not in Sig(g.node).names(): continue
                            rep.count('repository_arguments')
                            if not holds(b.get(p, NONE), REPODIR): rep.violation('P27', q, f'{c[0]} is not told the repository', where(f), st.trail_list())
                        if c[0].endswith('.LocalPackStore') and not any(holds(x, REPODIR) for x in list(c[1]) + [y for _, y in c[2]]):
                            rep.violation('P27', q, f'{c[0]} is not told the repository', where(f), st.trail_list())
                if not gen:
                    made = [c[4] for c in calls if len(c) > 4 and c[4] is not None]
                    if made and n != 'send_index' and not any(holds(v, x) for x in made): rep.violation('P27', q, f'gives {show(v)[:60]}, not what {calls[-1][0]} gives', where(f), st.trail_list())
    # the client's own writer
    f = prog.funcs.get(CLIENT + '.new_packwriter')
    if f is None: raise AnalysisError(f'{CLIENT}.new_packwriter not found')
    it = Interp(prog, ContractRule())
    rets, excs = it.run(f, [CL], kwargs={x: sym(f'A_{x}') for x in LIMIT}, mon=(), env=env)
    rep.analysed(it)
    for st, v in rets:
        made = [c for c in st.mon if c[0]=='bup.git.PackWriter']
        if not made: rep.violation('P27', f.qual, 'makes no PackWriter', where(f), st.trail_list())
        for c in made:
            b = bound(prog, c)
            for x in LIMIT:
                rep.count('limits_passed')
                if b.get(x) is not sym(f'A_{x}'): rep.violation('P27', f.qual, f'PackWriter gets {show(b.get(x, NONE))[:60]} for {x}', where(f), st.trail_list())
    # and over the connection
    res = exch.outcomes(prog, rep, with_failures=True)
    exch.report(prog, rep, 'P27', res, ('args','values','kind','silent','none','ended'))
    rep.need('implementations', 24); rep.need('delegations', 20); rep.need('arguments_passed', 40); rep.need('repository_arguments', 4); rep.need('operations_followed', 25)
