"""Typestate of files being written: buffered -> in OS -> synced, keyed by path term."""
from .core import *

OPENERS = ('open','builtins.open','io.open','bup.io.open','os.fdopen')
FSYNC = ('os.fsync','os.fdatasync','bup.helpers.fsync','bup.helpers.fdatasync','bup._helpers.fsync')
RENAME = ('os.rename','os.replace','os.renames','shutil.move')

def path_of(t):
    """Path term with the name of an open file replaced by the path it was opened with."""
    t2 = unprev(t)
    if t2[0]=='attr' and t2[2]=='name':
        r = opened(t2[1])
        if r: return r[0]
    return t
def opened(t):
    """(path term, mode) when t is a file object / fd / map derived from an opened path, else None."""
    t = unprev(t)
    if t[0]!='call': return None
    n = callee_name(t)
    a, kw = t[2], dict(t[3])
    if n in OPENERS and a:
        mode = a[1] if len(a)>1 else kw.get('mode', const('r'))
        p = a[0]
        o = kw.get('opener')
        if n=='os.fdopen':
            r = opened(p)
            return (r[0] if r else p, mode)
        return (p, mode)
    if n=='os.open' and a:
        return (a[0], a[1] if len(a)>1 else NONE)
    if n=='.fileno' or n=='.detach': return opened(t[1][1]) if t[1][0]=='attr' else None
    if n in ('io.BufferedWriter','io.BufferedRandom') and a: return opened(a[0])
    if n in ('mmap.mmap','bup.io.mmap') and a: return opened(a[0])
    return None
def opened_any(t):
    out = []
    for x in alts(t):
        x = unprev(x)
        if x[0]=='obj': x2 = x
        r = opened(x)
        if r: out.append(r)
        elif x[0]=='sub' and is_call(unprev(x[1]), 'tempfile.mkstemp') : out.append((mk('sub', x[1], const(1)), const('fd')))
    return out

def mode_writes(m):
    if m[0]=='c' and isinstance(m[2], str): return any(c in m[2] for c in 'wax+')
    if m[0]=='ext': return m[1] not in ('os.O_RDONLY','os.O_PATH','os.O_DIRECTORY')
    if m[0]=='c': return False
    if m[0]=='bin': return any(x[0]=='ext' and x[1] in ('os.O_WRONLY','os.O_RDWR','os.O_CREAT') for x in subterms(m))
    return True

class FileState:
    """Helper on an immutable dict (frozenset of items): pathparts -> 'B' buffered, 'O' os-dirty, 'S' synced."""
    @staticmethod
    def apply(files, ev):
        """New files dict after event, or None when unchanged."""
        n = ev.name
        if n in OPENERS or n=='os.open':
            r = opened(mk('call', mk('ext', n), ev.args, ev.kw, 0))
            if r and mode_writes(r[1]) and n!='os.fdopen':
                p = pathparts(r[0]); f = dict(files)
                m = r[1]
                if m[0]=='c' and isinstance(m[2], str) and ('a' in m[2] or m[2].startswith('r')) and p in f: return None
                f[p] = 'O'; return f
            return None
        if n in ('.write','.writelines','.truncate','.seek') or n in ('os.write','os.truncate','os.ftruncate'):
            tgt = ev.recv if n[0]=='.' else (ev.args[0] if ev.args else None)
            if tgt is None: return None
            f = dict(files); hit=False
            for p, m in opened_any(tgt):
                if not mode_writes(m) and n!='os.truncate': continue
                p = pathparts(p)
                if n=='.seek':
                    if f.get(p)=='B': f[p]='O'; hit=True
                    continue
                f[p] = 'B' if n in('.write','.writelines') else ('B' if f.get(p)=='B' else 'O'); hit=True
            return f if hit else None
        if n in ('.flush','.close','.__exit__','os.close'):
            tgt = ev.recv if n[0]=='.' else ev.args[0]
            f = dict(files); hit=False
            for p, m in opened_any(tgt):
                p = pathparts(p)
                if f.get(p)=='B': f[p]='O'; hit=True
            return f if hit else None
        if n in ('pickle.dump','json.dump','marshal.dump','shutil.copyfileobj') and len(ev.args)>1:
            f = dict(files); hit=False
            for p, m in opened_any(ev.args[1]):
                if mode_writes(m): f[pathparts(p)] = 'B'; hit=True
            return f if hit else None
        if n in FSYNC:
            f = dict(files); hit=False
            for p, m in opened_any(ev.args[0]) if ev.args else []:
                p = pathparts(p)
                if f.get(p)=='O': f[p]='S'; hit=True
            return f if hit else None
        # anything else handed a writable mapping of the file, or item stores into it, dirties it
        f = dict(files); hit=False
        for a in list(ev.args) + ([ev.recv] if n=='[]=' and ev.recv is not None else []):
            for x in alts(a):
                x = unprev(x)
                if x[0]=='call' and callee_name(x) in ('mmap.mmap','bup.io.mmap'):
                    if any(y[0]=='ext' and y[1]=='mmap.MAP_PRIVATE' for y in subterms(x)): continue
                    r = opened(x)
                    if r and pathparts(r[0]) in f and n not in ('len',): 
                        p = pathparts(r[0])
                        if f[p]=='S': f[p]='O'; hit=True
        return f if hit else None

def rename_paths(ev):
    """(src, dst) path terms with dir_fd folded in."""
    src, dst = phi([path_of(x) for x in alts(ev.args[0])]), ev.args[1]
    kw = dict(ev.kw)
    def fold(p, fd):
        if fd is None: return p
        out=[]
        for x in alts(fd):
            r = opened(unprev(x))
            base = r[0] if r else x
            out.append(mk('call', mk('ext','os.path.join'), (base, p), (), 0))
        return phi(out)
    return fold(src, kw.get('src_dir_fd')), fold(dst, kw.get('dst_dir_fd'))
