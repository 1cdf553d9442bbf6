"""Apply small source variants to a scratch copy of lib/bup and run checks on it.
Usage: mut.py FILE.py [name...]   where FILE.py defines M = [(name, prop, path, old, new, expect)], expect in 'catch','quiet'."""
import sys, os, shutil, subprocess, tempfile, importlib.util, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(m):
    name, prop, edits, expect = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree(os.environ.get('MUT_REPO','/repo')+'/lib', d+'/lib', ignore=shutil.ignore_patterns('__pycache__'))
        for path, old, new in edits:
            f = f'{d}/{path}'; s = open(f).read()
            if s.count(old) != 1: return name, prop, expect, 'BAD-EDIT', f'{path}: {s.count(old)} matches of {old[:50]!r}'
            open(f,'w').write(s.replace(old, new))
            try: compile(open(f).read(), f, 'exec') if f.endswith('.py') else None
            except SyntaxError as ex: return name, prop, expect, 'BAD-EDIT', str(ex)
        e = dict(os.environ, BUP_SA_REPO=d, BUP_SA_EVIDENCE=d+'/ev')
        p = subprocess.run([sys.executable,'-m','sa.run',prop], cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        got = {0:'quiet',1:'catch'}.get(p.returncode, f'rc{p.returncode}')
        lines = [l for l in p.stdout.splitlines() if '[' in l and ']' in l and ': [' in l]
        return name, prop, expect, got, (lines[0] if lines else p.stdout[-300:] if got not in('quiet','catch') else '')
    finally: shutil.rmtree(d)
def main():
    spec = importlib.util.spec_from_file_location('m', sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    ms = []
    for m in mod.M:
        name, prop = m[0], m[1]
        if sys.argv[2:] and not any(a in (name, prop) for a in sys.argv[2:]): continue
        edits = m[2] if isinstance(m[2], list) else [(m[2], m[3], m[4])]
        ms.append((name, prop, edits, m[-1]))
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for name, prop, expect, got, info in ex.map(run, ms):
            ok = expect == got
            bad += not ok
            print(('ok  ' if ok else 'BAD ')+f'{name} {prop}: expected {expect}, got {got}  {info.strip()[:150]}')
    print('bad:', bad, 'of', len(ms)); return bad > 0
sys.exit(main())
