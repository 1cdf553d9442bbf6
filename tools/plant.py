"""Create a planted bug: patch.diff, demo.sh, demo.py and meta.json under seeded/<id>,
after confirming in the scratch copy /tmp/pw that demo passes without and fails with the change."""
import json, os, subprocess, sys
PW = '/tmp/pw'
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
exec "$PWD/dev/bup-python" "$here/demo.py"
'''
HEAD = '''import os, sys, tempfile, shutil, subprocess
os.environ['GIT_CONFIG_GLOBAL'] = '/dev/null'
tmp = tempfile.mkdtemp(prefix='demo-').encode()
import atexit
atexit.register(shutil.rmtree, tmp, True)
os.environb[b'HOME'] = tmp
os.environb[b'BUP_DIR'] = tmp + b'/bup'
for k in 'GIT_AUTHOR', 'GIT_COMMITTER':
    os.environ[k + '_NAME'] = os.environ[k + '_EMAIL'] = 'demo@example.org'
bupexe = os.path.join(os.getcwd(), 'bup')
def run(*argv, **kw):
    return subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
def check(ok, msg):
    if not ok:
        print('FAILED:', msg)
        sys.exit(1)
'''

def plant(id, prop, edits, demo, needs, breaks, sh=None):
    d = f'/verif/seeded/{id}'
    subprocess.run(['git', '-C', PW, 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', PW, 'checkout', '-q', '-f', 'FETCH_HEAD'], check=True)
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f: f.write(HEAD + demo)
    with open(d + '/demo.sh', 'w') as f: f.write(sh or SH)
    os.chmod(d + '/demo.sh', 0o755)
    def demo_rc():
        subprocess.run(['find', PW + '/lib', '-name', '__pycache__', '-exec', 'rm', '-rf', '{}', '+'])
        p = subprocess.run(['bash', d + '/demo.sh'], cwd=PW, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=280)
        return p.returncode, p.stdout.decode(errors='replace')[-1500:]
    rc, out = demo_rc()
    ok = True
    if rc:
        print(id, 'demo FAILS unpatched', rc, out); ok = False
    for path, old, new in edits:
        fn = f'{PW}/{path}'
        s = open(fn).read()
        if s.count(old) != 1:
            print(id, 'edit matches', s.count(old), old); ok = False; break
        open(fn, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', PW, 'diff'], stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(d + '/meta.json', 'w'), indent=1)
    if any(p.endswith(('.c', '.h')) for p, _, _ in edits):
        subprocess.run(['make', '-j8', '-C', PW, 'lib/bup/_helpers.so'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    rc, out = demo_rc()
    if rc == 0:
        print(id, "demo PASSES patched", out); ok = False
    else:
        print(id, 'patched rc', rc, out[-300:].strip())
    env = dict(os.environ, BUP_SA_REPO=PW, BUP_SA_EVIDENCE='/tmp/ev')
    os.makedirs('/tmp/ev', exist_ok=True)
    if os.path.exists(f'/verif/sa/rules/{prop.lower()}.py'):
        p = subprocess.run([sys.executable, '-m', 'sa.run', prop], cwd='/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(id, 'check rc', p.returncode, 'CAUGHT' if p.returncode == 1 else 'MISSED',
              [l[:300] for l in p.stdout.decode().splitlines() if 'VIOLATION' in l or 'violat' in l][:2])
    subprocess.run(['git', '-C', PW, 'checkout', '-q', '--', '.'], check=True)
    print(id, 'OK' if ok else 'BAD')
