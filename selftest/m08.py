GIT='lib/bup/git.py'; GC='lib/bup/gc.py'; FS='lib/bup/cmd/fsck.py'; LOC='lib/bup/repo/local.py'; CL='lib/bup/client.py'; MUX='lib/bup/cmd/mux.py'; ON='lib/bup/cmd/on.py'; H='lib/bup/helpers.py'
RL="""        rv = p.wait()  # not fatal
        if rv:
            raise GitError('git rev-list returned error %d' % rv)
"""
M=[
('midx-rc-signal','P08',GIT,"""        rv = subprocess.call(args, stdout=DEVNULL)
    except OSError as e:
        # make sure 'args' gets printed to help with debugging
        add_error('%r: exception: %s' % (args, e))
        raise
    if rv:
        add_error('%r: returned %d' % (args, rv))

    args = [bup.path.exe(), b'bloom'""","""        rv = subprocess.call(args, stdout=DEVNULL)
    except OSError as e:
        # make sure 'args' gets printed to help with debugging
        add_error('%r: exception: %s' % (args, e))
        raise
    if rv > 0:
        add_error('%r: returned %d' % (args, rv))

    args = [bup.path.exe(), b'bloom'""",'catch'),
('midx-log-only','P08',GIT,"    if rv:\n        add_error('%r: returned %d' % (args, rv))\n\n    args","    if rv:\n        log('%r: returned %d' % (args, rv))\n\n    args",'catch'),
('bloom-rc-lost','P08',GIT,"""        add_error('%r: exception: %s' % (args, e))
        raise
    if rv:
        add_error('%r: returned %d' % (args, rv))


def mangle""","""        add_error('%r: exception: %s' % (args, e))
        raise


def mangle""",'catch'),
('update-ref-ignored','P08',GIT,"    cp = subprocess.run(cmd, env=_gitenv(repo_dir))\n    if cp.returncode != 0:\n        _raise_git_cmd_error(cmd, cp.returncode)\n\n\ndef delete","    subprocess.run(cmd, env=_gitenv(repo_dir))\n\n\ndef delete",'catch'),
('delete-ref-1ok','P08',GIT,"    cp = subprocess.run(cmd, env=_gitenv())\n    if cp.returncode != 0:\n        _raise","    cp = subprocess.run(cmd, env=_gitenv())\n    if cp.returncode > 1:\n        _raise",'catch'),
('init-ignored','P08',GIT,"    cp = subprocess.run(cmd, stdout=sys.stderr, env=_gitenv())\n    if cp.returncode != 0:","    cp = subprocess.run(cmd, stdout=sys.stderr, env=_gitenv())\n    if cp.returncode > 0:",'catch'),
('show-ref-any','P08',GIT,"    if cp.returncode not in (0, 1): # 1 means no matches\n        raise GitError('git show-ref exited with error %d' % cp.returncode)\n    if cp.returncode:\n        assert not cp.stdout\n","",'catch'),
('show-ref-gt2','P08',GIT,"    if cp.returncode not in (0, 1): # 1","    if cp.returncode > 1: # 1",'catch'),
('rev-list-nowait','P08',GIT,RL,"",'catch'),
('rev-list-only-fmt','P08',GIT,RL,RL.replace("if rv:","if rv and format:"),'catch'),
('rev-list-notfatal','P08',GIT,RL,RL.replace("raise GitError(","debug1(").replace("% rv)","% rv)"),'catch'),
('rev-list-poll','P08',GIT,RL,RL.replace("p.wait()","p.poll()"),'catch'),
('raw-lost','P08',LOC,"        if rv:\n            raise git.GitError('git rev-list returned error %d' % rv)\n","",'catch'),
('config-any','P08',GIT,"    rc = cp.returncode\n","    rc = min(cp.returncode, 1)\n",'catch'),
('expirelog','P08',GC,"                if expirelog.returncode != 0:","                if expirelog.returncode == 1:",'catch'),
('ssh-close-novalue','P08',CL,"                if rc:\n                    raise ClientError(f'server tunnel","                if rc == 255:\n                    raise ClientError(f'server tunnel",'catch'),
('ssh-close-nowait','P08',CL,"            with finalized(self._proc, await_ssh), \\\n                 closing(self._proc.stdout)","            with closing(self._proc.stdout)",'catch'),
('cat-eof-missing','P08',GIT,"        if not hdr:\n            raise GitError('unexpected cat-file EOF (last request: %r, exit: %s)'\n                           % (ref, p.poll() or 'none'))\n        if hdr.endswith(b' missing\\n'):","        if not hdr or hdr.endswith(b' missing\\n'):",'catch'),
('chunkyreader-short','P08',H,"            if not b:\n                raise IOError('EOF with %d bytes remaining' % count)\n","            if not b:\n                return\n",'catch'),
('cat-data-uncounted','P08',GIT,"                yield from chunkyreader(p.stdout, size)\n                readline_result = p.stdout.readline()\n                assert readline_result == b'\\n'\n","                yield p.stdout.read(size)\n                p.stdout.readline()\n",'catch'),
('fsck-verify-true','P08',FS,"        log(f'error: git verify-pack failed ({rc}) {path_msg(stem)}\\n')\n        return False","        log(f'error: git verify-pack failed ({rc}) {path_msg(stem)}\\n')\n        return rc == 1 and os.path.exists(stem + b'.idx')",'catch'),
('fsck-par2-verify','P08',FS,"    if rc != 0:\n        log(f'error: par2 verify failed","    if rc > 0:\n        log(f'error: par2 verify failed",'catch'),
('fsck-repair-rc','P08',FS,"    rc = par2_repair(stem)\n    if rc:","    rc = par2_repair(stem)\n    if rc == 1:",'quiet'),
('fsck-index-rc','P08',FS,"        if idx_rc:\n            log(f'{path_msg(base)} index-pack failed\\n')\n            if verbose: out.write(base + b' failed\\n')\n            return EXIT_FAILURE\n","        if idx_rc:\n            log(f'{path_msg(base)} index-pack failed\\n')\n            if verbose: out.write(base + b' failed\\n')\n            return EXIT_SUCCESS\n",'catch'),
('fsck-gen-rc','P08',FS,"        if rc != EXIT_SUCCESS:\n            log(f'{path_msg(base)} par2 create: failed ({rc})\\n')\n            if opt.verbose: out.write(base + b' failed\\n')\n            return EXIT_FAILURE\n","        if rc != EXIT_SUCCESS:\n            log(f'{path_msg(base)} par2 create: failed ({rc})\\n')\n            if opt.verbose: out.write(base + b' failed\\n')\n",'catch'),
('fsck-code-last','P08',FS,"            code = merge_exits(code, do_pack(mode, stem, par2_status, out))","            code = do_pack(mode, stem, par2_status, out)",'catch'),
('fsck-loop1-lost','P08',FS,"                    code = merge_exits(code, worker_exit(status))\n                    count += 1\n            pid = os.fork","                    count += 1\n            pid = os.fork",'catch'),
('fsck-shift','P08',FS,"    if os.WIFEXITED(status):\n        return os.WEXITSTATUS(status)\n    log(f'error: worker terminated unexpectedly (status {status})\\n')\n    return EXIT_FAILURE","    return status >> 8",'catch'),
('fsck-wexit','P08',FS,"    if os.WIFEXITED(status):\n        return os.WEXITSTATUS(status)\n    log(f'error: worker terminated unexpectedly (status {status})\\n')\n    return EXIT_FAILURE","    return os.WEXITSTATUS(status)",'catch'),
('fsck-child-0','P08',FS,"                    sys.exit(99)","                    sys.exit(0)",'quiet'),
('mux-0','P08',MUX,"    sys.exit(prv)","    sys.exit(0)",'catch'),
('mux-max','P08',MUX,"    sys.exit(prv)","    sys.exit(max(prv, 0))",'catch'),
('mux-nowait','P08',MUX,"        prv = p.wait()","        prv = p.poll() or 0",'catch'),
('on-srv-lost','P08',ON,"    return on_srv.returncode or (EXIT_FAILURE if demux_rc else EXIT_SUCCESS)","    return EXIT_FAILURE if demux_rc else EXIT_SUCCESS",'catch'),
# ---- behaviour preserved
('q-check-true','P08',GIT,"    cp = subprocess.run(cmd, env=_gitenv(repo_dir))\n    if cp.returncode != 0:\n        _raise_git_cmd_error(cmd, cp.returncode)\n\n\ndef delete","    try:\n        subprocess.run(cmd, env=_gitenv(repo_dir), check=True)\n    except subprocess.CalledProcessError as ex:\n        _raise_git_cmd_error(cmd, ex.returncode)\n\n\ndef delete",'quiet'),
('q-helper-midx','P08',[(GIT,"def auto_midx(objdir):\n","def _note_rc(args, rv):\n    if rv:\n        add_error('%r: returned %d' % (args, rv))\n\ndef auto_midx(objdir):\n"),(GIT,"    if rv:\n        add_error('%r: returned %d' % (args, rv))\n\n    args","    _note_rc(args, rv)\n\n    args"),(GIT,"    if rv:\n        add_error('%r: returned %d' % (args, rv))\n\n\ndef mangle","    _note_rc(args, rv)\n\n\ndef mangle")],'quiet'),
('q-helper-call','P08',[(GIT,"def auto_midx(objdir):\n    args = [bup.path.exe(), b'midx', b'--auto', b'--dir', objdir]\n    try:\n        rv = subprocess.call(args, stdout=DEVNULL)\n    except OSError as e:\n        # make sure 'args' gets printed to help with debugging\n        add_error('%r: exception: %s' % (args, e))\n        raise\n    if rv:\n        add_error('%r: returned %d' % (args, rv))\n\n    args = [bup.path.exe(), b'bloom', b'--dir', objdir]\n","def auto_midx(objdir):\n    for args in ([bup.path.exe(), b'midx', b'--auto', b'--dir', objdir],\n                 [bup.path.exe(), b'bloom', b'--dir', objdir]):\n        _run_aux(args)\n\ndef _run_aux(args):\n")],'quiet'),
('q-helper-run','P08',[(GIT,"def update_ref(","def _run_git(cmd, **kw):\n    cp = subprocess.run(cmd, **kw)\n    if cp.returncode != 0:\n        _raise_git_cmd_error(cmd, cp.returncode)\n    return cp\n\ndef update_ref("),(GIT,"    cp = subprocess.run(cmd, env=_gitenv(repo_dir))\n    if cp.returncode != 0:\n        _raise_git_cmd_error(cmd, cp.returncode)\n\n\ndef delete","    _run_git(cmd, env=_gitenv(repo_dir))\n\n\ndef delete"),(GIT,"    cp = subprocess.run(cmd, env=_gitenv())\n    if cp.returncode != 0:\n        _raise_git_cmd_error(cmd, cp.returncode)\n\n\ndef guess","    _run_git(cmd, env=_gitenv())\n\n\ndef guess"),(GC,"                expirelog = subprocess.run(expirelog_cmd, env=git._gitenv(), check=False)\n                if expirelog.returncode != 0:\n                    git._raise_git_cmd_error(expirelog_cmd, expirelog.returncode)\n","                git._run_git(expirelog_cmd, env=git._gitenv())\n")],'quiet'),
('q-rev-list-helper','P08',[(GIT,"def rev_list(ref","def _finish_rev_list(p):\n    rv = p.wait()\n    if rv:\n        raise GitError('git rev-list returned error %d' % rv)\n\ndef rev_list(ref"),(GIT,RL,"        _finish_rev_list(p)\n")],'quiet'),
('q-rev-list-returncode','P08',GIT,RL,"        p.wait()\n        if p.returncode != 0:\n            raise GitError('git rev-list returned error %d' % p.returncode)\n",'quiet'),
('q-showref','P08',GIT,"    if cp.returncode not in (0, 1): # 1 means no matches\n        raise GitError('git show-ref exited with error %d' % cp.returncode)\n    if cp.returncode:\n        assert not cp.stdout\n","    rc = cp.returncode\n    if rc == 1:\n        assert not cp.stdout\n        return\n    if rc != 0:\n        raise GitError('git show-ref exited with error %d' % rc)\n",'quiet'),
('q-verify','P08',FS,"        rc = run([b'git', b'verify-pack', b'--', stem]).returncode\n        if rc == 0:\n            return True\n        log(f'error: git verify-pack failed ({rc}) {path_msg(stem)}\\n')\n        return False","        rc = run([b'git', b'verify-pack', b'--', stem]).returncode\n        if rc != 0:\n            log(f'error: git verify-pack failed ({rc}) {path_msg(stem)}\\n')\n        return not rc",'quiet'),
('q-merge-order','P08',FS,"    if pending not in (EXIT_SUCCESS, EXIT_FALSE):\n        return pending\n    if new == EXIT_FALSE and pending == EXIT_SUCCESS:\n        return EXIT_FALSE\n    if new != EXIT_SUCCESS:\n        return new\n    return pending","    if pending == EXIT_SUCCESS:\n        return new\n    if pending == EXIT_FALSE:\n        return pending if new == EXIT_SUCCESS else new\n    return pending",'quiet'),
('q-fsck-one','P08',FS,"            code = merge_exits(code, do_pack(mode, stem, par2_status, out))","            pack_rc = do_pack(mode, stem, par2_status, out)\n            code = merge_exits(code, pack_rc)",'quiet'),
('q-fsck-reap','P08',[(FS,"def main(argv):\n    global opt","def reap(outstanding, code):\n    pid, status = os.wait()\n    if pid in outstanding:\n        del outstanding[pid]\n        return merge_exits(code, worker_exit(status)), 1\n    return code, 0\n\ndef main(argv):\n    global opt"),(FS,"                pid, status = os.wait()\n                if pid in outstanding:\n                    del outstanding[pid]\n                    code = merge_exits(code, worker_exit(status))\n                    count += 1\n            pid = os.fork","                code, n = reap(outstanding, code)\n                count += n\n            pid = os.fork"),(FS,"        pid, status = os.wait()\n        if pid in outstanding:\n            del outstanding[pid]\n            code = merge_exits(code, worker_exit(status))\n            count += 1\n        if not","        code, n = reap(outstanding, code)\n        count += n\n        if not")],'quiet'),
('q-mux','P08',MUX,"    sys.exit(prv)","    sys.exit(prv or 0)",'quiet'),

('q-ssh','P08',[(CL,"            def await_ssh(_):\n                rc = self._proc.wait()\n                if rc:\n                    raise ClientError(f'server tunnel returned exit code {rc}')\n            with finalized(self._proc, await_ssh), \\\n","            with finalized(self._proc, self._await), \\\n"),(CL,"        def close(self):\n            if self._closed:\n                return\n            self._closed = True\n            with fin","        def _await(self, proc):\n            rc = proc.wait()\n            if rc != 0:\n                raise ClientError(f'server tunnel returned exit code {rc}')\n        def close(self):\n            if self._closed:\n                return\n            self._closed = True\n            with fin")],'quiet'),
('q-on','P08',ON,"    return on_srv.returncode or (EXIT_FAILURE if demux_rc else EXIT_SUCCESS)","    if on_srv.returncode:\n        return on_srv.returncode\n    if demux_rc:\n        return EXIT_FAILURE\n    return EXIT_SUCCESS",'quiet'),
('q-cat','P08',GIT,"                yield from chunkyreader(p.stdout, size)\n","                for chunk in chunkyreader(p.stdout, size):\n                    yield chunk\n",'quiet'),
('q-chunky','P08',H,"        while count > 0:\n            b = f.read(min(count, 65536))\n            if not b:\n                raise IOError('EOF with %d bytes remaining' % count)\n            yield b\n            count -= len(b)\n","        left = count\n        while left:\n            b = f.read(min(left, 65536))\n            if len(b) == 0:\n                raise EOFError('EOF with %d bytes remaining' % left)\n            left -= len(b)\n            yield b\n",'quiet'),
]
