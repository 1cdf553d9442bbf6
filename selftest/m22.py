P='lib/bup/cmd/fsck.py'
def m(name, old, new, expect='catch'): return (name, 'P22', P, old, new, expect)
M=[
m('damaged-parity-skipped',"            code = merge_exits(code, EXIT_FAILURE)\n            continue\n","            continue\n",'quiet'), # looked at again in the end
m('no-double-check',"        if par2_recovery_file_status(stem) is False:\n            code = merge_exits(code, EXIT_FAILURE)\n\n    sys.exit","        par2_recovery_file_status(stem)\n\n    sys.exit"),
m('quick-only-pack',"for path in (stem + b'.idx', stem + b'.pack'):","for path in (stem + b'.pack',):"),
m('quick-last-wins',"            log(f'error: expected {exp.hex()}, got {act.hex()}\\n')\n            result = False","            log(f'error: expected {exp.hex()}, got {act.hex()}\\n')\n            result = path.endswith(b'.idx')"),
m('quick-missing-ok',"            log(f'error: missing {path_msg(path)}\\n')\n            result = False","            log(f'error: missing {path_msg(path)}\\n')"),
m('verify-either',"if not git_verify(stem, quick=opt.quick) \\\n           or (par2_ok","if not git_verify(stem, quick=opt.quick) \\\n           and (par2_ok"),
m('verify-no-par2',"           or (par2_ok and par2_exists and not par2_verify(stem)):",":"),
m('repair-idx-unchecked',"        idx_ok = act is not None and exp == act # None when missing","        idx_ok = True"),
m('repair-idx-missing',"        idx_ok = act is not None and exp == act # None when missing\n        if act is not None and not idx_ok:","        idx_ok = exp == act\n        if not idx_ok:"),
m('repair-success-code',"    # to repair.\n    return EXIT_FALSE","    # to repair.\n    return EXIT_SUCCESS"),
m('index-pack-ignored',"            log(f'{path_msg(base)} index-pack failed\\n')\n            if verbose: out.write(base + b' failed\\n')\n            return EXIT_FAILURE","            log(f'{path_msg(base)} index-pack failed\\n')"),
m('repair-par2-rc1',"    if rc:\n        log(f'{path_msg(base)} par2 repair","    if rc > 1:\n        log(f'{path_msg(base)} par2 repair"),
m('generate-rc',"        if rc != EXIT_SUCCESS:\n            log(f'{path_msg(base)} par2 create","        if rc > EXIT_SUCCESS:\n            log(f'{path_msg(base)} par2 create"),
m('generate-again',"        if par2_exists:\n            if opt.verbose: out.write(base + b' exists\\n')\n            return EXIT_TRUE\n",""),
m('merge-last',"    if pending not in (EXIT_SUCCESS, EXIT_FALSE):\n        return pending\n",""),
m('merge-false-masks',"    if pending not in (EXIT_SUCCESS, EXIT_FALSE):\n        return pending\n    if new == EXIT_FALSE","    if pending != EXIT_SUCCESS:\n        return pending\n    if new == EXIT_FALSE"),
m('worker-signal',"    log(f'error: worker terminated unexpectedly (status {status})\\n')\n    return EXIT_FAILURE","    return os.WEXITSTATUS(status)"),
m('worker-exc',"                    sys.exit(99)","                    sys.exit(0)"),
m('worker-result-lost',"                    sys.exit(do_pack(mode, stem, par2_status, out))","                    do_pack(mode, stem, par2_status, out)\n                    sys.exit(0)"),
m('worker-not-reaped',"    while len(outstanding):\n        pid, status = os.wait()\n        if pid in outstanding:\n            del outstanding[pid]\n            code = merge_exits(code, worker_exit(status))\n            count += 1\n","    while len(outstanding):\n        pid, status = os.wait()\n        if pid in outstanding:\n            del outstanding[pid]\n            count += 1\n"),
m('worker-early-not-merged',"                    del outstanding[pid]\n                    code = merge_exits(code, worker_exit(status))\n                    count += 1\n            pid = os.fork()","                    del outstanding[pid]\n                    count += 1\n            pid = os.fork()"),
m('worker-not-recorded',"                outstanding[pid] = 1\n","                pass\n"),
m('jobs-waits-one',"    while len(outstanding):\n        pid","    if len(outstanding):\n        pid"),
m('par2-ok-inverted-fail',"    if sp.returncode == 0:\n        par2_ok = 1\n        return","    par2_ok = 1\n    if sp.returncode == 0:\n        return"),
m('repair-without-par2',"    if not par2_ok and (opt.generate or opt.repair):","    if not par2_ok and opt.generate:"),
m('status-empty-ok',"    if empty:\n        return False\n","    if len(empty) == 2:\n        return False\n"),
m('status-missing-none',"    if len(missing) == 2:","    if missing:"),
m('verify-modifies',"            if opt.verbose: out.write(base + b' failed\\n')\n            return EXIT_FAILURE\n        if opt.verbose: out.write(base + b' ok\\n')","            if par2_ok and par2_exists: par2_repair(stem)\n            return EXIT_FAILURE\n        if opt.verbose: out.write(base + b' ok\\n')"),
m('code-ignored',"    sys.exit(code)","    sys.exit(EXIT_SUCCESS)"),
m('named-all-but-last',"        pack_stems = [x[:-5] for x in pack_stems]\n    else","        pack_stems = [x[:-5] for x in pack_stems[:-1]]\n    else"),
m('generate-unpublished',"            os.rename(join(tmpdir, p2_idx), join(parent, p2_idx))\n            expected = frozenset([pack])\n            remaining = frozenset(os.listdir(tmpdir))\n            assert expected == remaining\n",""),
# same behaviour
m('q-verify-split',"        if not git_verify(stem, quick=opt.quick) \\\n           or (par2_ok and par2_exists and not par2_verify(stem)):\n            if opt.verbose","        good = git_verify(stem, quick=opt.quick)\n        if good and par2_ok and par2_exists:\n            good = par2_verify(stem)\n        if not good:\n            if opt.verbose",'quiet'),
m('q-merge-rewritten',"    if pending not in (EXIT_SUCCESS, EXIT_FALSE):\n        return pending\n    if new == EXIT_FALSE and pending == EXIT_SUCCESS:\n        return EXIT_FALSE\n    if new != EXIT_SUCCESS:\n        return new\n    return pending","    rank = lambda x: 0 if x == EXIT_SUCCESS else 1 if x == EXIT_FALSE else 2\n    return new if rank(new) > rank(pending) else pending",'quiet'),
m('q-while-outstanding',"    while len(outstanding):\n        pid","    while outstanding:\n        pid",'quiet'),
m('q-reap-helper',"    while len(outstanding):\n        pid, status = os.wait()\n        if pid in outstanding:\n            del outstanding[pid]\n            code = merge_exits(code, worker_exit(status))\n            count += 1\n","    def reap(code):\n        pid, status = os.wait()\n        if pid not in outstanding:\n            return code\n        outstanding.pop(pid)\n        return merge_exits(code, worker_exit(status))\n    while len(outstanding) > 0:\n        code = reap(code)\n",'quiet'),
m('q-quick-any',"    result = True\n    for path in (stem + b'.idx', stem + b'.pack'):\n        exp, act = trailing_and_actual_checksum(path)\n        if act is None:\n            log(f'error: missing {path_msg(path)}\\n')\n            result = False\n        elif exp != act:\n            log(f'error: expected {exp.hex()}, got {act.hex()}\\n')\n            result = False\n    return result","    def intact(path):\n        exp, act = trailing_and_actual_checksum(path)\n        if act is None:\n            log(f'error: missing {path_msg(path)}\\n')\n            return False\n        if exp == act:\n            return True\n        log(f'error: expected {exp.hex()}, got {act.hex()}\\n')\n        return False\n    idx = intact(stem + b'.idx')\n    return intact(stem + b'.pack') and idx",'quiet'),
m('q-status-rewritten',"    if len(missing) == 2:\n        return None\n    for path in missing:\n        log(f'error: missing par2 file - {path_msg(path)}\\n')\n    if not missing:\n        return True\n    return False","    if not missing:\n        return True\n    if len(missing) >= len(paths):\n        return None\n    for path in missing:\n        log(f'error: missing par2 file - {path_msg(path)}\\n')\n    return False",'quiet'),
m('q-dispatch',"    if mode == 'repair':\n        return attempt_repair(stem, base, par2_exists, out, verbose=opt.verbose)\n    if mode == 'verify':\n","    def repair():\n        return attempt_repair(stem, base, par2_exists, out, verbose=opt.verbose)\n    if mode == 'repair':\n        return repair()\n    elif mode == 'verify':\n",'quiet'),
m('q-os-exit',"                    sys.exit(do_pack(mode, stem, par2_status, out))","                    rc = do_pack(mode, stem, par2_status, out)\n                    sys.stdout.flush()\n                    os._exit(rc)",'quiet'),
]
