GC='lib/bup/gc.py'; GIT='lib/bup/git.py'
M=[
('stale-before-rewrite','P05',[(GC,"""                for sha in idx:
                    if sha in live_in_this_pack:
""","""                stale_packs.append(idx_name[:-4])
                for sha in idx:
                    if sha in live_in_this_pack:
"""),(GC,"""                assert idx_name.endswith(b'.idx')
                stale_packs.append(idx_name[:-4])

        if verb""","""                assert idx_name.endswith(b'.idx')

        if verb""")],'catch'),
('skip-parents','P05',GIT,"            for pid in commit.parents:\n                pending.append((False, pid","            for pid in commit.parents[:1]:\n                pending.append((False, pid",'catch'),
('no-parents','P05',GIT,"            for pid in commit.parents:\n                pending.append((False, pid, commit_path, pid, mode, b'commit'))\n","",'catch'),
('skip-tree-entries','P05',GIT,"            for mode, name, ent_id in tree_iter(data):\n                pending","            for mode, name, ent_id in tree_iter(data):\n                if name.startswith(b'.bupd'): continue\n                pending",'catch'),
('no-commit-tree','P05',GIT,"            pending.append((False, commit.tree, parents, commit.tree,\n                            hashsplit.GIT_MODE_TREE, b'tree'))\n","",'catch'),
('missing-not-yielded','P05',GIT,"                            mode=mode, data=False)\n            yield [*parents, item] if result == 'path' else item\n            continue","                            mode=mode, data=False)\n            continue",'catch'),
('callback-published','P05',GC,"            if new_pack_prefix and basename(stem) == basename(new_pack_prefix):\n                continue  # Don't remove the new pack file\n","",'catch'),
('commit-in-bloom','P05',GC,"                    if typ != b'blob':\n                        is_live = sha in live_trees","                    if typ == b'tree':\n                        is_live = sha in live_trees",'catch'),
('heads-only','P05',GC,"refs if refs else list(git.list_refs())","refs if refs else list(git.list_refs(limit_to_heads=True))",'catch'),
('count-le-1','P05',GC,"if idx_live_count == 0:","if idx_live_count <= 1:",'catch'),
('stop-bloom','P05',GC,"def stop_at(x): return unhexlify(x) in live_trees","def stop_at(x): return live_blobs.exists(unhexlify(x))",'catch'),
('clear-after','P05',[(GC,"                midx.clear_midxes(packdir)\n",""),(GC,"                      threshold, compression,\n                      verbosity)\n","                      threshold, compression,\n                      verbosity)\n                midx.clear_midxes(packdir)\n")],'catch'),
('bloom-not-cleared','P05',GC,"                bloom.clear_bloom(packdir)\n","",'catch'),
('missing-ignored','P05',GC,"                if (not handled_missing) and item.data is False:\n                    raise MissingObject(item.oid)\n","",'catch'),
('missing-type-blob','P05',GC,"                if (not handled_missing) and item.data is False:","                if (not handled_missing) and item.data is False and item.type != b'blob':",'catch'),
('missing-continue','P05',GC,"                if (not handled_missing) and item.data is False:\n                    raise MissingObject(item.oid)\n","                if (not handled_missing) and item.data is False:\n                    log('missing')\n                    continue\n",'catch'),
('missing-no-exit','P05',GC,"            sys.exit(EXIT_FAILURE)\n        with live","            live_objects, live_trees = BloomWriter(b'x','w+b',expected=1,k=None), set()\n        with live",'catch'),
('flush-early','P05',GC,"        repo.abort_writing()\n        raise ex\n    finally:","        raise ex\n    finally:",'quiet'),
('remove-before-close','P05',[(GC,"        # Nothing should have recreated midx","        remove_stale_packs(None)\n        # Nothing should have recreated midx")],'catch'),
('rewrite-only-blobs','P05',GC,"                        _, typ, _, item_it = cat_pipe.get(hexlify(sha))\n                        repo","                        _, typ, _, item_it = cat_pipe.get(hexlify(sha))\n                        if typ != b'commit': repo",'catch'),
('break-first-dead','P05',GC,"                        if not is_live:\n                            must_rewrite = True\n","                        if not is_live:\n                            must_rewrite = True\n                            break\n",'catch'),
('live-not-added','P05',GC,"                    live_blobs.add(item.oid)","                    if approx_live_count: live_blobs.add(item.oid)",'catch'),
('reset-not-idempotent','P05',GC,"        stale_packs = []\n\n    repo","        stale_packs = stale_packs\n\n    repo",'quiet'),
('cb-before-rename','P05',GIT,[],None),
('helper-stale','P05',[(GC,"    repo = LocalRepo(compression_level","    def mark_stale(name):\n        assert name.endswith(b'.idx')\n        stale_packs.append(name[:-len(b'.idx')])\n\n    repo = LocalRepo(compression_level"),(GC,"                    assert idx_name.endswith(b'.idx')\n                    stale_packs.append(idx_name[:-4])\n                    continue","                    mark_stale(idx_name)\n                    continue"),(GC,"                assert idx_name.endswith(b'.idx')\n                stale_packs.append(idx_name[:-4])\n\n        if","                mark_stale(idx_name)\n\n        if")],'quiet'),
('use-set-empty','P05',[(GC,"                if idx_live_count == 0:","                if not live_in_this_pack:"),],'quiet'),
('helper-live','P05',[(GC,"def sweep(","def _is_live(sha, typ, live_objects, live_trees):\n    if typ == b'blob':\n        return live_objects.exists(sha)\n    return sha in live_trees\n\ndef sweep("),(GC,"""                    if typ != b'blob':
                        is_live = sha in live_trees
                        if not is_live:
                            must_rewrite = True
                    else:
                        is_live = live_objects.exists(sha)
                    if is_live:
                        idx_live_count += 1
                        live_in_this_pack.add(sha)
""","""                    is_live = _is_live(sha, typ, live_objects, live_trees)
                    if is_live:
                        idx_live_count += 1
                        live_in_this_pack.add(sha)
                    elif typ != b'blob':
                        must_rewrite = True
""")],'quiet'),
('rewrite-list','P05',[(GC,"                for sha in idx:\n                    if sha in live_in_this_pack:\n                        _, typ, _, item_it = cat_pipe.get(hexlify(sha))\n                        repo.just_write(sha, typ, b''.join(item_it))\n","                for sha in live_in_this_pack:\n                    _, typ, _, item_it = cat_pipe.get(hexlify(sha))\n                    repo.just_write(sha, typ, b''.join(item_it))\n")],'quiet'),
('loop-while','P05',[(GC,"            for p in glob.glob(stem + b'.*'):\n                if verbosity:","            victims = glob.glob(stem + b'.*')\n            for p in victims:\n                if verbosity:")],'quiet'),
('list-comp-live','P05',[(GC,"                for sha in idx:\n                    if sha in live_in_this_pack:\n","                for sha in [x for x in idx if x in live_in_this_pack]:\n                    if True:\n")],'quiet'),
('walk-extend','P05',[(GIT,"            for pid in commit.parents:\n                pending.append((False, pid, commit_path, pid, mode, b'commit'))\n","            pending.extend((False, pid, commit_path, pid, mode, b'commit')\n                           for pid in commit.parents)\n")],'quiet'),
('walk-helper','P05',[(GIT,"            for pid in commit.parents:\n                pending.append((False, pid, commit_path, pid, mode, b'commit'))\n","            pending += [(False, pid, commit_path, pid, mode, b'commit') for pid in commit.parents]\n")],'quiet'),
('mark-helper','P05',[(GC,"                if item.type != b'blob':\n                    if verb","                if not item.type == b'blob':\n                    if verb")],'quiet'),
('mark-swap','P05',[(GC,"""                if item.type != b'blob':
                    if verbosity and not item.oid in live_trees:
                        approx_live_count += 1
                        qprogress(progress_msg(ref_i) + '\\r')
                    live_trees.add(item.oid)
                else:
                    if verbosity and not live_blobs.exists(item.oid):
                        approx_live_count += 1
                        qprogress(progress_msg(ref_i) + '\\r')
                    live_blobs.add(item.oid)
""","""                is_blob = item.type == b'blob'
                known = live_blobs.exists(item.oid) if is_blob else item.oid in live_trees
                if verbosity and not known:
                    approx_live_count += 1
                    qprogress(progress_msg(ref_i) + '\\r')
                if is_blob:
                    live_blobs.add(item.oid)
                else:
                    live_trees.add(item.oid)
""")],'quiet'),
('mark-collection','P05',[(GC,"                    live_trees.add(item.oid)\n                else:","                    target = live_trees\n                    target.add(item.oid)\n                else:")],'quiet'),
('threshold-helper','P05',[(GC,"                if not must_rewrite and live_frac > ((100 - threshold) / 100.0):","                keep = live_frac > ((100 - threshold) / 100.0) and not must_rewrite\n                if keep:")],'quiet'),
]
M=[m for m in M if m[-1]]
