M=[]
S='lib/bup/cmd/save.py'; I='lib/bup/index.py'
def m(n,p,o,w,e='catch'): M.append((n,'P09',p,o,w,e))
m('no-exists-check',S,"return ent.is_valid() and repo.exists(ent.sha) and ent.sha","return ent.is_valid() and ent.sha")
m('no-valid-check',S,"return ent.is_valid() and repo.exists(ent.sha) and ent.sha","return repo.exists(ent.sha) and ent.sha")
m('hashvalid-or',S,"return ent.is_valid() and repo.exists(ent.sha) and ent.sha","return (ent.is_valid() or repo.exists(ent.sha)) and ent.sha")
m('file-uses-valid',S,"        if already_saved_oid:\n            meta = msr","        if ent.is_valid():\n            meta = msr")
m('is-valid-any',I,"        return (self.flags & f) == f","        return (self.flags & f) != 0")
m('dir-override-sha',S,"oldtree = already_saved_oid # may be False","oldtree = ent.is_valid() and ent.sha")
m('lastskip-dropped-split',S,"                    add_error('%s: %s' % (ent.name, e))\n                    lastskip_name = ent.name\n","                    add_error('%s: %s' % (ent.name, e))\n")
m('lastskip-dropped-meta',S,"                add_error(e)\n                lastskip_name = ent.name\n                continue\n            if stat.S_IFMT","                add_error(e)\n                continue\n            if stat.S_IFMT")
m('lastskip-dropped-mode',S,"skipping.\" % path_msg(ent.name))\n                lastskip_name = ent.name\n","skipping.\" % path_msg(ent.name))\n")
m('lastskip-exact',S,"if lastskip_name and lastskip_name.startswith(ent.name):","if lastskip_name and lastskip_name == ent.name:")
m('lastskip-inverted',S,"lastskip_name.startswith(ent.name):","ent.name.startswith(lastskip_name):")
m('lastskip-reset',S,"        exists = (ent.flags & index.IX_EXISTS)\n","        exists = (ent.flags & index.IX_EXISTS)\n        lastskip_name = None\n")
m('dirmeta-dirname',S,"lastskip_name = os.path.join(fs_path, b'')","lastskip_name = dir_name")
m('dirmeta-noslash',S,"lastskip_name = os.path.join(fs_path, b'')","lastskip_name = fs_path")
m('smaller-only-unsaved',S,"            lastskip_name = ent.name\n            continue\n\n        assert(dir","            if not already_saved_oid:\n                lastskip_name = ent.name\n            continue\n\n        assert(dir")
m('smaller-dirs',S,"if opt.smaller and file and ent.size","if opt.smaller and ent.size")
m('id-kept',S,"            id = None\n            hlink","            hlink")
m('error-not-recorded',S,"                    add_error('%s: %s' % (ent.name, e))\n                    lastskip","                    log('%s: %s' % (ent.name, e))\n                    lastskip")
m('validate-before-write',S,"            hlink = find_hardlink_target(hlink_db, ent)\n            try:","            hlink = find_hardlink_target(hlink_db, ent)\n            ent.validate(GIT_MODE_FILE, ent.sha)\n            try:")
m('validate-stale-sha',I,"        self.sha = sha\n        self.flags |= IX_HASHVALID|IX_EXISTS","        if self.sha == EMPTY_SHA:\n            self.sha = sha\n        self.flags |= IX_HASHVALID|IX_EXISTS")
m('validate-dir-oldtree',S,"ent.validate(GIT_MODE_TREE, newtree)","ent.validate(GIT_MODE_TREE, ent.sha)")
m('invalidate-not',S,"                    ent.invalidate()\n                else:\n                    ent.validate","                    pass\n                else:\n                    ent.validate", 'quiet')
m('always-validate-dir',S,"                if lastskip_name and lastskip_name.startswith(ent.name):\n                    ent.invalidate()\n                else:\n                    ent.validate(GIT_MODE_TREE, newtree)\n","                ent.validate(GIT_MODE_TREE, newtree)\n")
m('append-ent-sha',S,"stack.append_to_current(file, ent.mode, ent.gitmode, id, meta)","stack.append_to_current(file, ent.mode, ent.gitmode, ent.sha, meta)",'quiet')
m('append-before-id-check',S,"                ent.repack()\n                stack.append_to_current(file, ent.mode, ent.gitmode, id, meta)","                ent.repack()\n            stack.append_to_current(file, ent.mode, ent.gitmode, id, meta)")
m('reused-mode',S,"stack.append_to_current(file, ent.mode, ent.gitmode, ent.sha, meta)","stack.append_to_current(file, ent.mode, GIT_MODE_FILE, ent.sha, meta)")
m('append-gitmode',S,"stack.append_to_current(file, ent.mode, ent.gitmode, ent.sha, meta)","stack.append_to_current(file, ent.gitmode, ent.gitmode, ent.sha, meta)")
m('sha-missing-skip',S,"        if already_saved_oid:\n            meta = msr","        if already_saved_oid or not wasmissing:\n            meta = msr")
m('swallow-mode-change',S,"            if stat.S_IFMT(ent.mode) != stat.S_IFMT(meta.mode):","            if stat.S_IFMT(ent.mode) != stat.S_IFMT(meta.mode):\n                continue\n            if stat.S_IFMT(ent.mode) != stat.S_IFMT(meta.mode):")
m('cached-exists',S,"    def already_saved(ent):\n        return ent.is_valid() and repo.exists(ent.sha) and ent.sha","    known = set()\n    def already_saved(ent):\n        if ent.is_valid() and not ent.sha_missing():\n            return ent.sha\n        return ent.is_valid() and repo.exists(ent.sha) and ent.sha")
m('hashvalid-flag-only',I,"        f = IX_HASHVALID|IX_EXISTS\n        return (self.flags & f) == f","        return bool(self.flags & IX_EXISTS)")
m('gitmode-lost',S,"        if not exists:\n            continue\n        if opt.smaller","        if not exists or not ent.nlink:\n            continue\n        if opt.smaller")
# refactorings
m('q-already',S,"        return ent.is_valid() and repo.exists(ent.sha) and ent.sha","        if not ent.is_valid():\n            return None\n        if not repo.exists(ent.sha):\n            return None\n        return ent.sha",'quiet')
m('q-inline-file',S,"            if id:\n                ent.validate(mode, id)","            if id is not None:\n                ent.validate(mode, id)",'quiet')
m('q-endswith',S,"        if not file:\n","        if ent.name.endswith(b'/'):\n",'quiet')
m('q-skip-helper',S,"""    first_root = None
    root_collision""","""    def skipped_below(name):
        return lastskip_name is not None and lastskip_name.startswith(name)

    first_root = None
    root_collision""",'quiet')
m('q-skip-swap',S,"""                if lastskip_name and lastskip_name.startswith(ent.name):
                    ent.invalidate()
                else:
                    ent.validate(GIT_MODE_TREE, newtree)
""","""                complete = not (lastskip_name and lastskip_name.startswith(ent.name))
                if complete:
                    ent.validate(GIT_MODE_TREE, newtree)
                else:
                    ent.invalidate()
""",'quiet')
m('q-fs-slash',S,"lastskip_name = os.path.join(fs_path, b'')","lastskip_name = fs_path + b'/'",'quiet')
m('q-else',S,"""            if id:
                ent.validate(mode, id)
                ent.repack()
                stack.append_to_current(file, ent.mode, ent.gitmode, id, meta)
""","""            if not id:
                continue
            ent.validate(mode, id)
            stack.append_to_current(file, ent.mode, ent.gitmode, id, meta)
            ent.repack()
""",'quiet')
m('q-validate-order',I,"        self.gitmode = gitmode\n        self.sha = sha\n        self.flags |= IX_HASHVALID|IX_EXISTS","        self.sha = sha\n        self.gitmode = gitmode\n        self.flags = self.flags | (IX_HASHVALID | IX_EXISTS)",'quiet')
