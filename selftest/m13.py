M=[]
P='lib/bup/protocol.py'; O='lib/bup/cmd/on.py'; V='lib/bup/cmd/server.py'
def m(n,o,w,e='catch',p=P): M.append((n,'P13',p,o,w,e))
m('any-cmd',"            if not cmd in commands:\n","            if not hasattr(self, cmd.replace(b'-', b'_').decode()):\n")
m('all-cmds',"        commands = self._commands\n","        commands = self._get_commands()\n")
m('startswith',"            if not cmd in commands:\n","            if not any(x.startswith(cmd) for x in commands):\n")
m('refuse-continue',"                raise Exception('unknown server command: %r\\n' % line)","                log('unknown server command: %r\\n' % line)\n                continue")
m('base-cat',"                                        b'list-indexes', b'send-index',\n                                        *commands))","                                        b'list-indexes', b'send-index',\n                                        b'cat-batch', *commands))")
m('base-drop',"                                        b'list-indexes', b'send-index',\n                                        *commands))","                                        b'list-indexes',\n                                        *commands))")
m('vet-late',"        if self._vet_init_dir: self._vet_init_dir(self.repo, path)\n        self._backend.create(path)","        self._backend.create(path)\n        if self._vet_init_dir: self._vet_init_dir(self.repo, path)")
m('vet-late2',"        if self._vet_set_dir: self._vet_set_dir(self.repo, path)\n        self.init_session(path)","        self.init_session(path)\n        if self._vet_set_dir: self._vet_set_dir(self.repo, path)")
m('vet-first-only',"        if self._vet_set_dir: self._vet_set_dir(self.repo, path)\n        self.init_session(path)","        if self._vet_set_dir and not self.repo: self._vet_set_dir(self.repo, path)\n        self.init_session(path)")
m('vet-wrong',"        self._vet_set_dir = vet_set_dir","        self._vet_set_dir = vet_init_dir and None")
m('vet-ref-late',"        if self._vet_update_ref:\n            self._vet_update_ref(self.repo, refname, newval, oldval)\n        self.init_session()\n        self.repo.update_ref(refname, newval, oldval)","        self.init_session()\n        self.repo.update_ref(refname, newval, oldval)\n        if self._vet_update_ref:\n            self._vet_update_ref(self.repo, refname, newval, oldval)")
m('vet-ref-swapped',"self._vet_update_ref(self.repo, refname, newval, oldval)","self._vet_update_ref(self.repo, refname, oldval, newval)")
m('vet-ref-caught',"            self._vet_update_ref(self.repo, refname, newval, oldval)","            try: self._vet_update_ref(self.repo, refname, newval, oldval)\n            except CommandDenied as ex: log(str(ex))")
m('old-dir',"                self.repo.close()\n                self.repo = None\n                self.suspended = False","                self.repo.close()\n                self.suspended = False")
m('keep-first',"            if repo_dir:\n                self.repo.close()","            if repo_dir and self.suspended:\n                self.repo.close()")
m('dir-ignored',"self.repo = self._backend(repo_dir, server=True)","self.repo = self._backend(None, server=True)")
m('cfg-any',"        if key in valid_config_opts:","        if key in valid_config_opts or key.startswith(b'bup.'):")
m('cfg-more',"               b'pack.compression'))","               b'pack.compression',\n               b'user.name'))")
m('cfg-less',"               b'core.compression',\n               b'pack","               b'pack")
m('restore-more',"b'list-indexes', b'resolve')","b'list-indexes', b'resolve', b'read-ref')",p=O)
m('restore-all',"            srv_config = {'commands': (b'cat-batch', b'config-get',\n                                       b'list-indexes', b'resolve'),","            srv_config = {'commands': 'all',",p=O)
m('restore-less',"b'list-indexes', b'resolve')","b'list-indexes')",p=O)
m('save-refs',"                         b'update-ref'),","                         b'update-ref',\n                         b'join'),",p=O)
m('novet-get',"            srv_config = {'commands': 'all', **restricted_repo_config()}","            srv_config = {'commands': 'all'}",p=O)
m('novet-save',"            'vet_update_ref': vet_update_ref,\n            **restricted_repo_config()}","            **restricted_repo_config()}",p=O)
m('samefile-set',"    def set_dir(repo_, path):\n        if not os.path.samefile(path, repo):","    def set_dir(repo_, path):\n        if repo_ and not os.path.samefile(path, repo):",p=O)
m('samefile-neg',"    def init_dir(repo_, path):\n        if not os.path.samefile(path, repo):","    def init_dir(repo_, path):\n        if os.path.exists(path) and os.path.samefile(path, repo):",p=O)
m('prefix',"        if ref != b'refs/heads/' + opt.name:","        if not ref.startswith(b'refs/heads/' + opt.name):",p=O)
m('heads-any',"        if ref != b'refs/heads/' + opt.name:","        if opt.name and not ref.startswith(b'refs/heads/'):",p=O)
m('endswith',"        if ref != b'refs/heads/' + opt.name:","        if not ref.endswith(b'/' + opt.name):",p=O)
m('prev-any',"        if prev_kind not in (None,  b'commit'):","        if prev_kind == b'tree':",p=O)
m('new-any',"        if kind != b'commit':","        if kind == b'tree':",p=O)
m('parent-no',"        if prev_kind and hexlify(prev_oid) not in info.parents:","        if prev_kind and info.parents and hexlify(new_oid) in info.parents:",p=O)
m('parent-raw',"        if prev_kind and hexlify(prev_oid) not in info.parents:","        if prev_kind and prev_oid not in info.parents:",p=O)
m('parent-of-prev',"        _, prev_kind, _, it = repo.cat(hexlify(prev_oid))\n        if it:\n            for _ in it: pass","        _, prev_kind, _, it0 = repo.cat(hexlify(prev_oid))\n        prev_info = prev_kind == b'commit' and parse_commit(b''.join(it0))",'quiet',p=O)
m('index-served',"    if cmd in (b'features', b'help', b'index', b'version'):","    if cmd in (b'features', b'help', b'version'):",'quiet',p=O)
m('ls-open',"        elif cmd == b'get':","        elif cmd in (b'get', b'ls'):",p=O)
m('init-open',"    if cmd == b'init':","    if cmd == b'init-dir':",'quiet',p=O)
# kept
m('q-not-in',"            if not cmd in commands:\n                raise Exception('unknown server command: %r\\n' % line)\n\n            rest = len(words) > 1 and words[1] or ''\n            if cmd == b'quit':\n                break\n","            rest = words[1] if len(words) > 1 else ''\n            if cmd not in self._commands:\n                raise Exception(f'unknown server command: {line!r}')\n            if cmd == b'quit':\n                break\n",'quiet')
m('q-partition',"            words = line.split(b' ', 1)\n            cmd = words[0]\n","            cmd, _, rest_ = line.partition(b' ')\n            words = [cmd, rest_]\n",'quiet')
m('q-vet-helper',"        if self._vet_set_dir: self._vet_set_dir(self.repo, path)\n        self.init_session(path)","        vet = self._vet_set_dir\n        if vet is not None:\n            vet(self.repo, path)\n        self.init_session(path)",'quiet')
m('q-session-first',"        if self._vet_update_ref:\n            self._vet_update_ref(self.repo, refname, newval, oldval)\n        self.init_session()\n","        self.init_session()\n        if self._vet_update_ref:\n            self._vet_update_ref(self.repo, refname, newval, oldval)\n",'quiet')
m('q-session',"        if self.repo:\n            if repo_dir:\n                self.repo.close()\n                self.repo = None\n                self.suspended = False\n        if not self.repo:","        if self.repo and repo_dir:\n            self.repo.close()\n            self.repo = None\n            self.suspended = False\n        if self.repo is None:",'quiet')
m('q-get-commands',"        commands = []\n        for name in dir(self):\n            fn = getattr(self, name)\n            if getattr(fn, 'bup_server_command', False):\n                commands.append(name.replace('_', '-').encode('ascii'))\n        return commands","        return [name.replace('_', '-').encode('ascii') for name in dir(self)\n                if getattr(getattr(self, name), 'bup_server_command', False)]",'quiet')
m('q-set-union',"            self._commands = frozenset((b'help', b'quit',\n                                        b'init-dir', b'set-dir',\n                                        b'list-indexes', b'send-index',\n                                        *commands))","            self._commands = frozenset(commands) | {b'help', b'quit', b'init-dir', b'set-dir', b'list-indexes', b'send-index'}",'quiet')
m('q-one-vet',"    def init_dir(repo_, path):\n        if not os.path.samefile(path, repo):\n            raise CommandDenied(f'disallowing unexpected init-dir {pm(path)}')\n    def set_dir(repo_, path):\n        if not os.path.samefile(path, repo):\n            raise CommandDenied(f'disallowing unexpected set-dir {pm(path)}')\n    return {'vet_init_dir': init_dir, 'vet_set_dir': set_dir}","    def vet(repo_, path):\n        if not os.path.samefile(repo, path):\n            raise CommandDenied(f'disallowing unexpected directory {pm(path)}')\n    return {'vet_init_dir': vet, 'vet_set_dir': vet}",'quiet',p=O)
m('q-kwargs',"            srv_config = {'commands': 'all', **restricted_repo_config()}","            srv_config = restricted_repo_config()\n            srv_config['commands'] = 'all'",'quiet',p=O)
m('q-dict',"            srv_config = {'commands': 'all', **restricted_repo_config()}","            srv_config = dict(commands='all', **restricted_repo_config())",'quiet',p=O)
m('q-vet-order',"        if kind != b'commit':\n            raise cd(f'{cmd}: {pm(ref)} update {new_oid.hex()} is not a commit')\n        info = parse_commit(b''.join(it))\n        if prev_kind and hexlify(prev_oid) not in info.parents:","        if not kind == b'commit':\n            raise cd(f'{cmd}: {pm(ref)} update {new_oid.hex()} is not a commit')\n        parents = parse_commit(b''.join(it)).parents\n        if prev_kind is not None and not hexlify(prev_oid) in parents:",'quiet',p=O)
m('q-fref',"        if ref != b'refs/heads/' + opt.name:","        if ref != b'refs/heads/%s' % opt.name:",'quiet',p=O)
m('q-run-inline',"            if srv_config:\n                run_server(on_srv, srv_config)","            if srv_config is not None:\n                run_server(on_srv, config=srv_config)",'quiet',p=O)
m('q-sets',"        if prev_kind not in (None,  b'commit'):","        if prev_kind is not None and prev_kind != b'commit':",'quiet',p=O)
