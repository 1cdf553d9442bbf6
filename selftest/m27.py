M=[]
P='lib/bup/protocol.py'; C='lib/bup/client.py'; L='lib/bup/repo/local.py'; R='lib/bup/repo/remote.py'; B='lib/bup/repo/base.py'
def m(n,p,o,w,e='catch'): M.append((n,'P27',p,o,w,e))
m('refs-swap-local',L,"limit_to_heads=limit_to_heads,\n                                 limit_to_tags=limit_to_tags,","limit_to_heads=limit_to_tags,\n                                 limit_to_tags=limit_to_heads,")
m('refs-lost-local',L,"                                 limit_to_tags=limit_to_tags,\n                                 repo_dir","                                 repo_dir")
m('refs-repo-lost',L,"limit_to_tags=limit_to_tags,\n                                 repo_dir=self.repo_dir)","limit_to_tags=limit_to_tags)")
m('read-ref-repo',L,"return git.read_ref(refname, repo_dir=self.repo_dir)","return git.read_ref(refname)")
m('update-ref-repo',L,"git.update_ref(refname, newval, oldval, repo_dir=self.repo_dir)","git.update_ref(refname, newval, oldval)")
m('update-ref-swap',L,"git.update_ref(refname, newval, oldval, repo_dir","git.update_ref(refname, oldval, newval, repo_dir")
m('update-ref-swap-r',R,"self.client.update_ref(refname, newval, oldval)","self.client.update_ref(refname, oldval, newval)")
m('resolve-parent',L,"return vfs.resolve(self, path, parent=parent,\n","return vfs.resolve(self, path,\n")
m('resolve-default',L,"def resolve(self, path, parent=None, want_meta=True, follow=True)","def resolve(self, path, parent=None, want_meta=True, follow=False)")
m('resolve-default-c',C,"def resolve(self, path, parent=None, want_meta=True, follow=True)","def resolve(self, path, parent=None, want_meta=False, follow=True)")
m('revlist-repo',L,"partial(git.rev_list, repo_dir=self.repo_dir)","git.rev_list")
m('cat-pipe-repo',L,"git.catpipe(self.repo_dir)","git.catpipe()")
m('config-type',L,"name, opttype=opttype)","name)")
m('config-repo',L,"git.git_config_get(git.repo_config_file(self.repo_dir),","git.git_config_get(git.repo_config_file(None),")
m('just-write-swap',R,"self._packwriter.just_write(oid, type, content)","self._packwriter.just_write(oid, content, type)")
m('exists-source',R,"self._packwriter.exists(oid, want_source=want_source)","self._packwriter.exists(oid)")
m('exists-source-l',L,"self._packwriter.exists(oid, want_source=want_source)","self._packwriter.exists(oid)")
m('commit-author',L,"author, adate_sec, adate_tz,\n                                           committer, cdate_sec, cdate_tz,\n                                           msg)","committer, adate_sec, adate_tz,\n                                           author, cdate_sec, cdate_tz,\n                                           msg)")
m('commit-times',R,"author, adate_sec, adate_tz,\n                                           committer, cdate_sec, cdate_tz,\n                                           msg)","author, adate_sec, adate_tz,\n                                           committer, adate_sec, cdate_tz,\n                                           msg)")
m('limit-level',R,"compression_level=self._base.compression_level,\n                    ","                    ")
m('limit-swap',L,"max_pack_size=self._base.max_pack_size,\n                                max_pack_objects=self._base.max_pack_objects)","max_pack_size=self._base.max_pack_objects,\n                                max_pack_objects=self._base.max_pack_size)")
m('limit-base',R,"_make_base(self.config_get, compression_level,\n                                max_pack_size, max_pack_objects)","_make_base(self.config_get, compression_level,\n                                max_pack_objects, max_pack_size)")
m('limit-client',C,"compression_level=compression_level,\n","compression_level=None,\n")
m('write-blob-tree',R,"return self._packwriter.new_blob(data)","return self._packwriter.new_tree(data)",'quiet')
m('join-repo',L,"return vfs.join(self, ref)","return vfs.join(ref, self)")
m('join-none',L,"return vfs.join(self, ref)","vfs.join(self, ref)")
m('no-send-index',R,"        self.send_index = self.client.send_index\n","")
m('no-refs',R,"        self.refs = self.client.refs\n","")
m('join-from-read',R,"self.join = self.client.join","self.join = self.client.rev_list")
m('missing-cat',C,"yield None, None, None, None","yield None, b'blob', 0, iter(())")
m('missing-server',P,"                self.conn.write(b'missing\\n')\n","                raise KeyError(ref)\n")
m('keyerror-prefix',P,"self.conn.error(f'KeyError: {msg}')","self.conn.error(msg)")
m('keyerror-client',C,"                        exceptions=(KeyError,)):","                        ):")
m('keyerror-order',C,"if ok_ex.args[0].startswith(name + ':')","if ok_ex.args[0].endswith(name + ':')")
m('list-indexes',C,"for idx, _ in self._list_indexes():\n            yield idx","for idx, load in self._list_indexes():\n            if load: yield idx")
m('readref-empty',C,"            if not r:\n                return None\n","")
m('config-fallback',C,"            if kind == 0:\n                return None","            if kind == 0:\n                return False")
m('config-int',P,"            elif isinstance(val, int):","            elif isinstance(val, int) and val:")
m('resolve-err',C,"            raise protocol.read_ioerror(conn)","            protocol.read_ioerror(conn)\n            return ()")
# behaviour kept
m('q-local-helper',L,"        return git.read_ref(refname, repo_dir=self.repo_dir)","        return self._lookup(refname)\n\n    def _lookup(self, name):\n        return git.read_ref(name, repo_dir=self.repo_dir)",'quiet')
m('q-revlist-def',L,"        self.rev_list = partial(git.rev_list, repo_dir=self.repo_dir)\n","        self.rev_list = lambda refs, parse=None, format=None: git.rev_list(refs, parse=parse, format=format, repo_dir=self.repo_dir)\n",'quiet')
m('q-remote-def',R,"        self.read_ref = self.client.read_ref\n","        self.read_ref = lambda refname: self.client.read_ref(refname)\n",'quiet')
m('q-update',R,"        return self.client.update_ref(refname, newval, oldval)","        r = self.client.update_ref(refname, newval=newval, oldval=oldval)\n        return r",'quiet')
m('q-positional',L,"            store = LocalPackStore(repo_dir=self.repo_dir,\n                                   on_pack_finish=self._on_pack_finish,\n                                   run_midx=self.run_midx)","            opts = {'repo_dir': self.repo_dir, 'run_midx': self.run_midx,\n                    'on_pack_finish': self._on_pack_finish}\n            store = LocalPackStore(**opts)",'quiet')
m('q-refs-list',L,"        yield from git.list_refs(patterns=patterns,","        for ref in git.list_refs(patterns=patterns,",None) if 0 else None
m('q-rename',L,"    def join(self, ref):\n        return vfs.join(self, ref)","    def join(self, name):\n        return vfs.join(self, name)",'quiet')
m('q-resolve-kw',L,"return vfs.resolve(self, path, parent=parent,\n                           want_meta=want_meta, follow=follow)","return vfs.resolve(self, path, parent, want_meta, follow)",'quiet')
m('q-writer-return',L,"            self._packwriter = writer\n","            self._packwriter = writer\n        return self._packwriter\n",'quiet')
m('q-pass-on',R,"        self._ensure_packwriter()\n        return self._packwriter.new_blob(data)","        self._ensure_packwriter()\n        w = self._packwriter\n        return w.new_blob(data)",'quiet')
M=[x for x in M if x]
