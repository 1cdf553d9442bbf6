S='lib/bup/cmd/save.py'; SP='lib/bup/cmd/split.py'; G='lib/bup/git.py'; L='lib/bup/repo/local.py'; R='lib/bup/repo/remote.py'; C='lib/bup/client.py'; P='lib/bup/protocol.py'; RM='lib/bup/rm.py'; GE='lib/bup/cmd/get.py'; RW='lib/bup/rewrite.py'
M=[
('unfix-store','P03',G,"""        except OSError as e:
            raise GitError(e) from e

    def _finish_pack""","""        except OSError as e:
            raise

    def _finish_pack""",'catch'),
('write-ioerror','P03',G,"""        try:
            f.write(oneblob)
        except IOError as e:
            # The file may now end with part of an object, so make
            # sure it's never published (e.g. by a later close()).
            self.finish_pack(abort=True)
            raise GitError(e) from e
""","        f.write(oneblob)\n",'catch'),
('save-swallow','P03',S,"                except (IOError, OSError) as e:\n                    add_error('%s: %s'","                except (IOError, OSError, git.GitError) as e:\n                    add_error('%s: %s'",'catch'),
('save-swallow2','P03',S,"                except (IOError, OSError) as e:\n                    add_error('%s: %s'","                except Exception as e:\n                    add_error('%s: %s'",'catch'),
('local-nofinish','P03',L,"        self.finish_writing()\n        return git.update_ref","        return git.update_ref",'catch'),
('local-late','P03',L,"        self.finish_writing()\n        return git.update_ref(refname, newval, oldval, repo_dir=self.repo_dir)","        git.update_ref(refname, newval, oldval, repo_dir=self.repo_dir)\n        self.finish_writing()",'catch'),
('local-swallow','P03',L,"        self.finish_writing()\n        return git.update_ref","        try:\n            self.finish_writing()\n        except git.GitError:\n            pass\n        return git.update_ref",'catch'),
('remote-nofinish','P03',R,"        self.finish_writing()\n        return self.client.update_ref","        return self.client.update_ref",'catch'),
('close-nofinish','P03',L,"            self.closed = True\n            self.finish_writing()","            self.closed = True",'catch'),
('remote-noack','P03',C,"            return self._suggest_packs() # Returns last idx received","            return None",'catch'),
('remote-ackignored','P03',C,"        if ok_ex:\n            raise ok_ex\n","        return ok_ex\n",'catch'),
('remote-nozero','P03',C,"            self._conn.write(b'\\0\\0\\0\\0')\n","            self._conn.flush()\n",'catch'),
('srv-ok-first','P03',P,"        self.repo.update_ref(refname, newval, oldval)\n        self.conn.ok()","        self.conn.ok()\n        self.repo.update_ref(refname, newval, oldval)",'catch'),
('srv-recv-ok-first','P03',P,"                fullpath = self.repo.finish_writing()\n                if fullpath:\n                    name = os.path.split(fullpath)[1]\n                    self.conn.write(b'%s.idx\\n' % name)\n                self.conn.ok()\n","                self.conn.ok()\n                fullpath = self.repo.finish_writing()\n                if fullpath:\n                    name = os.path.split(fullpath)[1]\n                    self.conn.write(b'%s.idx\\n' % name)\n",'catch'),
('rm-close-late','P03',[(RM,"        finally:\n            writer.close()\n","        finally:\n            pass\n"),(RM,"              new_ref.hex(),\n                             ex))","              new_ref.hex(),\n                             ex))")],'catch'),
('srv-swallow','P03',P,"        self.repo.update_ref(refname, newval, oldval)\n        self.conn.ok()","        try:\n            self.repo.update_ref(refname, newval, oldval)\n        except git.GitError as ex:\n            log(str(ex))\n        self.conn.ok()",'catch'),
('get-swallow','P03',GE,"                get_res = handler(item, src_repo, dest_repo)","                try:\n                    get_res = handler(item, src_repo, dest_repo)\n                except git.GitError as ex:\n                    note_error(str(ex))\n                    continue",'catch'),
('q-save-helper','P03',S,"        if opt.name:\n            dest.update_ref(refname, commit, parent)","        if opt.name:\n            move_branch(dest, refname, commit, parent)\n\ndef move_branch(repo, ref, new, old):\n    repo.update_ref(ref, new, old)",'quiet'),
('q-local-helper','P03',L,"        self.finish_writing()\n        return git.update_ref(refname, newval, oldval, repo_dir=self.repo_dir)","        self._flush()\n        return git.update_ref(refname, newval, oldval, repo_dir=self.repo_dir)\n\n    def _flush(self):\n        return self.finish_writing()",'quiet'),
('q-finish','P03',L,"        if self._packwriter:\n            w = self._packwriter\n            self._packwriter = None\n            return w.close()\n        return None","        w, self._packwriter = self._packwriter, None\n        if w is None:\n            return None\n        return w.close()",'quiet'),
('q-get-flush','P03',GE,"        for ref_name, info in updated_refs.items():\n            orig_ref, new_ref = info\n            try:\n                dest_repo.update_ref(","        dest_repo.finish_writing()\n        for ref_name, (orig_ref, new_ref) in updated_refs.items():\n            try:\n                dest_repo.update_ref(",'quiet'),
('q-store','P03',G,"""        try:
            return self._finish_pack(abort=abort)
        except OSError as e:
            raise GitError(e) from e
""","""        try:
            result = self._finish_pack(abort=abort)
        except (OSError, EOFError) as ex:
            raise GitError(str(ex)) from ex
        return result
""",'quiet'),
]
