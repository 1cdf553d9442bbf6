M=[]
P='lib/bup/protocol.py'; C='lib/bup/client.py'; H='lib/bup/helpers.py'
def m(n,p,o,w,e='catch'): M.append((n,'P14',p,o,w,e))
m('ok-twice',P,"        self.repo.update_ref(refname, newval, oldval)\n        self.conn.ok()","        self.repo.update_ref(refname, newval, oldval)\n        self.conn.ok()\n        self.conn.ok()")
m('ok-none-missing',P,"                write_vuint(self.conn, 0)\n            elif","                return write_vuint(self.conn, 0)\n            elif")
m('join-error-and-ok',P,"        else:\n            self.conn.write(b'\\0\\0\\0\\0')\n            self.conn.ok()","        else:\n            self.conn.write(b'\\0\\0\\0\\0')\n        self.conn.ok()")
m('join-error-silent',P,"            self.conn.write(b'\\0\\0\\0\\0')\n            # The client relies on the prefix to raise a KeyError too\n            self.conn.error(f'KeyError: {msg}')\n","            self.conn.write(b'\\0\\0\\0\\0')\n            self.conn.ok()\n")
m('join-no-zero',P,"            self.conn.write(b'\\0\\0\\0\\0')\n            # The client","            # The client")
m('revlist-error-ok',P,"            self.conn.error(str(e))\n            raise","            self.conn.ok()\n            raise")
m('revlist-error-swallowed',P,"            self.conn.error(str(e))\n            raise","            self.conn.error(str(e))",'quiet')
m('revlist-finally',P,"            self.conn.write(b'\\n')\n            self.conn.ok()\n        except git.GitError as e:\n            self.conn.error(str(e))\n            raise","            self.conn.write(b'\\n')\n        except git.GitError as e:\n            self.conn.error(str(e))\n        self.conn.ok()")
m('revlist-both',P,"            self.conn.error(str(e))\n            raise","            self.conn.error(str(e))\n            self.conn.ok()")
m('update-finally',P,"        self.repo.update_ref(refname, newval, oldval)\n        self.conn.ok()","        try:\n            self.repo.update_ref(refname, newval, oldval)\n        finally:\n            self.conn.ok()")
m('update-ok-first',P,"        self.repo.update_ref(refname, newval, oldval)\n        self.conn.ok()","        self.conn.ok()\n        self.repo.update_ref(refname, newval, oldval)")
m('update-caught',P,"        self.repo.update_ref(refname, newval, oldval)\n        self.conn.ok()","        try:\n            self.repo.update_ref(refname, newval, oldval)\n        except git.GitError as e:\n            log(str(e))\n        self.conn.ok()")
m('update-error-reply',P,"        self.repo.update_ref(refname, newval, oldval)\n        self.conn.ok()","        try:\n            self.repo.update_ref(refname, newval, oldval)\n        except git.GitError as e:\n            self.conn.error(str(e))\n            return\n        self.conn.ok()",'quiet')
m('finish-ok-first',P,"                fullpath = self.repo.finish_writing()\n                if fullpath:","                self.conn.ok()\n                fullpath = self.repo.finish_writing()\n                if fullpath:")
m('recv-ok-per-object',P,"                    self.suspended = True\n                    return","                    self.suspended = True\n                    self.conn.ok()\n                    return") if 0 else None
m('client-no-check',C,"        ok_ex = self._check_ok()\n","        ok_ex = self._check_ok() if not ex else None\n")
m('client-not-raised',C,"            raise ok_ex\n\n    @notimplemented","            log(str(ok_ex))\n\n    @notimplemented")
m('client-busy-kept',C,"        self._client._busy = False\n        if ok_ex","        if ok_ex and not ex:\n            raise ok_ex\n        self._client._busy = False\n        if ok_ex")
m('client-busy-none',C,"        self._client._busy = False\n        if ok_ex","        if ok_ex: self._client._busy = False\n        if ok_ex")
m('client-early-return',C,"            if not r:\n                return None\n            assert len(r) == 40, f\"invalid ref {r}\"\n            return unhexlify(r)","            pass\n        if not r:\n            return None\n        return unhexlify(r)",'quiet')
m('cat-missing-stop',C,"                    yield None, None, None, None\n                    continue","                    yield None, None, None, None\n                    return")
m('refs-flush-body',P,"        self.conn.write(b'\\n')\n        self.conn.ok()\n\n    @_command\n    def rev_list","        self.conn.write(b'\\n\\n')\n        self.conn.ok()\n\n    @_command\n    def rev_list",'quiet')
m('ok-format',H,"        self.write(b'\\nok\\n')","        self.write(b'\\nok\\nok\\n')")
m('error-no-newline',H,"self.write(b'\\nerror %s\\n' % s)","self.write(b'\\nerror %s' % s)")
m('error-as-none',H,"                return NotOk(rl[6:].decode('utf-8', errors='surrogateescape'))","                log(rl[6:].decode('utf-8', errors='surrogateescape'))\n                return None")
m('eof-as-ok',H,"        raise Exception('server exited unexpectedly; see errors above')","        return None")
m('drain-stops',H,"        def onempty(rl_):\n            pass","        def onempty(rl_):\n            return") if 0 else None
m('lines-eof-ok',H,"    raise ex_type(","    return\n    raise ex_type(") if 0 else None
m('help-no-ok',P,"sorted(self._commands)))\n        self.conn.ok()","sorted(self._commands)))\n        self.conn.write(b'\\n')")
m('setdir-double',P,"        self.init_session(path)\n        self.conn.ok()\n\n    @_command\n    def list_indexes","        self.init_session(path)\n        self.conn.ok()\n        if not path: self.conn.ok()\n\n    @_command\n    def list_indexes",'quiet')
m('suggest-no-check',C,"            self.check_ok()\n        for suggested_name","            pass\n        for suggested_name") if 0 else None
m('write-busy-left',C,"            self._onclose() # Unbusy\n","            if not objcache: self._onclose() # Unbusy\n") if 0 else None
m('resolve-error-raise',P,"        except vfs.IOError as ex:\n            res = ex\n","        except vfs.IOError as ex:\n            res = ex\n        except git.GitError as ex:\n            res = []\n")
m('config-default-ok',P,"            val = self.repo.config_get(key, opttype=opttype)\n","            try: val = self.repo.config_get(key, opttype=opttype)\n            except git.GitError: val = None\n")
m('list-index-errors-log',P,"        for f in self.repo.list_indexes():","        def names():\n            try: yield from self.repo.list_indexes()\n            except git.GitError as e: log(str(e))\n        for f in names():")
# behaviour kept
m('q-typical-enter',C,"        self._client.conn.write(self._name)\n        if self._args:\n            self._client.conn.write(b' ')\n            self._client.conn.write(self._args)\n        self._client.conn.write(b'\\n')","        words = (self._name, self._args) if self._args else (self._name,)\n        self._client.conn.write(b' '.join(words) + b'\\n')",'quiet')
m('q-try-else',P,"            self.conn.write(b'\\n')\n            self.conn.ok()\n        except git.GitError as e:\n            self.conn.error(str(e))\n            raise","            self.conn.write(b'\\n')\n        except git.GitError as e:\n            self.conn.error(str(e))\n            raise\n        else:\n            self.conn.ok()",'quiet')
m('q-dispatch-table',P,"            cmdattr = cmd.replace(b'-', b'_').decode('ascii', errors='replace')\n            getattr(self, cmdattr)(rest)","            self._run(cmd, rest)\n\n        debug1('bup server: done\\n')\n\n    def _run(self, cmd, rest):\n        handler = getattr(self, cmd.decode('ascii', errors='replace').replace('-', '_'))\n        handler(rest)",'quiet')
m('q-exit-helper',C,"        self._client._busy = False\n        if ok_ex and not ex:","        self._client._busy = False\n        if ex or not ok_ex: return\n        if ok_ex:",'quiet')
M=[x for x in M if x]
m('no-drain',C,"return self._client.conn.drain_and_check_ok()","return self._client.conn.check_ok()")
