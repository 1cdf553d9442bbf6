M=[]
I='lib/bup/index.py'; C='lib/bup/cmd/index.py'
def m(n,p,o,w,e='catch'): M.append((n,'P10',p,o,w,e))
m('no-size',I,"        if self.size != st.st_size:\n            return True\n","")
m('no-mtime',I,"        if self.mtime != st.st_mtime_ns:\n            return True\n","")
m('mtime-secs',I,"        if self.mtime != st.st_mtime_ns:","        if self.mtime // 10**9 != st.st_mtime_ns // 10**9:")
m('mtime-less',I,"        if self.mtime != st.st_mtime_ns:","        if self.mtime < st.st_mtime_ns:")
m('no-ctime',I,"        if self.ctime != st.st_ctime_ns:\n            return True\n","")
m('no-ino',I,"        if self.ino != st.st_ino:\n            return True\n","")
m('no-nlink',I,"        if self.nlink != st.st_nlink:\n            return True\n","")
m('no-dev',I,"        if check_device and (self.dev != st.st_dev):\n            return True\n","")
m('dev-inverted',I,"        if check_device and (self.dev != st.st_dev):","        if not check_device and (self.dev != st.st_dev):")
m('no-exists',I,"        if not (self.flags & IX_EXISTS):\n            return True\n        if check","        if check")
m('no-sha',I,"        if self.sha == EMPTY_SHA:\n            return True\n","")
m('no-gitmode',I,"        if not self.gitmode:\n            return True\n","")
m('size-and-mtime',I,"        if self.size != st.st_size:\n            return True\n        if self.mtime","        if self.size != st.st_size and self.ino != st.st_ino:\n            return True\n        if self.mtime")
m('update-no-size',I,"        self.size = st.st_size\n        self.mode","        self.mode")
m('update-no-mode',I,"        self.mode = st.st_mode\n        self.flags","        self.flags")
m('update-no-exists',I,"        self.flags |= IX_EXISTS\n        self.meta_ofs","        self.meta_ofs")
m('update-no-ino',I,"        self.ino = st.st_ino\n","")
m('update-no-fixup',I,"        self.meta_ofs = meta_ofs\n        self._fixup()\n\n    def _fixup(self):","        self.meta_ofs = meta_ofs\n\n    def _fixup(self):")
m('fixup-no-ctime',I,"        self.ctime = self._fixup_time(self.ctime)\n","")
m('fixup-inverted',I,"t > self.tmax:","t < self.tmax:")
m('invalidate-noop',I,"        self.flags &= ~IX_HASHVALID\n\n    def validate","        self.flags &= ~IX_SHAMISSING\n\n    def validate")
m('repack-no-parent',I,"        if self.parent and not self.is_valid():\n            self.parent.invalidate()\n            self.parent.repack()\n","")
m('repack-parent-no-repack',I,"            self.parent.invalidate()\n            self.parent.repack()","            self.parent.invalidate()")
m('repack-parent-only',I,"            self.parent.repack()","            self.parent._m[self.parent._ofs:self.parent._ofs+ENTLEN] = self.parent.packed()")
m('repack-before-write',I,"""        self._m[self._ofs:self._ofs+ENTLEN] = self.packed()
        if self.parent and not self.is_valid():""","""        self._m[self._ofs:self._ofs+ENTLEN] = self.packed()
        if self.parent and not self.exists():""")
m('deleted-keeps-valid',I,"            self.flags &= ~(IX_EXISTS | IX_HASHVALID)","            self.flags &= ~IX_EXISTS")
m('deleted-no-repack',C,"                    rig.cur.set_deleted()\n                    rig.cur.repack()","                    rig.cur.set_deleted()")
m('deleted-only-dirs',C,"                if rig.cur.exists():\n","                if rig.cur.exists() and rig.cur.is_valid():\n")
m('no-invalidate',C,"                    rig.cur.invalidate()\n                    need_repack = True\n                if not (rig","                    need_repack = True\n                if not (rig")
m('no-need-repack',C,"                    rig.cur.invalidate()\n                    need_repack = True\n                if not (rig","                    rig.cur.invalidate()\n                if not (rig")
m('update-after-repack',C,"                    rig.cur.update_from_stat(pst, meta_ofs)\n                    rig.cur.invalidate()","                    rig.cur.update_from_stat(pst, meta_ofs)\n                    if pst.st_size:\n                        rig.cur.invalidate()")
m('tmax-now',C,"tmax = (time.time() - 1) * 10**9","tmax = time.time() * 10**9")
m('tmax-none-existing',C,"                    rig.cur.tmax = tmax\n","")
m('writer-no-tmax',I,"            e = NewEntry(basename, name, self.tmax,","            e = NewEntry(basename, name, None,")
m('new-valid',I,"        flags = IX_EXISTS\n","        flags = IX_EXISTS | IX_HASHVALID\n")
m('new-swapped',I,"                         st.st_ctime_ns, st.st_mtime_ns, st.st_atime_ns,","                         st.st_mtime_ns, st.st_ctime_ns, st.st_atime_ns,")
m('new-not-added',C,"                wi.add(path, pst, meta_ofs, hashgen=fake_hash)\n","                if pst.st_nlink:\n                    wi.add(path, pst, meta_ofs, hashgen=fake_hash)\n")
m('error-swallowed',C,"                except (OSError, IOError) as e:\n                    add_error(e)\n                    continue","                except (OSError, IOError) as e:\n                    log(str(e))\n                    continue")
m('main-fake-valid',C,"fake_valid=opt.fake_valid","fake_valid=opt.fake_invalid")
m('main-check-device',C,"check_device=opt.check_device","check_device=not opt.check_device")
m('stale-arg',C,"rig.cur.stale(pst, check_device=check_device)","rig.cur.stale(pst, check_device=xdev)")
m('stale-only-valid',C,"if(rig.cur.stale(pst, check_device=check_device)):","if(rig.cur.is_valid() and rig.cur.stale(pst, check_device=check_device)):")
m('fake-hash-always',C,"                    if fake_hash:\n                        if rig.cur.sha == index.EMPTY_SHA:\n                            rig.cur.gitmode, rig.cur.sha = fake_hash(path)\n","                    if fake_hash or rig.cur.gitmode:\n                        if rig.cur.sha == index.EMPTY_SHA:\n                            rig.cur.gitmode, rig.cur.sha = fake_hash(path)\n")
m('skip-deleted-entry',C,"            if rig.cur and rig.cur.name == path:    #","            if rig.cur and rig.cur.name == path and rig.cur.exists():    #")
# refactorings
m('q-tuple',I,"""        if self.size != st.st_size:
            return True
        if self.mtime != st.st_mtime_ns:
            return True
""","""        if (self.size, self.mtime) != (st.st_size, st.st_mtime_ns):
            return True
""",'quiet')
m('q-one-expr',I,"""        if check_device and (self.dev != st.st_dev):
            return True
        return False
""","""        return bool(check_device and self.dev != st.st_dev)
""",'quiet')
m('q-min',I,"""        if self.tmax is not None and t > self.tmax:
            return self.tmax
        return t
""","""        if self.tmax is None:
            return t
        return min(t, self.tmax)
""",'quiet')
m('q-flags-local',I,"""        self.flags |= IX_EXISTS
        self.meta_ofs""","""        flags = self.flags
        flags = flags | IX_EXISTS
        self.flags = flags
        self.meta_ofs""",'quiet')
m('q-loop-parents',I,"""        if self.parent and not self.is_valid():
            self.parent.invalidate()
            self.parent.repack()
""","""        if self.is_valid():
            return
        p = self.parent
        while p is not None:
            p.invalidate()
            p._m[p._ofs:p._ofs+ENTLEN] = p.packed()
            p = p.parent
""",'quiet')
m('q-helper',C,"""                    rig.cur.update_from_stat(pst, meta_ofs)
                    rig.cur.invalidate()
                    need_repack = True
                if not""","""                    def refresh(ent):
                        ent.update_from_stat(pst, meta_ofs)
                        ent.invalidate()
                    refresh(rig.cur)
                    need_repack = True
                if not""",'quiet')
m('q-local-ent',C,"""                if rig.cur.exists():
                    rig.cur.set_deleted()
                    rig.cur.repack()
                    if rig.cur.nlink > 1 and not stat.S_ISDIR(rig.cur.mode):
                        hlinks.del_path(rig.cur.name)
""","""                ent = rig.cur
                if not ent.is_deleted():
                    ent.set_deleted()
                    ent.repack()
                    if not stat.S_ISDIR(ent.mode) and ent.nlink > 1:
                        hlinks.del_path(ent.name)
""",'quiet')
m('q-tmax-ns',C,"tmax = (time.time() - 1) * 10**9","tmax = int(time.time() * 10**9) - 10**9",'quiet')
m('q-any',I,"""        if self.ino != st.st_ino:
            return True
        if self.nlink != st.st_nlink:
            return True
""","""        if any(a != b for a, b in ((self.ino, st.st_ino), (self.nlink, st.st_nlink))):
            return True
""",'quiet')
m('q-writer-kw',I,"        flags = IX_EXISTS\n        sha = None\n        if hashgen:","        sha = None\n        flags = IX_EXISTS\n        if hashgen is not None:",'quiet')
