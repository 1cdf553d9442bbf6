G='lib/bup/git.py'
M=[
('nofsync-pack','P01',G,"                f.flush()\n                fsync(f.fileno())\n                f.close()","                f.flush()\n                f.close()",'catch'),
('noflush-pack','P01',G,"                f.flush()\n                fsync(f.fileno())\n                f.close()","                fsync(f.fileno())\n                f.close()",'catch'),
('close-then-nofsync','P01',G,"                f.flush()\n                fsync(f.fileno())\n                f.close()","                if self._obj_count > 1:\n                    f.flush()\n                    fsync(f.fileno())\n                f.close()",'catch'),
('swap-rename','P01',[(G,"                os.rename(tmpdir + b'/pack', nameprefix + b'.pack')\n",""),(G,"                os.rename(tmpdir + b'/idx', nameprefix + b'.idx')\n","                os.rename(tmpdir + b'/idx', nameprefix + b'.idx')\n                os.rename(tmpdir + b'/pack', nameprefix + b'.pack')\n")],'catch'),
('cb-before-fsync','P01',[(G,"                fsync(pfd)\n                if self._on_pack_finish:\n                    self._on_pack_finish(nameprefix)\n","                if self._on_pack_finish:\n                    self._on_pack_finish(nameprefix)\n                fsync(pfd)\n")],'catch'),
('abort-falls','P01',G,"if abort or not f:","if not f:",'catch'),
('idx-late','P01',[(G,"                idx.write(tmpdir + b'/idx', packbin)\n",""),(G,"                os.rename(tmpdir + b'/idx', nameprefix","                idx.write(tmpdir + b'/idx', packbin)\n                os.rename(tmpdir + b'/idx', nameprefix")],'quiet'),
('idx-nofsync','P01',G,"            idx_f.flush()\n            fsync(idx_f.fileno())","            idx_f.flush()",'catch'),
('count-after','P01',[(G,"                f.seek(8)\n                cp = struct.pack('!i', self._obj_count)\n                assert len(cp) == 4\n                f.write(cp)\n",""),(G,"                packbin = sum.digest()\n                f.write(packbin)\n","                packbin = sum.digest()\n                f.write(packbin)\n                f.seek(8)\n                cp = struct.pack('!i', self._obj_count)\n                assert len(cp) == 4\n                f.write(cp)\n")],'catch'),
('helper','P01',[(G,"                f.flush()\n                fsync(f.fileno())\n                f.close()","                self._sync_and_close(f)"),(G,"    def abort(self):\n        self._closed = True","    def _sync_and_close(self, f):\n        f.flush()\n        fsync(f.fileno())\n        f.close()\n\n    def abort(self):\n        self._closed = True")],'quiet'),
('helper2','P01',[(G,"                os.rename(tmpdir + b'/pack', nameprefix + b'.pack')\n                os.rename(tmpdir + b'/idx', nameprefix + b'.idx')\n","                for ext in (b'pack', b'idx'):\n                    os.rename(os.path.join(tmpdir, ext), nameprefix + b'.' + ext)\n")],'quiet'),
('helper3','P01',[(G,"                os.rename(tmpdir + b'/pack', nameprefix + b'.pack')\n                os.rename(tmpdir + b'/idx', nameprefix + b'.idx')\n","                self._publish(tmpdir, nameprefix)\n"),(G,"    def abort(self):\n        self._closed = True","    @staticmethod\n    def _publish(tmpdir, nameprefix):\n        os.rename(tmpdir + b'/pack', nameprefix + b'.pack')\n        os.rename(tmpdir + b'/idx', nameprefix + b'.idx')\n\n    def abort(self):\n        self._closed = True")],'quiet'),
('fsync-swallow','P01',G,"                f.flush()\n                fsync(f.fileno())\n                f.close()","                f.flush()\n                try:\n                    fsync(f.fileno())\n                except OSError:\n                    pass\n                f.close()",'catch'),
('direct-final','P01',G,"                idx.write(tmpdir + b'/idx', packbin)\n                nameprefix = os.path.join(self._repo_dir,\n                                          b'objects/pack/pack-' +  hexlify(packbin))\n","                nameprefix = os.path.join(self._repo_dir,\n                                          b'objects/pack/pack-' +  hexlify(packbin))\n                idx.write(nameprefix + b'.idx', packbin)\n",'catch'),
]
