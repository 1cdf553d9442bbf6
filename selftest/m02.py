H='lib/bup/helpers.py'; C='lib/bup/client.py'; MI='lib/bup/cmd/midx.py'; B='lib/bup/bloom.py'; CB='lib/bup/cmd/bloom.py'; I='lib/bup/index.py'; HL='lib/bup/hlinkdb.py'; F='lib/bup/cmd/fsck.py'
M=[
('exit-ignores-exc','P02',H,"            if self.canceled or exc_type:\n","            if self.canceled:\n",'catch'),
('exit-ignores-cancel','P02',H,"            if self.canceled or exc_type:\n","            if exc_type:\n",'catch'),
('no-dirsync','P02',H,"            if self._sync:\n                fsync(self._path_parent_fd)\n","",'catch'),
('hl-noflush','P02',HL,"                    f.flush()\n","",'catch'),
('hl-inplace','P02',HL,"""                self._pending_save = atomically_replaced_file(self._filename,
                                                              mode='wb',
                                                              buffering=65536)
""","                self._pending_save = open(self._filename, 'wb')\n",'catch'),
('hl-commit-in-abort','P02',HL,"                self._pending_save.cancel()\n","                pass\n",'catch'),
('idx-noflush','P02',I,"            self.f.write(struct.pack(FOOTER_SIG, self.count))\n            self.f.flush()\n","            self.f.write(struct.pack(FOOTER_SIG, self.count))\n",'catch'),
('idx-abort-keeps','P02',I,"            if abort:\n                self.pending_index.cancel()\n            else:\n                self.flush()","            if abort:\n                pass\n            else:\n                self.flush()",'catch'),
('bloom-rename-first','P02',B,[],[], 'catch'),
('bloom-noflush','P02',B,"                self._file.flush()\n","",'catch'),
('bloom-err','P02',B,"                    log(f'dropping unfinished bloom {pm(self.path)}, interrupted by {str(error)}')\n                    return\n","                    log(f'dropping unfinished bloom {pm(self.path)}, interrupted by {str(error)}')\n",'catch'),
('bloom-exit','P02',B,"    def __exit__(self, type, value, traceback): self.close(value)\n\n    def add(","    def __exit__(self, type, value, traceback): self.close()\n\n    def add(",'catch'),
('bloom-finally','P02',CB,"b.close(error)","b.close()",'catch'),
('midx-inplace','P02',MI,"        with atomically_replaced_file(outfilename, 'w+b') as f:","        with open(outfilename, 'w+b') as f:",'catch'),
('midx-nosync','P02',MI,"            f.write(b'\\0'.join(allfilenames))\n            f.flush()\n            fsync(f.fileno())\n","            f.write(b'\\0'.join(allfilenames))\n            f.flush()\n",'catch'),
('sync-nosync','P02',C,"        f.flush()\n        fsync(f.fileno())\n","        f.flush()\n",'catch'),
('sync-inplace','P02',C,"        with atomically_replaced_file(fn, 'wb') as f:","        with open(fn, 'wb') as f:",'catch'),
('par2-rc','P02',F,"        if rc == 0:\n            # Currently","        if rc in (0, 1):\n            # Currently",'catch'),
('par2-order','P02',F,"                if tmp in (p2_idx, pack):\n","                if tmp == pack:\n",'catch'),
('q-flush-refactor','P02',HL,"                    f.flush()\n                    fsync(f.fileno())\n","                    _durable(f)\n",'x'),
]
M=[m for m in M if m[0] not in ('bloom-rename-first','q-flush-refactor','par2-order')]
M+=[
('q-helper','P02',[(HL,"                    f.flush()\n                    fsync(f.fileno())\n","                    _durable(f)\n"),(HL,"class Error(Exception):","def _durable(f):\n    f.flush()\n    fd = f.fileno()\n    fsync(fd)\n\n\nclass Error(Exception):")],'quiet'),
('q-exit','P02',H,"            if self.canceled or exc_type:\n                return\n            os.rename(","            done = not self.canceled and exc_type is None\n            if not done:\n                return None\n            os.rename(",'quiet'),
('q-midx','P02',MI,"            f.truncate(12 + 4*entries + 20*total + 4*total)\n            f.flush()\n            fsync(f.fileno())\n","            f.truncate(12 + 4*entries + 20*total + 4*total)\n            f.flush()\n",'quiet'),
('q-bloomclose','P02',B,"                if error:\n                    log(","                failed = bool(error)\n                if failed:\n                    log(",'quiet'),
('q-bloomwith','P02',CB,"        if isinstance(b, BloomWriter): b.close(error)\n        elif b is not None: b.close()\n","        if b is None:\n            pass\n        elif isinstance(b, BloomReader):\n            b.close()\n        else:\n            b.close(error)\n",'quiet'),
('q-par2','P02',F,"        if rc == 0:\n            # Currently","        if rc != 0:\n            return rc\n        else:\n            # Currently",'quiet'),
('q-par2b','P02',F,"        if rc == 0:\n            # Currently","        ok = not rc\n        if ok:\n            # Currently",'quiet'),
]
