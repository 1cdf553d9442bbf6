M=[]
P='lib/bup/protocol.py'; C='lib/bup/client.py'
def m(n,o,w,e='catch',p=P): M.append((n,'P17',p,o,w,e))
m('no-crc',"            self._check(crcr, crc, 'object read: expected crc %d, got %d\\n')\n","")
m('no-len',"            self._check(n, len(buf), 'object read: expected %d bytes, got %d\\n')\n","",'quiet')
m('no-abort',"        if expected != actual:\n            self.repo.abort_writing()\n            raise","        if expected != actual:\n            raise")
m('check-lt',"        if expected != actual:\n","        if expected > actual:\n")
m('check-log',"            raise Exception(msg % (expected, actual))","            log(msg % (expected, actual))")
m('crc-masked',"            self._check(crcr, crc, 'object","            self._check(crcr & 0xffff, crc & 0xffff, 'object")
m('eof-finish',"                self.repo.abort_writing()\n                raise Exception('object read: expected length header, got EOF\\n')","                self.repo.finish_writing()\n                return")
m('eof-ok',"                self.repo.abort_writing()\n                raise Exception('object read: expected length header, got EOF\\n')","                self.repo.abort_writing()\n                self.conn.ok()\n                return")
m('eof-no-abort',"                self.repo.abort_writing()\n                raise Exception('object read: expected length header, got EOF\\n')","                raise Exception('object read: expected length header, got EOF\\n')",'quiet')
m('finish-after-ok',"                fullpath = self.repo.finish_writing()\n                if fullpath:\n                    name = os.path.split(fullpath)[1]\n                    self.conn.write(b'%s.idx\\n' % name)\n                self.conn.ok()\n                return","                self.conn.ok()\n                self.repo.finish_writing()\n                return")
m('no-finish',"                fullpath = self.repo.finish_writing()\n","                fullpath = None\n")
m('size',"            n -= 20 + 4\n","            n -= 20\n")
m('short-last',"            self._check(n, len(buf), 'object","            self._check(n if not suggested else len(buf), len(buf), 'object",'quiet')
m('dedup-inverted',"            if self._deduplicate_writes:\n                result = self.repo.exists","            if not self._deduplicate_writes:\n                result = self.repo.exists")
m('dedup-break',"                        suggested.add(name)\n                    continue","                        suggested.add(name)\n                        continue",'quiet')
m('sha-wrong',"write((buf,), sha=shar)","write((buf,), sha=shar[:19] + b'x')")
m('pad',"            buf = self.conn.read(n)  #","            buf = self.conn.read(n).ljust(n, b'\\0')  #")
m('suspend-lost',"                self.suspended = True\n                self.conn.ok()\n","                self.suspended = True\n                self.repo.abort_writing()\n                self.conn.ok()\n")
m('suspend-pack',"                self.repo.finish_writing()\n        finally","                pass\n        finally",'quiet')
m('store-first',"            self._check(n, len(buf), 'object read: expected %d bytes, got %d\\n')\n            assert self._deduplicate_writes is not None\n","            assert self._deduplicate_writes is not None\n",'quiet')
m('cl-crc',"struct.pack('!I', crc),","struct.pack('!I', crc ^ 1),",p=C)
m('cl-crc-of-sha',"        crc = zlib.crc32(data)","        crc = zlib.crc32(sha)",p=C)
m('handle-continue',"                    self.repo.abort_writing()","",'quiet') if 0 else None
# kept
m('q-check-first',"            crc = self.repo._packwriter._store.write((buf,), sha=shar)[1]\n            self._check(crcr, crc, 'object read: expected crc %d, got %d\\n')\n","            self._check(crcr, zlib.crc32(buf) & 0xffffffff, 'object read: expected crc %d, got %d\\n')\n            self.repo._packwriter._store.write((buf,), sha=shar)\n",'quiet') if 0 else None
m('q-one-read',"            shar = self.conn.read(20)\n            crcr = struct.unpack('!I', self.conn.read(4))[0]\n            n -= 20 + 4\n            buf = self.conn.read(n)","            n -= 20 + 4\n            head = self.conn.read(24)\n            shar, crcr = head[:20], struct.unpack('!I', head[20:])[0]\n            buf = self.conn.read(n)",'quiet')
m('q-helper',"            crc = self.repo._packwriter._store.write((buf,), sha=shar)[1]\n            self._check(crcr, crc, 'object read: expected crc %d, got %d\\n')\n        assert False","            self._store_object(shar, crcr, buf)\n        assert False",'quiet') if 0 else None
m('q-iter',"        while 1:\n            ns = self.conn.read(4)\n            if not ns:\n                self.repo.abort_writing()\n                raise Exception(","        for ns in iter(lambda: self.conn.read(4), None):\n            if not ns:\n                self.repo.abort_writing()\n                raise Exception(",'quiet') if 0 else None
m('q-if',"        if expected != actual:\n            self.repo.abort_writing()\n            raise Exception(msg % (expected, actual))","        if expected == actual:\n            return\n        self.repo.abort_writing()\n        raise Exception(msg % (expected, actual))",'quiet')
m('q-names',"            n = struct.unpack('!I', ns)[0]\n","            (n,) = struct.unpack('!I', ns)\n",'quiet')
m('q-inline',"            self._check(crcr, crc, 'object read: expected crc %d, got %d\\n')\n","            if crc != crcr:\n                self.repo.abort_writing()\n                raise Exception('object read: wrong crc\\n')\n",'quiet')
m('q-len',"            self._check(n, len(buf), 'object","            size = len(buf)\n            self._check(n, size, 'object",'quiet')
M=[x for x in M if x]
