M=[]
G='lib/bup/git.py'; C='lib/bup/client.py'; R='lib/bup/repo/remote.py'
def m(n,p,o,w,e='catch'): M.append((n,'P28',p,o,w,e))
m('pending-first',G,"            self._write(sha, type, content)\n            self._pending_oids.add(sha)\n        return sha","            self._pending_oids.add(sha)\n            self._write(sha, type, content)\n        return sha")
m('pending-first-outside',G,"        if not self.exists(sha):\n            self._write(sha","        known = self.exists(sha)\n        self._pending_oids.add(sha)\n        if not known:\n            self._write(sha")
m('memo-exists',G,"        return oid in self._pending_oids \\\n            or self._store.exists(oid, want_source=want_source)","        if oid in self._pending_oids: return True\n        r = self._store.exists(oid, want_source=want_source)\n        self._pending_oids.add(oid)\n        return r")
m('hash-len-encoded',G,"    sum = start_sha1(type, len(content))\n    sum.update(content)","    sum = start_sha1(type, len(content.rstrip()))\n    sum.update(content)")
m('hash-type-const',G,"    sum = start_sha1(type, len(content))\n    sum.update(content)","    sum = start_sha1(b'blob', len(content))\n    sum.update(content)")
m('tree-as-blob',G,"return self.maybe_write(b'tree', content)","return self.maybe_write(b'blob', content)")
m('swallow-write-error',G,"            self.finish_pack(abort=True)\n            raise GitError(e) from e\n        nw","            self.finish_pack(abort=True)\n        nw")
m('no-abort-on-fail',G,"            self.finish_pack(abort=True)\n            raise GitError(e) from e\n        nw","            raise GitError(e) from e\n        nw")
m('offset-before',G,"self._idx.add(sha, crc, self._file.tell() - size)","self._idx.add(sha, crc, self._file.tell())")
m('index-before-append',G,"        try:\n            f.write(oneblob)","        self._update_idx(sha, 0, 0)\n        try:\n            f.write(oneblob)")
m('index-skipped-empty',G,"        if self._idx:\n            self._idx.add","        if self._idx and size > 16:\n            self._idx.add")
m('crc-part',G,"crc = zlib.crc32(oneblob) & 0xffffffff\n        self._update","crc = zlib.crc32(datalist[1]) & 0xffffffff\n        self._update")
m('count-skipped',G,"        self._obj_count += 1\n        return nw, crc","        if nw: self._obj_count += 1\n        return nw, crc",'quiet')
m('count-skipped2',G,"        self._obj_count += 1\n        return nw, crc","        if crc: self._obj_count += 1\n        return nw, crc")
m('count-not-reset',G,"        finally:\n            self._obj_count = 0\n            self._objcache = None # last","        finally:\n            self._objcache = None # last")
m('count-after-sum',G,"                # update object count\n                f.seek(8)\n                cp = struct.pack('!i', self._obj_count)\n                assert len(cp) == 4\n                f.write(cp)\n\n                # calculate the pack sha1sum\n                f.seek(0)\n                sum = Sha1()\n                for b in chunkyreader(f):\n                    sum.update(b)\n                packbin = sum.digest()\n","                f.seek(0)\n                sum = Sha1()\n                for b in chunkyreader(f):\n                    sum.update(b)\n                packbin = sum.digest()\n                f.seek(8)\n                cp = struct.pack('!i', self._obj_count)\n                f.write(cp)\n                f.seek(0, 2)\n")
m('idx-lost-between',G,"        self._idx, idx = None, self._idx\n        try:","        idx = self._idx\n        self._idx = PackIdxV2Writer()\n        try:",'quiet')
m('remote-len',C,"struct.pack('!I', len(data) + 20 + 4)","struct.pack('!I', len(data) + 20)")
m('remote-crc',C,"        crc = zlib.crc32(data) & 0xffffffff\n        outbuf","        crc = zlib.crc32(datalist[-1]) & 0xffffffff\n        outbuf")
m('remote-swallow',C,"        except IOError as e:\n            raise ClientError(e) from e\n\n        if self._conn.has","        except IOError as e:\n            log(str(e))\n\n        if self._conn.has")
m('remote-mangled',C,"        data = b''.join(datalist)\n        assert(data)","        data = b''.join(datalist[1:])\n        assert(data)")
m('cat-no-check',R,"if hexlify(actual_oid) != expected:","if hexlify(actual_oid) != expected and not it:")
m('cat-check-oidx',R,"hash_checked_data(typ, size, it, ref, batch)","hash_checked_data(typ, size, it, oidx, batch)")
m('cat-hash-subset',R,"                actual_oid.update(data)\n","                if len(data) < 65536: actual_oid.update(data)\n")
m('cat-check-only-blob',R,"            if hexlify(actual_oid) != expected:","            if kind == b'blob' and hexlify(actual_oid) != expected:")
m('enc-other-type',G,"szbits = (sz & 0x0f) | (_typemap[type]<<4)","szbits = (sz & 0x0f) | (3<<4)")
m('enc-no-flush',G,"return szout, z.compress(content), z.flush()","return szout, z.compress(content), zlib.compressobj(1).flush()")
m('idx-writer-nocount',G,"        self.count += 1\n        self.idx[sha[0]]","        self.idx[sha[0]]")
m('idx-writer-bucket',G,"self.idx[sha[0]].append((sha, crc, offs))","self.idx[sha[1]].append((sha, crc, offs))")
m('breakpoint-first',G,"        size, crc_ = self._store.write(encoded, sha=sha)","        if self._byte_count >= self.max_pack_size:\n            self.breakpoint()\n        size, crc_ = self._store.write(encoded, sha=sha)",'quiet')
m('just-write-skips',G,"        self._write(sha, type, content)\n        self._pending_oids.add(sha)\n\n    def maybe","        if sha not in self._pending_oids:\n            self._pending_oids.add(sha)\n            self._write(sha, type, content)\n\n    def maybe")
m('write-returns-early',G,"        assert sha\n        encoded =","        if not content: return sha\n        encoded =")
# behaviour kept
m('q-early-return',G,"        if not self.exists(sha):\n            self._write(sha, type, content)\n            self._pending_oids.add(sha)\n        return sha","        if self.exists(sha):\n            return sha\n        self._write(sha, type, content)\n        self._pending_oids.add(sha)\n        return sha",'quiet')
m('q-hash-concat',G,"    sum = start_sha1(type, len(content))\n    sum.update(content)\n    return sum.digest()","    return Sha1(b'%b %d\\0' % (type, len(content)) + content).digest()",'quiet')
m('q-hash-parts',G,"    return Sha1(b'%s %d\\0' % (kind, size))","    s = Sha1(kind)\n    s.update(b' ' + str(size).encode() + b'\\0')\n    return s",'quiet')
m('q-maybe-via-just',G,"            self._write(sha, type, content)\n            self._pending_oids.add(sha)\n        return sha","            self.just_write(sha, type, content)\n        return sha",'quiet')
m('q-offset-first',G,"            f.write(oneblob)\n        except","            ofs = f.tell()\n            f.write(oneblob)\n        except",'quiet')
m('q-inline-update',G,"        self._update_idx(sha, crc, nw)","        if self._idx: self._idx.add(sha, crc, f.tell() - nw)",'quiet')
m('q-exists-if',G,"        return oid in self._pending_oids \\\n            or self._store.exists(oid, want_source=want_source)","        if oid in self._pending_oids:\n            return True\n        return self._store.exists(oid, want_source=want_source)",'quiet')
m('q-cat-restructure',R,"            actual_oid = actual_oid.digest()\n            if hexlify(actual_oid) != expected:\n                raise Exception(f'received {actual_oid.hex()}, expected oid {expected}')","            got = hexlify(actual_oid.digest())\n            if not got == expected:\n                raise Exception(f'received {got}, expected oid {expected}')",'quiet')
m('q-remote-plus',C,"        outbuf = b''.join((struct.pack('!I', len(data) + 20 + 4),\n                           sha,\n                           struct.pack('!I', crc),\n                           data))","        outbuf = struct.pack('!I', len(data) + 24) + sha + struct.pack('!I', crc) + data",'quiet')
m('q-writer-names',G,"        encoded = _encode_packobj(type, content, self.compression_level)\n        size, crc_ = self._store.write(encoded, sha=sha)","        encoded = _encode_packobj(type, content, self.compression_level)\n        res = self._store.write(encoded, sha=sha)\n        size, crc_ = res[0], res[1]",'quiet')
m('q-tell-loop',G,"                for b in chunkyreader(f):\n                    sum.update(b)\n                packbin = sum.digest()","                chunks = chunkyreader(f)\n                while True:\n                    b = next(chunks, None)\n                    if b is None: break\n                    sum.update(b)\n                packbin = sum.digest()",'quiet')
