M=[]
P='lib/bup/protocol.py'; C='lib/bup/client.py'; H='lib/bup/helpers.py'
def m(n,p,o,w,e='catch'): M.append((n,'P15',p,o,w,e))
m('join-name',C,"with self._call('cat', re.sub","with self._call('join', re.sub",'quiet')
m('size-le',C,"sz = struct.unpack('!I', self.conn.read(4))[0]\n                if not sz","sz = struct.unpack('<I', self.conn.read(4))[0]\n                if not sz")
m('resolve-flag-bit',C,"(4 if parent else 0)","(4 if parent is not None and not follow else 0)")
m('resolve-swap',P,"want_meta = bool(flags & 1)\n        follow = bool(flags & 2)","want_meta = bool(flags & 2)\n        follow = bool(flags & 1)")
m('resolve-path-first',C,"            if parent:\n                protocol.write_resolution(conn, parent)\n            write_bvec(conn, path)","            write_bvec(conn, path)\n            if parent:\n                protocol.write_resolution(conn, parent)")
m('config-kind',P,"write_vuint(self.conn, 1 if val else 2)","write_vuint(self.conn, 1 if not val else 2)")
m('config-int-vuint',P,"vint.send(self.conn, 'Vv', 3, val)","vint.send(self.conn, 'VV', 3, val)")
m('config-none',P,"            if val is None:\n                write_vuint(self.conn, 0)","            if not val:\n                write_vuint(self.conn, 0)")
m('config-type-lost',C,"opttype.encode('ascii') if opttype else b'')","opttype.encode('ascii') if opttype == 'int' else b'')")
m('refs-swap',P,"self.repo.refs(patterns, limit_to_heads, limit_to_tags)","self.repo.refs(patterns, limit_to_tags, limit_to_heads)")
m('refs-name-oid',P,"self.conn.write(b'%s %s\\n' % (hexlify(oid), name))","self.conn.write(b'%s %s\\n' % (name, hexlify(oid)))")
m('refs-nl',P,"self.conn.write(b'%s %s\\n' % (hexlify(oid), name))\n        self.conn.write(b'\\n')","self.conn.write(b'%s %s\\n' % (hexlify(oid), name))",'quiet')
m('words-split',P,"words = line.split(b' ', 1)","words = line.split(b' ')[:2]")
m('revlist-fmt',P,"fmt = None if fmt == b'\\n' else fmt[:-1]","fmt = None if fmt == b'\\n' else fmt")
m('revlist-count-dropped',C,"            self.conn.write(b'\\n')\n            if format:","            if format:")
m('revlist-both',[(C,"            self.conn.write(b'\\n')\n            if format:","            if format:"),(P,"        count = self.conn.readline()\n        if not count:\n            raise Exception('Unexpected EOF while reading rev-list count')\n        assert count == b'\\n', count\n","")],None,None) if 0 else None
m('updref-order',C,"            self.conn.write(b'%s\\n' % hexlify(newval))\n            self.conn.write(b'%s\\n' % (hexlify(oldval) if oldval else b''))","            self.conn.write(b'%s\\n' % (hexlify(oldval) if oldval else b''))\n            self.conn.write(b'%s\\n' % hexlify(newval))")
m('updref-raw',C,"(hexlify(oldval) if oldval else b'')","(oldval or b'')")
m('readref-none',P,"self.conn.write(b'%s\\n' % hexlify(r or b''))","self.conn.write(b'%s\\n' % hexlify(r or b'\\0' * 20))")
m('cat-missing',P,"self.conn.write(b'missing\\n')","self.conn.write(b'%s missing\\n' % ref)")
m('cat-order',P,"(oidx, kind, size))","(kind, oidx, size))")
m('cat-ref-nl',P,"            ref = ref[:-1]\n            oidx, kind","            oidx, kind")
m('index-size',P,"self.conn.write(struct.pack('!I', size))","self.conn.write(struct.pack('!Q', size))")
m('index-load',P,"suffix = b'' if self._deduplicate_writes else b' load'","suffix = b' ' if self._deduplicate_writes else b' load'",'quiet')
m('index-load2',P,"suffix = b'' if self._deduplicate_writes else b' load'","suffix = b'load' if self._deduplicate_writes else b' load'")
m('index-load-inv',P,"suffix = b'' if self._deduplicate_writes else b' load'","suffix = b' load' if self._deduplicate_writes else b''")
m('objlen',C,"struct.pack('!I', len(data) + 20 + 4)","struct.pack('!I', len(data) + 20)")
m('objcrc-order',C,"                           sha,\n                           struct.pack('!I', crc),\n","                           struct.pack('!I', crc),\n                           sha,\n")
m('suggest-terminator',P,"self.conn.write(b'index %s\\n'","self.conn.write(b'index %s '")
m('ok-twice',P,"        self.repo.update_ref(refname, newval, oldval)\n        self.conn.ok()","        self.repo.update_ref(refname, newval, oldval)\n        self.conn.ok()\n        self.conn.ok()")
m('no-ok',P,"                write_vuint(self.conn, 0)\n            elif","                return write_vuint(self.conn, 0)\n            elif")
m('no-require',C,"        self._client._require_command(self._name)\n        self._client.check","        self._client.check")
m('unadvertised',C,"        if b'config-get' in self._available_commands:\n            repo_id","        if True:\n            repo_id")
m('help-lines',P,"self.conn.write(b'Commands:\\n    %s\\n' % b'\\n    '.join(sorted(self._commands)))","self.conn.write(b'Commands:\\n    %s\\n' % b'\\n  '.join(sorted(self._commands)))")
m('setdir-arg',P,"        if self._vet_set_dir: self._vet_set_dir(self.repo, path)\n        self.init_session(path)","        if self._vet_set_dir: self._vet_set_dir(self.repo, path)\n        self.init_session()")
m('init-not-opened',P,"        self._backend.create(path)\n        self.init_session(path)","        self._backend.create(path)\n        self.init_session()")
m('item-commit',P,"vint.send(port, 'sVssV', name, has_meta, item.oid, item.coid,","vint.send(port, 'sVssV', name, has_meta, item.coid, item.oid,")
m('item-chunky-revlist',P,"        return Chunky(oid=oid, meta=meta)","        return Item(oid=oid, meta=meta)")
m('item-path',P,"            vint.send(port, 'sVs', name, has_meta, item.target)\n            Metadata.write(meta, port, include_path=False)","            vint.send(port, 'sVs', name, has_meta, item.target)\n            Metadata.write(meta, port)",'quiet')
m('item-meta-first',P,"            vint.send(port, 'sV', name, has_meta)\n            Metadata.write(meta, port, include_path=False)","            vint.send(port, 'sV', name, 0)\n            Metadata.write(meta, port, include_path=False)")
m('res-empty-item',P,"        if item:\n            port.write(b'\\x01')","        if item and name:\n            port.write(b'\\x01')")
m('ioerr-mask',P,"(2 if ex.strerror is not None else 0)","(2 if ex.strerror else 0)",'quiet')
m('ioerr-mask2',P,"| (4 if ex.terminus is not None else 0))","| (4 if ex.terminus is not None and ex.errno is not None else 0))")
m('ioerr-uint',P,"        write_vint(port, ex.errno)","        write_vuint(port, ex.errno)")
m('ioerr-lost',P,"return vfs.IOError(errno=no, message=msg, terminus=term)","return vfs.IOError(errno=no, message=msg)")
# behaviour kept
m('q-one-write',P,"                self.conn.write(struct.pack('!I', len(blob)))\n                self.conn.write(blob)","                self.conn.write(struct.pack('!I', len(blob)) + blob)",'quiet')
m('q-flags-helper',P,"        want_meta = bool(flags & 1)\n        follow = bool(flags & 2)\n        have_parent = bool(flags & 4)","        def bit(n): return bool(flags & (1 << n))\n        want_meta, follow, have_parent = bit(0), bit(1), bit(2)",'quiet')
m('q-refs-fmt',C,"        args = b'%d %d' % (1 if limit_to_heads else 0,\n                           1 if limit_to_tags else 0)","        args = b' '.join([b'1' if x else b'0' for x in (limit_to_heads, limit_to_tags)])",'quiet')
m('q-config-elif',C,"            if kind == 0:\n                return None\n            if kind == 1:\n                return True\n            if kind == 2:\n                return False","            simple = {0: None, 1: True, 2: False}\n            if kind in simple:\n                return simple[kind]",'quiet')
m('q-item-table',P,"    if kind == b'Item':\n        oid, meta = read_oid(port, kind), read_m(port, kind, has_meta)\n        return Item(oid=oid, meta=meta)\n    if kind == b'Chunky':\n        oid, meta = read_oid(port, kind), read_m(port, kind, has_meta)\n        return Chunky(oid=oid, meta=meta)\n","    for ctor in (Item, Chunky):\n        if kind == ctor.__name__.encode('ascii'):\n            oid, meta = read_oid(port, kind), read_m(port, kind, has_meta)\n            return ctor(oid=oid, meta=meta)\n",'quiet')
m('q-split-once',P,"            words = line.split(b' ', 1)\n            cmd = words[0]","            cmd, sep, tail = line.partition(b' ')\n            words = [cmd, tail] if sep else [cmd]",'quiet')
m('q-join-loop',C,"            while 1:\n                sz = struct.unpack('!I', self.conn.read(4))[0]\n                if not sz: break\n                yield self.conn.read(sz)","            def size(): return struct.unpack('!I', self.conn.read(4))[0]\n            sz = size()\n            while sz:\n                yield self.conn.read(sz)\n                sz = size()",'quiet')
m('q-outbuf',C,"        outbuf = b''.join((struct.pack('!I', len(data) + 20 + 4),\n                           sha,\n                           struct.pack('!I', crc),\n                           data))","        outbuf = struct.pack('!I', 24 + len(data)) + sha + struct.pack('!I', crc) + data",'quiet')
m('q-help-join',P,"self.conn.write(b'Commands:\\n    %s\\n' % b'\\n    '.join(sorted(self._commands)))","self.conn.write(b'Commands:\\n')\n        for c in sorted(self._commands):\n            self.conn.write(b'    %s\\n' % c)",'quiet')
m('q-cat-list',P,"        for ref in tuple(lines_until_sentinel(self.conn, b'\\n', Exception)):\n            ref = ref[:-1]\n","        names = [x[:-1] for x in lines_until_sentinel(self.conn, b'\\n', Exception)]\n        for ref in names:\n",'quiet')
M=[x for x in M if x]
