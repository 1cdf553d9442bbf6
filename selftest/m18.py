M=[]
P='lib/bup/metadata.py'; V='lib/bup/vint.py'; X='lib/bup/xstat.py'
def m(n,o,w,e='catch',p=P): M.append((n,'P18',p,o,w,e))
m('size-V',"unpack_fmt = 'vvsvsvvVvVvVv'","unpack_fmt = 'vvsvsvvVvVvVV'")
m('size-V-both',"unpack_fmt = 'vvsvsvvVvVvVv'","unpack_fmt = 'vvsvsvvVvVvVV'") if 0 else None
m('v2-fmt',"unpack_fmt = 'vvsvsvvVvVvV'\n        elif version == 1","unpack_fmt = 'VVsVsVvVvVvV'\n        elif version == 1")
m('v1-fmt',"unpack_fmt = 'VVsVsVvVvVvV'","unpack_fmt = 'vvsvsvvVvVvV'")
m('swap-times',"                           mtime[0],\n                           mtime[1],\n                           ctime[0],\n                           ctime[1],","                           ctime[0],\n                           ctime[1],\n                           mtime[0],\n                           mtime[1],")
m('swap-uid-gid',"             self.rdev,\n             self.atime, atime_ns,\n             self.mtime, mtime_ns,\n             self.ctime, ctime_ns) = values","             self.rdev,\n             self.atime, atime_ns,\n             self.ctime, ctime_ns,\n             self.mtime, mtime_ns) = values")
m('size-zero',"            if size >= 0:","            if size > 0:")
m('size-or',"self.size if self.size is not None else -1","self.size or -1")
m('size-none-0',"self.size if self.size is not None else -1","self.size if self.size is not None else 0")
m('unknown-skip',"                vint.skip_bvec(port)\n            tag","                vint.read_vuint(port)\n            tag")
m('unknown-raise',"            else: # unknown record\n                vint.skip_bvec(port)","            elif tag > 64:\n                raise Exception('unknown')\n            else: # unknown record\n                vint.skip_bvec(port)")
M.append(('tags-swapped','P18',[(P,"_rec_tag_symlink_target = 3","_rec_tag_symlink_target = 8"),(P,"_rec_tag_hardlink_target = 8","_rec_tag_hardlink_target = 3")],'catch'))
m('acl-order',"acls[0], acls[1], acls[2], acls[3])","acls[0], acls[2], acls[1], acls[3])")
m('acl-two',"if len(acls) == 2:\n                return vint.pack('ssss', acls[0], acls[1], b'', b'')","if len(acls) == 2:\n                return vint.pack('ss', acls[0], acls[1])")
m('acl-cut',"        if acl_rep[2] == b'':\n            acl_rep = acl_rep[:2]\n","")
m('acl-cut-1',"            acl_rep = acl_rep[:2]","            acl_rep = acl_rep[:3]")
m('acl-v1-nodelim',"                result._load_posix1e_acl_rec(port, version=1)","                result._load_posix1e_acl_rec(port, version=2)")
m('acl-comma-half',"            if b',' in acl:","            if i == 0 and b',' in acl:")
m('acl-comma-quiet',"                note_error(msg)\n                return None","                return None")
m('xattr-n',"vint.pack('V', len(self.linux_xattr))","vint.pack('V', len(self.linux_xattr) - 1)")
m('xattr-swap',"result += vint.pack('ss', name, value)","result += vint.pack('ss', value, name)")
m('xattr-last',"            result.append((key, value))\n        self","            result = [(key, value)]\n        self")
m('path-always',"if include_path else []","if True else []")
m('path-raw',"        self.path = vint.unpack('s', data)[0]","        self.path = data")
m('attr-signed',"return vint.pack('V', self.linux_attr)","return vint.pack('v', self.linux_attr)")
m('nohard',"                        (_rec_tag_hardlink_target,\n                         self._encode_hardlink_target()),\n","")
m('symlink-size',"        if self.size is None:\n            self.size = len(target)\n        else:\n            assert(self.size == len(target))\n","        self.size = None\n")
m('eq-ctime',"        if self.ctime != other.ctime: return False\n","")
m('eq-acl',"        if self.posix1e_acl != other.posix1e_acl: return False\n","")
m('eq-xattr',"(self.linux_xattr or None) != (other.linux_xattr or None)","self.linux_xattr != other.linux_xattr")
m('eq-xattr-both',"(self.linux_xattr or None) != (other.linux_xattr or None)","self.linux_xattr and other.linux_xattr and self.linux_xattr != other.linux_xattr")
m('eq-size-none',"        if self.size != other.size: return False\n        if self.user","        if self.size and other.size and self.size != other.size: return False\n        if self.user")
m('ne',"        return not self.__eq__(other)","        return self is not other")
m('hash-xattr',"                     self.linux_attr,\n                     self.posix1e_acl))","                     self.linux_attr, repr(self.linux_xattr),\n                     self.posix1e_acl))")
m('ns-floor',"    return (ns // 10**9, ns % 10**9)\n\n\ndef nsecs_to_timeval","    return (ns // 10**9, (ns % 10**9) // 1000 * 1000)\n\n\ndef nsecs_to_timeval",p=X)
m('ns-mul',"    return ts_s * 10**9 + ts_ns","    return ts_s * 10**6 + ts_ns",p=X)
m('ns-neg',"    return ts_s * 10**9 + ts_ns","    return ts_s * 10**9 + ts_ns if ts_s >= 0 else ts_s * 10**9 - ts_ns",p=X)
m('mode0',"        if not self.mode:\n            return None\n        atime","        if not self.uid:\n            return None\n        atime")
m('fallback-s',"            ret.append(encode_bvec(value))","            ret.append(value)",p=V)
m('fallback-v',"            ret.append(encode_vint(value))","            ret.append(encode_vuint(value))",p=V)
m('bvec-len',"    return _helpers.vuint_encode(len(x)) + x","    return _helpers.vuint_encode(len(x)) + x + b'\\0'",p=V)
m('end-lost',"        ret.append(vint.encode_vuint(_rec_tag_end))\n","        if ret: ret.append(vint.encode_vuint(_rec_tag_end))\n")
m('end-tag-skip',"            elif tag == _rec_tag_linux_xattr:\n                result._load_linux_xattr_rec(port)\n","            elif tag == _rec_tag_linux_xattr:\n                result._load_linux_xattr_rec(port)\n                return result.freeze()\n")
m('empty-new',"        if tag == _rec_tag_end:\n            return empty\n","        if tag == _rec_tag_end:\n            return None\n")
m('reset',"                result._load_symlink_target_rec(port)","                result = Metadata(frozen=False)\n                result._load_symlink_target_rec(port)")
# kept
m('q-star',"        values = vint.unpack(unpack_fmt, data)","        values = tuple(vint.unpack(unpack_fmt, data))",'quiet')
m('q-split',"            (self.mode, self.uid, self.user, self.gid, self.group,\n             self.rdev,\n             self.atime, atime_ns,\n             self.mtime, mtime_ns,\n             self.ctime, ctime_ns, size) = values\n            if size >= 0:\n                self.size = size","            size = values[-1]\n            (self.mode, self.uid, self.user, self.gid, self.group,\n             self.rdev,\n             self.atime, atime_ns,\n             self.mtime, mtime_ns,\n             self.ctime, ctime_ns) = values[:-1]\n            self.size = None if size < 0 else size",'quiet')
m('q-dict',"            if tag == _rec_tag_path:\n                result._load_path_rec(port)\n","            simple = {_rec_tag_path: result._load_path_rec}\n            if tag in simple:\n                simple[tag](port)\n",'quiet')
m('q-eq-all',"        if self.mode != other.mode: return False\n        if self.mtime != other.mtime: return False\n        if self.ctime != other.ctime: return False\n","        if not all(getattr(self, k) == getattr(other, k) for k in ('mode', 'mtime', 'ctime')): return False\n",'quiet')
m('q-eq-tuple',"        if self.mode != other.mode: return False\n        if self.mtime != other.mtime: return False\n        if self.ctime != other.ctime: return False\n","        if (self.mode, self.mtime, self.ctime) != (other.mode, other.mtime, other.ctime): return False\n",'quiet')
m('q-parts',"        for tag, data in records:\n            if data:\n                ret.extend((vint.encode_vuint(tag),\n                            vint.encode_bvec(data)))\n","        for tag, data in records:\n            if not data:\n                continue\n            ret.append(vint.encode_vuint(tag))\n            ret.append(vint.encode_bvec(data))\n",'quiet')
m('q-cat',"        ret.append(vint.encode_vuint(_rec_tag_end))\n        return b''.join(ret)","        return b''.join(ret) + vint.encode_vuint(_rec_tag_end)",'quiet')
m('q-xattr-list',"            result = vint.pack('V', len(self.linux_xattr))\n            for name, value in self.linux_xattr:\n                result += vint.pack('ss', name, value)\n            return result","            parts = [vint.encode_vuint(len(self.linux_xattr))]\n            for item in self.linux_xattr:\n                parts.append(vint.encode_bvec(item[0]))\n                parts.append(vint.encode_bvec(item[1]))\n            return b''.join(parts)",'quiet')
m('q-xattr-recv',"            key = vint.read_bvec(memfile)\n            if key is None:\n                raise EOFError('EOF while reading Linux xattr metadata key')\n            value = vint.read_bvec(memfile)\n            if value is None:\n                raise EOFError('EOF while reading Linux xattr metadata value')\n","            key, value = vint.recv(memfile, 'ss')\n",'quiet')
m('q-divmod',"    return (ns // 10**9, ns % 10**9)\n\n\ndef nsecs_to_timeval","    return divmod(ns, 10**9)\n\n\ndef nsecs_to_timeval",'quiet',p=X)
m('q-add',"    return ts_s * 10**9 + ts_ns","    return ts_ns + 1000000000 * ts_s",'quiet',p=X)
m('q-acl-pad',"            if len(acls) == 2:\n                return vint.pack('ssss', acls[0], acls[1], b'', b'')\n            return vint.pack('ssss', acls[0], acls[1], acls[2], acls[3])","            padded = tuple(acls) + ((b'', b'') if len(acls) == 2 else ())\n            return vint.pack('ssss', *padded)",'quiet')
m('q-v1-comp',"            acls[i] = acl.replace(b'\\n', b',')\n        return acls","        return [acl.replace(b'\\n', b',') for acl in acls]",'quiet')
m('q-write',"        port.write(self.encode(include_path=include_path))","        data = self.encode(include_path)\n        port.write(data)",'quiet')
m('q-helper',"        tag = vint.read_vuint(port)\n        if tag is None:\n            return None\n        if tag == _rec_tag_end:\n            return empty\n        # From","        def next_tag(): return vint.read_vuint(port)\n        tag = next_tag()\n        if tag is None:\n            return None\n        if not tag:\n            return empty\n        # From",'quiet')
M=[x for x in M if x]
