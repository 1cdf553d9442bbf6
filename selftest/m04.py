G='lib/bup/git.py'; S='lib/bup/cmd/save.py'; SP='lib/bup/cmd/split.py'; GE='lib/bup/cmd/get.py'; RM='lib/bup/rm.py'; CL='lib/bup/client.py'; PR='lib/bup/protocol.py'; L='lib/bup/repo/local.py'; R='lib/bup/repo/remote.py'
M=[
('save_reread','P04',S,"            dest.update_ref(refname, commit, parent)","            dest.update_ref(refname, commit, dest.read_ref(refname))",'catch'),
('save_reread2','P04',S,"            commit = commit_tree(tree, parent, opt.date, get_argvb(), dest)","            tip = opt.name and dest.read_ref(refname)\n            commit = commit_tree(tree, tip, opt.date, get_argvb(), dest)",'catch'),
('save_none','P04',S,"            dest.update_ref(refname, commit, parent)","            dest.update_ref(refname, commit, None)",'catch'),
('save_latereread_both','P04',S,"            commit = commit_tree(tree, parent, opt.date, get_argvb(), dest)","            if opt.name:\n                parent = dest.read_ref(refname)\n            commit = commit_tree(tree, parent, opt.date, get_argvb(), dest)",'quiet'),
('save_otherref','P04',S,"            parent = dest.read_ref(refname)","            parent = dest.read_ref(b'refs/heads/main')",'catch'),
('split_reread','P04',SP,"                    dest.update_ref(refname, commit, oldref)","                    dest.update_ref(refname, commit,\n                                    dest.read_ref(refname))",'catch'),
('split_parent','P04',SP,"        commit = new_commit(tree, parent, userline, opt.date,","        commit = new_commit(tree, None, userline, opt.date,",'catch'),
('rm_reread','P04',RM,"                git.update_ref(ref_name, new_ref, orig_ref)","                git.update_ref(ref_name, new_ref, git.read_ref(ref_name))",'catch'),
('rm_delnone','P04',RM,"                git.delete_ref(ref_name, hexlify(orig_ref))","                git.delete_ref(ref_name)",'catch'),
('rm_delreread','P04',RM,"                git.delete_ref(ref_name, hexlify(orig_ref))","                git.delete_ref(ref_name, hexlify(git.read_ref(ref_name)))",'catch'),
('rm_force','P04',RM,"                git.update_ref(ref_name, new_ref, orig_ref)","                git.update_ref(ref_name, new_ref, None, force=True)",'catch'),
('get_reread','P04',GE,"                dest_repo.update_ref(ref_name, new_ref, orig_ref)","                orig_ref = dest_repo.read_ref(ref_name)\n                dest_repo.update_ref(ref_name, new_ref, orig_ref)",'catch'),
('get_parentread','P04',GE,"    return append_commits(item.src, item.dest.hash, src_repo, dest_repo,","    tip = dest_repo.read_ref(b'refs/heads/' + item.dest.path[1:])\n    return append_commits(item.src, tip, src_repo, dest_repo,",'catch'),
('get_newasold','P04',GE,"                    updated_refs[dest_ref] = (orig_ref, get_res.oid)","                    updated_refs[dest_ref] = (cur_ref and get_res.oid, get_res.oid)",'catch'),
('git_noempty','P04',G,"        oldarg = [b'']\n","        oldarg = []\n",'catch'),
('git_rc','P04',G,"    cp = subprocess.run(cmd, env=_gitenv(repo_dir))\n    if cp.returncode != 0:\n        _raise_git_cmd_error(cmd, cp.returncode)\n\n\ndef delete_ref","    cp = subprocess.run(cmd, env=_gitenv(repo_dir))\n    if cp.returncode < 0:\n        _raise_git_cmd_error(cmd, cp.returncode)\n\n\ndef delete_ref",'catch'),
('git_rc_only_128','P04',G,"    cp = subprocess.run(cmd, env=_gitenv(repo_dir))\n    if cp.returncode != 0:\n        _raise_git_cmd_error(cmd, cp.returncode)\n\n\ndef delete_ref","    cp = subprocess.run(cmd, env=_gitenv(repo_dir))\n    if cp.returncode != 0 and not oldval:\n        _raise_git_cmd_error(cmd, cp.returncode)\n\n\ndef delete_ref",'catch'),
('del_noold','P04',G,"    cmd = [b'git', b'update-ref', b'-d', refname] + oldvalue\n","    cmd = [b'git', b'update-ref', b'-d', refname]\n",'catch'),
('local_force','P04',L,"        return git.update_ref(refname, newval, oldval, repo_dir=self.repo_dir)","        return git.update_ref(refname, newval, None, repo_dir=self.repo_dir,\n                              force=True)",'catch'),
('remote_drop','P04',R,"        return self.client.update_ref(refname, newval, oldval)","        return self.client.update_ref(refname, newval, None)",'catch'),
('server_drop','P04',PR,"        self.repo.update_ref(refname, newval, oldval)","        self.repo.update_ref(refname, newval, self.repo.read_ref(refname))",'catch'),
('server_swap','P04',PR,"        newval = unhexlify(self.conn.readline().strip())\n        oldval = unhexlify(self.conn.readline().strip())","        oldval = unhexlify(self.conn.readline().strip())\n        newval = unhexlify(self.conn.readline().strip())",'catch'),
('client_swap','P04',CL,"            self.conn.write(b'%s\\n' % hexlify(newval))\n            self.conn.write(b'%s\\n' % (hexlify(oldval) if oldval else b''))","            self.conn.write(b'%s\\n' % (hexlify(oldval) if oldval else b''))\n            self.conn.write(b'%s\\n' % hexlify(newval))",'catch'),
('client_empty','P04',CL,"            self.conn.write(b'%s\\n' % (hexlify(oldval) if oldval else b''))","            self.conn.write(b'\\n')",'catch'),
# behaviour kept
('q_client_one','P04',CL,"            self.conn.write(b'%s\\n' % hexlify(newval))\n            self.conn.write(b'%s\\n' % (hexlify(oldval) if oldval else b''))","            oldx = b''\n            if oldval:\n                oldx = hexlify(oldval)\n            self.conn.write(hexlify(newval) + b'\\n' + oldx + b'\\n')",'quiet'),
('q_server_var','P04',PR,"        newval = unhexlify(self.conn.readline().strip())\n        oldval = unhexlify(self.conn.readline().strip())","        def read_oid():\n            return unhexlify(self.conn.readline().strip())\n        newval = read_oid()\n        oldval = read_oid()",'quiet'),
('q_git','P04',G,"    cmd = [b'git', b'update-ref', refname, hexlify(newval)] + oldarg\n","    cmd = [b'git', b'update-ref', refname, hexlify(newval), *oldarg]\n",'quiet'),
('q_git2','P04',G,"        oldarg = [hexlify(oldval)]\n","        oldhex = hexlify(oldval)\n        oldarg = [oldhex]\n",'quiet'),
('q_git3','P04',G,"    cmd = [b'git', b'update-ref', refname, hexlify(newval)] + oldarg\n","    cmd = [b'git', b'update-ref', refname]\n    cmd.append(hexlify(newval))\n    cmd += oldarg\n",'quiet'),
('q_save_helper','P04',[(S,"            dest.update_ref(refname, commit, parent)","            move_branch(dest, refname, commit, parent)"),(S,"def main(argv):","def move_branch(repo, name, tip, before):\n    repo.update_ref(name, tip, before)\n\n\ndef main(argv):")],'quiet'),
('q_save_inline','P04',S,"            commit = commit_tree(tree, parent, opt.date, get_argvb(), dest)","            who = (b'%s <%s@%s>' % (userfullname(), username(), hostname()))\n            commit = dest.write_commit(tree, parent, who, opt.date, None, who,\n                                       opt.date, None,\n                                       commit_message(b'bup save', get_argvb()))",'quiet'),
('q_rm','P04',RM,"        orig_ref, new_ref = info\n        try:","        orig_ref = info[0]\n        new_ref = info[1]\n        try:",'quiet'),
('q_rm2','P04',[(RM,"    for ref_name, info in updated_refs.items():\n        orig_ref, new_ref = info\n","    for ref_name in updated_refs:\n        orig_ref, new_ref = updated_refs[ref_name]\n")],'quiet'),
('q_get','P04',GE,"                orig_ref = orig_ref or dest_hash\n","                if not orig_ref:\n                    orig_ref = dest_hash\n",'quiet'),
('q_get2','P04',GE,"    if item.dest.hash:\n        assert item.dest.type in ('branch', 'commit', 'save'), item.dest\n    return append_commits(item.src, item.dest.hash,","    tip = item.dest.hash\n    if tip:\n        assert item.dest.type in ('branch', 'commit', 'save'), item.dest\n    return append_commits(item.src, tip,",'quiet'),
('q_split','P04',[(SP,"                    dest.update_ref(refname, commit, oldref)","                    prev = oldref\n                    dest.update_ref(refname=refname, newval=commit, oldval=prev)")],'quiet'),
]
