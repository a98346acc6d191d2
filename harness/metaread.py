"""Independent decoding of saved trees including .bupm metadata, and the matching scan of a
real directory tree."""

import hashlib, os, stat
from packread import tree_entries
from repolib import join_chunks


class Rd:
    def __init__(self, d):
        self.d, self.i = d, 0
    def byte(self):
        b = self.d[self.i]
        self.i += 1
        return b
    def V(self):
        r = s = 0
        while True:
            b = self.byte()
            r |= (b & 0x7f) << s
            s += 7
            if not b & 0x80:
                return r
    def v(self):
        b = self.byte()
        neg = b & 0x40
        r = b & 0x3f
        if b & 0x80:
            r |= self.V() << 6
        return -r if neg else r
    def s(self):
        n = self.V()
        if self.i + n > len(self.d):
            raise ValueError('short bvec')
        r = self.d[self.i:self.i + n]
        self.i += n
        return r


def decode_bupm(data):
    """The list of metadata records ({} for an empty one)."""
    r = Rd(data)
    out = []
    while r.i < len(data):
        m = {}
        while True:
            tag = r.V()
            if tag == 0:
                break
            rec = Rd(r.s())
            if tag == 10:
                vals = [getattr(rec, f)() for f in 'vvsvsvvVvVvVv']
                m.update(zip(('mode', 'uid', 'user', 'gid', 'group', 'rdev'), vals[:6]))
                m['atime'] = vals[6] * 10**9 + vals[7]
                m['mtime'] = vals[8] * 10**9 + vals[9]
                m['ctime'] = vals[10] * 10**9 + vals[11]
                m['size'] = vals[12] if vals[12] >= 0 else None
            elif tag == 3:
                m['target'] = rec.d
            elif tag == 8:
                m['hard'] = rec.d
            elif tag == 11:
                m['acl'] = [rec.s() for _ in range(4)]
            elif tag == 6:
                m['attr'] = rec.V()
            elif tag == 7:
                m['xattr'] = sorted((rec.s(), rec.s()) for _ in range(rec.V()))
            else:
                raise ValueError(f'unexpected metadata record {tag}')
        out.append(m)
    return out


class TreeReader:
    """Reads saved directories; TreeReader(view).walk(tree) gives
    {path (with / for directories, b'' for the top): entry}."""
    def __init__(self, view):
        self.view = view

    def level(self, oid, top=True):
        """entries [(name, kind, gitmode, oid, meta)], dir meta"""
        t, d = self.view.objs[oid]
        if t != 'tree':
            raise ValueError('directory is a ' + t)
        ents = tree_entries(d)
        recs = None
        mine, subs = [], []
        for m, n, o in ents:
            if n == b'.bupm':
                recs = decode_bupm(join_chunks(self.view, m, o))
            elif n.endswith(b'.bupd'):
                subs.append((n, o))
            elif n.endswith(b'.bupl'):
                mine.append((n[:-5], m, False, o))
            elif n.endswith(b'.bup'):
                mine.append((n[:-4], m, True, o))
            else:
                mine.append((n, m, False, o))
        if subs and mine:
            raise ValueError('mixed split tree')
        out = []
        nd = sorted((n, m, c, o) for n, m, c, o in mine if c or m != b'40000')
        dirmeta = recs[0] if recs else None
        if recs is not None and len(recs) != len(nd) + 1:
            raise ValueError(f'.bupm has {len(recs)} records for {len(nd)} entries')
        for i, (n, m, c, o) in enumerate(nd):
            out.append((n, 'c' if c else ('l' if m == b'120000' else 'f'), o,
                        recs[i + 1] if recs else None))
        for n, m, c, o in mine:
            if not c and m == b'40000':
                out.append((n, 'd', o, None))
        for n, o in subs:
            sub, sm = self.level(o, False)
            if sm:
                raise ValueError('directory metadata in a split leaf')
            out.extend(sub)
        names = [e[0] for e in out]
        if len(set(names)) != len(names):
            raise ValueError('duplicate names in directory')
        return out, dirmeta

    def walk(self, oid, prefix=b'', out=None):
        if out is None:
            out = {}
        ents, dm = self.level(oid)
        out[prefix] = {'kind': 'd', 'oid': oid, 'meta': dm, 'data': b''}
        for n, k, o, m in ents:
            if k == 'd':
                self.walk(o, prefix + n + b'/', out)
            elif k == 'c':
                out[prefix + n] = {'kind': 'f', 'oid': o, 'meta': m, 'chunked': True,
                                   'data': join_chunks(self.view, b'40000', o)}
            else:
                out[prefix + n] = {'kind': k, 'oid': o, 'meta': m,
                                   'data': self.view.objs[o][1]}
        return out


def sha(d):
    return hashlib.sha1(d).hexdigest()


def saved_key(e, dirs=True):
    """What should be equal to scan_key of the path when it was saved."""
    m = e['meta']
    if not m:
        return (e['kind'], sha(e['data']), 'nometa')
    fm = stat.S_IFMT(m['mode'])
    kind = {stat.S_IFREG: 'f', stat.S_IFDIR: 'd', stat.S_IFLNK: 'l', stat.S_IFIFO: 'p',
            stat.S_IFSOCK: 's', stat.S_IFCHR: 'c', stat.S_IFBLK: 'b'}.get(fm, '?')
    data = e['data']
    if kind == 'f' and e['kind'] != 'f' or kind == 'd' and e['kind'] != 'd' or \
       kind == 'l' and e['kind'] != 'l' or kind in 'pscb' and e['kind'] != 'f':
        kind = 'mismatch-' + kind + e['kind']
    if kind == 'f' and m['size'] != len(data):
        kind = 'badsize'
    if kind == 'l' and m.get('target') != data:
        kind = 'badtarget'
    return (kind, sha(data), (stat.S_IMODE(m['mode']), m['uid'], m['gid'], m['user'], m['group'],
                              m['mtime'], m['rdev'], 
                              tuple(x for x in m.get('xattr', ())
                                    if not x[0].startswith(b'system.'))))


_names = {}


def scan_key(path, st=None):
    import grp, pwd
    st = st or os.lstat(path)
    fm = stat.S_IFMT(st.st_mode)
    kind = {stat.S_IFREG: 'f', stat.S_IFDIR: 'd', stat.S_IFLNK: 'l', stat.S_IFIFO: 'p',
            stat.S_IFSOCK: 's', stat.S_IFCHR: 'c', stat.S_IFBLK: 'b'}[fm]
    data = b''
    if kind == 'f':
        with open(path, 'rb') as f:
            data = f.read()
    elif kind == 'l':
        data = os.readlink(path)
    if st.st_uid not in _names:
        try:
            _names[st.st_uid] = pwd.getpwuid(st.st_uid).pw_name.encode()
        except KeyError:
            _names[st.st_uid] = b''
    if -1 - st.st_gid not in _names:
        try:
            _names[-1 - st.st_gid] = grp.getgrgid(st.st_gid).gr_name.encode()
        except KeyError:
            _names[-1 - st.st_gid] = b''
    xa = []
    try:
        for n in os.listxattr(path, follow_symlinks=False):
            if n.startswith('system.'):
                continue
            xa.append((os.fsencode(n), os.getxattr(path, n, follow_symlinks=False)))
    except OSError:
        pass
    return (kind, sha(data), (stat.S_IMODE(st.st_mode), st.st_uid, st.st_gid, _names[st.st_uid],
                              _names[-1 - st.st_gid], st.st_mtime_ns,
                              st.st_rdev if kind in 'cb' else 0, tuple(sorted(xa))))


def scan(root):
    """{path below root, as in walk(): (key, stat)}"""
    root = os.fsencode(root)
    out = {}

    def go(p, rel):
        st = os.lstat(p)
        if stat.S_ISDIR(st.st_mode):
            out[rel] = (scan_key(p, st), st)
            for n in os.listdir(p):
                q = os.path.join(p, n)
                s2 = os.lstat(q)
                if stat.S_ISDIR(s2.st_mode):
                    go(q, rel + n + b'/')
                else:
                    out[rel + n] = (scan_key(q, s2), s2)
    go(root, b'')
    return out
