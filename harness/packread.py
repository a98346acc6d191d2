"""An independent reader for git packs, idxs, and refs (no bup or git code), used to
project a repository onto the abstract state of the specifications."""

import hashlib, os, struct, zlib, stat as stat_

TYPES = {1: 'commit', 2: 'tree', 3: 'blob', 4: 'tag'}


def read_idx(path, problems):
    with open(path, 'rb') as f:
        d = f.read()
    if len(d) < 8 + 1024 + 40 or d[:8] != b'\377tOc\0\0\0\2':
        problems.append(f'bad idx header {os.path.basename(path)}')
        return None
    if hashlib.sha1(d[:-20]).digest() != d[-20:]:
        problems.append(f'bad idx checksum {os.path.basename(path)}')
    fan = struct.unpack('>256I', d[8:8 + 1024])
    n = fan[255]
    o = 8 + 1024
    shas = [d[o + 20 * i:o + 20 * i + 20] for i in range(n)]
    o += 20 * n
    crcs = struct.unpack(f'>{n}I', d[o:o + 4 * n])
    o += 4 * n
    ofs = list(struct.unpack(f'>{n}I', d[o:o + 4 * n]))
    o += 4 * n
    for i, x in enumerate(ofs):
        if x & 0x80000000:
            k = x & 0x7fffffff
            ofs[i] = struct.unpack('>Q', d[o + 8 * k:o + 8 * k + 8])[0]
    packsum = d[-40:-20]
    if any(a >= b for a, b in zip(shas, shas[1:])):
        problems.append(f'idx not strictly sorted {os.path.basename(path)}')
    cnt = 0
    for b in range(256):
        while cnt < n and shas[cnt][0] <= b:
            cnt += 1
        if fan[b] != cnt:
            problems.append(f'idx fanout wrong {os.path.basename(path)}')
            break
    return {s: (c, f) for s, c, f in zip(shas, crcs, ofs)}, packsum


def parse_object_at(d, ofs):
    """Return (type, data, end) for the (non-delta) object at ofs."""
    i = ofs
    c = d[i]
    i += 1
    t = (c >> 4) & 7
    size = c & 15
    sh = 4
    while c & 0x80:
        c = d[i]
        i += 1
        size |= (c & 0x7f) << sh
        sh += 7
    if t not in TYPES:
        raise ValueError(f'unsupported pack object type {t}')
    z = zlib.decompressobj()
    data = z.decompress(d[i:])
    if not z.eof:
        raise ValueError('truncated object')
    end = len(d) - len(z.unused_data)
    if len(data) != size:
        raise ValueError('object size mismatch')
    return TYPES[t], data, end


def read_pack(path, problems):
    """Return {oid: (type, data)} for the pack (and check it and its idx)."""
    base = os.path.basename(path)
    with open(path, 'rb') as f:
        d = f.read()
    out = {}
    if d[:8] != b'PACK\0\0\0\2':
        problems.append(f'bad pack header {base}')
        return out
    count = struct.unpack('>I', d[8:12])[0]
    if hashlib.sha1(d[:-20]).digest() != d[-20:]:
        problems.append(f'bad pack checksum {base}')
    idxp = path[:-5] + '.idx'
    idx = None
    if not os.path.exists(idxp):
        problems.append(f'missing idx for {base}')
    else:
        r = read_idx(idxp, problems)
        if r:
            idx, packsum = r
            if packsum != d[-20:]:
                problems.append(f'idx is for another pack {base}')
    o = 12
    mv = memoryview(d)
    n = 0
    offsets = {}
    try:
        while o < len(d) - 20:
            t, data, end = parse_object_at(mv[:len(d) - 20], o)
            oid = hashlib.sha1(b'%s %d\0' % (t.encode(), len(data)) + data).digest()
            if oid in out:
                problems.append(f'duplicate object in {base}')
            out[oid] = (t, data)
            offsets[oid] = (zlib.crc32(mv[o:end]), o)
            o = end
            n += 1
    except (ValueError, zlib.error, IndexError) as ex:
        problems.append(f'bad object in {base}: {ex}')
    if n != count:
        problems.append(f'pack header count {count} but {n} objects in {base}')
    if idx is not None:
        if set(idx) != set(out):
            problems.append(f'idx and pack disagree {base}')
        else:
            for k, v in idx.items():
                if offsets[k] != v:
                    problems.append(f'idx crc or offset wrong {base}')
                    break
    return out


def children(t, data):
    """Return the list of oids an object refers to directly."""
    if t == 'blob':
        return []
    if t == 'tree':
        out = []
        i = 0
        while i < len(data):
            sp = data.index(b' ', i)
            nul = data.index(b'\0', sp)
            mode = data[i:sp]
            oid = data[nul + 1:nul + 21]
            i = nul + 21
            if mode != b'160000':
                out.append(oid)
        return out
    if t == 'commit':
        out = []
        for line in data.split(b'\n'):
            if not line:
                break
            if line.startswith((b'tree ', b'parent ')):
                out.append(bytes.fromhex(line.split(b' ')[1].decode()))
        return out
    if t == 'tag':
        return [bytes.fromhex(data.split(b'\n')[0].split(b' ')[1].decode())]
    raise ValueError(t)


def tree_entries(data):
    out = []
    i = 0
    while i < len(data):
        sp = data.index(b' ', i)
        nul = data.index(b'\0', sp)
        out.append((data[i:sp], data[sp + 1:nul], data[nul + 1:nul + 21]))
        i = nul + 21
    return out


def parse_commit(data):
    head, _, msg = data.partition(b'\n\n')
    r = {'parents': [], 'msg': msg}
    for line in head.split(b'\n'):
        k, _, v = line.partition(b' ')
        if k == b'parent':
            r['parents'].append(bytes.fromhex(v.decode()))
        elif k == b'tree':
            r['tree'] = bytes.fromhex(v.decode())
        elif k in (b'author', b'committer'):
            who, ts, off = v.rsplit(b' ', 2)
            r[k.decode()] = who
            r[k.decode() + '_time'] = int(ts)
            r[k.decode() + '_off'] = off
    return r


def read_refs(repo):
    refs = {}
    pk = os.path.join(repo, 'packed-refs')
    if os.path.exists(pk):
        for line in open(pk, 'rb'):
            if line[:1] in b'#^':
                continue
            h, n = line.strip().split(b' ', 1)
            refs[n.decode('utf-8', 'surrogateescape')] = bytes.fromhex(h.decode())
    base = os.path.join(repo, 'refs')
    for root, dirs, files in os.walk(base):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith('.lock'):
                continue
            with open(p, 'rb') as fh:
                d = fh.read().strip()
            name = os.path.relpath(p, repo)
            try:
                refs[name] = bytes.fromhex(d.decode())
                assert len(refs[name]) == 20
            except Exception:
                refs[name] = None
    return refs


class RepoView:
    """Everything in a repository: packs (name -> oid set), objs (oid -> (type, data)),
    refs, and a list of problems found."""
    def __init__(self, repo, cache=None):
        self.problems = []
        self.packs = {}
        self.objs = {}
        pd = os.path.join(repo, 'objects/pack')
        names = sorted(os.listdir(pd)) if os.path.isdir(pd) else []
        for n in names:
            if n.endswith('.pack'):
                p = os.path.join(pd, n)
                st = os.stat(p)
                key = (n, st.st_size, st.st_mtime_ns, st.st_ino,
                       os.path.exists(p[:-5] + '.idx'))
                if cache is not None and key in cache:
                    objs = cache[key]
                else:
                    probs = []
                    objs = read_pack(p, probs)
                    self.problems += probs
                    if cache is not None and not probs:
                        cache[key] = objs
                self.packs[n[:-5]] = frozenset(objs)
                self.objs.update(objs)
        self.stray = [n for n in names if n.endswith('.idx') and n[:-4] not in self.packs]
        # loose objects (git plumbing only)
        od = os.path.join(repo, 'objects')
        for d in os.listdir(od):
            if len(d) == 2:
                for f in os.listdir(os.path.join(od, d)):
                    with open(os.path.join(od, d, f), 'rb') as fh:
                        raw = zlib.decompress(fh.read())
                    hd, _, body = raw.partition(b'\0')
                    self.objs[bytes.fromhex(d + f)] = (hd.split(b' ')[0].decode(), body)
                    self.packs.setdefault('loose', frozenset())
                    self.packs['loose'] |= {bytes.fromhex(d + f)}
        self.refs = read_refs(repo)

    def kids(self, oid):
        t, d = self.objs[oid]
        return children(t, d)

    def reach(self, roots):
        seen = set()
        missing = set()
        todo = [r for r in roots if r]
        while todo:
            o = todo.pop()
            if o in seen or o in missing:
                continue
            if o not in self.objs:
                missing.add(o)
                continue
            seen.add(o)
            todo.extend(self.kids(o))
        return seen, missing

    def history(self, ref):
        """Return [(commit oid, parsed)] newest first, following first parents."""
        out = []
        o = self.refs.get(ref)
        while o and o in self.objs:
            t, d = self.objs[o]
            if t != 'commit':
                break
            c = parse_commit(d)
            out.append((o, c))
            o = c['parents'][0] if c['parents'] else None
        return out
