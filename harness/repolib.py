"""Projection of real repositories onto the state of spec/Repo.tla, independent decoding
of saved trees, and building blocks for scenarios."""

import hashlib, os, random, re, shutil, stat, struct, subprocess, zlib, threading
from packread import RepoView, tree_entries, parse_commit, children


def join_chunks(view, mode, oid):
    """Content of a blob or of a tree of chunks."""
    t, d = view.objs[oid]
    if t == 'blob':
        return d
    out = []
    for m, n, o in tree_entries(d):
        out.append(join_chunks(view, m, o))
    return b''.join(out)


def expand_dir(view, oid):
    """The real (name, gitmode, chunked, oid) entries of a saved directory, and the
    bupm oids seen."""
    out = []
    t, d = view.objs[oid]
    if t != 'tree':
        raise ValueError('directory is a ' + t)
    ents = tree_entries(d)
    for m, n, o in ents:
        if n == b'.bupm':
            continue
        if n.endswith(b'.bupd'):
            out.extend(expand_dir(view, o))
        elif n.endswith(b'.bupl'):
            out.append((n[:-5], m, False, o))
        elif n.endswith(b'.bup'):
            out.append((n[:-4], m, True, o))
        else:
            out.append((n, m, False, o))
    return out


def flatten(view, oid, prefix=b'', out=None):
    """{path: (kind, sha1 of content or link target)} for a saved tree."""
    if out is None:
        out = {}
    for n, m, chunked, o in expand_dir(view, oid):
        p = prefix + n
        if p in out:
            raise ValueError(f'duplicate name {p!r}')
        if chunked:
            out[p] = ('f', hashlib.sha1(join_chunks(view, m, o)).hexdigest())
        elif m == b'40000':
            out[p] = ('d', '')
            flatten(view, o, p + b'/', out)
        elif m == b'120000':
            out[p] = ('l', view.objs[o][1].decode('utf-8', 'surrogateescape'))
        else:
            out[p] = ('f', hashlib.sha1(view.objs[o][1]).hexdigest())
    return out


def is_save_tree(view, oid):
    return any(n == b'.bupm' for m, n, o in tree_entries(view.objs[oid][1]))


def content_of(view, tree, cache=None):
    """A hashable description of what a commit's tree holds."""
    if cache is not None and tree in cache:
        return cache[tree]
    try:
        t, d = view.objs[tree]
        if is_save_tree(view, tree):
            r = ('save', tuple(sorted((k, v) for k, v in flatten(view, tree).items())))
        else:
            r = ('split', hashlib.sha1(join_chunks(view, b'40000', tree)).hexdigest())
    except (KeyError, ValueError) as ex:
        return ('broken', repr(ex)[:80])
    if cache is not None:
        cache[tree] = r
    return r


def save_content(prefix, files):
    """What content_of should give for a save of {relpath: ('f'|'d'|'l', data)} below the
    absolute directory PREFIX."""
    out = {}
    parts = prefix.strip(b'/').split(b'/')
    for i in range(len(parts)):
        out[b'/'.join(parts[:i + 1])] = ('d', '')
    base = prefix.strip(b'/') + b'/'
    for k, (kind, data) in files.items():
        if kind == 'f':
            out[base + k] = ('f', hashlib.sha1(data).hexdigest())
        elif kind == 'l':
            out[base + k] = ('l', data.decode('utf-8', 'surrogateescape'))
        else:
            out[base + k] = ('d', '')
    return ('save', tuple(sorted(out.items())))


def write_pack(repo, objs):
    """Write a pack holding objs (oid -> (type, data)) into the repository."""
    types = {'commit': 1, 'tree': 2, 'blob': 3, 'tag': 4}
    d = bytearray(b'PACK' + struct.pack('>II', 2, len(objs)))
    ents = {}
    for oid, (t, data) in objs.items():
        o = len(d)
        size = len(data)
        c = (types[t] << 4) | (size & 15)
        size >>= 4
        h = bytearray()
        while size:
            h.append(c | 0x80)
            c = size & 0x7f
            size >>= 7
        h.append(c)
        raw = bytes(h) + zlib.compress(data, 1)
        d += raw
        ents[oid] = (zlib.crc32(raw), o)
    sha = hashlib.sha1(d).digest()
    d += sha
    name = hashlib.sha1(b''.join(sorted(objs))).hexdigest()
    idx = bytearray(b'\377tOc' + struct.pack('>I', 2))
    s = sorted(ents)
    cnt = 0
    for b in range(256):
        while cnt < len(s) and s[cnt][0] <= b:
            cnt += 1
        idx += struct.pack('>I', cnt)
    for o in s:
        idx += o
    for o in s:
        idx += struct.pack('>I', ents[o][0])
    for o in s:
        idx += struct.pack('>I', ents[o][1])
    idx += sha
    idx += hashlib.sha1(idx).digest()
    pd = os.path.join(repo, 'objects/pack')
    base = os.path.join(pd, 'pack-' + name)
    for suffix, data in (('.pack', d), ('.idx', idx)):
        if os.path.exists(base + suffix):
            os.unlink(base + suffix)
        with open(base + suffix, 'wb') as f:
            f.write(data)
    return 'pack-' + name


def drop_objects(repo, victims):
    """Remove objects from every pack of the repository (to simulate damage)."""
    view = RepoView(repo)
    pd = os.path.join(repo, 'objects/pack')
    for n, oids in view.packs.items():
        if oids & victims:
            for s in ('.pack', '.idx', '.par2'):
                p = os.path.join(pd, n + s)
                if os.path.exists(p):
                    os.unlink(p)
            rest = {o: view.objs[o] for o in oids - victims}
            if rest:
                write_pack(repo, rest)
    for f in os.listdir(pd):
        if f.endswith('.midx') or f == 'bup.bloom':
            os.unlink(os.path.join(pd, f))


class Interner:
    def __init__(self):
        self.m = {}
        self.l = []
        self.lock = threading.Lock()
    def __call__(self, x):
        with self.lock:
            if x not in self.m:
                self.l.append(x)
                self.m[x] = len(self.l)
            return self.m[x]


class Projector:
    """Turns repositories into trace states; ids are shared by all states of a trace."""
    KINDS = {'blob': 'b', 'tree': 't', 'commit': 'c', 'tag': 'g'}

    def __init__(self):
        self.oid = Interner()
        self.content = Interner()
        self.meta = Interner()
        self.pack = Interner()
        self.cache = {}
        self.ccache = {}
        self.kids = {}
        self.kind = {}

    def graph(self):
        n = len(self.oid.l)
        return {'kids': [self.kids.get(i, []) for i in range(1, n + 1)],
                'kind': [self.kind.get(i, '?') for i in range(1, n + 1)]}

    def state(self, repo, contents=True):
        view = RepoView(repo, self.cache)
        for o, (t, d) in view.objs.items():
            i = self.oid(o)
            if i not in self.kind:
                self.kind[i] = self.KINDS[t]
                self.kids[i] = sorted({self.oid(k) for k in children(t, d)})
        refs, hist = [], []
        for r in sorted(view.refs):
            o = view.refs[r]
            refs.append({'r': r, 'o': self.oid(o) if o else 0})
            if not contents:
                continue
            h = []
            for c, p in view.history(r):
                h.append({'o': self.oid(c),
                          'c': self.content(content_of(view, p['tree'], self.ccache)),
                          'm': self.meta((p['author'], p['author_time'], p['author_off'],
                                          p['committer'], p['committer_time'],
                                          p['committer_off'], p['msg'])),
                          't': self.oid(p['tree']),
                          'np': len(p['parents'])})
            hist.append({'r': r, 's': h})
        st = {'packs': [{'n': self.pack(n), 'o': sorted(self.oid(o) for o in oids)}
                        for n, oids in sorted(view.packs.items())],
              'refs': refs, 'hist': hist,
              'problems': [str(p)[:100] for p in view.problems]}
        self.view = view
        return st


def rand_bytes(seed, n):
    return random.Random(seed).randbytes(n)


def write_tree_files(base, files):
    for k, (kind, data) in sorted(files.items()):
        p = os.path.join(base, os.fsdecode(k))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if kind == 'f':
            with open(p, 'wb') as f:
                f.write(data)
        elif kind == 'l':
            os.symlink(os.fsdecode(data), p)
        else:
            os.makedirs(p, exist_ok=True)
