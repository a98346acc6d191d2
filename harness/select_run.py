"""Indexes and saves trees as generated by spec/SelectGen.tla, for spec/SelectTrace.tla (S03)."""
import hashlib, os, random, re, shutil, stat
from packread import RepoView, parse_commit, read_refs
from repolib import Interner, flatten, rand_bytes
from vlib import Machinery

CHARS = {1: b'', 2: b'/', 3: b'A', 4: b'B', 5: b'.', 6: b'\xff'}
NAME = {1: b'A', 2: b'AB', 3: b'B', 4: b'A.B', 5: b'\xffA', 8: b'Z', 9: b'Y'}


def data(c):
    return {1: b'1', 2: b'22222', 3: b'', 4: rand_bytes('s4', 4500), 5: rand_bytes('s5', 40000)}[c]


class Run:
    def __init__(self, ctx, i, script):
        self.ctx, self.i, self.script = ctx, i, script
        self.rng = random.Random(f'select-{ctx.seed}-{i}')
        self.dir = ctx.workdir(f's{i}')
        self.top = os.path.join(self.dir, 'top').encode()
        self.repo = os.path.join(self.dir, 'r')
        self.names = Interner()
        self.content = Interner()
        for n in sorted(NAME):
            self.names(NAME[n])
        self.num = {n: self.names(b) for n, b in NAME.items()}
        self.topids = [self.names(x) for x in self.top[1:].split(b'/')]

    def path(self, p):
        return b'/' if p == [-1] else b'/'.join([self.top] + [NAME[n] for n in p])

    def ids(self, p):
        """an absolute path's"""
        return [self.names(x) for x in p.split(b'/') if x]

    def abs(self, p):
        return [] if p == [-1] else self.topids + [self.num[n] for n in p]

    # ---- the file system
    def put(self, w):
        """Make the tree W with few changes; directories must stay writable."""
        want = {self.path(x['p']): x for x in w}
        for d, ds, fs in os.walk(self.top, topdown=False):
            for n in ds + fs:
                p = os.path.join(d, n)
                isdir = stat.S_ISDIR(os.lstat(p).st_mode)
                if p not in want or want[p]['d'] != isdir:
                    if isdir:
                        shutil.rmtree(p)
                    else:
                        os.unlink(p)
        for p in sorted(want):
            x = want[p]
            if x['d']:
                os.makedirs(p, exist_ok=True)
                continue
            if self.current(p) == x['c']:
                continue
            if os.path.lexists(p):
                os.unlink(p)
            if x['c'] == 6:
                os.symlink(b'target', p)
            else:
                with open(p, 'wb') as f:
                    f.write(data(x['c']))

    def current(self, p):
        if not os.path.lexists(p):
            return 0
        if os.path.islink(p):
            return 6
        with open(p, 'rb') as f:
            d = f.read()
        return next((c for c in range(1, 6) if data(c) == d), 0)

    def world(self):
        out = []
        for d, ds, fs in os.walk(self.top):
            for p in [d] + [os.path.join(d, n) for n in fs] + [os.path.join(d, n) for n in ds if os.path.islink(os.path.join(d, n))]:
                st = os.lstat(p)
                isdir = stat.S_ISDIR(st.st_mode)
                out.append({'p': self.ids(p), 'd': isdir, 's': st.st_size,
                            'c': 0 if isdir else self.content(self.key(p))})
        return out

    def key(self, p):
        if os.path.islink(p):
            return ('l', os.readlink(p).decode('utf-8', 'surrogateescape'))
        with open(p, 'rb') as f:
            return ('f', hashlib.sha1(f.read()).hexdigest())

    # ---- arguments
    def spell(self, p, style, isdir):
        """Some way to write the path."""
        k = self.rng.random()
        out = p
        if style % 3 == 1 and p.startswith(self.top + b'/'):
            out = p[len(self.top) + 1:]
            if k < .3:
                out = b'./' + out
        elif style % 3 == 2 and p == self.top:
            out = b'.'
        elif k < .15:
            out = p.replace(b'/top', b'/../' + os.path.basename(os.fsencode(self.dir)) + b'/top', 1)
        if isdir and k > .8 and out != b'/':
            out += b'/'
        return out

    def rx(self, r):
        def lit(l):
            return b''.join(b'.' if c == 0 else re.escape(self.top) if c == 1 else re.escape(CHARS[c]) for c in l)
        alts = [lit(l) for l in sorted(r['lits'])]
        s = alts[0] if len(alts) == 1 else b'(?:' + b'|'.join(alts) + b')'
        return (b'^' if r['bol'] else b'') + s + (b'$' if r['eol'] else b'')

    def bup(self, *a):
        return self.ctx.bupcmd(self.repo, *a, cwd=self.top,
                               env={'LD_PRELOAD': self.ctx.shim(), 'SHIM_NOW': '1900000000', 'TMPDIR': self.dir})

    def isdir(self, p):
        return os.path.isdir(p) and not os.path.islink(p)

    def index(self, o):
        st = o['style']
        cmd = ['index', '-u'] if st % 2 else ['index']
        for k, (opt, items) in enumerate((('exclude', [self.spell(self.path(p), st // 2, self.isdir(self.path(p))) for p in o['ex']]),
                                          ('exclude-rx', [self.rx(r) for r in o['rx']]))):
            if items and (st + k) % 4 == 3:
                f = os.path.join(self.dir, f'{opt}.list')
                with open(f, 'wb') as out:
                    out.write(b'\n'.join(items) + b'\n\n')
                cmd += [f'--{opt}-from', f]
            else:
                for x in items:
                    cmd += [f'--{opt}', x]
        w = self.world()
        r = self.bup(*cmd, *[self.spell(self.path(p), st, self.isdir(self.path(p))) for p in o['args']])
        l = self.bup('index', '-s', self.top)
        if l.rc != 0 and r.rc == 0:
            raise Machinery(f'index -s: {l}')
        listed = []
        for line in l.out.splitlines():
            flag, p = line[:1], line[2:]
            if flag != b'D':
                listed.append(self.ids(p))
        return {'op': 'index', 'w': w, 'args': [self.abs(p) for p in o['args']], 'ex': [self.abs(p) for p in o['ex']],
                'rxs': [{'lits': r['lits'], 'bol': r['bol'], 'eol': r['eol']} for r in o['rx']], 'rc': r.rc, 'listed': listed,
                'cmd': [repr(x) for x in cmd], 'err': r.err[-200:].decode('utf-8', 'replace')}

    def save(self, o, k):
        m, st = o['m'], o['style']
        opts = []
        mm = {'how': m['how'], 'path': [], 'grafts': []}
        if m['how'] == 'strip':
            opts = ['--strip']
        elif m['how'] == 'strippath':
            opts = ['--strip-path', self.spell(self.path(m['path']), st // 2, True)]
            mm['path'] = self.abs(m['path'])
        elif m['how'] == 'graft':
            for g in m['grafts']:
                new = b'/' + b'/'.join(NAME[n] for n in g['new'])
                opts += ['--graft', self.spell(self.path(g['old']), st // 2, True) + b'=' + new]
                mm['grafts'].append({'old': self.abs(g['old']), 'new': [self.num[n] for n in g['new']]})
        if o['limit']:
            opts += ['--smaller', str(o['limit'])]
        name = f'b{k}'
        r = self.bup('save', '-n', name, '-d', str(1500000000 + k), *opts,
                     *[self.spell(self.path(p), st, self.isdir(self.path(p))) for p in o['args']])
        refs = read_refs(self.repo)
        view = RepoView(self.repo)
        tip = refs.get(f'refs/heads/{name}')
        dirs, others = [], []
        if tip:
            flat = flatten(view, parse_commit(view.objs[tip][1])['tree'])
            for p, v in flat.items():
                if v[0] == 'd':
                    dirs.append(self.ids(p))
                else:
                    others.append({'p': self.ids(p), 'c': self.content(v)})
            dirs.append([])
        old = all(refs.get(n) == v for n, v in self.refs.items())
        self.refs = refs
        return {'op': 'save', 'args': [self.abs(p) for p in o['args']], 'm': mm, 'limit': o['limit'], 'rc': r.rc,
                'dirs': dirs, 'others': others, 'old': old, 'cmd': [repr(x) for x in opts],
                'err': r.err[-300:].decode('utf-8', 'replace')}

    def go(self):
        self.refs = {}
        os.makedirs(self.top)
        r = self.ctx.bupcmd(self.repo, 'init')
        if r.rc:
            raise Machinery(f'init: {r}')
        ev = []
        for k, o in enumerate(self.script['ev']):
            if o['op'] == 'world':
                self.put(o['w'])
            elif o['op'] == 'index':
                ev.append(self.index(o))
            elif o['op'] == 'save':
                ev.append(self.save(o, k))
        shutil.rmtree(self.dir)
        return {'ev': ev, 'top': self.topids, 'chars': []}


def check(ctx, num):
    scripts = ctx.simulate('SelectGen', 'SelectGen', num, 40)
    runs = [Run(ctx, i, s) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.go(), runs)
    rev = {v: k for k, v in CHARS.items()}
    for r, t in zip(runs, traces):
        t['chars'] = [[rev.get(bytes([c]), 99) for c in n] for n in r.names.l]
    saves = [e for t in traces for e in t['ev'] if e['op'] == 'save']
    ctx.cov['saves_ok'] = sum(e['rc'] == 0 for e in saves)
    ctx.cov['saves_refused'] = sum(e['rc'] != 0 for e in saves)
    ctx.judge('SelectTrace', traces, [{'i': r.i} for r in runs], ['S03'], shards=8)
