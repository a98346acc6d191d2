"""Kills commands at any point (D01), and records their file operations (D01 and D02), for
spec/CrashTrace.tla and spec/StoreTrace.tla, in scenarios of spec/CrashGen.tla."""
import hashlib, os, random, shutil, time
from packread import children, parse_commit, read_idx, read_pack, read_refs
from repolib import Interner, content_of, rand_bytes, save_content
from vlib import Machinery

NOW = 1900000000
BASE = 1500000000


def sources(ctx):
    """Directories s1..s6 to save, sharing some files; and what's in them."""
    top = ctx.workdir('sources')
    out = {}
    part = {1: {b'a': rand_bytes('A', 300), b'sub/x': rand_bytes('X', 30000), b'sub/y': b'y\n'},
            2: {b'b': rand_bytes('B', 9000), b'd/deep/z': rand_bytes('Z', 700)},
            3: {b'c': rand_bytes('C', 60000)},
            4: {b'many/f%d' % i: b'%d\n' % i for i in range(12)}}
    for c, parts in {1: [1], 2: [2], 3: [1, 2], 4: [3, 4], 5: [1, 3], 6: [2, 4]}.items():
        d = os.path.join(top, f's{c}').encode()
        files = {}
        for p in parts:
            for n, data in part[p].items():
                path = os.path.join(d, b'p%d' % p, n)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'wb') as f:
                    f.write(data)
                rel = b'p%d/' % p + n
                files[rel] = ('f', data)
                while b'/' in rel:
                    rel = rel.rpartition(b'/')[0]
                    files[rel] = ('d', b'')
        out[c] = (os.fsdecode(d), files)
    return top, out


class View:
    """What's in a repository, without relying on its being sane."""
    cache = {}

    def __init__(self, repo, extra=None):
        self.objs, self.have, self.claims, self.packs = {}, set(), set(), {}
        for pd in [os.path.join(repo, 'objects/pack')] + ([extra] if extra else []):
            for n in sorted(os.listdir(pd)) if os.path.isdir(pd) else []:
                if not n.endswith('.idx'):
                    continue
                p = os.path.join(pd, n)
                oids, objs = self.load(p)
                if pd == extra and n[:-4] in self.packs:
                    continue
                self.packs[n[:-4]] = oids
                if pd != extra:
                    self.claims |= oids
                    if objs is not None:
                        self.have |= oids
                self.objs.update(objs or {})
        self.refs = read_refs(repo) if os.path.isdir(os.path.join(repo, 'refs')) else {}

    @classmethod
    def load(cls, p):
        with open(p, 'rb') as f:
            h = hashlib.sha1(f.read())
        pack = p[:-4] + '.pack'
        if os.path.exists(pack):
            with open(pack, 'rb') as f:
                h.update(b'pack')
                h.update(f.read())
        key = h.digest()
        if key not in cls.cache:
            probs = []
            r = read_idx(p, probs)
            oids = frozenset(r[0]) if r else frozenset()
            objs = read_pack(pack, probs) if os.path.exists(pack) else None
            cls.cache[key] = oids, (None if probs or objs is None else objs)
        return cls.cache[key]


class Scenario:
    def __init__(self, ctx, i, s, top, src):
        self.ctx, self.i, self.s, self.top, self.src = ctx, i, s, top, src
        self.rng = random.Random(f'crash-{ctx.seed}-{i}')
        self.dir = ctx.workdir(f'c{i}')
        self.tmpl = os.path.join(self.dir, 'base')
        self.oid = Interner()
        self.all = {}
        self.n = 0
        self.failed = None
        self.v = dict(s['victim'])

    def date(self):
        self.n += 1
        return str(BASE + self.n * 9000000)

    def bup(self, where, *a, env=None, **kw):
        e = {'LD_PRELOAD': self.ctx.shim(), 'SHIM_NOW': str(NOW), 'GIT_AUTHOR_NAME': 'a', 'GIT_COMMITTER_NAME': 'c',
             'BUP_DIR': os.path.join(where, 'r'), 'TMPDIR': where, 'HOME': where}
        e.update(env or {})
        return self.ctx.run([self.ctx.bup, *a], env=e, **kw)

    def ok(self, r, what):
        if r.rc != 0:
            raise Machinery(f'{what}: {r}')

    def data(self, c):
        return b''.join(x for k, x in sorted(self.src[c][1].values()) if k == 'f') * 2

    # ---- the base
    def setup(self):
        b, s = self.tmpl, self.s
        os.mkdir(b)
        run = lambda *a, **kw: self.ok(self.bup(b, *a, **kw), a)
        def init(r):
            self.ok(self.bup(b, 'init', env={'BUP_DIR': os.path.join(b, r)}), 'init')
            git = lambda k, v: self.ok(self.ctx.run(['git', '--git-dir', os.path.join(b, r), 'config', k, v]), k)
            git('bup.split.files', 'legacy:13')
            if s['trees']:
                git('bup.split.trees', 'true')
            if s['objs']:
                git('pack.packSizeLimit', str({5: 9000, 9: 30000}[s['objs']]))
        if self.v['op'] == 'midx':
            s['objs'] = 5
        init('r')
        run('index', *(d for d, f in self.src.values()))
        branches, saves, tags = [], {}, []
        v = self.v
        op, how = v['op'], v['how']
        if op == 'gc':
            # something to collect: what isn't in what follows of a save's packs
            run('save', '-n', 'garbage', '-d', self.date(), self.src[3 + v['c'] % 4][0])
        for o in s['base']:
            name = f'b{o["b"]}'
            if o['op'] == 'save':
                run('save', '-n', name, '-d', self.date(), self.src[o['c']][0])
            elif o['op'] == 'split':
                name = f's{o["b"]}'
                run('split', '-n', name, '-d', self.date(), input=self.data(o['c']))
            elif o['op'] in ('midx', 'bloom'):
                run(*{'midx': ['midx', ['-a', '-f'][o['k'] % 2]], 'bloom': ['bloom'] + ['-f'] * (o['k'] % 2)}[o['op']])
                continue
            elif o['op'] == 'tag' and branches:
                t = f't{len(tags)}'
                run('tag', t, branches[o['k'] % len(branches)])
                tags.append(t)
                continue
            elif o['op'] == 'rmbranch' and len(branches) > 1:
                x = branches.pop(o['k'] % len(branches))
                saves.pop(x)
                run('rm', '--unsafe', '/' + x)
                continue
            elif o['op'] == 'rmsave' and any(len(x) > 1 for x in saves.values()):
                x = next(k for k in saves if len(saves[k]) > 1)
                v = saves[x].pop(o['k'] % len(saves[x]))
                run('rm', '--unsafe', f'/{x}/{v}')
                continue
            else:
                continue
            if name not in branches:
                branches.append(name)
                saves[name] = []
            saves[name].append(time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(BASE + self.n * 9000000)))
        if not branches:
            run('save', '-n', 'b1', '-d', self.date(), self.src[1][0])
            branches, saves = ['b1'], {'b1': [time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(BASE + self.n * 9000000))]}
        branch = branches[v['k'] % len(branches)]
        if v['op'] == 'get':
            init('r2')
            e = {'BUP_DIR': os.path.join(b, 'r2')}
            for x, cs in (('x1', [v['c'], 1 + v['c'] % 6]), ('x2', [1 + (v['c'] + 2) % 6])):
                for c in cs:
                    self.ok(self.bup(b, 'index', '-f', os.path.join(b, 'i2'), self.src[c][0], env=e), 'index')
                    self.ok(self.bup(b, 'save', '-f', os.path.join(b, 'i2'), '-n', x, '-d', self.date(), self.src[c][0], env=e), 'save')
        self.kind, self.once, self.gc, self.input = 'same', False, False, None
        self.prep = []
        if op == 'index':
            os.unlink(os.path.join(b, 'r/bupindex')) if how < 3 else None
            self.prep = ['index', '--clear'] if how == 3 else []
            self.cmd = ['index'] + (['-u'] if how % 2 else []) + [self.src[c][0] for c in {v['c'], 1 + v['c'] % 6}]
        elif op == 'save':
            self.kind = 'grow'
            out = [[], ['-t'], ['-c']][how % 3]
            self.cmd = ['save', '--strip-path', self.top, '-n', branch if how < 3 else 'new', '-d', self.date()] + out + [self.src[v['c']][0]]
        elif op == 'split':
            self.kind = 'grow'
            self.input = self.data(v['c'])
            self.cmd = ['split', '-n', branch if how < 3 else 'new', '-d', self.date()] + (['--max-pack-objects', '3'] if how % 2 else [])
        elif op == 'get':
            self.kind = 'grow' if how in (1, 2, 5) else 'same'
            self.once = how == 4
            self.cmd = ['get', '-s', '@/r2'] + \
                [['--ff', 'x1', '--new-tag:', 'x2', '.tag/y'], ['--append:', 'x1', branch], ['--pick:', 'x1/latest', branch],
                 ['--replace:', 'x1', branch], ['--new-tag:', 'x1', '.tag/y'], ['--append:', 'x2', branch, '--unnamed', 'x1']][how]
            if how == 0:
                self.once = True
        elif op in ('tag', 'tagf', 'tagd'):
            ts = tags or ['t0']
            if op == 'tagd' and not tags:
                run('tag', 't0', branch)
            self.cmd = {'tag': ['tag', 'new', branch], 'tagf': ['tag', '-f', ts[0], branch], 'tagd': ['tag', '-d', ts[0]]}[op]
            self.once = op != 'tagf'
        elif op == 'rm':
            vs = saves[branch]
            self.cmd = ['rm', '--unsafe'] + [f'/{branch}/{x}' for x in (vs[:-1] if how % 2 and len(vs) > 1 else [vs[v['c'] % len(vs)]])]
            self.once = True
        elif op == 'rmbranch':
            self.cmd = ['rm', '--unsafe'] + ['/' + x for x in branches[:1 + how % 3]]
            self.once = True
        elif op in ('prune', 'prunegc'):
            bs = [x for x in branches if x.startswith('b')] or branches
            self.cmd = ['prune-older', '--unsafe', '--keep-yearlies-for', 'forever' if how % 2 else '9y',
                        '--gc' if op == 'prunegc' else '--no-gc'] + bs
            self.gc = op == 'prunegc'
        elif op == 'gc':
            run('rm', '--unsafe', '/garbage')
            if len(branches) > 1:
                run('rm', '--unsafe', '/' + branches[0])
            self.cmd = ['gc', '--unsafe', '--threshold', ['0', '10', '50'][how % 3]]
            self.gc = True
        elif op == 'midx':
            self.cmd = ['midx', ['-a', '-f'][how % 2]]
            run('save', '-n', 'more', '-d', self.date(), *(d for d, f in self.src.values()))
            if how > 1:
                for p in os.listdir(os.path.join(b, 'r/objects/pack')):
                    if p.endswith('.midx'):
                        os.unlink(os.path.join(b, 'r/objects/pack', p))
        elif op == 'bloom':
            self.cmd = ['bloom'] + (['-f'] if how % 2 else []) + (['-k', '4'] if how == 3 else [])
            if how > 3 and os.path.exists(os.path.join(b, 'r/objects/pack/bup.bloom')):
                os.unlink(os.path.join(b, 'r/objects/pack/bup.bloom'))
        elif op == 'init':
            self.cmd = ['init']
            if how % 2:
                self.prep = 'rm'
        self.remote = v['remote'] and op in ('save', 'split', 'get', 'init')
        if self.prep == 'rm':
            shutil.rmtree(os.path.join(b, 'r'))
        elif self.prep:
            run(*self.prep)
        if self.remote:
            # the client has the index (and its cache of indexes)
            os.makedirs(os.path.join(b, 'c'))
            if self.prep != 'rm':
                self.ok(self.bup(b, 'init', env={'BUP_DIR': os.path.join(b, 'c')}), 'init')
                self.move_index(os.path.join(b, 'r'), os.path.join(b, 'c'))

    def move_index(self, a, b):
        for n in os.listdir(a):
            if n.startswith('bupindex'):
                os.rename(os.path.join(a, n), os.path.join(b, n))

    def victim(self, where, env=None):
        e = dict(env or {})
        cmd = [a.replace('@', where) for a in self.cmd]
        if self.remote:
            e.update(self.ctx.remote_env())
            e['BUP_DIR'] = os.path.join(where, 'c')
            cmd[1:1] = ['-r', 'host:' + os.path.join(where, 'r')]
        return self.bup(where, *cmd, env=e, input=self.input)

    def copy(self, name):
        w = os.path.join(self.dir, name)
        r = self.ctx.run(['cp', '-a', self.tmpl, w])
        self.ok(r, 'cp')
        return w

    def view(self, where, extra=None):
        v = View(os.path.join(where, 'r'), extra)
        self.all.update(v.objs)
        return v

    def refs(self, v):
        return [{'n': k, 'v': self.oid(o)} for k, o in sorted(v.refs.items())]

    def ids(self, oids):
        return sorted(self.oid(o) for o in oids)

    # ---- an undisturbed run
    def full(self):
        w = self.copy('full')
        before = self.view(w)
        log, keep, cnt = (os.path.join(self.dir, x) for x in ('log', 'keep', 'counter'))
        os.mkdir(keep)
        with open(cnt, 'wb') as f:
            f.write(bytes(8))
        r = self.victim(w, {'SHIM_ROOT': w, 'SHIM_GIT': '1', 'SHIM_LOG': log, 'SHIM_KEEP': keep, 'SHIM_COUNTER': cnt})
        if r.rc != 0:
            self.failed = str(r)
            return
        after = self.view(w, keep)
        with open(cnt, 'rb') as f:
            self.nops = int.from_bytes(f.read(8), 'little')
        self.old, self.new = self.refs(before), self.refs(after)
        with open(log, 'rb') as f:
            self.log = [l.rstrip(b'\n').split(b'\t') for l in f]
        counted = [l for l in self.log if l[6] == b'0']
        if len(counted) != self.nops:
            raise Machinery(f'{len(counted)} operations logged, {self.nops} counted')
        self.ops = [l[0].decode() for l in counted]
        self.store = self.store_trace(w, before, after)
        shutil.rmtree(w)

    def store_trace(self, w, before, after):
        """The log as events of StoreTrace.tla"""
        r = os.path.join(w, 'r').encode()
        pack = r + b'/objects/pack'
        dirs, base, fid = Interner(), Interner(), Interner()
        name = lambda p: {'d': dirs(os.path.dirname(p)), 'b': base(os.path.basename(p))}
        inside = lambda p: p.startswith(r + b'/objects/')
        ref = lambda p: p[len(r) + 1:].decode() if p.startswith(r + b'/refs/') and not p.endswith(b'.lock') else None
        ispack = lambda p: os.path.dirname(p) == pack and p.endswith((b'.pack', b'.idx'))
        seen = set()
        def known(p):
            d = os.path.dirname(p)
            if d not in seen:
                seen.add(d)
        ev = []
        listing = lambda where: [p for p in os.listdir(pack.replace(os.fsencode(w), os.fsencode(where)))] if \
            os.path.isdir(pack.replace(os.fsencode(w), os.fsencode(where))) else []
        names0 = [pack + b'/' + x for x in listing(self.tmpl)]
        nfile = len(names0)
        exists = {p: k + 1 for k, p in enumerate(names0)}
        for op, a, b, n, pid, val, isgit in self.log:
            op = op.decode()
            if op == 'rename' and ref(b):
                ev.append({'op': 'ref', 'r': ref(b), 'v': self.oid(bytes.fromhex(val.decode()))})
            elif op == 'unlink' and ref(a):
                if not ev or True:
                    ev.append({'op': 'unref', 'r': ref(a)})
            elif op == 'create' and inside(a):
                nfile += 1
                ev.append({'op': 'create', 'a': name(a), 'f': nfile, 'pack': ispack(a)})
            elif op in ('write', 'pwrite', 'truncate') and inside(a):
                if ev and ev[-1]['op'] == 'write' and ev[-1]['a'] == name(a):
                    continue
                ev.append({'op': 'write', 'a': name(a), 'pack': ispack(a)})
            elif op == 'fsync' and (inside(a) or a == r + b'/objects'):
                ev.append({'op': 'sync', 'a': name(a)})
                ev.append({'op': 'syncdir', 'd': dirs(a)})
            elif op in ('rename', 'link') and (inside(a) or inside(b)):
                ev.append({'op': op, 'a': name(a), 'b': name(b), 'pack': ispack(a) or ispack(b)})
            elif op == 'unlink' and inside(a):
                ev.append({'op': 'unlink', 'a': name(a)})
        # (a deleted reference's file may not exist, e.g. when packed)
        ev.append({'op': 'end'})
        stem = lambda s: (name(pack + b'/' + s.encode() + b'.pack'), name(pack + b'/' + s.encode() + b'.idx'))
        stems = dict(before.packs)
        stems.update(after.packs)
        return {'ev': ev, 'gc': self.gc, 'packdir': dirs(pack),
                'packs': [{'p': stem(k)[0], 'i': stem(k)[1], 'objs': self.ids(v)} for k, v in sorted(stems.items())],
                'init': {'names': [{'n': name(p), 'v': exists[p]} for p in names0], 'refs': self.old},
                'final': {'names': [name(pack + b'/' + x) for x in listing(w) if os.path.isfile(pack + b'/' + x)], 'refs': self.new}}

    def points(self, num):
        """Where to kill it."""
        special = [k for k, op in enumerate(self.ops, 1) if op not in ('write', 'pwrite')]
        writes = [k for k, op in enumerate(self.ops, 1) if op in ('write', 'pwrite')]
        self.rng.shuffle(special)
        self.rng.shuffle(writes)
        ks = special[:num]
        ks += writes[:max(num // 4, num - len(ks))]
        return [(k, self.s['torn'] and self.ops[k - 1] == 'write' and self.rng.random() < .7) for k in sorted(ks)]

    # ---- a killed one
    def kill(self, k, torn):
        w = self.copy(f'k{k}')
        cnt = os.path.join(w, 'counter')
        with open(cnt, 'wb') as f:
            f.write(bytes(8))
        e = {'SHIM_ROOT': w, 'SHIM_GIT': '1', 'SHIM_COUNTER': cnt, 'SHIM_KILLAT': str(k)}
        if torn:
            e['SHIM_TORN'] = '1'
        r = self.victim(w, e)
        out = []
        v = self.view(w)
        info = {'k': k, 'op': self.ops[k - 1], 'killed': r.rc}
        out.append(dict(info, op='crash', at=self.ops[k - 1], rc=r.rc, refs=self.refs(v), have=self.ids(v.have),
                        claims=self.ids(v.claims)))
        before = self.refs(v)
        r = self.victim(w)
        v = self.view(w)
        out.append({'op': 'again', 'k': k, 'rc': r.rc, 'before': before, 'refs': self.refs(v), 'have': self.ids(v.have),
                    'claims': self.ids(v.claims), 'err': r.err[-300:].decode('utf-8', 'replace')})
        before = v.refs
        if self.remote and os.path.exists(os.path.join(w, 'c/bupindex')):
            self.move_index(os.path.join(w, 'c'), os.path.join(w, 'r'))
        others = [['midx', '-a'], ['bloom'], ['midx', '-f'], ['ls', '-A', '/'], ['midx', '--check', '-a'],
                  ['validate-refs', '--links'], ['gc', '--unsafe', '--threshold', '0']]
        for a in random.Random(f'{self.ctx.seed}-{self.i}-{k}').sample(others, 2):
            r = self.bup(w, *a)
            out.append({'op': 'other', 'cmd': a, 'k': k, 'rc': r.rc, 'err': r.err[-300:].decode('utf-8', 'replace')})
        # a new save of everything (in one pack)
        cf = os.path.join(w, 'r/config')
        with open(cf) as f:
            lines = [l for l in f if 'packsizelimit' not in l.lower()]
        with open(cf, 'w') as f:
            f.writelines(lines)
        dirs = [d for d, f in self.src.values()]
        r = self.bup(w, 'index', *dirs)
        if r.rc == 0:
            r = self.bup(w, 'save', '-n', 'probe', '-d', '1890000000', *dirs)
        v = self.view(w)
        root = v.refs.get('refs/heads/probe')
        ok = False
        if root and root in v.have:
            t = parse_commit(v.objs[root][1])['tree']
            view = type('V', (), {'objs': v.objs})
            files = {os.path.basename(d).encode() + b'/' + n: x for d, fs in self.src.values() for n, x in fs.items()}
            files.update({os.path.basename(d).encode(): ('d', b'') for d in dirs})
            ok = content_of(view, t if isinstance(t, bytes) else bytes.fromhex(t)) == save_content(os.fsencode(self.top), files)
        others = {k: o for k, o in v.refs.items() if k != 'refs/heads/probe'} == before
        out.append({'op': 'probe', 'k': k, 'rc': r.rc, 'root': self.oid(root) if root else 0, 'have': self.ids(v.have), 'ok': ok,
                    'others': others, 'err': r.err[-300:].decode('utf-8', 'replace')})
        shutil.rmtree(w)
        return out

    def graph(self):
        kids, tree, parents = [], [], []
        while len(kids) < len(self.oid.l):
            for o in self.oid.l[len(kids):]:
                t, d = self.all.get(o, ('blob', b''))
                kids.append([self.oid(x) for x in children(t, d)])
                c = parse_commit(d) if t == 'commit' else {'parents': []}
                tree.append(self.oid(c['tree']) if t == 'commit' else 0)
                parents.append([self.oid(x) for x in c['parents']])
        # what objects look like apart from the messages of commits
        looks = Interner()
        look = {}
        def looking(n):
            if n not in look:
                look[n] = looks((tree[n - 1], tuple(map(looking, parents[n - 1]))) if tree[n - 1] else n)
            return look[n]
        return {'kids': kids, 'tree': tree, 'parents': parents, 'look': [looking(n + 1) for n in range(len(kids))]}


TURNS = ['save', 'gc', 'get', 'split', 'rm', 'save', 'midx', 'prunegc', 'get', 'save', 'index', 'bloom', 'split', 'gc',
         'tagf', 'rmbranch', 'save', 'get', 'init', 'gc', 'prune', 'midx', 'tag', 'tagd']


def balanced(scripts, num):
    """Some of each command, the important ones more often."""
    out = []
    k = 0
    while len(out) < num and scripts:
        for s in scripts:
            if s['victim']['op'] == TURNS[k % len(TURNS)]:
                scripts.remove(s)
                out.append(s)
                break
        k += 1
        if k > 40 * num:
            break
    return out


def prepare(ctx, num):
    scripts = balanced(ctx.simulate('CrashGen', 'CrashGen', num * 8, 3), num)
    top, src = sources(ctx)
    runs = [Scenario(ctx, i, s, top, src) for i, s in enumerate(scripts)]
    def one(r):
        r.setup()
        r.full()
    ctx.parallel(one, runs)
    for r in runs:
        if r.failed:
            ctx.violation(f'{ctx.prop}.undisturbed', f'{r.cmd}: {r.failed}', info(r))
    return [r for r in runs if not r.failed]


def info(r, **kw):
    return {'i': r.i, 'cmd': r.cmd, 'remote': r.remote, 'objs': r.s['objs'], **kw}


def check_steps(ctx, runs, prefixes):
    traces = [dict(r.store, **r.graph()) for r in runs]
    ctx.cov['operations'] = sum(len(t['ev']) for t in traces)
    ctx.judge('StoreTrace', traces, [info(r) for r in runs], prefixes, shards=8)


def check_kills(ctx, runs, num):
    jobs = [(r, k, t) for r in runs for k, t in r.points(num)]
    ctx.cov['kill_points'] = len(jobs)
    ctx.cov['operations_of_victims'] = sum(r.nops for r in runs)
    res = ctx.parallel(lambda j: j[0].kill(j[1], j[2]), jobs)
    traces, infos = [], []
    for r in runs:
        ev = [e for (r2, k, t), es in zip(jobs, res) if r2 is r for e in es]
        traces.append({'ev': ev, 'old': r.old, 'new': r.new, 'kind': r.kind, 'gc': r.gc, 'oncerc': r.once, **r.graph()})
        infos.append(info(r))
    ctx.judge('CrashTrace', traces, infos, ['D01'], shards=8)
