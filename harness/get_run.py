"""Runs gets between repositories as generated by spec/GetGen.tla, for spec/GetTrace.tla (T01)."""
import hashlib, os, random, shutil, time
from packread import RepoView, children, parse_commit, tree_entries
from repolib import Interner, drop_objects, rand_bytes, write_pack
from vlib import Machinery

KIND = {'commit': 'c', 'tree': 't', 'blob': 'b'}
BASE = 1500000000


def obj(t, d):
    return hashlib.sha1(b'%s %d\0' % (t.encode(), len(d)) + d).digest(), (t, d)


def tree(ents):
    ents = sorted(ents, key=lambda e: e[1] + (b'/' if e[0] == b'40000' else b''))
    return obj('tree', b''.join(b'%s %s\0%s' % e for e in ents))


def content(c):
    """A tree with a file f, a directory d, and a chunked file big; all objects of it."""
    objs = {}
    def add(x):
        objs[x[0]] = x[1]
        return x[0]
    blob = lambda s: add(obj('blob', s))
    chunks = add(tree([(b'100644', b'%04x' % (k * 100), blob(b'chunk %d' % (c * k // 2))) for k in range(3)]))
    d = add(tree([(b'100644', b'g', blob(b'g%d' % (c % 3))), (b'120000', b'l', blob(b'f')),
                  (b'40000', b'e', add(tree([(b'100644', b'same', blob(b'same'))])))]))
    top = add(tree([(b'100644', b'f', blob(rand_bytes(f'f{c}', 300))), (b'40000', b'd', d), (b'40000', b'big.bup', chunks)]))
    return top, objs


class Run:
    def __init__(self, ctx, i, script):
        self.ctx, self.i, self.script = ctx, i, script
        self.rng = random.Random(f'get-{ctx.seed}-{i}')
        self.dir = ctx.workdir(f'g{i}')
        self.oid = Interner()
        self.meta = Interner()
        self.all = {}
        self.n = 0
        self.lost = False
        self.cmds = []

    def repo(self, x):
        return os.path.join(self.dir, x)

    def bup(self, repo, *a, **kw):
        env = dict(kw.pop('env', {}), HOME=self.dir, TMPDIR=self.dir)
        return self.ctx.bupcmd(repo, *a, env=env, **kw)

    def view(self, x):
        v = RepoView(self.repo(x))
        self.all.update(v.objs)
        return v

    def state(self, v):
        return {'objs': sorted(self.oid(o) for o in v.objs), 'packs': sorted(v.packs),
                'refs': [{'r': r, 'o': self.oid(o)} for r, o in sorted(v.refs.items())]}

    def setref(self, x, r, o):
        p = os.path.join(self.repo(x), r)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(o.hex() + '\n')

    def put(self, x, objs):
        have = self.view(x).objs
        objs = {o: v for o, v in objs.items() if o not in have}
        if objs:
            write_pack(self.repo(x), objs)

    # ---- changes
    def new(self, o):
        v = self.view(o['repo'])
        top, objs = content(o['c'])
        r = 'refs/heads/' + o['h']
        self.n += 1
        t = BASE + self.n * 4000
        head = b'tree %s\n' % top.hex().encode()
        if r in v.refs:
            head += b'parent %s\n' % v.refs[r].hex().encode()
        off = [b'+0000', b'-0430', b'+0545'][self.n % 3]
        c = obj('commit', head + b'author Orig Author <o@a> %d %s\ncommitter Orig Committer <o@c> %d +0100\n\nsave %d\n\nmore\n'
                % (t, off, t + 5, self.n % 4))
        objs[c[0]] = c[1]
        self.put(o['repo'], objs)
        self.setref(o['repo'], r, c[0])

    def tag(self, o):
        v = self.view(o['repo'])
        h = v.history('refs/heads/' + o['h']) if 'refs/heads/' + o['h'] in v.refs else None
        if not h:
            return
        c, p = h[(o['n'] - 1) % len(h)]
        if o['k'] == 'tree':
            c = p['tree']
        elif o['k'] == 'blob':
            c = next(x for m, n, x in tree_entries(v.objs[p['tree']][1]) if n == b'f')
        if c in v.objs:
            self.setref(o['repo'], 'refs/tags/' + o['t'], c)

    def drop(self, o):
        p = os.path.join(self.repo(o['repo']), 'refs/heads', o['h'])
        if os.path.exists(p):
            os.unlink(p)

    def lose(self, o):
        v = self.view('A')
        live, _ = v.reach(v.refs.values())
        vs = sorted(x for x in live if v.objs[x][0] == 'blob' and x not in v.refs.values())
        if vs:
            drop_objects(self.repo('A'), {vs[o['r'] % len(vs)]})
            self.lost = True

    # ---- gets
    def name(self, h, k):
        """The name of the k-th save, if that's unambiguous."""
        ts = [p['author_time'] for c, p in h]
        if ts.count(ts[k]) == 1:
            return time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(ts[k]))

    def inside(self, v, t, path):
        for n in path.split('/'):
            if t not in v.objs or v.objs[t][0] != 'tree':
                return None
            ents = {x: o for m, x, o in tree_entries(v.objs[t][1])}
            n = n.encode()
            t = ents.get(n) or ents.get(n + b'.bup')
            if t is None:
                return None
        return t

    def src(self, v, s, dst):
        """(argument, what it is)"""
        def what(k, o=None, r='', tag=False):
            return {'k': k, 'o': self.oid(o) if o else 0, 'r': r, 'tag': tag}
        k = s['k']
        r = 'refs/heads/' + s['h']
        h = v.history(r) if r in v.refs else []
        t = 'refs/tags/' + s['t']
        if k == 'root':
            return '/', what('root')
        if k == 'tags':
            return '.tag', what('tags')
        if k == 'none':
            return self.rng.choice(['nosuch', f'{s["h"]}/1999-01-01-000000', '.tag/nosuch', f'{s["h"]}/latest/nosuch']), what('none')
        if k == 'branch':
            return s['h'], what('branch', h[0][0], r) if h else what('none')
        if k in ('save', 'latest'):
            if not h:
                return s['h'] + '/latest', what('none')
            n = (s['n'] - 1) % len(h) if k == 'save' else 0
            name = self.name(h, n) if k == 'save' else 'latest'
            if not name:
                n, name = 0, 'latest'
            return f'{s["h"]}/{name}', what('save', h[n][0], r)
        if k == 'tag' or (k == 'belowtag' and dst['k'] == 'none'):
            if t not in v.refs:
                return '.tag/' + s['t'], what('none')
            o = v.refs[t]
            return '.tag/' + s['t'], what({'c': 'commit', 't': 'tree', 'b': 'blob'}[KIND[v.objs[o][0]]], o, t, True)
        if k == 'belowtag':
            path = f'.tag/{s["t"]}/{s["p"]}'
            o = v.refs.get(t)
            if o and v.objs[o][0] == 'commit':
                o = parse_commit(v.objs[o][1])['tree']
        else:
            path = f'{s["h"]}/latest/{s["p"]}'
            o = h[0][1]['tree'] if h else None
        o = self.inside(v, o, s['p']) if o else None
        if not o:
            return path, what('none')
        return path, what('blob' if s['p'] in ('f', 'd/g') else 'tree', o)

    def get(self, o):
        x, y = ('A', 'B') if self.lost or o['from'] == 'A' else ('B', 'A')
        a, b = self.view(x), self.view(y)
        args, ts = [], []
        for t in o['ts']:
            s, d = t['src'], t['dst']
            m = t['m']
            if m == 'unnamed':
                d = dict(d, k='none')
            path, src = self.src(a, s, d)
            if self.rng.random() < .3 and not path.startswith('/'):
                path = '/' + path
            if m == 'unnamed' and src['k'] == 'none' and self.rng.random() < .6:
                path = self.rng.choice(['git:' + 'c0' * 20, 'git:refs/heads/nosuch'])
            if m == 'unnamed' and src['k'] != 'none' and self.rng.random() < .4:
                tip = self.oid.l[src['o'] - 1] if src['o'] else None
                if tip and tip in a.objs:
                    path = 'git:' + tip.hex()
                    if src['k'] == 'branch' and self.rng.random() < .5:
                        path = 'git:' + src['r']
            if t['copy']:
                args.append('--copy')
            im = m == 'unnamed' and t['im']
            if im:
                args.append('--ignore-missing')
            dst = {'k': d['k'], 'r': ''}
            if d['k'] == 'none':
                args += ['--' + m, path]
                if im:
                    args.append('--no-ignore-missing')
            else:
                if d['k'] == 'head':
                    dst['r'] = 'refs/heads/' + d['h']
                    name = d['h'] + ('/' if d['slash'] and d['which'] == 1 else '')
                elif d['k'] == 'tag':
                    dst['r'] = 'refs/tags/' + d['t']
                    name = '.tag/' + d['t']
                else:
                    h = b.history('refs/heads/' + d['h']) if 'refs/heads/' + d['h'] in b.refs else []
                    name = ['/', '.tag', d['h'] + '/latest', d['h'] + '/latest/d'][d['which'] - 1]
                    if d['which'] > 2 and not h:
                        name = '/'
                if d['slash'] and not name.startswith('/'):
                    name = '/' + name
                args += [f'--{m}:', path, name]
            ts.append({'m': m, 'src': src, 'dst': dst, 'im': im})
        if args[-1] == '--no-ignore-missing':
            args.pop()
        flags = (['-c'] if o['c'] else []) + (['-t'] if o['t'] else []) + (['--print-tags'] if o['g'] else [])
        if o['z'] < 3:
            flags.append(f'-{o["z"]}')
        how, rx, ry = o['how'], self.repo(x), self.repo(y)
        t0 = time.time()
        if how <= 2:
            r = self.bup(ry, 'get', *flags, '-s', rx, *args)
        elif how == 3:
            r = self.bup(ry, 'get', *flags, '-S', 'file://' + rx, *args)
        elif how == 7:
            r = self.bup(ry, 'get', *flags, '-S', 'ssh://host' + rx, *args, env=self.ctx.remote_env())
        elif how == 8:
            r = self.bup(rx, 'get', *flags, '-r', 'ssh://u@host' + ry, *args, env=self.ctx.remote_env())
        elif how == 4:
            r = self.bup(rx, '-d', ry, 'get', *flags, '-s', rx, *args)
        elif how == 5:
            r = self.bup(rx, 'get', *flags, '-r', 'host:' + ry, *args, env=self.ctx.remote_env())
        else:
            r = self.bup(self.repo('C'), 'get', *flags, '-s', rx, '-r', 'host:' + ry, *args, env=self.ctx.remote_env())
        t1 = time.time()
        a2, b2 = self.view(x), self.view(y)
        mine, fresh = [], []
        for c, (k, d) in b2.objs.items():
            if k == 'commit':
                p = parse_commit(d)
                ok = lambda w: not p[w].startswith(b'Orig') and t0 - 2 < p[w + '_time'] < t1 + 2
                if ok('committer'):
                    mine.append(self.oid(c))
                    if ok('author'):
                        fresh.append(self.oid(c))
        out = []
        for l in r.out.split():
            try:
                out.append(self.oid(bytes.fromhex(l.decode())))
            except ValueError:
                out.append(0)
        return {'op': 'get', 'ts': ts, 'src': self.state(a), 'dst': self.state(b), 'src2': self.state(a2), 'dst2': self.state(b2),
                'rc': r.rc, 'mine': sorted(mine), 'fresh': sorted(fresh), 'rdst': how in (5, 6, 8), 'out': out, 'c': o['c'], 't': o['t'], 'g': o['g'], 'problems': b2.problems + b2.stray,
                'cmd': ' '.join(flags + args), 'how': how, 'err': r.err[-400:].decode('utf-8', 'replace')}

    def go(self):
        for x in 'ABC':
            r = self.bup(self.repo(x), 'init')
            if r.rc:
                raise Machinery(f'init: {r}')
        ev = []
        for o in self.script['ev']:
            if o['op'] == 'get':
                ev.append(self.get(o))
            else:
                getattr(self, o['op'])(o)
        shutil.rmtree(self.dir)
        info, kids = [], []
        n = 0
        while n < len(self.oid.l):
            o = self.oid.l[n]
            n += 1
            t, d = self.all.get(o, ('blob', b''))
            e = {'k': KIND[t], 't': 0, 'm': 0, 'p': 0}
            if t == 'commit':
                p = parse_commit(d)
                e = {'k': 'c', 't': self.oid(p['tree']), 'm': self.meta((p['author'], p['author_time'], p['author_off'], p['msg'])),
                     'p': self.oid(p['parents'][0]) if p['parents'] else 0}
                if len(p['parents']) > 1:
                    raise Machinery('more than one parent')
            info.append(e)
            kids.append(sorted({self.oid(k) for k in children(t, d)}))
        return {'ev': ev, 'info': info, 'kids': kids}


def check(ctx, num):
    scripts = ctx.simulate('GetGen', 'GetGen.cfg', num, 40)
    runs = [Run(ctx, i, s) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.go(), runs)
    ev = [e for t in traces for e in t['ev']]
    ctx.cov['gets_ok'] = sum(e['rc'] == 0 for e in ev)
    ctx.cov['gets_refused'] = sum(e['rc'] != 0 for e in ev)
    ctx.judge('GetTrace', traces, [{'i': r.i} for r in runs], ['T01'], shards=8)
