"""Runs lookups generated by spec/VfsGen.tla in real repositories, for spec/VfsTrace.tla."""
import hashlib, json, os, random, shutil, subprocess, sys, tempfile, threading, time
from repolib import rand_bytes
import vlib
from vlib import VERIF

A = ['a', 'b', 'x.bup', 'l']
D1 = 1500000000


class Worker:
    """A process that answers questions about a repository (vfs_worker.py)."""
    def __init__(self, ctx, repo, env=None):
        self.ctx = ctx
        env = dict(ctx.env, BUP_DIR=repo, **(env or {}))
        self.err = tempfile.TemporaryFile(dir=ctx.scratch)
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'harness/vfs_worker.py'),
                                   os.path.join(ctx.src, 'lib'), repo], env=env, cwd=ctx.scratch,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, start_new_session=True)

    def ask1(self, q):
        return vlib.ask(self.p, q)

    def close(self):
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.wait()
        self.err.close()

    def ask(self, qs):
        try:
            return [self.ask1(q) for q in qs]
        finally:
            self.close()


class VfsRun:
    def __init__(self, ctx, i, s):
        self.ctx, self.s, self.i = ctx, s, i
        self.dir = ctx.workdir(f'v{i}')
        self.repo = os.path.join(self.dir, 'r')
        self.rng = random.Random(f'vfs-{ctx.seed}-{i}')
        self.dates = {'D1': 'XX'}
        self.nodes = [{'n': '/', 'k': 'd', 'e': [], 'data': '', 'abs': False, 'tgt': []}]

    def comps(self, cs):
        return [self.dates.get(c, c) for c in cs]

    def path(self, o):
        p = '/'.join(self.comps(o['c']))
        if self.rng.random() < .1:
            p = p.replace('/', '//', 1)
        return ('/' if o['abs'] else '') + p + (self.rng.choice(['/', '/.', '//']) if o['slash'] else '')

    def tcomps(self, o):
        """As the specification has it."""
        return self.comps(o['c']) + (['.'] if o['slash'] else [])

    def make(self, base, t, k):
        """Create tree t in directory base; return its description as nested dicts."""
        def fill(path, level, pos):
            out = {}
            for j, n in enumerate(A):
                p = pos * 4 + j
                num = (0, 4, 20)[level] + p
                kind = t['kinds'][num]
                q = os.path.join(path, n)
                if kind == 'd':
                    os.mkdir(q)
                    out[n] = ('d', fill(q, level + 1, p) if level < 2 else {})
                elif kind in 'fF':
                    data = (b'%d %d' % (k, num)) if kind == 'f' else rand_bytes(f'big{num % 3}', 40000)
                    with open(q, 'wb') as f:
                        f.write(data)
                    out[n] = ('f', hashlib.sha1(data).hexdigest())
                elif kind == 'l':
                    l = t['links'][num]
                    os.symlink(self.path(l), q)
                    out[n] = ('l', l, os.readlink(q))
            return out
        return fill(base, 0, 0)

    def add(self, parent, name, kind, **kw):
        self.nodes.append({'n': name, 'k': kind, 'e': [], 'data': '', 'abs': False, 'tgt': [], **kw})
        n = len(self.nodes)
        if parent:
            self.nodes[parent - 1]['e'].append({'n': name, 'id': n})
        return n

    def graft(self, parent, name, tree):
        n = self.add(parent, name, 'd')
        for k, v in tree.items():
            if v[0] == 'd':
                self.graft(n, k, v[1])
            elif v[0] == 'f':
                self.add(n, k, 'f', data=v[1])
            else:
                self.add(n, k, 'l', data=v[2], abs=v[1]['abs'], tgt=self.tcomps(v[1]))

    def bup(self, *a, **kw):
        r = self.ctx.bupcmd(self.repo, *a, **kw)
        return r

    def run(self):
        r = self.bup('init')
        assert r.rc == 0, r
        if self.rng.random() < .4:
            self.ctx.run(['git', '--git-dir', self.repo, 'config', 'bup.split.trees', 'true'])
        self.dates = {'D1': time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(D1))}
        d2 = time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(D1 + 100000))
        trees = []
        for k, t in enumerate(self.s['trees']):
            base = os.path.join(self.dir, f't{k}')
            os.mkdir(base)
            trees.append(self.make(base, t, k))
        bad = []
        for b, d, k in (('main', D1, 0), ('main', D1 + 100000, 1), ('other', D1, 1)):
            base = os.path.join(self.dir, f't{k}')
            for a in (['index', base], ['save', '--strip', '-n', b, '-d', str(d), base]):
                r = self.bup(*a)
                if r.rc != 0:
                    bad.append(repr(r))
        r = self.bup('tag', 't', 'main')
        assert r.rc == 0, r
        tag = self.add(1, '.tag', 'd')
        self.graft(tag, 't', trees[1])
        for b, ds in (('main', [(self.dates['D1'], 0), (d2, 1)]), ('other', [(self.dates['D1'], 1)])):
            n = self.add(1, b, 'd')
            for d, k in ds:
                self.graft(n, d, trees[k])
            last = ds[-1][0]
            self.add(n, 'latest', 'l', data=last, tgt=[last])
        # lookups
        qs, ev = [], []
        prev = None
        for l in self.s['lookups']:
            if l['dup'] and prev:
                l = dict(prev, meta=l['meta'], follow=l['follow'])
            prev = l
            c = l['c']
            p = self.path(l)
            fr = self.comps(l['from'])
            qs.append({'op': 'resolve', 'path': p, 'from': '/'.join(fr) if fr else None, 'meta': l['meta'],
                       'follow': l['follow']})
            ev.append({'op': 'resolve', 'abs': l['abs'], 'comps': self.tcomps(l), 'from': fr,
                       'follow': l['follow'], 'path': p})
            if self.rng.random() < .25:
                p = p if l['abs'] else '/' + p
                qs.append({'op': 'try', 'path': p, 'meta': l['meta']})
                ev.append({'op': 'try', 'comps': self.tcomps(l), 'path': p})
        # every directory is listed
        def dirs(n, cs):
            for e in self.nodes[n - 1]['e']:
                if self.nodes[e['id'] - 1]['k'] == 'd':
                    yield cs + [e['n']]
                    yield from dirs(e['id'], cs + [e['n']])
        alld = [['.']] + list(dirs(1, []))
        for cs in [alld[0]] + self.rng.sample(alld, min(25, len(alld))):
            qs.append({'op': 'list', 'path': '/' + '/'.join(cs), 'meta': self.rng.random() < .5})
            ev.append({'op': 'list', 'comps': cs, 'path': qs[-1]['path']})
        self.rng.shuffle(order := list(range(len(qs))))
        qs, ev = [qs[i] for i in order], [ev[i] for i in order]
        res = Worker(self.ctx, self.repo).ask(qs)
        for e, r in zip(ev, res):
            e['st'] = r['st']
            e['names'] = r.get('names', [])
            e['item'] = r.get('item', {'k': '', 'data': ''})
            e['ents'] = r.get('ents', [])
            e['err'] = r.get('err', '')
        # by commands
        for l in self.rng.sample(self.s['lookups'], 10):
            p = self.path(dict(l, abs=True))
            if self.rng.random() < .6:
                r = self.bup('ls', '-a', p)
                ev.append({'op': 'ls', 'comps': self.tcomps(l), 'path': p, 'rc': r.rc,
                           'ents': r.out.decode().splitlines(), 'err': r.err[-200:].decode('utf-8', 'replace')})
            else:
                # (cat-file asks for a path in a save.)
                r = self.bup('cat-file', p)
                if r.rc == 0 or len(l['c']) > 3:
                    ev.append({'op': 'cat', 'comps': self.tcomps(l), 'path': p, 'rc': r.rc,
                               'data': hashlib.sha1(r.out).hexdigest()})
        if bad:
            ev.append({'op': 'save-failed', 'err': bad})
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'nodes': self.nodes, 'ev': ev}


def check(ctx, num):
    scripts = ctx.simulate('VfsGen', 'VfsGen.cfg', num, 3)
    runs = [VfsRun(ctx, i, s) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.run(), runs)
    st = {}
    for t in traces:
        for e in t['ev']:
            if 'st' in e:
                st[e['st']] = st.get(e['st'], 0) + 1
    ctx.cov['outcomes'] = st
    ctx.judge('VfsTrace', traces, [{'i': r.i} for r in runs], ['V01'], shards=8)
