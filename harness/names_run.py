"""Builds the histories of spec/NamesGen.tla in real repositories, lists and looks up their
saves, and records the outcome for spec/NamesTrace.tla."""
import hashlib, os, random, shutil
from repolib import write_pack
from vfs_run import Worker

TZS = [('UTC0', 0, 0, (3, 1), (10, 27)),
       ('BBB5CCC,J73/2,J311/2', -18000, -14400, (3, 14), (11, 7)),
       ('DDD-5:45', 20700, 20700, (3, 1), (10, 27)),
       ('EEE-10FFF,J274/2,J92/2', 36000, 39600, (10, 1), (4, 2)),
       ('GGG9:30', -34200, -34200, (3, 1), (10, 27))]
START = {'zero': 5, 'y2k': 946684799, 'now': 1730000000, 'leap': 1709164799}


def fall(tz, t):
    """The end of summer time in the year of t."""
    import calendar, time
    y = time.gmtime(t).tm_year
    return calendar.timegm((y, tz[4][0], tz[4][1], 2, 0, 0)) - tz[2]


def spring(tz, t):
    import calendar, time
    y = time.gmtime(t).tm_year
    return calendar.timegm((y, tz[3][0], tz[3][1], 2, 0, 0)) - tz[1]


class NamesRun:
    def __init__(self, ctx, i, s):
        self.ctx, self.i, self.s = ctx, i, s
        self.dir = ctx.workdir(f'n{i}')
        self.repo = os.path.join(self.dir, 'r')
        self.rng = random.Random(f'names-{ctx.seed}-{i}')
        self.tz = TZS[s['tz'] - 1]
        self.now = START[s['start']]
        self.saves = {'a': [], 'b': []}     # newest first: (time, oid)
        self.ids = {}
        self.ev = []

    def next(self, g):
        t, tz, r = self.now, self.tz, self.rng
        t = {'same': lambda: t, 'sec': lambda: t + 1, 'hour': lambda: t + 3600, 'day': lambda: t + 86400,
             'back': lambda: max(0, t - r.randrange(1, 10000000)), 'backhour': lambda: max(0, t - 3600),
             'year': lambda: t + 31536000, 'fall': lambda: fall(tz, t) + r.choice([-3600, -1, 0, 1]),
             'fallhour': lambda: fall(tz, t) - 1200 if t != fall(tz, t) - 1200 else t + 3600,
             'spring': lambda: spring(tz, t) + r.choice([-1, 0, 1]),
             'far': lambda: r.choice([t, t, 4102444800, 32503680000])}[g]()
        self.now = t = max(0, t)
        return t

    def commit(self, b, t):
        n = len(self.ids)
        tree = b''
        toid = hashlib.sha1(b'tree 0\0').hexdigest()
        ct = t + self.rng.choice([0, 0, 0, 7, 7200])
        off = self.rng.choice([b'+0000', b'-0700', b'+0545'])
        parent = b'parent %s\n' % self.saves[b][0][1].encode() if self.saves[b] else b''
        d = b'tree %s\n%sauthor A <a@b> %d %s\ncommitter A <a@b> %d %s\n\nsave %d\n' % (
            toid.encode(), parent, t, off, ct, off, n)
        oid = hashlib.sha1(b'commit %d\0' % len(d) + d).hexdigest()
        self.new[bytes.fromhex(oid)] = ('commit', d)
        self.new[bytes.fromhex(toid)] = ('tree', tree)
        self.ids[oid] = n + 1
        self.saves[b].insert(0, (t, oid))

    def setref(self, b):
        p = os.path.join(self.repo, 'refs/heads', b)
        if self.saves[b]:
            with open(p, 'w') as f:
                f.write(self.saves[b][0][1] + '\n')
        elif os.path.exists(p):
            os.unlink(p)

    def state(self, b):
        return [{'t': [t // 86400, t % 86400], 'id': self.ids[o]} for t, o in self.saves[b]]

    def run(self):
        r = self.ctx.bupcmd(self.repo, 'init')
        assert r.rc == 0, r
        self.w = None
        try:
            for o in self.s['ops']:
                getattr(self, o['op'])(o)
        finally:
            self.changed()
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'tz': {'off': self.tz[1], 'sum': self.tz[2], 'from': list(self.tz[3]), 'to': list(self.tz[4])},
                'ev': self.ev}

    def ask(self, q):
        if not self.w:
            self.w = Worker(self.ctx, self.repo, {'TZ': self.tz[0]})
        return self.w.ask1(q)

    def changed(self):
        # (A process keeps to what it has seen of the repository.)
        if self.w:
            self.w.close()
        self.w = None

    def save(self, o):
        self.changed()
        self.new = {}
        for g in o['gaps']:
            self.commit(o['b'], self.next(g))
        write_pack(self.repo, self.new)
        self.setref(o['b'])

    def drop(self, o):
        self.changed()
        del self.saves[o['b']][:o['n']]
        self.setref(o['b'])

    def got(self, names):
        return [[n, self.ids.get(i, 0)] for n, i in names]

    def list(self, o):
        r = self.ask({'op': 'saves', 'path': '/' + o['b'], 'meta': self.rng.random() < .5})
        self.ev.append({'op': 'list', 'b': o['b'], 'saves': self.state(o['b']), 'st': r['st'],
                        'err': r.get('err', ''), 'latest': r.get('latest', ''),
                        'got': self.got((n, r['id']) for n, r in r.get('ents', {}).items())})

    def ls(self, o):
        r = self.ctx.bupcmd(self.repo, 'ls', '--commit-hash', o['b'], env={'TZ': self.tz[0]})
        got = []
        for l in r.out.decode().splitlines():
            h, n = l.split(' ', 1)
            if n != 'latest':
                got.append([n, self.ids.get(h, 0)])
            else:
                got.append([n, self.ids.get(h, 0) or (self.ids.get(self.saves[o['b']][0][1], 0))])
        self.ev.append({'op': 'ls', 'b': o['b'], 'saves': self.state(o['b']),
                        'st': 'ok' if r.rc == 0 else 'none', 'got': got,
                        'err': r.err[-200:].decode('utf-8', 'replace')})

    def find(self, o):
        listed = {}
        for b in 'ab':
            r = self.ask({'op': 'saves', 'path': '/' + b, 'meta': False})
            listed[b] = [n for n in r.get('ents', {}) if n != 'latest']
        b = o['b']
        for p in o['probes']:
            names = sorted(listed[b]) or ['2001-01-01-000000']
            n = names[p['n'] % len(names)]
            base = n[:n.index('-', 12)] if n.count('-') > 3 else n
            suf = n[len(base) + 1:]
            k = p['k']
            if k == 'other':
                n = self.rng.choice(listed['b' if b == 'a' else 'a'] or [n])
            elif k in ('0', '00', '1'):
                n = base + '-' + k
            elif k == 'count':
                n = f'{base}-{sum(x.startswith(base) for x in names)}'
            elif k == 'base':
                n = base
            elif k == 'pad':
                n = f'{base}-0{suf}'
            elif k == 'unpad':
                n = f'{base}-{int(suf or 0)}'
            elif k == 'near':
                n = base[:-1] + str((int(base[-1]) + 1) % 10) + (n[len(base):])
            elif k == 'trunc':
                n = n[:-1]
            elif k == 'junk':
                n = self.rng.choice([' ' + n, n + '\n', n + '-', n.replace('-', ''), 'x' + n, n + 'x', 'main', '0'])
            elif k.startswith('latest'):
                n = k
            e = {'op': 'find', 'b': b, 'saves': self.state(b), 'name': n, 'by': o['by']}
            if o['by'] == 'vfs':
                r = self.ask({'op': 'commit', 'path': f'/{b}/{n}', 'meta': self.rng.random() < .5})
                e.update(st=r['st'], id=self.ids.get(r.get('id'), 0), err=r.get('err', ''))
            else:
                r = self.ctx.bupcmd(self.repo, 'ls', '-d', '--commit-hash', f'/{b}/{n}', env={'TZ': self.tz[0]})
                h = r.out.decode().split(' ')[0]
                e.update(st='ok' if r.rc == 0 else 'none', id=self.ids.get(h, 0),
                         err=r.err[-200:].decode('utf-8', 'replace'))
                if n == 'latest' and r.rc == 0:   # (a link, whose hash is not given)
                    e['id'] = e['id'] or self.ids.get(self.saves[b][0][1], 0)
            self.ev.append(e)


def check(ctx, num):
    scripts = ctx.simulate('NamesGen', 'NamesGen.cfg', num, 18)
    runs = [NamesRun(ctx, i, s) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.run(), runs)
    ctx.judge('NamesTrace', traces, [{'i': r.i, 'tz': r.tz[0]} for r in runs], ['V02'], shards=8)
