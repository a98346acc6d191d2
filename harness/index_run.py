"""Runs scripts generated by spec/IndexGen.tla against the real index and save, in virtual
time, and records traces for spec/IndexTrace.tla."""

import os, random, shutil, stat, threading
from metaread import TreeReader, saved_key, scan, sha
from packread import RepoView
from repolib import Interner, rand_bytes
from vlib import Machinery

BASE = 2000000000


def content(c, seed):
    return {1: b'one!', 2: b'two!', 3: rand_bytes(f'{seed}-big', 45000), 4: b'quatre...',
            5: b'', 6: rand_bytes(f'{seed}-alt', 45000)}[c]


class IndexRun:
    def __init__(self, ctx, name, script, cfg):
        self.ctx, self.script, self.cfg = ctx, script, cfg
        self.dir = ctx.workdir(name)
        self.root = os.path.join(self.dir, 't')
        self.repos = {1: os.path.join(self.dir, 'r1'), 2: os.path.join(self.dir, 'r2')}
        self.index = os.path.join(self.dir, 'idx') if cfg['f'] \
            else os.path.join(self.repos[1], 'bupindex')
        self.now = 1
        self.ct = {}
        self.ctfile = os.path.join(self.dir, 'ctimes')
        self.shim = ctx.shim()
        self.caches = {1: {}, 2: {}}
        self.heads = {1: None, 2: None}
        self.key, self.stamp, self.ino, self.con = (Interner() for _ in range(4))
        self.events = []
        self.paths = set()
        self.log = []

    # ---- the file system
    def full(self, p):
        return os.path.join(self.root, p) if p else self.root

    def changed(self, p):
        self.ct[os.lstat(p).st_ino] = self.now

    def stamp_m(self, p, t=None):
        t = BASE + (self.now if t is None else t)
        os.utime(p, (t, t), follow_symlinks=False)
        self.changed(p)

    def parent_changed(self, p):
        self.stamp_m(os.path.dirname(p))

    def do(self, o):
        op, p = o['op'], self.full(o['p'])
        if op == 'write' or op == 'replace':
            ex = os.path.lexists(p)
            old = os.lstat(p) if ex else None
            if op == 'replace' or not ex:
                tmp = os.path.join(self.dir, 'tmpfile')
                with open(tmp, 'wb') as f:
                    f.write(content(o['c'], self.cfg['seed']))
                if ex and old.st_nlink > 1:
                    self.ct[old.st_ino] = self.now
                os.rename(tmp, p)
                self.parent_changed(p)
            else:
                with open(p, 'r+b') as f:
                    f.write(content(o['c'], self.cfg['seed']))
                    f.truncate()
            self.stamp_m(p)
            if o['keep'] and old is not None:
                os.utime(p, ns=(old.st_mtime_ns, old.st_mtime_ns), follow_symlinks=False)
        elif op == 'rm':
            st = os.lstat(p)
            if stat.S_ISDIR(st.st_mode):
                for r, ds, fs in os.walk(p):
                    for f in fs:
                        s2 = os.lstat(os.path.join(r, f))
                        if s2.st_nlink > 1:
                            self.ct[s2.st_ino] = self.now
                shutil.rmtree(p)
            else:
                if st.st_nlink > 1:
                    self.ct[st.st_ino] = self.now
                os.unlink(p)
            self.parent_changed(p)
        elif op == 'mkdir':
            os.mkdir(p)
            self.stamp_m(p)
            self.parent_changed(p)
        elif op == 'symlink':
            if os.path.lexists(p):
                st = os.lstat(p)
                if st.st_nlink > 1:
                    self.ct[st.st_ino] = self.now
                os.unlink(p)
            os.symlink('target%d' % o['c'], p)
            self.stamp_m(p)
            self.parent_changed(p)
        elif op == 'chmod':
            os.chmod(p, {1: 0o700, 2: 0o755}[o['c']])
            self.changed(p)
        elif op == 'touch':
            self.stamp_m(p, {0: -1000, 1: 0, 2: self.now + 3, 3: self.now}[o['c']])
        elif op == 'xattr':
            os.setxattr(p, 'user.x', b'%d' % o['c'])
            self.changed(p)
        elif op == 'link':
            q = self.full(o['q'])
            os.link(p, q)
            self.changed(p)
            self.parent_changed(q)
        elif op == 'move':
            q = self.full(o['q'])
            if os.path.lexists(q):
                st, sp = os.lstat(q), os.lstat(p)
                if st.st_ino == sp.st_ino:
                    os.unlink(p)
                    self.changed(q)
                    self.parent_changed(p)
                    return
                if st.st_nlink > 1:
                    self.ct[st.st_ino] = self.now
            os.rename(p, q)
            self.changed(q)
            self.parent_changed(p)
            self.parent_changed(q)
        else:
            raise Machinery(f'unknown op {op}')

    def initial(self):
        os.mkdir(self.root)
        for d in ('d', 'd/s'):
            os.mkdir(self.full(d))
        for p, c in (('a', 1), ('b', 3), ('d/x', 2), ('d/s/z', 4)):
            with open(self.full(p), 'wb') as f:
                f.write(content(c, self.cfg['seed']))
        for p in ('a', 'b', 'd/x', 'd/s/z', 'd/s', 'd', ''):
            self.stamp_m(self.full(p))

    def write_ctimes(self):
        with open(self.ctfile + '.tmp', 'w') as f:
            for i, t in self.ct.items():
                f.write(f'{i} {BASE + t}\n')
        os.rename(self.ctfile + '.tmp', self.ctfile)

    # ---- bup
    def bup(self, repo, *args, faults=(), hook=None, shim=True, **kw):
        self.write_ctimes()
        env = {}
        if shim:
            env = {'LD_PRELOAD': self.shim, 'SHIM_NOW': str(BASE + self.now),
                   'SHIM_CTIMES': self.ctfile}
        if faults:
            env['SHIM_FAIL'] = '\n'.join(
                '%s 5 0 %s' % (x['f'], self.full(x['p'])) for x in faults)
        if hook:
            req, ack = os.path.join(self.dir, 'req'), os.path.join(self.dir, 'ack')
            for f in (req, ack):
                if not os.path.exists(f):
                    os.mkfifo(f)
            env['SHIM_SLEEPHOOK'] = f'echo x > {req}; cat < {ack}'
            done = threading.Event()
            err = []

            def serve():
                with open(req, 'rb') as f:
                    f.read()
                if not done.is_set():
                    try:
                        hook()
                        self.write_ctimes()
                    except Exception as ex:
                        err.append(ex)
                    with open(ack, 'wb') as f:
                        f.write(b'x')
            th = threading.Thread(target=serve)
            th.start()
        self.log.append('bup ' + ' '.join(args))
        r = self.ctx.bupcmd(self.repos[repo], *args, env=env, **kw)
        if hook:
            if th.is_alive():
                done.set()
                fd = os.open(req, os.O_WRONLY)
                os.close(fd)
            th.join()
            if err:
                raise err[0]
        return r

    def letters(self):
        r = self.bup(1, 'index', '-f', self.index, '-s', self.root)
        if r.rc != 0:
            return None
        out = {}
        pre = os.fsencode(self.root) + b'/'
        cwd = os.fsencode(self.ctx.scratch)
        for line in r.out.split(b'\n'):
            if not line:
                continue
            n = line[2:]
            n = os.path.join(cwd, n)
            if not n.startswith(pre):
                raise Machinery(f'unexpected status line {line!r}')
            out[n[len(pre):].decode()] = line[:1].decode()
        return out

    def scan(self):
        out = {}
        for p, (key, st) in scan(self.root).items():
            ct = self.ct[st.st_ino]
            t = max(ct, -(-st.st_mtime_ns // 10**9) - BASE)
            out[p.decode()] = {
                'k': self.key(key), 'c': self.con(key[:2]), 'ty': key[0], 't': t,
                's': self.stamp((st.st_size, st.st_mtime_ns, ct, st.st_ino, st.st_nlink)),
                'g': self.ino(st.st_ino) if key[0] != 'd' and st.st_nlink > 1 else 0}
        self.paths |= set(out)
        return out

    def snapshot(self, repo):
        view = RepoView(self.repos[repo], self.caches[repo])
        h = view.refs.get('refs/heads/s')
        if not h or h == self.heads[repo]:
            return {}
        self.heads[repo] = h
        try:
            w = TreeReader(view).walk(view.history('refs/heads/s')[0][1]['tree'])
        except (KeyError, ValueError) as ex:
            return {'broken': {'k': self.key(('broken', repr(ex))), 'c': 0, 'ty': 'x', 'nm': False, 'h': 0}}
        pre = os.fsencode(self.root).lstrip(b'/') + b'/'
        out = {}
        for p, e in w.items():
            if not p.startswith(pre):
                if e['kind'] != 'd' or not pre.startswith(p):
                    out['outside'] = {'k': self.key(('outside', p)), 'c': 0, 'ty': 'x', 'nm': False, 'h': 0}
                continue
            key = saved_key(e)
            hard = (e['meta'] or {}).get('hard') or b''
            hp = hard[len(pre) + 1:].decode() if hard.startswith(b'/' + pre) else None
            out[p[len(pre):].decode()] = {'k': self.key(key), 'c': self.con((e['kind'], sha(e['data']))),
                                          'ty': key[0],
                                          'nm': key[2] == 'nometa',
                                          'h': hp if hard else 0}
        self.paths |= set(out)
        return out

    def sub(self, s):
        return s + '/' if s else ''

    def do_index(self, o):
        faults = o['faults']
        self.now += 1     # where the clock will be after the sleep
        hook = None
        start = self.now - 1
        if o['race']:
            def hook():
                self.now = start + 1
                for x in o['race']:
                    self.log.append('race ' + str(x))
                    self.do(x)
        self.now = start
        args = ['index', '-f', self.index] if self.cfg['f'] else ['index']
        r = self.bup(1, *args, self.full(o['sub']), faults=faults, hook=hook)
        self.now = start + 1
        self.events.append({'op': 'index', 'sub': self.sub(o['sub']), 'b': self.now,
                            'scan': self.scan(), 'let': self.letters(), 'rc': r.rc,
                            'faults': [x['p'] for x in faults],
                            'definite': [x['p'] for x in faults if x['f'] == 'lstat'],
                            'err': r.err[-400:].decode('utf-8', 'replace')})

    def do_save(self, o):
        # (A save of something that can't be found is just refused.)
        faults = [x for x in o['faults'] if x['f'] != 'lstat'
                  or not (o['sub'] + '/').startswith(x['p'] + '/')]
        r = self.bup(o['repo'], 'save', '-f', self.index, '-n', 's', self.full(o['sub']), faults=faults)
        sc = self.scan()
        def definite(x):
            p = self.full(x['p'])
            if x['f'] == 'lstat':
                return True
            return os.path.isfile(p) and not os.path.islink(p)
        self.events.append({'op': 'save', 'sub': self.sub(o['sub']), 'repo': o['repo'],
                            'scan': sc, 'snap': self.snapshot(o['repo']), 'rc': r.rc,
                            'let': self.letters(), 'faults': [x['p'] for x in faults],
                            'definite': [x['p'] for x in faults if definite(x)],
                            'err': r.err[-400:].decode('utf-8', 'replace')})

    def run(self):
        self.initial()
        for k in (1, 2):
            r = self.bup(k, 'init', shim=False)
            assert r.rc == 0, r
            for opt in self.cfg['git']:
                x = self.ctx.run(['git', '--git-dir', self.repos[k], 'config', *opt])
                assert x.rc == 0
        script = list(self.script) + [
            {'op': 'tick'}, {'op': 'index', 'sub': '', 'race': [], 'faults': []},
            {'op': 'save', 'sub': '', 'repo': 1, 'faults': []}]
        have_index = False
        for o in script:
            op = o['op']
            if op == 'index':
                if o['sub'] and not os.path.isdir(self.full(o['sub'])):
                    continue
                self.do_index(o)
                have_index = True
            elif op == 'save':
                if have_index:
                    self.do_save(o)
            elif op == 'tick':
                self.now += 1
            elif op == 'forget':
                k = o['repo']
                if self.heads[k]:
                    self.bup(k, 'rm', '--unsafe', 's', shim=False)
                    r = self.bup(k, 'gc', '--threshold', '0', '--unsafe', shim=False)
                    if r.rc != 0:
                        self.events.append({'op': 'bad', 'what': 'gc: ' + repr(r)})
                    self.heads[k] = None
            elif op == 'clear':
                for f in (self.index, self.index + '.meta', self.index + '.hlink'):
                    if os.path.exists(f):
                        os.unlink(f)
                have_index = False
                self.events.append({'op': 'clear'})
            else:
                self.do(o)
                self.log.append(str(o))
        return self.trace()

    def trace(self):
        self.paths.add('')
        for e in self.events:
            for k in ('let', 'scan', 'snap'):
                if e.get(k):
                    self.paths |= set(e[k])
        ps = sorted(self.paths)
        num = {p: i + 1 for i, p in enumerate(ps)}

        def parent(p):
            if p == '':
                return 0
            q = p.rstrip('/')
            d = os.path.dirname(q)
            return num.get(d + '/' if d else '', 0)
        none = {'k': 0, 'c': 0, 'ty': '-', 't': 0, 's': 0, 'g': 0}
        nosnap = {'k': 0, 'c': 0, 'ty': '-', 'nm': False, 'h': 0}
        ev = []
        for e in self.events:
            x = {'op': e['op']}
            if e['op'] in ('index', 'save'):
                x['sub'] = num[e['sub']]
                x['rc'] = e['rc']
                x['b'] = e.get('b', 0)
                x['scan'] = [e['scan'].get(p, none) for p in ps]
                l = e['let']
                x['let'] = [l.get(p, '-') if l is not None else '!' for p in ps]
                def fp(l):
                    return sorted({num[q] for p in l for q in (p, p + '/') if q in num})
                x['faults'] = fp(e['faults'])
                x['definite'] = fp(e['definite'])
                snap = dict(e.get('snap') or {})
                ss = []
                for p in ps:
                    s = dict(snap.get(p, nosnap))
                    h = s['h']
                    s['h'] = 0 if h == 0 else (num.get(h, -1) if h is not None else -1)
                    ss.append(s)
                x['snap'] = ss
            ev.append(x)
        return {'faulty': self.cfg['faulty'],
                'par': [parent(p) for p in ps], 'isdir': [p == '' or p.endswith('/') for p in ps],
                'names': ps, 'ev': ev}


def gen_scripts(ctx, num, maxlen, faults):
    cfg = os.path.join(ctx.scratch, f'gen-{len(os.listdir(ctx.scratch))}.cfg')
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n'
                f'  MaxLen = {maxlen}\n  Faults = {"TRUE" if faults else "FALSE"}\n'
                'CHECK_DEADLOCK FALSE\n')
    return ctx.simulate('IndexGen', cfg, num, maxlen * 4 + 10)


def make_cfg(ctx, i, faulty):
    rng = random.Random(f'{ctx.prop}-{ctx.seed}-{i}')
    return {'faulty': faulty, 'seed': rng.randrange(1 << 30), 'f': rng.random() < .5,
            'git': rng.choice([[], [], [('bup.split.trees', 'true')],
                               [('bup.split.files', 'legacy:13'), ('bup.split.trees', 'true')],
                               [('bup.split.files', 'legacy:16')]])}


def run_scripts(ctx, scripts, faulty):
    ctx.shim()

    def one(i):
        run = IndexRun(ctx, f's{i}', scripts[i], make_cfg(ctx, i, faulty))
        tr = run.run()
        evs = run.events
        log = run.log
        shutil.rmtree(run.dir, ignore_errors=True)
        return {'script': scripts[i], 'cfg': run.cfg, 'trace': tr, 'log': log, 'events': evs}
    return ctx.parallel(one, list(range(len(scripts))))


def judge(ctx, runs, prefixes):
    res = ctx.validate('IndexTrace', [r['trace'] for r in runs], shards=min(8, len(runs)))
    nev = 0
    for r, v in zip(runs, res):
        nev += len(r['trace']['ev'])
        for b in v['bad']:
            if any(b[1].startswith(p) for p in prefixes):
                e = r['events'][b[0] - 1]
                ctx.violation(b[1], f"{b[1]} at {e['op']} (event {b[0]}): {b[2]}",
                              {'clause': b, 'names': r['trace']['names'], 'event': e,
                               'raw': r['trace']['ev'][b[0] - 1], 'log': r['log'],
                               'script': r['script'], 'cfg': r['cfg']})
            else:
                ctx.notes.append(b[1])
    ctx.cov['events_validated'] = nev
    ctx.cov['scripts'] = len(runs)
    ctx.cov['samples'] = [{'script': runs[0]['script'][:12]}]
