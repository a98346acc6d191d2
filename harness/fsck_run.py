"""Runs damage and requests generated by spec/FsckGen.tla against fsck, for spec/FsckTrace.tla."""
import hashlib, os, random, shutil, struct, threading

lock = threading.Lock()


def read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def idx_entries(d):
    """The objects and pack checksum of a sound version 2 index, or None."""
    try:
        if d[:8] != b'\377tOc\0\0\0\2' or hashlib.sha1(d[:-20]).digest() != d[-20:]:
            return None
        n = struct.unpack_from('!256I', d, 8)[-1]
        o = 8 + 1024
        oids = [d[o + 20 * i:o + 20 * i + 20] for i in range(n)]
        return oids, d[o + 24 * n:o + 28 * n], d[-40:-20]
    except struct.error:
        return None


class Master:
    """A repository with some packs that have recovery data."""
    def __init__(self, ctx, k):
        self.dir = ctx.workdir(f'master{k}')
        self.repo = os.path.join(self.dir, 'r')
        rng = random.Random(f'fsck-{ctx.seed}-{k}')
        assert ctx.bupcmd(self.repo, 'init').rc == 0
        for n in range(3):
            d = rng.randbytes(rng.choice([1, 300, 3000, 20000, 60000, 150000]))
            r = ctx.bupcmd(self.repo, 'split', '-n', f'b{n}', input=d)
            assert r.rc == 0, r
        r = ctx.bupcmd(self.repo, 'fsck', '-g')
        assert r.rc == 0, r
        pd = os.path.join(self.repo, 'objects/pack')
        self.stems = sorted(f[:-5] for f in os.listdir(pd) if f.endswith('.pack'))
        self.files = {f: read(os.path.join(pd, f)) for f in os.listdir(pd)
                      if f.rsplit('.', 1)[1] in ('pack', 'idx', 'par2')}


        # Recovery data for a pack of the same name that isn't the same
        self.stale = {}
        for s in self.stems:
            d = os.path.join(self.dir, 'stale')
            os.mkdir(d)
            with open(os.path.join(d, s + '.pack'), 'wb') as f:
                f.write(self.files[s + '.pack'][:-21] + b'something else')
            r = ctx.run(['par2', 'create', '-qq', '-n1', '-c200', '--', s, s + '.pack'], cwd=d)
            assert r.rc == 0, r
            self.stale[s + '.par2'] = read(os.path.join(d, s + '.par2'))
            self.stale[s + '.vol000+200.par2'] = read(os.path.join(d, s + '.vol000+200.par2'))
            shutil.rmtree(d)


class FsckRun:
    def __init__(self, ctx, i, s, master):
        self.ctx, self.s, self.m = ctx, s, master
        self.rng = random.Random(f'fsckrun-{ctx.seed}-{i}')
        self.dir = ctx.workdir(f'f{i}')
        self.repo = os.path.join(self.dir, 'r')
        self.pd = os.path.join(self.repo, 'objects/pack')
        self.log = []
        self.cls = {}

    def p(self, name):
        return os.path.join(self.pd, name)

    def put(self, name, d):
        p = self.p(name)
        if os.path.lexists(p):
            os.unlink(p)
        if d is not None:
            with open(p, 'wb') as f:
                f.write(d)

    def reset(self):
        for f in os.listdir(self.pd):
            os.unlink(self.p(f))
        for f, d in self.m.files.items():
            self.put(f, d)

    def flip(self, d, n=1):
        b = bytearray(d)
        for _ in range(n):
            b[self.rng.randrange(len(b))] ^= self.rng.choice([1, 255, 16])
        return bytes(b)

    def damage(self, n, stem, dmg):
        d = self.m.files[stem + '.pack']
        k = dmg['pack']
        r = self.rng
        cls = 'dmg'
        if k == 'byte':
            x = self.flip(d)
        elif k == 'bytes':
            x = self.flip(d, 3)
        elif k == 'trunc':
            x = d[:-r.randrange(1, 12)]
        elif k == 'extend':
            x = d + b'x' * r.choice([1, 20])
        elif k == 'head':
            x = b'\0' * 12 + d[12:]
        elif k == 'tail':
            x = d[:-8] + b'\1' * 8
        else:
            cls = 'lost'
            x = {'half': r.randbytes(len(d) // 2) + d[len(d) // 2:][::-1], 'empty': b'',
                 'missing': None, 'short': d[:r.randrange(1, 30)]}.get(k, d)
        if k != 'ok' and x != d:
            self.put(stem + '.pack', x)
            if x is not None:
                # In a tiny pack any damage can be too much, or none
                self.cls[stem, hashlib.sha1(x).digest()] = cls if len(d) > 1500 else 'tiny'
        k = dmg['idx']
        d = self.m.files[stem + '.idx']
        other = self.m.files[[s for s in self.m.stems if s != stem][0] + '.idx']
        if k != 'ok':
            self.put(stem + '.idx', {'byte': self.flip(d), 'trunc': d[:-r.randrange(1, 40)],
                                     'empty': b'', 'missing': None, 'other': other,
                                     'short': d[:r.randrange(1, 30)]}[k])
        k = dmg['rec']
        i, v = stem + '.par2', stem + '.vol000+200.par2'
        if k in ('none', 'noidx'):
            self.put(i, None)
        if k in ('none', 'novol'):
            self.put(v, None)
        if k in ('emptyidx', 'emptyboth'):
            self.put(i, b'')
        if k in ('emptyvol', 'emptyboth'):
            self.put(v, b'')
        if k == 'stale' and dmg['pack'] == dmg['idx'] == 'ok':
            for f in (i, v):
                self.put(f, self.m.stale[f])
            self.wrong.add(self.m.stale[i])
        if k == 'byteidx':
            self.put(i, self.flip(self.m.files[i]))
        if k == 'bytevol':
            self.put(v, self.flip(self.m.files[v]))

    def pack_state(self, stem, genuine):
        o = self.m.files
        d = read(self.p(stem + '.pack'))
        if d is None:
            pack = 'missing'
        elif d == o[stem + '.pack']:
            pack = 'ok'
        else:
            pack = self.cls.get((stem, hashlib.sha1(d).digest()), 'lost')
        d = read(self.p(stem + '.idx'))
        if d is None:
            idx = 'missing'
        elif d == o[stem + '.idx'] or idx_entries(d) == idx_entries(o[stem + '.idx']):
            idx = 'ok'
        elif idx_entries(d):
            idx = 'other'
        else:
            idx = 'dmg'
        i, v = read(self.p(stem + '.par2')), read(self.p(stem + '.vol000+200.par2'))
        if i is None and v is None:
            rec = 'none'
        elif not i or not v:
            rec = 'bad'
        elif genuine and pack != 'ok' or i in self.wrong:
            rec = 'wrong'
            self.wrong.add(i)
        elif genuine or i in self.right or (i == o[stem + '.par2'] and v == o[stem + '.vol000+200.par2']):
            rec = 'ok'
            self.right.add(i)
        else:
            rec = 'odd'
        return {'pack': pack, 'idx': idx, 'rec': rec}

    def snap(self):
        return {f: read(self.p(f)) for f in os.listdir(self.pd) if os.path.isfile(self.p(f))}

    def wrapper(self, stem, note):
        """A directory with a git that kills the bup that wants it to verify the pack."""
        d = os.path.join(self.dir, 'bin')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'git'), 'w') as f:
            f.write(f"""#!/bin/sh
case "$*" in
*verify-pack*{stem}*)
  if [ "$PPID" -gt 1 ] && tr '\\0' ' ' < /proc/$PPID/cmdline | grep -q ' fsck '; then
    echo {stem} >> {note}
    kill -9 $PPID
    exit 1
  fi ;;
esac
exec {shutil.which('git')} "$@"
""")
        os.chmod(os.path.join(d, 'git'), 0o755)
        return d

    def run(self):
        shutil.copytree(self.m.repo, self.repo, symlinks=True)
        ev = []
        fresh = True
        for st in self.s['steps']:
            if fresh:
                self.reset()
                self.cls, self.wrong, self.right = {}, set(), set()
                for n, (stem, dmg) in enumerate(zip(self.m.stems, st['dmg'])):
                    self.damage(n, stem, dmg)
                self.log.append('damage ' + str([list(d.values()) for d in st['dmg']]))
            pre = {s: self.pack_state(s, False) for s in self.m.stems}
            before = self.snap()
            a = ['fsck'] + {'verify': [], 'repair': ['-r'], 'generate': ['-g']}[st['mode']]
            if st['quick']:
                a.append('--quick')
            if st['nopar2']:
                a.append('--disable-par2')
            if st['j']:
                a.append(f'-j{st["j"]}')
            if st['v']:
                a.append('-v')
            asked = [s for s in self.m.stems if pre[s]['pack'] != 'missing']
            if st['args'] != 'all':
                asked = self.rng.sample(self.m.stems, 1 if st['args'] == 'one' else 2)
                a += [self.p(s + '.pack') for s in asked]
            self.log.append(' '.join(a))
            killed = os.path.join(self.dir, 'killed')
            env = {}
            if st['kill'] and not st['quick']:
                self.log.append(f'killing the verification of {self.m.stems[st["kill"] - 1]}')
                env = {'PATH': self.wrapper(self.m.stems[st['kill'] - 1], killed) + ':' + self.ctx.env['PATH']}
            r = self.ctx.bupcmd(self.repo, *a, timeout=200, env=env)
            k = sorted(set((read(killed) or b'').decode().split()))
            if k:
                os.unlink(killed)
            after = self.snap()
            post = {s: self.pack_state(s, st['mode'] == 'generate' and pre[s]['rec'] == 'none')
                    for s in self.m.stems}
            # Any damage to a tiny pack may or may not be recoverable: as it turned out
            for s in self.m.stems:
                if pre[s]['pack'] == 'tiny' or (pre[s]['pack'] == 'missing'
                                                and len(self.m.files[s + '.pack']) < 1500):
                    pre[s]['pack'] = 'dmg' if post[s]['pack'] == 'ok' else \
                        'missing' if pre[s]['pack'] == 'missing' else 'lost'
                if post[s]['pack'] == 'tiny':
                    post[s]['pack'] = 'lost'
            said = {s: '' for s in self.m.stems}
            for l in r.out.decode('utf-8', 'replace').splitlines():
                w = l.split()
                if len(w) == 2 and w[0] in said:
                    said[w[0]] = {'exists': 'ok', 'generated': 'ok'}.get(w[1], w[1])
            def kept(s, ex):
                return all(before.get(s + e) == after.get(s + e) for e in ex)
            ev.append({'op': 'fsck', 'mode': st['mode'], 'quick': st['quick'], 'par2': not st['nopar2'],
                       'killed': k, 'jobs': st['j'],
                       'asked': asked, 'rc': r.rc, 'pre': pre, 'post': post, 'said': said,
                       'kept': {s: kept(s, ('.pack', '.idx')) for s in pre},
                       'keptrec': {s: kept(s, ('.par2', '.vol000+200.par2')) for s in pre},
                       'same': before == after,
                       'litter': sorted(x for x in os.listdir(self.pd) if '-bup-tmp-' in x),
                       'cmd': ' '.join(a)[:200], 'err': r.err[-300:].decode('utf-8', 'replace')})
            fresh = not st['again']
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'ev': ev}


def check(ctx, num):
    # Otherwise par2 takes 100 times as long when there are other processes
    ctx.env['OMP_NUM_THREADS'] = '1'
    if shutil.which('par2') is None:
        raise RuntimeError('no par2')
    scripts = ctx.simulate('FsckGen', 'FsckGen.cfg', num, 20)
    masters = ctx.parallel(lambda k: Master(ctx, k), range(min(6, num)))
    runs = [FsckRun(ctx, i, s, masters[i % len(masters)]) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.run(), runs)
    ctx.judge('FsckTrace', traces, [{'log': r.log, 'script': r.s} for r in runs], ['F01'], shards=8)
