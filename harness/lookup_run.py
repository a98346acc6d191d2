"""Runs histories generated by spec/LookupGen.tla in directories of made-up pack indexes, for
spec/LookupTrace.tla."""
import bisect, collections, hashlib, json, os, random, shutil, struct, subprocess, sys, threading


def write_idx(path, objs, packsum):
    """A version 2 pack index of objs: [(oid, offset)]"""
    objs = sorted(objs)
    oids = [o for o, _ in objs]
    f = [b'\377tOc', struct.pack('!I', 2)]
    f.append(struct.pack('!256I', *[bisect.bisect_right(oids, bytes([b]) + b'\xff' * 19)
                                    for b in range(256)]))
    f += oids
    f += [struct.pack('!I', i * 7 % 2**32) for i in range(len(oids))]
    big = []
    for _, ofs in objs:
        if ofs < 2**31:
            f.append(struct.pack('!I', ofs))
        else:
            f.append(struct.pack('!I', 2**31 | len(big)))
            big.append(struct.pack('!Q', ofs))
    f += big
    f.append(packsum)
    d = b''.join(f)
    with open(path, 'wb') as o:
        o.write(d + hashlib.sha1(d).digest())


class BadMidx(Exception):
    pass


def read_midx(path):
    """(bits, fan, shas, which, names)"""
    with open(path, 'rb') as f:
        d = f.read()
    if d[:4] != b'MIDX' or d[4:8] != struct.pack('!I', 4):
        raise BadMidx
    bits, = struct.unpack('!I', d[8:12])
    n = 2 ** bits
    fan = struct.unpack_from(f'!{n}I', d, 12)
    p = 12 + 4 * n
    cnt = fan[-1]
    shas = [d[p + 20 * i:p + 20 * i + 20] for i in range(cnt)]
    p += 20 * cnt
    which = struct.unpack_from(f'!{cnt}I', d, p)
    names = [os.fsdecode(x) for x in d[p + 4 * cnt:].split(b'\0')]
    return bits, fan, shas, which, names


class LookupRun:
    def __init__(self, ctx, i, s):
        self.ctx, self.s = ctx, s
        self.rng = random.Random(f'lookup-{ctx.seed}-{i}')
        self.dir = ctx.workdir(f'l{i}')
        self.repo = os.path.join(self.dir, 'r')
        self.pd = os.path.join(self.repo, 'objects/pack')
        self.pool = self.make_pool(8)
        self.log = []
        self.stash = {'midx': [], 'bloom': []}
        self.known = None
        self.nout = 0

    def make_pool(self, n):
        """Packs: name -> {oid: offset}.  Some big, some clustered, some overlap."""
        r = self.rng
        pool = {}
        every = []
        style = r.choice(['any', 'any', 'low', 'prefix', 'mixed'])
        for k in range(n):
            size = r.choice([1, 1, 2, 3, 5, 17, 40, 120, 300, 300, 700, 700, 2500, 5000])
            objs = {}
            st = r.choice(['any', 'low', 'prefix']) if style == 'mixed' else style
            while len(objs) < size:
                o = r.randbytes(20)
                if st == 'low':
                    o = bytes([r.choice([0, 1, 127, 128, 254, 255])]) + o[1:]
                elif st == 'prefix' and r.random() < .5 and every:
                    o = r.choice(every)[:r.choice([1, 2, 3, 4, 5, 19])]
                    o += r.randbytes(20 - len(o))
                if every and r.random() < .05:
                    o = r.choice(every)
                if r.random() < .004:
                    o = r.choice([b'\0' * 20, b'\xff' * 20])
                objs[o] = r.choice([r.randrange(12, 2**31), 2**31 - 1, 2**31, 2**31 + r.randrange(2**31),
                                    2**40 + r.randrange(2**20)])
            every += objs
            if k and r.random() < .15:  # the same objects in another pack, as repack does
                objs.update(pool[r.choice(sorted(pool))])
            h = hashlib.sha1(b''.join(sorted(objs)) + bytes([k])).digest()
            pool['pack-' + h.hex() + '.idx'] = objs
        return pool

    def queries(self):
        r, q = self.rng, set()
        for objs in self.pool.values():
            so = sorted(objs)
            q |= {so[0], so[-1]} | set(r.sample(so, min(len(so), 5)))
        for o in list(q):
            if r.random() < .35:
                n = int.from_bytes(o, 'big')
                q.add(((n + r.choice([1, -1, 256])) % 2**160).to_bytes(20, 'big'))
                q.add(o[:4] + r.randbytes(16))
        q |= {b'\0' * 20, b'\xff' * 20, r.randbytes(20), r.randbytes(20)}
        return sorted(q)

    # the directory, as the specification sees it
    def state(self):
        packs, midx = [], []
        bloom = {'valid': False, 'intact': True, 'names': [], 'entries': 0, 'total': 0, 'k': 0,
                 'ruined': self.ruined}
        idxbytes = {}
        for n in sorted(os.listdir(self.pd)):
            p = os.path.join(self.pd, n)
            if n.endswith('.idx'):
                with open(p, 'rb') as f:
                    idxbytes[n] = hashlib.sha1(f.read()).hexdigest()
                packs.append(n)
            elif n.endswith('.midx'):
                m = {'f': n, 'valid': False, 'right': False, 'names': []}
                try:
                    bits, fan, shas, which, names = read_midx(p)
                    m['valid'] = True
                    m['names'] = sorted(set(names))
                    m['right'] = self.midx_right(bits, fan, shas, which, names)
                except (BadMidx, struct.error, IndexError):
                    pass
                midx.append(m)
            elif n == 'bup.bloom':
                with open(p, 'rb') as f:
                    d = f.read()
                if d[:4] == b'BLOM' and d[4:8] == struct.pack('!I', 2):
                    bits, k, ent = struct.unpack('!HHI', d[8:16])
                    names = [os.fsdecode(x) for x in d[16 + 2**bits:].split(b'\0')] \
                        if d[16 + 2**bits:] else []
                    bloom.update(valid=True, names=sorted(names), entries=ent, k=k,
                                 total=sum(len(self.pool[x]) for x in names))
        return {'packs': packs, 'midx': midx, 'bloom': bloom}, idxbytes

    def midx_right(self, bits, fan, shas, which, names):
        if len(shas) != len(which) or any(n not in self.pool for n in names):
            return False
        if any(a > b for a, b in zip(shas, shas[1:])):
            return False
        want = set()
        for n in names:
            want |= set(self.pool[n])
        if set(shas) != want:
            return False
        if any(w >= len(names) or o not in self.pool[names[w]] for o, w in zip(shas, which)):
            return False
        k = 0
        pre = [int.from_bytes(o[:4], 'big') >> (32 - bits) if bits else 0 for o in shas]
        return all(f == bisect.bisect_right(pre, i) for i, f in enumerate(fan))

    # the reader
    def ask(self, **q):
        w = self.worker
        timer = threading.Timer(60, w.kill)
        timer.start()
        try:
            w.stdin.write((json.dumps(q) + '\n').encode())
            w.stdin.flush()
            a = json.loads(w.stdout.readline() or '{"err": "no answer"}')
        except BrokenPipeError:
            a = {'err': 'died'}
        finally:
            timer.cancel()
        if 'err' in a:
            raise RuntimeError(a['err'])
        return a

    def look(self, full, known, kept, pre, fresh=False):
        qs = self.rng.sample(self.q, min(len(self.q), 45))
        self.rng.shuffle(qs)
        a = self.ask(do='q', q=[o.hex() for o in qs], full=full)['ans']
        ans = []
        for o, x in zip(qs, a):
            d = {'q': self.qn[o], 'found': bool(x['found']), 'src': '', 'ofs': False}
            if x['found'] is None:   # the answers contradict each other
                d['found'] = o not in {y for p in kept for y in self.pool[p]}
            if 'src' in x:
                s, t = x['src']
                d['src'] = s if s == t or o not in self.pool.get(t, {}) else t
                d['ofs'] = t in self.pool and self.pool[t].get(o) == x['ofs'] and \
                    o in self.pool.get(s, {}) and s in known
            ans.append(d)
        return self.event('look', pre, ans=ans, full=full, known=sorted(known), kept=sorted(kept), broken=False, fresh=fresh)

    def event(self, op, pre, **k):
        post, ib = self.state()
        e = {'op': op, 'pre': pre[0], 'post': post, 'idxsame': ib == pre[1], **k}
        self.pre = post, ib
        return e

    def bup(self, *a):
        self.log.append(' '.join(a))
        r = self.ctx.bupcmd(self.repo, *a, timeout=60)
        r.tail = r.err[-200:].decode('utf-8', 'replace')
        return r

    def add(self, n):
        h = bytes.fromhex(n[5:-4])
        with open(os.path.join(self.pd, n[:-4] + '.pack'), 'wb') as f:
            f.write(b'PACK')
        write_idx(os.path.join(self.pd, n), self.pool[n].items(), h)

    def remove(self, n):
        os.unlink(os.path.join(self.pd, n))
        os.unlink(os.path.join(self.pd, n[:-4] + '.pack'))

    def run(self):
        self.ruined = False
        assert self.ctx.bupcmd(self.repo, 'init').rc == 0
        self.q = self.queries()
        self.qn = {o: i + 1 for i, o in enumerate(self.q)}
        names = list(self.pool)
        content = {n: [self.qn[o] for o in self.pool[n] if o in self.qn] for n in names}
        self.worker = subprocess.Popen(
            [sys.executable, os.path.join(os.path.dirname(__file__), 'lookup_worker.py'),
             os.path.join(self.ctx.src, 'lib'), self.pd],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            env=dict(self.ctx.env, BUP_DIR=self.repo))
        ev = []
        try:
            for op in self.s['ops']:
                self.pre = self.state()
                try:
                    self.step(op, names, ev)
                except RuntimeError as ex:
                    # the reader doesn't answer at all
                    self.log.append(f'{op}: {ex}')
                    ev.append({'op': 'look', 'pre': self.pre[0], 'post': self.pre[0], 'idxsame': True,
                               'ans': [], 'full': False, 'known': [], 'kept': [], 'broken': True, 'fresh': False,
                               'err': str(ex)})
                    break
        finally:
            try:
                self.worker.stdin.close()
            except BrokenPipeError:
                pass
            try:
                self.worker.wait(20)
            except subprocess.TimeoutExpired:
                self.worker.kill()
                self.worker.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'ev': ev, 'content': content}

    def step(self, op, names, ev):
        o, how, pre = op['o'], op['how'], self.pre
        present = set(pre[0]['packs'])
        midxs = [m['f'] for m in pre[0]['midx']]
        P = lambda *x: os.path.join(self.pd, *x)
        if o in ('add', 'adds'):
            for n in [x for x in names if x not in present][:op['n'] if o == 'adds' else 1]:
                self.add(n)
                self.log.append('add ' + n)
        elif o == 'del' or o == 'repack':
            gone = sorted(present)[:2] if o == 'repack' else sorted(present)[-1:]
            for n in gone:
                self.remove(n)
                self.log.append('remove ' + n)
            if o == 'repack':
                for n in [x for x in names if x not in present][:1]:
                    self.add(n)
                    self.log.append('add ' + n)
        elif o == 'gc':
            for m in midxs:
                os.unlink(P(m))
            if os.path.exists(P('bup.bloom')):
                os.unlink(P('bup.bloom'))
            for n in sorted(present)[:op['n'] - 1]:
                self.remove(n)
            self.log.append('gc')
        elif o == 'midx':
            out, want, a = '', [], {'a': ['-a'], 'f': ['-f'], 'af': ['-a', '-f'],
                                    'amax': ['-f', '-a', '--max-files=5'], 'files': []}[how]
            if how == 'files':
                fs = sorted(present)
                self.rng.shuffle(fs)
                fs = fs[:op['n']]
                good = [m for m in pre[0]['midx'] if m['valid'] and set(m['names']) <= present]
                use = [m for m in good if self.rng.random() < .4]
                if not fs and not use:
                    return
                want = sorted(set(fs) | {x for m in use for x in m['names']})
                self.nout += 1
                out = f'midx-out{self.nout}.midx'
                a = ['-o', P(out)] + [P(x) for x in fs + [m['f'] for m in use]]
            r = self.bup('midx', *a)
            ev.append(self.event('midx', pre, how=how, rc=r.rc, out=out, want=want, err=r.tail))
        elif o == 'bloom':
            r = self.bup('bloom', *{'': [], 'f': ['-f'], 'k4': ['-f', '-k', '4'],
                                    'k5': ['-f', '-k', '5']}[how])
            ev.append(self.event('bloom', pre, how='f' if how else '', rc=r.rc, err=r.tail))
            ev[-1]['how'] = how
        elif o == 'auto':
            r = self.bup('midx', '--auto', '--dir', self.pd)
            ev.append(self.event('midx', pre, how='a', rc=r.rc, out='', want=[], err=r.tail))
            pre = self.pre
            r = self.bup('bloom', '--dir', self.pd)
            ev.append(self.event('bloom', pre, how='', rc=r.rc, err=r.tail))
        elif o == 'stash':
            w = op['w']
            for m in midxs if w == 'midx' else ['bup.bloom']:
                if os.path.exists(P(m)):
                    with open(P(m), 'rb') as f:
                        self.stash[w].append((m, f.read()))
            self.log.append('stash ' + w)
        elif o == 'unstash':
            w = op['w'] if self.stash[op['w']] else 'bloom'
            if self.stash[w]:
                m, d = self.rng.choice(self.stash[w])
                self.put(P(m), d)
                self.log.append('put back ' + m)
        elif o == 'rmidx':
            if midxs:
                os.unlink(P(midxs[op['n'] % len(midxs)]))
                self.log.append('rm midx')
        elif o == 'mangle':
            fs = midxs if op['w'] == 'midx' else \
                ['bup.bloom'] if os.path.exists(P('bup.bloom')) else []
            if fs:
                f = fs[op['n'] % len(fs)]
                with open(P(f), 'rb') as i:
                    d = i.read()
                v = 3 if op['w'] == 'midx' else 1
                self.put(P(f), {'old': d[:4] + struct.pack('!I', v) + d[8:],
                                'new': d[:4] + struct.pack('!I', v + 2) + d[8:],
                                'bad': b'XXXX' + d[4:], 'empty': d[:4] + b'\0\0\0\0'}[how])
                self.log.append(f'mangle {how} {f}')
        elif o == 'look':
            self.ask(do='open')
            self.known = self.kept = set(present)
            self.log.append('look')
            ev.append(self.look(True, self.known, self.kept, pre, True))
        elif o == 'refresh' and self.known is not None:
            self.ask(do='refresh')
            # (indexes which were removed meanwhile may still be used: packs aren't removed
            # while others use the repository)
            self.known, self.kept = self.known | present, set(present)
            self.log.append('refresh, look')
            ev.append(self.look(self.known <= present, self.known, self.kept, pre))
        elif o == 'long' and self.known is not None:
            self.kept = self.kept & present
            self.log.append('look again')
            ev.append(self.look(self.known <= present, self.known, self.kept, pre))
        elif o == 'checkm':
            if not midxs:
                return
            asked = midxs if how == 'a' else [midxs[op['n'] % len(midxs)]]
            r = self.bup('midx', '--check', *(['-a'] if how == 'a' else [P(x) for x in asked]))
            ev.append(self.event('checkm', pre, asked=asked, rc=r.rc, err=r.tail))
        elif o == 'checkb':
            self.checkb(op, how, sorted(present), pre, ev)
        elif o == 'badmidx':
            good = [m['f'] for m in pre[0]['midx']
                    if m['right'] and set(m['names']) <= present]
            if not good:
                return
            f = good[op['n'] % len(good)]
            with open(P(f), 'rb') as i:
                d = i.read()
            self.put(P(f), self.spoil(d, how))
            self.log.append(f'spoil {how} {f}')
            pre = self.state()
            r = self.bup('midx', '--check', P(f))
            ev.append(self.event('checkm', pre, asked=[f], rc=r.rc, err=r.tail))
            self.put(P(f), d)
        elif o == 'ruin':
            if not pre[0]['bloom']['valid'] or not present:
                return
            with open(P('bup.bloom'), 'rb') as f:
                d = f.read()
            self.put(P('bup.bloom'), d)  # a copy, since the old one may be mapped
            r = self.bup('bloom', '--ruin')
            self.ruined = True
            pre = self.state()
            self.checkb(op, 'idx', sorted(present), pre, ev)
            self.ruined = False
            self.put(P('bup.bloom'), d)
        self.kept = (getattr(self, 'kept', set()) or set()) & set(self.state()[0]['packs'])

    def checkb(self, op, how, present, pre, ev):
        good = [m for m in pre[0]['midx'] if m['valid'] and set(m['names']) <= set(present)]
        if how == 'midx' and good:
            m = good[op['n'] % len(good)]
            t, want, ok = m['f'], m['names'], True
        elif present:
            t = present[op['n'] % len(present)]
            want, ok = [t], True
        else:
            return
        r = self.bup('bloom', '--check', os.path.join(self.pd, t) if how == 'abs' else t)
        ev.append(self.event('checkb', pre, want=want, target=ok, rc=r.rc, err=r.tail))

    def put(self, p, d):
        # a new file: the old one may be mapped
        with open(p + '.new', 'wb') as f:
            f.write(d)
        os.rename(p + '.new', p)

    def spoil(self, d, how):
        bits, = struct.unpack('!I', d[8:12])
        n = 2 ** bits
        cnt = struct.unpack_from(f'!{n}I', d, 12)[-1]
        p = 12 + 4 * n
        b = bytearray(d)
        shas = [d[p + 20 * j:p + 20 * j + 20] for j in range(cnt)]
        count = collections.Counter(shas)
        one = [j for j in range(cnt) if count[shas[j]] == 1]
        if not one:
            return b'XXXX' + d[4:]
        i = self.rng.choice(one)
        if how == 'swap' and cnt > 1:
            j, i = i, self.rng.randrange(cnt - 1)
            if d[p + 20 * i:p + 20 * i + 20] != d[p + 20 * i + 20:p + 20 * i + 40]:
                b[p + 20 * i:p + 20 * i + 40] = d[p + 20 * i + 20:p + 20 * i + 40] + d[p + 20 * i:p + 20 * i + 20]
                return bytes(b)
            i = j
        # an object is replaced by another one that sorts the same
        o = d[p + 20 * i:p + 20 * i + 20]
        b[p + 20 * i + 19] ^= 1
        return bytes(b)


def check(ctx, num):
    scripts = ctx.simulate('LookupGen', 'LookupGen.cfg', num, 30)
    runs = [LookupRun(ctx, i, s) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.run(), runs)
    ctx.judge('LookupTrace', traces, [{'log': r.log, 'script': r.s} for r in runs], ['O01'], shards=8)
