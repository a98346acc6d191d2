"""Stores the files of spec/ReaderGen.tla in real repositories and reads them back in pieces,
for spec/ReaderTrace.tla."""
import hashlib, http.client, os, random, shutil, signal, socket, subprocess, time
from packread import RepoView, tree_entries
from repolib import rand_bytes, write_pack
from vfs_run import Worker

SIZES = {'0': (0, 0), '1': (1, 1), 'tiny': (2, 60), 'blob': (500, 8000), 'chunks': (9000, 300000),
         'big': (400000, 2500000)}


def content(rng, what, n):
    if what == 'zeros':
        return bytes(n)
    if what == 'text':
        return b''.join(b'line %d\n' % k for k in range(n // 6 + 1))[:n]
    if what == 'blocks':
        blocks = [rng.randbytes(20000) for _ in range(3)]
        return b''.join(rng.choice(blocks) for _ in range(n // 20000 + 1))[:n]
    return rng.randbytes(n)


class UnixHTTP(http.client.HTTPConnection):
    def __init__(self, path):
        super().__init__('localhost', timeout=60)
        self.path = path
    def connect(self):
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.settimeout(60)
        self.sock.connect(self.path)


class ReaderRun:
    def __init__(self, ctx, i, s):
        self.ctx, self.i, self.s = ctx, i, s
        self.dir = ctx.workdir(f'rd{i}')
        self.repo = os.path.join(self.dir, 'r')
        self.rng = random.Random(f'reader-{ctx.seed}-{i}')
        self.ev = []

    def hand(self, shape, out):
        """Objects for a hand made tree; returns (mode, oid, data)."""
        if shape['k'] == 'b':
            d = self.rng.randbytes(shape['n'])
            oid = hashlib.sha1(b'blob %d\0' % len(d) + d).digest()
            out[oid] = ('blob', d)
            return b'100644', oid, d
        kids = [self.hand(k, out) for k in shape['e']]
        total = sum(len(k[2]) for k in kids)
        w = len('%x' % total)
        t, ofs = b'', 0
        for m, o, d in kids:
            t += m + b' ' + b'%0*x' % (w, ofs) + b'\0' + o
            ofs += len(d)
        oid = hashlib.sha1(b'tree %d\0' % len(t) + t).digest()
        out[oid] = ('tree', t)
        return b'40000', oid, b''.join(k[2] for k in kids)

    def boundaries(self, view, oid, base, depth, chunks, trees):
        t, d = view.objs[oid]
        if t == 'blob':
            chunks.append(base)
            return
        trees.append(base)
        for m, n, o in tree_entries(d):
            self.boundaries(view, o, base + int(n, 16), depth + 1, chunks, trees)

    def place(self, p, f, at):
        k, n = p['k'], p['n']
        size = len(f['data'])
        v = {'start': 0, 'end': size, 'same': at, 'any': n * (size + 1) // 1000,
             'chunk': f['chunks'][n % len(f['chunks'])] if f['chunks'] else 0,
             'tree': f['trees'][n % len(f['trees'])] if f['trees'] else 0,
             'prev': at - 1, 'back': at * n // 1000}[k]
        return v + (0 if k in ('start', 'same') else p['d'])

    def amount(self, c, f, at):
        size = len(f['data'])
        s, n = c['s'], c['n']
        nxt = [x for x in f['chunks'] if x > at] or [size]
        return {'zero': 0, 'tiny': 1 + n % 3, 'small': 4 + n % 200, 'page': 4096, 'rest': -1,
                'huge': n * 100, 'tochunk': max(0, nxt[min(n % 3, len(nxt) - 1)] - at + c['p']['d'])}[s]

    def run(self):
        ctx, rng = self.ctx, self.rng
        bup = lambda *a, **kw: ctx.bupcmd(self.repo, *a, **kw)
        git = lambda *a, **kw: ctx.run(['git', '--git-dir', self.repo, *a], **kw)
        bup('init')
        files = []
        made = []
        src = os.path.join(self.dir, 'src')
        os.mkdir(src)
        for k, f in enumerate(self.s['files']):
            lo, hi = SIZES[f['size']]
            data = content(rng, f['what'], rng.randint(lo, hi))
            if f['how'] == 'split':
                data = data or b'x'  # (split makes an empty tree otherwise, which no file has)
            g = {'data': data, 'k': k, 'f': f}
            files.append(g)
            if f['bits']:
                git('config', 'bup.split.files', f'legacy:{f["bits"]}')
            if f['how'] == 'save':
                g['path'] = f'/saved/latest/f{k}'
                with open(os.path.join(src, f'f{k}'), 'wb') as fd:
                    fd.write(data)
            elif f['how'] == 'split':
                a = ['--fanout', str(f['fanout'])] if f['fanout'] else []
                r = bup('split', '-t', *a, input=data)
                assert r.rc == 0, r
                oid = bytes.fromhex(r.out.decode().strip())
                made.append((b'40000', b'f%d.bup' % k, oid))
                g['path'] = f'/made/latest/f{k}'
            else:
                out = {}
                m, oid, g['data'] = self.hand(f['shape'], out)
                write_pack(self.repo, out)
                made.append((m, b'f%d.bup' % k, oid))
                g['path'] = f'/made/latest/f{k}'
            g['file'] = os.path.join(self.dir, f'orig{k}')
            with open(g['file'], 'wb') as fd:
                fd.write(g['data'])
        if any(f['f']['how'] == 'save' for f in files):
            for a in (['index', src], ['save', '--strip', '-n', 'saved', src]):
                r = bup(*a)
                assert r.rc == 0, r
        if made:
            t = b''.join(m + b' ' + n + b'\0' + o for m, n, o in sorted(made, key=lambda x: x[1]))
            toid = hashlib.sha1(b'tree %d\0' % len(t) + t).hexdigest()
            c = b'tree %s\nauthor A <a@b> 1500000000 +0000\ncommitter A <a@b> 1500000000 +0000\n\nx\n' % toid.encode()
            coid = hashlib.sha1(b'commit %d\0' % len(c) + c).hexdigest()
            write_pack(self.repo, {bytes.fromhex(toid): ('tree', t), bytes.fromhex(coid): ('commit', c)})
            with open(os.path.join(self.repo, 'refs/heads/made'), 'w') as fd:
                fd.write(coid + '\n')
        view = RepoView(self.repo)
        for g in files:
            g['chunks'], g['trees'] = [], []
            # find what it is stored as
            b = 'saved' if g['f']['how'] == 'save' else 'made'
            c = view.history(f'refs/heads/{b}')[0][1]
            for m, n, o in tree_entries(view.objs[c['tree']][1]):
                if n.split(b'.')[0] == b'f%d' % g['k']:
                    self.boundaries(view, o, 0, 0, g['chunks'], g['trees'])
            assert g['chunks'], g
        w = Worker(ctx, self.repo)
        sock = os.path.join(self.dir, 'sock')
        web = subprocess.Popen([ctx.bup, 'web', 'unix://' + sock], env=dict(ctx.env, BUP_DIR=self.repo),
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               start_new_session=True) if rng.random() < .5 else None
        try:
            for g in files:
                self.sessions(g, w)
                self.whole(g, 'cat', lambda: bup('cat-file', g['path']))
                r = bup('ftp', input=f'get {g["path"]} {self.dir}/got\nquit\n'.encode(), timeout=60)
                try:
                    with open(self.dir + '/got', 'rb') as fd:
                        r.out = fd.read()
                    os.unlink(self.dir + '/got')
                except OSError:
                    r.rc, r.out = 99, b''
                self.whole(g, 'ftp', lambda: r)
                r = bup('ls', '-l', g['path'])
                said = int(r.out.split()[2]) if r.rc == 0 else -2
                self.ev.append({'op': 'whole', 'by': 'ls', 'size': len(g['data']), 'len': len(g['data']), 'same': True,
                                'rc': r.rc, 'said': said, 'file': g['path'], 'err': r.err[-200:].decode('utf-8', 'replace')})
                if web:
                    self.web(g, sock)
        finally:
            w.close()
            if web:
                os.killpg(web.pid, signal.SIGKILL)
                web.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'ev': self.ev}

    def whole(self, g, by, fn):
        r = fn()
        self.ev.append({'op': 'whole', 'by': by, 'size': len(g['data']), 'len': len(r.out), 'rc': r.rc,
                        'same': r.out == g['data'], 'said': -1, 'file': g['path'],
                        'err': r.err[-200:].decode('utf-8', 'replace')})

    def web(self, g, sock):
        for k in range(150):
            if os.path.exists(sock):
                break
            time.sleep(.1)
        rc, d, said, err = 99, b'', -1, ''
        for k in range(30):
            try:
                c = UnixHTTP(sock)
                c.request('GET', g['path'])
                r = c.getresponse()
                rc, d = (0 if r.status == 200 else r.status), r.read()
                if g['data']:
                    said = int(r.headers.get('Content-Length', -2))
                c.close()
                break
            except ConnectionError as ex:
                err = repr(ex)
                time.sleep(.1)
            except (OSError, http.client.HTTPException, ValueError) as ex:
                rc, err = 98, repr(ex)
                break
        self.ev.append({'op': 'whole', 'by': 'web', 'size': len(g['data']), 'len': len(d), 'rc': rc,
                        'same': d == g['data'], 'said': said, 'file': g['path'], 'err': err})

    def sessions(self, g, w):
        size = len(g['data'])
        for s in g['f']['sessions']:
            at = 0
            if s['by'] == 'vfs':
                calls = []
                for c in s['calls']:
                    if c['c'] == 'seek':
                        n = self.place(c['p'], g, at)
                        if 0 <= n <= size:
                            at = n
                    elif c['c'] == 'read':
                        n = self.amount(c, g, at)
                        at = size if n < 0 else min(size, at + n)
                    else:
                        n = 0
                    calls.append({'c': c['c'], 'n': n})
                r = w.ask1({'op': 'read', 'path': g['path'], 'calls': [[c['c'], c['n']] for c in calls],
                            'orig': g['file']})
                self.ev.append({'op': 'session', 'size': size, 'calls': calls, 'said': r.get('size', -2),
                                'res': r.get('res', []), 'file': g['path'], 'err': r.get('err', '')})
            else:
                calls = []
                for c in s['calls']:
                    o = max(0, self.place(c['p'], g, at))
                    n = max(0, self.amount(dict(c, s=c['s'] or 'page'), g, at))
                    at = min(size, o)
                    calls.append({'at': o, 'n': n})
                r = w.ask1({'op': 'fuse', 'path': g['path'], 'calls': [[c['at'], c['n']] for c in calls],
                            'orig': g['file']})
                self.ev.append({'op': 'fuse', 'size': size, 'calls': calls, 'said': r.get('size', -2),
                                'res': r.get('res') or [{'ok': False, 'len': 0, 'at': [], 'pos': -1}] * len(calls),
                                'file': g['path'], 'err': r.get('err', '')})


def check(ctx, num):
    scripts = ctx.simulate('ReaderGen', 'ReaderGen.cfg', num, 3)
    runs = [ReaderRun(ctx, i, s) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.run(), runs)
    ctx.judge('ReaderTrace', traces, [{'i': r.i} for r in runs], ['V03'])
