"""Runs splits and joins generated by spec/JoinGen.tla, for spec/JoinTrace.tla."""
import hashlib, json, math, os, random, shutil, subprocess, sys, time
from packread import RepoView, tree_entries, parse_commit
from split_run import Maker
from vlib import ask


def snap(repo):
    out = {}
    for root, _, files in os.walk(repo):
        for f in files:
            if 'objects' in root or 'refs' in root:
                p = os.path.join(root, f)
                with open(p, 'rb') as fh:
                    out[p] = hashlib.sha1(fh.read()).hexdigest()
    return out


class JoinRun:
    def __init__(self, ctx, i, s):
        self.ctx, self.s = ctx, s
        self.m = Maker(f'join-{ctx.seed}-{i}')
        self.rng = self.m.rng
        self.dir = ctx.workdir(f'j{i}')
        self.repos = [os.path.join(self.dir, 'r0'), os.path.join(self.dir, 'r1')]
        self.log, self.done, self.datas, self.prior = [], [], [], {}
        self.bits = s['bits'] or 13
        self.env = ctx.remote_env()

    def file(self, f):
        b = min(self.bits, 14)
        d = b''.join(self.m.piece(p, self.bits) for p in f['ps'])
        return d + b''.join(self.rng.randbytes(self.rng.randrange(20))
                            + self.m.win(self.bits, f['e'] if self.rng.random() < .1 else 0)
                            for _ in range(f['many']))

    def chunks(self, paths, keep, fanbits):
        q = {'do': 'split', 'paths': paths, 'arr': {'k': 'file', 'n': 1}, 'keep': keep, 'bits': self.bits,
             'fanbits': fanbits, 'seed': 1, 'progress': False}
        r = ask(self.w, q)
        if 'got' not in r:
            raise RuntimeError(f'no chunks: {r}')
        return r['got']

    def shape(self, view, oid, names, leaves):
        """The nodes of a tree of chunks."""
        out, ns = [], []
        for mode, name, o in tree_entries(view.objs[oid][1]):
            t, d = view.objs[o]
            if t == 'tree':
                kids = self.shape(view, o, names, leaves)
                out.append({'size': sum(k['size'] for k in kids), 'kids': kids})
                if mode not in (b'40000',):
                    ns.append(['bad mode', 0])
            else:
                leaves.append(d)
                out.append({'size': len(d), 'kids': []})
                if mode != b'100644':
                    ns.append(['bad mode', 0])
            ns.append([int(name.decode(), 16), len(name)])
        names.append({'names': ns, 'sizes': [n['size'] for n in out]})
        return out

    def split(self, op):
        if op['old'] and self.datas:
            files, keep, fanout = self.rng.choice(self.datas)
            if self.rng.random() < .7:
                op = dict(op, keep=keep, fanout=fanout)
        else:
            files = [self.file(f) for f in op['files']]
            if op['close']:
                files[-1] += self.m.win(self.bits, 12)
            self.datas.append((files, op['keep'], op['fanout']))
        keep = op['keep']
        paths = []
        for n, d in enumerate(files):
            paths.append(os.path.join(self.dir, f'in{n}'))
            with open(paths[-1], 'wb') as f:
                f.write(d)
        data = b''.join(files)
        a, kw = ['split'], {}
        mode = op['mode']
        a += {'noop': ['--noop'], 'noop-b': ['--noop', '-b'], 'noop-t': ['--noop', '-t'], 'copy': ['--copy']}.get(
            mode, ['-' + c for c in mode if c != 'n'] + (['-n', f'n{op["name"]}'] if 'n' in mode else []))
        stores = mode in ('b', 't', 'c', 'n', 'cn', 'tn', 'tcn', 'tc')
        repo = self.repos[1] if op['remote'] else self.repos[0]
        if op['remote']:
            a += ['-r', 'host:' + repo]
        if keep:
            a += ['--keep-boundaries']
        if op['fanout']:
            a += [f'--fanout={op["fanout"]}']
        if op['level'] < 10:
            a += [f'-{op["level"]}']
        if op['date']:
            a += ['-d', str(op['date'])]
        if op['src'] == 'files':
            a += paths
        elif op['src'] == 'stdin':
            # one file, and the pieces can't be told
            kw['input'] = data
            if keep:
                paths = [os.path.join(self.dir, 'all')]
                with open(paths[0], 'wb') as f:
                    f.write(data)
        else:
            ids = [self.ctx.run(['git', '--git-dir', self.repos[0], 'hash-object', '-w', p]).out.strip() for p in paths]
            a += ['--git-ids']
            kw['input'] = b'\n'.join(ids) + b'\n'
        fan = op['fanout'] or 16
        cs = self.chunks(paths, keep, int(math.log(fan, 2)))
        # (every pack takes a while)
        if op['maxobj'] and len(cs) <= 10 * op['maxobj']:
            a.insert(1, f'--max-pack-objects={op["maxobj"]}')
        if op['maxsize'] and len(cs) <= 10 * max(1, op['maxsize'] // 5000):
            a.insert(1, f'--max-pack-size={op["maxsize"]}')
        self.log.append(' '.join(a) + f' ({[len(d) for d in files]})')
        before = RepoView(repo)
        s0 = snap(repo)
        t0 = int(time.time())
        r = self.ctx.bupcmd(self.repos[0], *a, env=self.env, **kw)
        t1 = int(time.time())
        v = RepoView(repo)
        lines = r.out.split(b'\n')[:-1]
        ref = f'refs/heads/n{op["name"]}'
        e = {'op': 'split', 'mode': mode, 'rc': r.rc, 'chunks': cs, 'content': True, 'tree': [], 'names': [],
             'dataname': '', 'commit': {'parents': [], 'dates': [], 'tree': ''}, 'tip': [], 'id': '', 'prior': [],
             'dates': [op['date']] * 2 if op['date'] else [t0, t1], 'output': True, 'unchanged': s0 == snap(repo),
             'cmd': ' '.join(a), 'err': r.err[-300:].decode('utf-8', 'replace')}
        diff = {k for k in set(before.refs) | set(v.refs) if before.refs.get(k) != v.refs.get(k)}
        e['refs'] = 'same' if not diff else 'moved' if diff == {ref} else 'odd'
        if before.refs.get(ref):
            e['tip'] = [before.refs[ref].hex()]
        if r.rc:
            return e
        # What it says: chunks, a tree, a commit
        if mode in ('b', 'noop-b'):
            at, want = 0, []
            for n, _ in cs:
                c = data[at:at + n]
                at += n
                want.append(hashlib.sha1(b'blob %d\0' % n + c).hexdigest().encode())
            e['output'] = lines == want
            e['content'] = mode != 'b' or all(v.objs.get(bytes.fromhex(h.decode())) for h in want)
            if mode == 'b':
                self.done.append({'ids': [h.decode() for h in want], 'repo': op['remote'], 'data': data})
            return e
        if mode in ('noop', 'copy'):
            e['output'] = r.out == (data if mode == 'copy' else b'')
            return e
        named = 'n' in mode and mode != 'noop-t'
        want = (['tree'] if 't' in mode else []) + (['commit'] if 'c' in mode and mode != 'noop-t' else [])
        e['output'] = len(lines) == len(want) and all(len(x) == 40 for x in lines)
        if not e['output']:
            return e
        ids = dict(zip(want, lines))
        c = ids.get('commit') or (v.refs[ref].hex().encode() if named and v.refs.get(ref) else None)
        if c:
            t, d = v.objs.get(bytes.fromhex(c.decode()), (None, None))
            if t != 'commit':
                e['content'] = False
                return e
            p = parse_commit(d)
            e['commit'] = {'parents': [x.hex() for x in p['parents']], 'tree': p['tree'].hex(),
                           'dates': [p['author_time'], p['committer_time']]}
            if named and v.refs.get(ref) != bytes.fromhex(c.decode()):
                e['refs'] = 'odd'
        tree = ids['tree'].decode() if 'tree' in ids else e['commit']['tree']
        e['id'] = tree
        key = (tuple(files) if keep and op['src'] != 'stdin' else data, keep, int(math.log(fan, 2)), named)
        key = hashlib.sha1(repr(key).encode()).hexdigest()
        e['prior'] = [self.prior[key]] if key in self.prior else []
        self.prior[key] = tree
        if mode == 'noop-t':
            return e
        top = bytes.fromhex(tree)
        leaves = []
        try:
            if named:
                ents = tree_entries(v.objs[top][1])
                e['dataname'] = ents[0][1].decode() if len(ents) == 1 else 'several'
                m, n, o = ents[0]
                t, d = v.objs[o]
                if t == 'blob':
                    leaves.append(d)
                    e['tree'] = [{'size': len(d), 'kids': []}]
                else:
                    kids = self.shape(v, o, e['names'], leaves)
                    e['tree'] = [{'size': sum(k['size'] for k in kids), 'kids': kids}]
                    # (a single tree needs no other around it)
            else:
                e['tree'] = self.shape(v, top, e['names'], leaves)
        except KeyError as ex:
            e['content'] = False
            e['err'] += f' missing {ex}'
        e['content'] = e['content'] and b''.join(leaves) == data
        self.done.append({'ids': [c.decode() if c else tree], 'repo': op['remote'], 'data': data,
                          'name': f'n{op["name"]}' if named else None, 'commit': c})
        return e

    def join(self, op):
        ds = [d for d in self.done if d['repo'] == op['remote']]
        if not ds:
            return None
        picks = [self.rng.choice(ds) for _ in range(op['n'])]
        args, want = [], b''
        for d in picks:
            # a name is what's last been saved as it
            if op['as'] == 'name' and d.get('name'):
                d = [x for x in ds if x.get('name') == d['name']][-1]
                args.append(d['name'])
            else:
                args += d['ids']
            want += d['data']
        if op['missing']:
            args.append(self.rng.choice(['nonesuch', '12' * 20]))
        a, kw = ['join'], {}
        if op['remote']:
            a += ['-r', 'host:' + self.repos[1]]
        out = os.path.join(self.dir, 'out')
        if op['o']:
            a += ['-o', out]
        if op['how'] == 'args' and args:
            a += args
        else:
            kw['input'] = '\n'.join(args + ['']).encode()
        self.log.append(' '.join(a)[:300])
        s0 = snap(self.repos[op['remote']])
        r = self.ctx.bupcmd(self.repos[0], *a, env=self.env, **kw)
        got = r.out
        if op['o']:
            with open(out, 'rb') as f:
                got = f.read()
        return {'op': 'join', 'rc': r.rc, 'missing': op['missing'], 'content': got == want,
                'unchanged': s0 == snap(self.repos[op['remote']]),
                'cmd': ' '.join(a)[:300], 'err': r.err[-300:].decode('utf-8', 'replace')}

    def run(self):
        ev = []
        self.w = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(__file__), 'split_worker.py'),
                                   os.path.join(self.ctx.src, 'lib')], env=self.ctx.env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        try:
            for r in self.repos:
                assert self.ctx.bupcmd(r, 'init').rc == 0
                if self.s['bits']:
                    self.ctx.run(['git', '--git-dir', r, 'config', 'bup.split.files', f'legacy:{self.bits}'])
            for op in self.s['ops']:
                e = self.split(op) if op['k'] == 'split' else self.join(op)
                if e:
                    ev.append(e)
        finally:
            self.w.stdin.close()
            self.w.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'ev': ev}


def check(ctx, num):
    scripts = ctx.simulate('JoinGen', 'JoinGen.cfg', num, 20)
    runs = [JoinRun(ctx, i, s) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.run(), runs)
    ctx.judge('JoinTrace', traces, [{'log': r.log, 'script': r.s} for r in runs], ['H02'], shards=8)
