"""Builds the trees of spec/TreeGen.tla, saves them and restores them (or parts of them), for
spec/TreeTrace.tla."""
import os, random, re, shutil, socket, stat
from metaread import TreeReader, saved_key, scan
from packread import RepoView
from repolib import Interner, rand_bytes
from vlib import Machinery

NAMES = [b'a', b'b', b'a.', b'a0', b'a-b', b'a.bup', b'd', b'e', b'.bupm', b'.bup', b'a.bupl', b'a.bupm', b'x.bupd',
         b'.bupd', b'a.bup.bup', b'0', b'00', b'1', b'latest', b'new\nline', b' ', b'\xff\xfe', 'ünï'.encode(),
         b'-n', b'"q\'', b'back\\slash', b'l' * 255, b'b.bup', b'~', b'A']
ALLN = len(NAMES)


def data_for(rng, kind):
    n = {'empty': 0, 'tiny': rng.randint(1, 9), 'small': rng.randint(10, 5000), 'same': 30000,
         'big': rng.randint(20000, 300000), 'sparse': 0, 'zeros': rng.choice([1, 511, 512, 513, 70000])}[kind]
    if kind == 'same':
        return rand_bytes('same', n)
    if kind == 'zeros':
        return bytes(n)
    if kind == 'sparse':
        out = b''
        for _ in range(rng.randint(1, 6)):
            out += rng.choice([bytes(rng.choice([1, 511, 512, 513, 1024, 65536, 70000])),
                               rng.randbytes(rng.choice([1, 100, 511, 512, 3000]))])
        return out
    return rng.randbytes(n)


def acl(path, st):
    if stat.S_ISLNK(st.st_mode):
        return ()
    out = []
    for n in ('system.posix_acl_access', 'system.posix_acl_default'):
        try:
            out.append(os.getxattr(path, n))
        except OSError:
            out.append(b'')
    return tuple(out) if any(out) else ()


class TreeRun:
    def __init__(self, ctx, i, s):
        self.ctx, self.i, self.s = ctx, i, s
        self.dir = ctx.workdir(f't{i}')
        self.repo = os.path.join(self.dir, 'r')
        self.base = os.path.join(self.dir, 'src')
        self.rng = random.Random(f'tree-{ctx.seed}-{i}')
        self.ev = []
        self.name, self.data, self.time, self.xa = (Interner() for _ in range(4))
        self.acls = {}
        self.have_acl = bool(shutil.which('setfacl'))

    # ---- building
    def build(self):
        rng = self.rng
        os.mkdir(self.base)
        b = os.fsencode(self.base)
        dirs, paths, files = [b], [], []
        os.chmod(b, 0o755)
        for k, n in enumerate(self.s['nodes']):
            parent = dirs[n['parent'] % len(dirs)]
            name = NAMES[(n['name'] - 1) % ALLN]
            p = os.path.join(parent, name)
            if os.path.lexists(p) or len(p) > 3000:
                continue
            kind = n['kind']
            if kind == 'h':
                if not files:
                    kind = 'f'
                else:
                    os.link(files[n['to'] % len(files)], p, follow_symlinks=False)
                    files.append(p)
                    continue
            if kind in 'dw':
                os.mkdir(p)
                dirs.append(p)
                if kind == 'w' and self.s['wide']:
                    for j in range(self.s['wide']):
                        q = os.path.join(p, b'%s%d%s' % (rng.choice([b'file-', b'f', b'wide-long-file-name-']), j,
                                                         rng.choice([b'', b'.bup', b'.x'])))
                        with open(q, 'wb') as f:
                            f.write(b'%d' % (j % 7))
                        os.utime(q, ns=(j, j * 1000003))
                    self.s['wide'] = 0
            elif kind == 'f':
                with open(p, 'wb') as f:
                    f.write(data_for(rng, n['size']))
                files.append(p)
            elif kind == 'l':
                os.symlink({'abs': b'/x/' + name, 'rel': b'../' + rng.choice(NAMES), 'long': b't' * 1500,
                            'dangling': b'nix/nix', 'odd': b'\xff \n.bup'}[n['target']], p)
                if rng.random() < .5:
                    files.append(p)
            elif kind == 'p':
                os.mkfifo(p)
                files.append(p)
            elif kind == 's':
                self.socket(p)
            paths.append((p, n))
        for p, n in paths:
            self.decorate(p, n)
        for p, n in reversed(paths):
            t = {'now': 1700000000 * 10**9 + n['to'], 'old': 315532800 * 10**9, 'negative': -86400 * 10**9 + 1,
                 'future': 4102444800 * 10**9 + 5, 'fraction': 1234567890123456789, 'zero': 0}[n['mtime']]
            os.utime(p, ns=(t, t), follow_symlinks=False)

    def socket(self, p):
        cwd = os.open(os.path.dirname(p), os.O_RDONLY)
        try:
            s = socket.socket(socket.AF_UNIX)
            try:
                s.bind(b'/proc/self/fd/%d/%s' % (cwd, os.path.basename(p)))
            except OSError:  # (the name is too long)
                os.mkfifo(p)
            s.close()
        finally:
            os.close(cwd)

    def decorate(self, p, n):
        st = os.lstat(p)
        link = stat.S_ISLNK(st.st_mode)
        own = {'root': (0, 0), 'daemon': (1, 1), 'unknown': (54321, 54322), 'mixed': (2, 54322)}[n['owner']]
        if os.geteuid() == 0:
            os.lchown(p, *own)
        if not link:
            d = stat.S_ISDIR(st.st_mode)
            os.chmod(p, {'plain': 0o755 if d else 0o644, 'none': 0, 'suid': 0o6755, 'sticky': 0o1777, 'odd': 0o241}[n['mode']])
        if stat.S_ISDIR(st.st_mode) or stat.S_ISREG(st.st_mode):
            for k, v in {'': [], 'one': [('user.one', b'1')], 'two': [('user.a', b'x\0y'), ('user.b', b'\xff' * 40)],
                         'empty': [('user.e', b'')], 'long': [('user.' + 'n' * 200, b'v' * 900)]}[n['xattr']]:
                try:
                    os.setxattr(p, k, v)
                except OSError:
                    pass
            if n['acl'] and self.have_acl:
                self.ctx.run(['setfacl', '-m', 'u:daemon:rx,g:bin:w', os.fsdecode(p)])
                if stat.S_ISDIR(st.st_mode) and n['to'] % 2:
                    self.ctx.run(['setfacl', '-d', '-m', 'u:bin:r', os.fsdecode(p)])

    # ---- describing
    def comps(self, rel):
        return [f'n{self.name(c)}' for c in rel.rstrip(b'/').split(b'/') if c]

    def node(self, key, acl=(), h=0):
        kind, d, rest = key
        if rest == 'nometa':
            return {'k': kind, 'd': self.data(d), 'm': -1, 'u': -1, 'g': -1, 'user': '', 'group': '', 't': -1, 'x': -1, 'h': h}
        m, u, g, un, gn, t, rdev, xa = rest
        return {'k': kind, 'd': self.data(d), 'm': m, 'u': u, 'g': g, 'user': un.decode('latin1'),
                'group': gn.decode('latin1'), 't': self.time((t, rdev)), 'x': self.xa((xa, acl)), 'h': h}

    def describe(self, root, remember=False):
        """The tree below a directory, and its root's own node."""
        out, top = [], None
        root = os.fsencode(root)
        for rel, (key, st) in scan(root).items():
            a = acl(os.path.join(root, rel), st)
            if remember:
                self.acls[rel.rstrip(b'/')] = a
            # (the inode number is the class)
            h = st.st_ino if stat.S_IFMT(st.st_mode) != stat.S_IFDIR and st.st_nlink > 1 else 0
            n = self.node(key, a, self.hl((root if not remember else b'', h)) if h else 0)
            if rel:
                out.append({'p': self.comps(rel), 'n': n})
            else:
                top = n
        return out, top

    def bup(self, *a, **kw):
        return self.ctx.bupcmd(self.repo, *a, **kw)

    def err(self, r):
        return r.err[-300:].decode('utf-8', 'replace')

    # ---- running
    def run(self):
        self.hl = Interner()
        s, rng = self.s, self.rng
        self.build()
        self.bup('init')
        git = lambda *a: self.ctx.run(['git', '--git-dir', self.repo, 'config', *a])
        if s['trees']:
            git('bup.split.trees', 'true')
        if s['bits']:
            git('bup.split.files', f'legacy:{s["bits"]}')
        strip = ['--strip'] if s['strip'] else []
        save = ['save', '-n', 'b', f'-{s["level"]}'] + strip
        if s['two']:
            extra = os.path.join(self.base, 'extra-file')
            with open(extra, 'w') as f:
                f.write('x')
            for a in (['index', self.base], save + ['-d', '1600000000', self.base]):
                r = self.bup(*a)
                if r.rc != 0:
                    self.ev.append({'op': 'save', 'rc': r.rc, 'want': [], 'got': [], 'err': self.err(r)})
            os.unlink(extra)
        want, top = self.describe(self.base, remember=True)
        r = self.bup('index', self.base)
        r = self.bup(*save, '-d', '1700000000', self.base) if r.rc == 0 else r
        after, _ = self.describe(self.base, remember=True)
        if want != after:
            raise Machinery('saving changed the tree')
        view = RepoView(self.repo)
        e = {'op': 'save', 'rc': r.rc, 'want': want, 'got': [], 'err': self.err(r)}
        self.ev.append(e)
        self.snapshot = []
        try:
            tree = view.history('refs/heads/b')[0][1]['tree']
            tree = tree if isinstance(tree, bytes) else bytes.fromhex(tree)
            saved = TreeReader(view).walk(tree)
        except (KeyError, ValueError, IndexError) as ex:
            e['err'] += repr(ex)
            return self.result()
        prefix = b'' if s['strip'] else os.fsencode(self.base).lstrip(b'/') + b'/'
        hs = {tuple(x['p']): x['n']['h'] for x in want}
        self.dirs, self.items = [], []
        for rel, x in saved.items():
            below = rel[len(prefix):] if rel.startswith(prefix) else None
            n = self.node(saved_key(x), self.acls.get(below.rstrip(b'/'), ()) if below is not None else (),
                          hs.get(tuple(self.comps(below)), 0) if below else 0)
            self.snapshot.append({'p': self.comps(rel), 'n': n})
            self.items.append(rel)
            if rel.endswith(b'/') or not rel:
                self.dirs.append(rel)
            if below:
                e['got'].append({'p': self.comps(below), 'n': n})
        self.saved = saved
        leaf = lambda x: x.rstrip(b'/').split(b'/')[-1]
        leaves = [leaf(x) for x in self.items]
        self.linked = [x for x, y in zip(self.items, self.snapshot) if y['n']['h']]
        linked = {leaf(x) for x in self.linked}
        self.same = [x for x in self.items if x and not x.endswith(b'/') and leaves.count(leaf(x)) > 1
                     and (not linked or leaf(x) in linked)]
        # listings
        for d in rng.sample(self.dirs, min(3, len(self.dirs))):
            kids = [k[len(d):].rstrip(b'/') for k in saved if k.startswith(d) and k != d and k.rstrip(b'/').count(b'/') == d.count(b'/')]
            if any(b'\n' in k for k in kids):
                continue
            r = self.bup('ls', '-A', os.fsdecode(b'/b/latest/' + d))
            self.ev.append({'op': 'list', 'rc': r.rc, 'want': sorted(f'n{self.name(k)}' for k in kids),
                            'got': sorted(f'n{self.name(k)}' for k in r.out.split(b'\n') if k), 'err': self.err(r)})
        self.restore({'args': [{'n': self.items.index(prefix), 'of': 'any', 'form': 'dot', 'by': 'latest', 'bad': ''}],
                      'ex': [], 'exfrom': False, 'pre': [], 'sparse': s['level'] == 0, 'numeric': False, 'v': 0, 'nodir': True,
                      'again': False, 'map': '', 'remote': False}, 'all')
        for k, o in enumerate(s['restores']):
            self.restore(o, k)
        return self.result()

    def result(self):
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(self.dir, ignore_errors=True)
        ids = lambda names: [{'name': n, 'id': i} for n, i in names]
        return {'ev': self.ev, 'snapshot': self.snapshot,
                'users': ids([('root', 0), ('daemon', 1), ('bin', 2)]),
                'groups': ids([('root', 0), ('daemon', 1), ('bin', 2)])}

    def restore(self, o, k):
        rng = self.rng
        out = os.path.join(self.dir, f'out{k}')
        side = os.path.join(self.dir, f'side{k}')
        os.makedirs(side + '/sd')
        for f in ('sf', 'sd/f'):
            with open(os.path.join(side, f), 'w') as fd:
                fd.write('outside')
        date = '2023-11-14-221320'
        root = date if any(a['by'] == 'date' for a in o['args']) else 'latest'
        args, targs = [], []
        for a in o['args']:
            some = {'any': self.items, 'link': self.linked, 'same': self.same}[a['of']] or self.items
            rel = some[a['n'] % len(some)]
            isdir = rel == b'' or rel.endswith(b'/')
            form = a['form'] if isdir else 'item'
            by = root if not rel else {'latest': 'latest', 'date': date}[a['by']]
            p = b'/b/' + by.encode() + (b'/' + rel.rstrip(b'/') if rel else b'')
            if rng.random() < .3:
                p = p[1:]
            p += {'item': b'', 'inside': b'/', 'dot': b'/.'}[form]
            if a['bad'] == 'missing':
                p = p.rstrip(b'/.') + b'-nix/nix'
            elif a['bad'] == 'norev':
                p = b'/b'
            elif a['bad'] == 'through':
                fs = [x for x in self.items if x and not x.endswith(b'/') and self.saved[x]['kind'] == 'f']
                if not fs:
                    continue
                p = b'/b/latest/' + fs[a['n'] % len(fs)] + b'/x'
            args.append(os.fsdecode(p))
            targs.append({'p': self.comps(root.encode()) + self.comps(rel), 'form': form, 'bad': a['bad'] != ''})
        if not args:
            return
        root = self.comps(root.encode())[0]
        # exclusions: names that occur
        ex, rx = [], []
        for x in o['ex']:
            rel = self.items[x['n'] % len(self.items)]
            c = rel.rstrip(b'/').split(b'/')[-1]
            if not c or b'\n' in c:
                continue
            ex.append({'k': x['k'], 'n': f'n{self.name(c)}'})
            q = re.escape(c)
            rx.append({'file': b'/' + q + b'$', 'dir': b'/' + q + b'/$', 'inside': b'/' + q + b'/.',
                       'top': b'^/' + q + b'(/|$)', 'topfile': b'^/' + q + b'$'}[x['k']])
        opts = []
        if o['exfrom'] and rx:
            with open(out + '.rx', 'wb') as f:
                f.write(b'\n'.join(rx) + b'\n\n')
            opts += ['--exclude-rx-from', out + '.rx']
        else:
            for q in rx:
                opts += ['--exclude-rx', os.fsdecode(q)]
        # what's there already
        pre = not o['nodir']
        if pre:
            os.mkdir(out)
            for x in o['pre']:
                rel = self.items[x['at'] % len(self.items)]
                c = rel.rstrip(b'/').split(b'/')[-1] or b'zz'
                if x['other']:
                    c += b'-other'
                q = os.path.join(os.fsencode(out), c[:255])
                if os.path.lexists(q):
                    continue
                if x['kind'] == 'f':
                    with open(q, 'wb') as f:
                        f.write(b'old content, long enough to be noticed' * 3)
                    os.utime(q, (1000, 1000))
                elif x['kind'] in ('d', 'dd'):
                    os.mkdir(q)
                    if x['kind'] == 'dd':
                        with open(q + b'/old', 'wb') as f:
                            f.write(b'old')
                else:
                    os.symlink({'l': b'nowhere', 'lf': os.fsencode(side + '/sf'), 'ld': os.fsencode(side + '/sd')}[x['kind']], q)
        opts += ['--sparse'] * o['sparse'] + ['--numeric-ids'] * o['numeric'] + ['-v'] * o['v']
        maps = {'user': [], 'group': [], 'uid': [], 'gid': []}
        def m(kind, old, new):
            maps[kind].append({'old': old, 'new': new})
            opts.extend([f'--map-{kind}', f'{old}={new}'])
        if o['map'] in ('user', 'all'):
            m('user', 'daemon', 'bin')
            m('user', 'bin', 'nosuchuser')
        if o['map'] in ('group', 'all'):
            m('group', 'daemon', 'bin')
            m('group', 'daemon', 'root')
        if o['map'] in ('uid', 'all'):
            m('uid', 54321, 4711)
            m('uid', 0, 77)
        if o['map'] in ('gid', 'all'):
            m('gid', 54322, 1)
        if o['map'] == 'clear':
            m('user', 'daemon', '')
            m('uid', 1, 2)
        where = ['-r', 'host:' + self.repo] if o['remote'] else []
        for again in range(2 if o['again'] else 1):
            was = self.describe(out)[0] if os.path.isdir(out) else []
            r = self.bup('restore', *where, '-C', out, *opts, *args, env=self.ctx.remote_env() if o['remote'] else None)
            post, top = self.describe(out) if os.path.isdir(out) else ([], None)
            sd = self.describe(side)[0]
            outside = len(sd) == 3 and all(open(os.path.join(side, f)).read() == 'outside' for f in ('sf', 'sd/f')) \
                if os.path.exists(side + '/sd/f') and os.path.exists(side + '/sf') else False
            dot = targs[-1]['form'] == 'dot' and not targs[-1]['bad']
            names = [tuple(t['p']) for t in targs]
            self.ev.append({'op': 'restore', 'rc': r.rc, 'args': targs, 'ex': ex, 'pre': was, 'post': post, 'root': root,
                            'maps': maps, 'numeric': o['numeric'], 'outside': outside, 'dot': dot and top is not None,
                            'rootn': top or self.node(('d', '', 'nometa')), 'simple': len(names) == 1, 'cmd': opts + args,
                            'err': self.err(r)})
        for d in (out, side):
            self.ctx.run(['chmod', '-R', 'u+rwx', d])
            shutil.rmtree(d, ignore_errors=True)


def check(ctx, num, cfg, prefixes):
    scripts = ctx.simulate('TreeGen', cfg, num, 3)
    runs = [TreeRun(ctx, i, s) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.run(), runs)
    ctx.cov['restores'] = sum(e['op'] == 'restore' for t in traces for e in t['ev'])
    ctx.cov['restores_failing'] = sum(e['op'] == 'restore' and e['rc'] != 0 for t in traces for e in t['ev'])
    ctx.cov['paths_saved'] = sum(len(t['snapshot']) for t in traces)
    ctx.judge('TreeTrace', traces, [{'i': r.i, 'wide': r.s['wide'], 'trees': r.s['trees'], 'bits': r.s['bits'], 'level': r.s['level'], 'dir': r.dir} for r in runs], prefixes, shards=8)
