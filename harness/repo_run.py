"""Runs scripts generated by spec/RepoGen.tla against real repositories, and records
traces for spec/RepoTrace.tla."""

import json, os, random, shutil, time
import repolib
from repolib import Projector, rand_bytes, save_content, write_tree_files, drop_objects
from vlib import Machinery

CONTENTS = [None, {1}, {2}, {1, 2}, {3}, {1, 3}, {2, 3}, {1, 2, 3}, {4, 1}]
BASE_DATE = 1500000000


def part_files(p, seed, rich):
    """The files of part p."""
    common = rand_bytes(f'{seed}-common', 30000)
    pre = b'p%d/' % p
    out = {pre[:-1]: ('d', b''),
           pre + b'small': ('f', b'small %d' % p),
           pre + b'big': ('f', common + rand_bytes(f'{seed}-{p}', 25000)),
           pre + b'dup': ('f', b'the same everywhere'),
           pre + b'sub': ('d', b''),
           pre + b'sub/x': ('f', rand_bytes(f'{seed}-x{p}', 300)),
           pre + b'link': ('l', b'small')}
    if p == 4:
        out[pre + b'many'] = ('d', b'')
        for i in range(280 if rich else 12):
            out[pre + b'many/a-rather-long-file-name-for-splitting-%06d' % (i * 7919 % 100003)] = ('f', b'%d' % (i % 5))
    return out


class RepoRun:
    def __init__(self, ctx, name, script, cfg):
        self.ctx, self.script, self.cfg = ctx, script, cfg
        self.dir = ctx.workdir(name)
        self.repo = os.path.join(self.dir, 'repo')
        self.bupdir = self.repo
        if cfg.get('via_link'):
            os.symlink(self.dir, os.path.join(self.dir, 'here'))
            self.bupdir = os.path.join(self.dir, 'here', 'repo')
        self.proj = Projector()
        self.n = 0
        self.events = []
        self.names = {}   # commit oid -> save name
        self.rng = random.Random(cfg['seed'])
        self.log = []

    def bup(self, *args, **kw):
        self.log.append(' '.join(str(a) for a in args))
        return self.ctx.bupcmd(self.bupdir, *args, **kw)

    def src(self, c):
        d = os.path.join(self.dir, f'src{c}')
        files = {}
        for p in CONTENTS[c]:
            files.update(part_files(p, self.cfg['seed'] % 3, self.cfg['treesplit']))
        if not os.path.isdir(d):
            os.mkdir(d)
            write_tree_files(d, files)
        return d, files

    def data(self, c):
        out = []
        for p in sorted(CONTENTS[c]):
            f = part_files(p, self.cfg['seed'] % 3, self.cfg['treesplit'])
            out.append(f[b'p%d/big' % p][1] * 2 + f[b'p%d/sub/x' % p][1])
        return b''.join(out)

    def state(self):
        st = self.proj.state(self.repo)
        self.view = self.proj.view
        return st

    def record(self, op, a, r):
        post = self.state()
        self.events.append({'op': op, 'a': a, 'rc': r.rc if r is not None else 0, 'post': post,
                            'cmd': self.log[-1] if self.log else ''})
        self.st = post

    def hist(self, b):
        for h in self.st['hist']:
            if h['r'] == 'refs/heads/' + b:
                return h['s']
        return []

    def save_name(self, b, k):
        """Name of the k-th newest save of b."""
        t = self.view.history('refs/heads/' + b)[k - 1][1]['author_time']
        return time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(t))

    def next_date(self):
        self.n += 1
        return BASE_DATE + self.n * 100000

    def run(self):
        r = self.bup('init')
        assert r.rc == 0, r
        def gitcfg(k, v):
            x = self.ctx.run(['git', '--git-dir', self.repo, 'config', k, str(v)])
            assert x.rc == 0, x
        if self.cfg.get('packlimit'):
            gitcfg('pack.packSizeLimit', self.cfg['packlimit'])
        if self.cfg['treesplit']:
            gitcfg('bup.split.trees', 'true')
        if self.cfg.get('splitfiles'):
            gitcfg('bup.split.files', self.cfg['splitfiles'])
        self.st = self.state()
        self.init = self.st
        for o in self.script:
            getattr(self, 'do_' + o['op'])(o)
        g = self.proj.graph()
        return {'kids': g['kids'], 'kind': g['kind'], 'init': self.init, 'ev': self.events}

    # ---- commands
    def do_save(self, o):
        d, files = self.src(o['c'])
        r = self.bup('index', d)
        if r.rc != 0:
            self.record('index-failed', {}, r)
            return
        r = self.bup('save', '-n', o['b'], '-d', f'@{self.next_date()}' if False else str(self.next_date()), d)
        want = self.proj.content(save_content(os.fsencode(d), files))
        self.record('save', {'r': 'refs/heads/' + o['b'], 'c': want, 'lim': 0}, r)

    def do_split(self, o):
        import hashlib
        data = self.data(o['c'])
        args = ['split', '-n', o['b'], '-d', str(self.next_date())]
        lim = 0
        if self.cfg.get('maxobjs'):
            lim = self.cfg['maxobjs']
            args += ['--max-pack-objects', str(lim)]
        r = self.bup(*args, input=data)
        want = self.proj.content(('split', hashlib.sha1(data).hexdigest()))
        self.record('save', {'r': 'refs/heads/' + o['b'], 'c': want, 'lim': lim}, r)

    def _rm(self, drops, whole):
        args, drop = [], []
        for b, ks in drops:
            h = self.hist(b)
            args += [f'{b}/{self.save_name(b, k)}' for k in ks]
            drop.append({'r': 'refs/heads/' + b, 'ids': [h[k - 1]['o'] for k in ks]})
        args += whole
        self.rng.shuffle(args)
        if self.rng.random() < .3:
            args = ['/' + a for a in args]
        r = self.bup('rm', '--unsafe', *args)
        self.record('rm', {'drop': drop, 'whole': ['refs/heads/' + b for b in whole]}, r)

    def do_rm(self, o):
        self._rm([(o['b'], sorted(o['ks']))], [])

    def do_rm2(self, o):
        if o['ks2']:
            self._rm([(o['b1'], o['ks1']), (o['b2'], o['ks2'])], [])
        else:
            self._rm([(o['b1'], o['ks1'])], [o['b2']])

    def do_rmbranch(self, o):
        self._rm([], [o['b']])

    def do_rmbad(self, o):
        good = []
        for b in ('a', 'b'):
            if self.hist(b):
                good.append(f'{b}/{self.save_name(b, 1)}')
        bads = ['nosuch', 'nosuch/latest', 'a/1999-01-01-000000', '/', '.tag']
        if self.hist('a'):
            bads += ['a/latest', f'a/{self.save_name("a", 1)}/x']
        tags = [x['r'] for x in self.st['refs'] if x['r'].startswith('refs/tags/')]
        if tags:
            bads.append('.tag/' + tags[0].split('/')[-1])
        args = [self.rng.choice(bads)]
        if good and self.rng.random() < .6:
            args.insert(self.rng.randrange(2), self.rng.choice(good))
        r = self.bup('rm', '--unsafe', *args)
        self.record('rmbad', {'args': args}, r)

    def do_tag(self, o):
        h = self.hist(o['b'])
        c = self.view.history('refs/heads/' + o['b'])[o['k'] - 1][0].hex()
        how = self.rng.random()
        if how < .4:
            target = c
        elif o['k'] == 1 and how < .7:
            target = o['b']
        else:
            target = c
        args = ['tag'] + (['-f'] if o['force'] else []) + [o['t'], target]
        r = self.bup(*args)
        self.record('tag', {'t': 'refs/tags/' + o['t'], 'o': h[o['k'] - 1]['o'],
                            'force': o['force']}, r)

    def do_tagdel(self, o):
        r = self.bup('tag', *(['-f'] if o['force'] else []), '-d', o['t'])
        self.record('tagdel', {'t': 'refs/tags/' + o['t'], 'force': o['force']}, r)

    def do_tagbad(self, o):
        c = 'a' if self.hist('a') else 'b'
        args = self.rng.choice([['newtag', '0' * 39 + '1'], ['newtag', 'nosuch'],
                                ['.hid', c], ['newtag', c, c],
                                ['sp ace', 'nosuch']])
        if not (self.hist('a') or self.hist('b')):
            args = ['newtag', 'nosuch']
        r = self.bup('tag', *args)
        self.record('tagbad', {'args': args}, r)

    def do_taglist(self, o):
        r = self.bup('tag')
        names = ['refs/tags/' + x for x in r.out.decode('utf-8', 'replace').split('\n') if x]
        self.record('taglist', {'names': names, 'tagrefs': [
            x['r'] for x in self.st['refs'] if x['r'].startswith('refs/tags/')] + names}, r)
        r = self.bup('ls', '.tag')
        names = ['refs/tags/' + x for x in r.out.decode('utf-8', 'replace').split() if x]
        self.record('taglist', {'names': names, 'tagrefs': [
            x['r'] for x in self.st['refs'] if x['r'].startswith('refs/tags/')] + names}, r)

    def do_gc(self, o, ignore=False):
        args = ['gc', '--unsafe']
        if o['thr'] != 10 or self.rng.random() < .5:
            args.append(f'--threshold={o["thr"]}')
        if self.rng.random() < .3:
            args.append('-v')
        if self.rng.random() < .3:
            args.append('-%d' % self.rng.randrange(10))
        if ignore:
            args.append('--ignore-missing')
        self.last_thr = o['thr']
        r = self.bup(*args)
        self.record('gc', {'thr': o['thr'], 'ignore': ignore, 'killed': False}, r)

    def do_gcagain(self, o):
        self.do_gc({'thr': getattr(self, 'last_thr', 10)})

    def do_midx(self, o):
        r = self.bup('midx', '--auto')
        self.record('neutral', {}, r)

    def do_midxf(self, o):
        r = self.bup('midx', '--force')
        self.record('neutral', {}, r)

    def do_bloom(self, o):
        r = self.bup('bloom', *self.rng.choice([[], ['--force'], ['-k', '4', '--force'],
                                                ['--ruin']][:3]))
        self.record('neutral', {}, r)

    def do_dup(self, o):
        """Another repository's packs appear here (interrupted get, manual copy, ...)."""
        other = os.path.join(self.dir, f'other{len(self.events)}')
        assert self.ctx.bupcmd(other, 'init').rc == 0
        data = self.data(o['c'])
        if self.rng.random() < .5:
            assert self.ctx.bupcmd(other, 'split', '-n', 'x', '-d', '1', input=data).rc == 0
        else:
            d, _ = self.src(o['c'])
            assert self.ctx.bupcmd(other, 'index', d).rc == 0
            assert self.ctx.bupcmd(other, 'save', '-n', 'x', '-d', '1', d).rc == 0
        pd = os.path.join(other, 'objects/pack')
        for f in sorted(os.listdir(pd)):
            if f.endswith(('.pack', '.idx')):
                t = os.path.join(self.repo, 'objects/pack', f)
                if not os.path.exists(t):
                    shutil.copy(os.path.join(pd, f), t)
        self.log.append(f'(copy packs of content {o["c"]})')
        self.record('env', {}, None)

    def do_lose(self, o):
        """A reachable object disappears; gc must notice."""
        live, _ = self.view.reach(self.view.refs.values())
        live = sorted(live)
        if not live:
            return
        v = self.rng.choice(live)
        drop_objects(self.repo, {v})
        self.log.append(f'(lose {v.hex()})')
        self.record('env', {}, None)
        self.do_gc({'thr': self.rng.choice([0, 10, 50])}, ignore=False)
        self.do_gc({'thr': self.rng.choice([0, 10, 50])}, ignore=True)


def gen_scripts(ctx, num, maxlen, ops, ncontents=8, cfgname=None):
    cfg = os.path.join(ctx.scratch, f'gen-{len(os.listdir(ctx.scratch))}.cfg')
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n  Branches = {"a", "b"}\n  Tags = {"t", "u"}\n'
                f'  NContents = {ncontents}\n  MaxLen = {maxlen}\n'
                '  Ops = {' + ', '.join('"%s"' % x for x in ops) + '}\nCHECK_DEADLOCK FALSE\n')
    return ctx.simulate('RepoGen', cfg, num, maxlen + 3)


def make_cfg(ctx, i):
    rng = random.Random(f'{ctx.prop}-{ctx.seed}-{i}')
    return {'seed': rng.randrange(1 << 30),
            'treesplit': rng.random() < .4,
            'via_link': rng.random() < .3,
            'packlimit': rng.choice([None, None, 40000, 20000]),
            'maxobjs': rng.choice([None, None, 3, 5]),
            'splitfiles': rng.choice([None, 'legacy:13', 'legacy:14'])}


def run_scripts(ctx, scripts):
    import traceback
    def one(iv):
        i, script = iv
        run = RepoRun(ctx, f't{i}', script, make_cfg(ctx, i))
        try:
            return run, run.run()
        except Exception:
            return run, traceback.format_exc()
        finally:
            if not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(run.dir, ignore_errors=True)
    return ctx.parallel(one, list(enumerate(scripts)))


def judge(ctx, runs, prefixes, module='RepoTrace'):
    """Validate the traces; report failing clauses whose name starts with a prefix."""
    traces = []
    idx = []
    for run, t in runs:
        if isinstance(t, str):
            ctx.violation('trace-broken', 'a repository could not be observed after '
                          + repr(run.log[-3:]) + ': ' + t[-1200:],
                          {'script': run.script, 'cfg': run.cfg, 'log': run.log})
        else:
            traces.append(t)
            idx.append(run)
    verdicts = ctx.validate(module, traces)
    ops = {}
    for run, t, v in zip(idx, traces, verdicts):
        for e in t['ev']:
            ops[e['op']] = ops.get(e['op'], 0) + 1
        if v['pos'] != v['len']:
            raise Machinery(f'trace not fully examined: {v}')
        for k, clause in v['bad']:
            if clause.startswith(tuple(prefixes) + ('harness', 'env')):
                e = t['ev'][k - 1]
                ctx.violation(clause, f'clause {clause} fails at event {k} ({e["op"]}, '
                              f'rc={e["rc"]}): {e["cmd"][:300]}; problems {e["post"]["problems"][:2]}',
                              {'script': run.script, 'cfg': run.cfg, 'log': run.log,
                               'event': k, 'op': e['op'], 'args': e['a']})
    ctx.cov.setdefault('events_by_op', {})
    for k, v in ops.items():
        ctx.cov['events_by_op'][k] = ctx.cov['events_by_op'].get(k, 0) + v
    if idx:
        ctx.cov['samples'] = [r.log for r in idx[:2]]
    return verdicts
