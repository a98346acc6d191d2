"""Runs commands at the same time, stopping and continuing them as scheduled by spec/ConcGen.tla, for
spec/ConcTrace.tla (C01)."""
import glob, os, random, shutil, threading, time
from crash_run import View, sources
from packread import children, parse_commit, read_refs
from repolib import Interner
from vlib import Machinery

BASE, STEP = 1500000000, 9000000


def name(n):
    return time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(BASE + n * STEP))


class Proc:
    """A command that stops at gates."""
    def __init__(self, run, where, k, cmd, gates):
        self.run, self.k, self.gates = run, k, sorted(set(gates))
        self.dir = os.path.join(where, f'p{k}')
        os.makedirs(self.dir)
        self.cnt = os.path.join(self.dir, 'counter')
        with open(self.cnt, 'wb') as f:
            f.write(bytes(8))
        self.where, self.cmd = where, cmd
        self.thread, self.result, self.stuck, self.log = None, None, False, None
        self.next = 0

    def ops(self):
        with open(self.cnt, 'rb') as f:
            return int.from_bytes(f.read(8), 'little')

    def body(self):
        env = {'SHIM_ROOT': self.where, 'SHIM_GIT': '1', 'SHIM_GITOPS': '1', 'SHIM_COUNTER': self.cnt,
               'SHIM_GATES': ' '.join(map(str, self.gates)), 'SHIM_GATEDIR': self.dir}
        if self.log:
            env['SHIM_LOG'] = self.log
        self.result = self.run.command(self.where, self.k, self.cmd, env)

    def advance(self):
        """Until the next gate, or the end."""
        if self.thread is None:
            self.thread = threading.Thread(target=self.body)
            self.thread.start()
        elif self.next:
            with open(os.path.join(self.dir, f'go.{self.next}'), 'w'):
                pass
        end = time.time() + 40
        todo = [g for g in self.gates if g > self.next]
        while self.thread.is_alive():
            for g in todo:
                if os.path.exists(os.path.join(self.dir, f'at.{g}')):
                    self.next = g
                    return
            if time.time() > end:
                self.stuck = True
                return
            self.thread.join(.003)
        self.next = 0

    def finish(self):
        for g in self.gates:
            with open(os.path.join(self.dir, f'go.{g}'), 'w'):
                pass
        if self.thread:
            self.thread.join()

    started = property(lambda self: self.thread is not None)
    finished = property(lambda self: self.thread is not None and not self.thread.is_alive())


class Run:
    def __init__(self, ctx, i, s, top, src, base=None):
        self.base = base
        self.ctx, self.i, self.s, self.top, self.src = ctx, i, s, top, src
        self.dir = ctx.workdir(f'k{i}')
        self.tmpl = os.path.join(self.dir, 'base')
        self.id = Interner()
        self.n = 0
        self.errs = []
        self.looks = {}

    def bup(self, where, *a, env=None, **kw):
        e = {'LD_PRELOAD': self.ctx.shim(), 'GIT_AUTHOR_NAME': 'a', 'GIT_COMMITTER_NAME': 'c',
             'BUP_DIR': os.path.join(where, 'r'), 'TMPDIR': where, 'HOME': where}
        e.update(env or {})
        return self.ctx.run([self.ctx.bup, *a], env=e, **kw)

    def data(self, c):
        return b''.join(x for k, x in sorted(self.src[c][1].values()) if k == 'f') * 2

    def date(self):
        self.n += 1
        return str(BASE + self.n * STEP)

    def setup(self):
        b = self.tmpl
        os.mkdir(b)
        def run(*a, repo='r', **kw):
            r = self.bup(b, *a, env={'BUP_DIR': os.path.join(b, repo)}, **kw)
            if r.rc:
                raise Machinery(f'{a}: {r}')
        run('init')
        for k, v in (('bup.split.files', 'legacy:13'), ('pack.packSizeLimit', '30000' if self.i % 4 == 0 else '10000000')):
            self.ctx.run(['git', '--git-dir', os.path.join(b, 'r'), 'config', k, v])
        for r in ('c1', 'c2', 'c3'):
            shutil.copytree(os.path.join(b, 'r'), os.path.join(b, r))
        # (another one, with its own id)
        shutil.copytree(os.path.join(b, 'r'), os.path.join(b, 'r2'))
        self.ctx.run(['git', '--git-dir', os.path.join(b, 'r2'), 'config', '--unset', 'bup.repo.id'])
        run('init', repo='r2')
        run('index', *(d for d, f in self.src.values()))
        for k in (1, 2, 3):
            for n in glob.glob(os.path.join(b, 'r/bupindex*')):
                shutil.copy(n, os.path.join(b, f'c{k}'))
        self.saves = {'a': [], 'b': []}
        for o in [{'op': 'save', 'r': 'a', 'c': 1}, {'op': 'save', 'r': 'a', 'c': 2}] + self.s['base']:
            if o['op'] in ('midx', 'bloom'):
                run(o['op'], *['-a'] * (o['op'] == 'midx'))
                continue
            d = self.date()
            self.saves[o['r']].append(self.n)
            if o['op'] == 'save':
                run('save', '--strip-path', self.top, '-n', o['r'], '-d', d, self.src[o['c']][0])
            else:
                run('split', '-n', o['r'], '-d', d, input=self.data(o['c']))
        run('tag', 't', 'a')
        # the source of gets: x, and what continues a and b
        self.xs = {'x': [], 'ya': list(self.saves['a']), 'yb': list(self.saves['b'])}
        for k in self.saves:
            if self.saves[k]:
                run('get', '-s', os.path.join(b, 'r'), '--ff:', k, 'y' + k, repo='r2')
        for x, c in (('x', 3), ('x', 5), ('ya', 4), ('yb', 6)):
            d = self.date()
            self.xs[x].append(self.n)
            run('split', '-n', x, '-d', d, input=self.data(c), repo='r2')

    def commands(self):
        """Their arguments, and what they do."""
        self.cmds = []
        for j, c in enumerate(self.s['cmds']):
            r, k = c['r'], c['k']
            have = self.saves.get(r, [])
            if k in ('rmbranch', 'rmsave', 'rmlast', 'rmall', 'prune', 'ff') and r not in self.saves or \
                    k in ('rmbranch', 'rmsave', 'rmlast', 'rmall', 'prune') and not have:
                r, have = 'a', self.saves['a']
            ref, inp, remote = 'refs/heads/' + r, None, c['remote']
            src = ['-s', '@/r2']
            def what(kind, ids=(), xs=(), ref=ref):
                return {'k': kind, 'r': ref, 'ids': list(ids), 'xs': list(xs)}
            if k in ('save', 'save2'):
                d = self.date()
                ds = [self.src[c['c']][0]] + ([self.src[1 + c['c'] % 6][0]] if k == 'save2' else [])
                cmd, w = ['save', '--strip-path', self.top, '-n', r, '-d', d] + ds, what('add', [self.n])
            elif k == 'split':
                cmd, w, inp = ['split', '-n', r, '-d', self.date()], what('add', [self.n]), self.data(c['c'])
            elif k == 'append':
                cmd, w = ['get'] + src + ['--append:', 'x', r], what('add', self.xs['x'])
            elif k in ('pick', 'forcepick'):
                cmd, w = ['get'] + src + [{'pick': '--pick:', 'forcepick': '--force-pick:'}[k], 'x/latest', r], what('add', self.xs['x'][-1:])
            elif k == 'ff':
                cmd, w = ['get'] + src + ['--ff:', 'y' + r, r], what('ff', self.xs['y' + r])
            elif k == 'replace':
                cmd, w = ['get'] + src + ['--replace:', 'x', r], what('set', self.xs['x'])
            elif k in ('tag', 'tagf'):
                m = self.saves['a'] + self.saves['b']
                m = m[c['x'] % len(m)]
                br = 'a' if m in self.saves['a'] else 'b'
                h = self.saves[br][:self.saves[br].index(m) + 1]
                cmd = ['tag'] + ['-f'] * (k == 'tagf') + [c['t'], f'!{br}~{len(self.saves[br]) - len(h)}']
                w, remote = what('set' if k == 'tagf' else 'new', h, ref='refs/tags/' + c['t']), False
            elif k in ('newtag', 'picktag'):
                cmd = ['get'] + src + (['--new-tag:', 'x'] if k == 'newtag' else ['--pick:', 'x/latest']) + ['.tag/' + c['t']]
                w = what('new', self.xs['x'] if k == 'newtag' else self.xs['x'][-1:], ref='refs/tags/' + c['t'])
            elif k == 'tagd':
                cmd, w, remote = ['tag', '-d', 't'], what('gone', ref='refs/tags/t'), False
            elif k == 'rmbranch':
                cmd, w, remote = ['rm', '--unsafe', '/' + r], what('del'), False
            elif k in ('rmsave', 'rmlast', 'rmall'):
                xs = have if k == 'rmall' else [have[-1]] if k == 'rmlast' else [have[c['x'] % len(have)]]
                cmd, w, remote = ['rm', '--unsafe'] + [f'/{r}/{name(n)}' for n in xs], what('cut', xs=xs), False
            elif k == 'prune':
                m = have[c['x'] % len(have)]
                cmd = ['prune-older', '--unsafe', '--no-gc', '--keep-all-for', '1d', '--wrt', str(BASE + m * STEP + 100), r]
                xs = [n for n in have if n < m]
                w, remote = what('prune', xs=xs), False
                if not xs:
                    w['k'] = 'none'
            else:
                cmd = {'midx': ['midx', '-a'], 'midxf': ['midx', '-f'], 'bloom': ['bloom'], 'bloomf': ['bloom', '-f']}[k]
                w, remote = what('none', ref=''), False
            self.cmds.append((cmd, inp, remote, w))

    def command(self, where, k, cmd, env):
        args, inp, remote, w = cmd
        e = dict(env)
        if not self.s['shared']:
            e['HOME'] = os.path.join(where, f'h{k}')
        args = [a.replace('@', where) for a in args]
        args = [self.commit(a[1:]) if a.startswith('!') else a for a in args]
        if remote:
            e.update(self.ctx.remote_env())
            e['BUP_DIR'] = os.path.join(where, f'c{k}')
            args[1:1] = ['-r', 'host:' + os.path.join(where, 'r')]
        return self.bup(where, *args, env=e, input=inp)

    def commit(self, spec):
        r, n = spec.split('~')
        v = View(os.path.join(self.tmpl, 'r'))
        o = v.refs['refs/heads/' + r]
        for _ in range(int(n)):
            o = parse_commit(v.objs[o][1])['parents'][0]
        return o.hex()

    def look(self, where):
        pd = os.path.join(where, 'r/objects/pack')
        sig = []
        for n in sorted(os.listdir(pd)):
            if n.startswith('pack-'):
                st = os.stat(os.path.join(pd, n))
                sig.append((n, st.st_size, st.st_mtime_ns))
        sig = tuple(sig), tuple(sorted(read_refs(os.path.join(where, 'r')).items()))
        if sig not in self.looks:
            self.looks[sig] = self.look1(where)
        o, have = self.looks[sig]
        return dict(o), have

    def look1(self, where):
        v = View(os.path.join(where, 'r'))
        refs, seen, whole = [], set(), True
        for r, o in sorted(v.refs.items()):
            h = []
            while o is not None:
                if o not in v.have:
                    whole = False
                    break
                p = parse_commit(v.objs[o][1])
                n = (p['author_time'] - BASE) // STEP
                # known by its date, as long as it has the right tree
                h.append(n if self.trees.get(n) == p['tree'] else 1000 + self.id(p['tree']))
                todo = [p['tree']]
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    if x not in v.have:
                        whole = False
                        continue
                    todo.extend(children(*v.objs[x]))
                o = p['parents'][0] if p['parents'] else None
            refs.append({'n': r, 'h': h[::-1]})
        return {'refs': refs, 'whole': whole}, v.have

    def learn(self, where, repo):
        v = View(os.path.join(where, repo))
        for o, (t, d) in v.objs.items():
            if t == 'commit':
                p = parse_commit(d)
                self.trees[(p['author_time'] - BASE) // STEP] = p['tree']

    def schedule(self, k, s):
        where = os.path.join(self.dir, f's{k}')
        r = self.ctx.run(['cp', '-a', self.tmpl, where])
        if r.rc:
            raise Machinery(f'cp: {r}')
        # positions in thousandths, or git commands (from the last)
        pos = lambda f, n, gits: gits[f % len(gits)] if f < 0 and gits else 1 + abs(f) * (n - 1) // 1000
        procs = [Proc(self, where, j + 1, c, [pos(f, n, t) for f in g] if n else [])
                 for j, (c, g, n, t) in enumerate(zip(self.cmds, s['gates'], self.nops, self.gits))]
        obs, have = [], None
        for p, t in zip(procs, self.gits):
            p.last = t[-1] if t else 0
        def observe():
            nonlocal have
            o, now = self.look(where)
            o['kept'] = have is None or have <= now
            have = now
            o['late'] = [p.k for p in procs if p.next and -1 in s['gates'][p.k - 1] and p.next == p.last]
            for f in ('started', 'finished'):
                o[f[:7] if f == 'started' else 'fin'] = [p.k for p in procs if getattr(p, f)]
            obs.append(o)
        try:
            observe()
            for w in s['word'] + [j + 1 for j in range(len(procs))] * 4:
                p = procs[w - 1]
                if not p.finished:
                    p.advance()
                    if p.stuck:
                        break
                    observe()
        finally:
            for p in procs:
                p.finish()
        if any(p.stuck for p in procs):
            return None
        observe()
        shutil.rmtree(where)
        return {'op': 'run', 'cmds': [dict(c[3], shares=c[2] and self.s['shared'], forced='-f' in c[0]) for c in self.cmds], 'rc': [p.result.rc for p in procs], 'obs': obs,
                'args': [' '.join(c[0]) for c in self.cmds], 'gates': [p.gates for p in procs], 'word': s['word'],
                'err': [p.result.err[-200:].decode('utf-8', 'replace') for p in procs]}

    def go(self, num):
        b = self.base
        if b:
            self.tmpl, self.saves, self.xs, self.n = b.tmpl, b.saves, b.xs, b.n
        else:
            self.setup()
        if self.s['same']:
            for c in self.s['cmds']:
                c['r'], c['remote'] = self.s['cmds'][0]['r'], c['remote']
        self.commands()
        self.trees = {}
        self.learn(self.tmpl, 'r')
        self.learn(self.tmpl, 'r2')
        # each alone, to know what it stores, and how many operations it takes
        self.nops, self.gits, ev = [], [], []
        alone = {'gates': [[] for _ in self.cmds]}
        for j, c in enumerate(self.cmds):
            where = os.path.join(self.dir, f'd{j}')
            self.ctx.run(['cp', '-a', self.tmpl, where])
            p = Proc(self, where, j + 1, c, [])
            p.log = os.path.join(self.dir, f'log{j}')
            p.advance()
            p.finish()
            if p.result is None or p.stuck:
                raise Machinery(f'{c[0]} does not end')
            self.nops.append(p.ops())
            with open(p.log, 'rb') as f:
                self.gits.append([n + 1 for n, l in enumerate(f) if l.startswith(b'git\t')])
            self.learn(where, 'r')
            shutil.rmtree(where)
        for k, s in enumerate(self.s['schedules'][:num]):
            e = self.schedule(k, s)
            if e:
                ev.append(e)
            else:
                self.errs.append((k, 'stuck'))
        shutil.rmtree(self.dir)
        return {'ev': ev}


def check(ctx, num, schedules, bases):
    top, src = sources(ctx)
    scripts = ctx.simulate('ConcGen', 'ConcGen.cfg', num, 3)
    bases = [Run(ctx, -1 - i, s, top, src) for i, s in enumerate(scripts[:bases])]
    ctx.parallel(lambda r: r.setup(), bases)
    runs = [Run(ctx, i, s, top, src, bases[i % len(bases)]) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.go(schedules), runs)
    ev = [e for t in traces for e in t['ev']]
    ctx.cov['schedules'] = len(ev)
    ctx.cov['stuck'] = sum(len(r.errs) for r in runs)
    ctx.cov['all_ok'] = sum(all(x == 0 for x in e['rc']) for e in ev)
    ctx.cov['one_failed'] = sum(any(e['rc']) for e in ev)
    if ctx.cov['stuck'] > len(ev) // 5:
        raise Machinery(f'{ctx.cov["stuck"]} schedules did not proceed')
    ctx.judge('ConcTrace', traces, [{'i': r.i} for r in runs], ['C01'], shards=8)
