"""Runs requests generated by spec/PruneGen.tla through prune-older, for spec/PruneTrace.tla."""
import os, random, shutil, subprocess
from packread import RepoView
from repolib import Interner

NEVER = 2000000000
TZS = [('UTC0', None), ('EST5EDT,M3.2.0,M11.1.0', None), ('XYZ-12', None)]


def tz_fields(ts, tz, cache={}):
    """Calendar (y, m, d) and the formatted name of the times in zone tz, by asking date(1)."""
    todo = [t for t in ts if (tz, t) not in cache]
    if todo:
        p = subprocess.run(['date', '-f', '-', '+%Y %m %d %Y-%m-%d-%H%M%S'],
                           input='\n'.join('@%d' % t for t in todo).encode(),
                           env={'TZ': tz, 'PATH': os.environ['PATH'], 'LC_ALL': 'C'},
                           stdout=subprocess.PIPE, check=True)
        for t, l in zip(todo, p.stdout.decode().splitlines()):
            y, m, d, n = l.split()
            cache[tz, t] = (int(y), int(m), int(d), n)
    return {t: cache[tz, t] for t in ts}


def gap_secs(g, rng):
    return {'same': 0, 'sec': 1, 'hour': rng.choice([1800, 3600, 7200]),
            'midnight': rng.choice([20000, 43200, 60000]), 'day': 86400,
            'days': 86400 * rng.choice([2, 3, 6]), 'month': 86400 * rng.choice([28, 30, 31]),
            'months': 86400 * rng.choice([61, 92, 153]), 'year': 86400 * rng.choice([365, 366]),
            'yearday': 86400 * 365 + rng.choice([0, 86400, 3600]),
            'years': 86400 * rng.choice([730, 731, 1096])}[g]


class PruneRun:
    def __init__(self, ctx, i, s):
        self.ctx, self.s = ctx, s
        self.rng = random.Random(f'prune-{ctx.seed}-{i}')
        self.dir = ctx.workdir(f'p{i}')
        self.repo = os.path.join(self.dir, 'r')
        self.tz = self.rng.choice(TZS)[0]
        self.ids = Interner()
        self.log = []

    def times(self, gaps):
        t = [self.rng.choice([1583020800, 1546300800, 1600000000]) + self.rng.randrange(-90000, 90000)]
        for g in gaps[1:]:
            t.append(t[-1] + gap_secs(g, self.rng))
        return t

    def make(self, branches):
        f = []
        n = 0
        for b, ts in branches.items():
            for k, t in enumerate(ts):
                n += 1
                f.append(f'commit refs/heads/{b}\nauthor A U <a@u> {t} +0000\n'
                         f'committer C O <c@o> {t + self.rng.choice([0, 7])} +0000\n'
                         f'data <<E\nsave {b} {n}\nE\n'
                         f'deleteall\nM 644 inline f{n}\ndata <<E\n{n} {b}\nE\n')
        self.git('fast-import', '--quiet', input='\n'.join(f).encode())
        self.git('update-ref', 'refs/tags/keep', f'refs/heads/a~{self.rng.randrange(len(branches["a"]))}')
        self.git('repack', '-adq')
        self.git('prune-packed')

    def git(self, *a, input=None):
        r = self.ctx.run(['git', '--git-dir', self.repo, *a], input=input)
        assert r.rc == 0, r
        return r

    def state(self):
        v = RepoView(self.repo)
        bs, others = [], {}
        for r in sorted(v.refs):
            if not r.startswith('refs/heads/'):
                others[r] = v.refs[r]
                continue
            h = v.history(r)
            ts = [c['author_time'] for o, c in h]
            f = tz_fields(ts, self.tz)
            bs.append({'r': r[11:], 'saves': [
                {'id': self.ids((c['tree'], c['author'], c['committer'], c['author_time'],
                                 c['committer_time'], c['msg'])),
                 't': c['author_time'], 'y': f[t][0], 'm': f[t][0] * 12 + f[t][1],
                 'd': f[t][0] * 500 + f[t][1] * 40 + f[t][2], 'name': f[t][3]}
                for (o, c), t in zip(h, ts)]})
        _, missing = v.reach([x for x in v.refs.values()])
        return bs, others, bool(missing)

    def run(self):
        r = self.ctx.bupcmd(self.repo, 'init')
        assert r.rc == 0
        br = {'a': self.times(self.s['g'])}
        if self.s['g2']:
            br['b'] = self.times(self.s['g2'])
        self.make(br)
        ev = []
        pre, others, _ = self.state()
        for q in self.s['reqs']:
            ts = sorted({s['t'] for b in pre for s in b['saves']})
            if not ts:
                break
            newest = ts[-1]
            end = {1: newest, 2: newest + 100000, 3: newest + 1,
                   4: ts[min(q['endn'], len(ts)) - 1]}[q['end']]
            per, args = {}, []
            opts = {'all': '--keep-all-for', 'd': '--keep-dailies-for',
                    'm': '--keep-monthlies-for', 'y': '--keep-yearlies-for'}
            for k in ('all', 'd', 'm', 'y'):
                p = q[k]
                per[k] = NEVER
                if p['k'] == 'forever':
                    per[k] = -NEVER
                    args += [opts[k], 'forever']
                elif p['k'] == 'near':
                    start = ts[p['n'] % len(ts)] + p['off']
                    secs = max(1, end - start)
                    unit = self.rng.choice(['s', 's', 's', 'min', 'h', 'd', 'w', 'm', 'y'])
                    size = {'s': 1, 'min': 60, 'h': 3600, 'd': 86400, 'w': 604800,
                            'm': 86400 * 31, 'y': 86400 * 366}[unit]
                    mag = max(1, secs // size)
                    per[k] = end - mag * size
                    args += [opts[k], f'{mag}{unit}']
            if not args:
                per['all'] = end - 1000
                args = ['--keep-all-for', '1000s']
            roots = {'both': [b['r'] for b in pre], 'none': [],
                     'one': [self.rng.choice(pre)['r']]}[q['roots']]
            if q['bad']:
                args = self.rng.choice([[], ['--keep-all-for', '3x'], ['--keep-all-for', '']])
            a = ['prune-older', '--unsafe', '--wrt', str(end), *args]
            if q['pretend']:
                a.append('--pretend')
            if not q['gc']:
                a.append('--no-gc')
            a += roots
            self.log.append(' '.join(a))
            r = self.ctx.bupcmd(self.repo, *a, env={'TZ': self.tz})
            out = []
            if q['pretend']:
                for l in r.out.decode().splitlines():
                    sign, _, n = l.partition(' ')
                    b, _, n = n.partition('/')
                    out.append({'sign': sign, 'r': b, 'name': '-'.join(n.split('-')[:4])})
            post, others2, missing = self.state()
            ev.append({'op': 'prune', 'per': per, 'end': end, 'roots': roots, 'pretend': q['pretend'],
                       'bad': q['bad'], 'rc': r.rc, 'out': out, 'pre': pre, 'post': post,
                       'others': others == others2, 'missing': missing,
                       'err': r.err[-300:].decode('utf-8', 'replace')})
            pre, others = post, others2
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'ev': ev}


def check(ctx, num):
    scripts = ctx.simulate('PruneGen', 'PruneGen.cfg', num, 30)
    runs = [PruneRun(ctx, i, s) for i, s in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.run(), runs)
    ctx.judge('PruneTrace', traces, [{'log': r.log, 'tz': r.tz, 'script': r.s} for r in runs], ['R02'])
