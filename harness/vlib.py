"""Common machinery for the checks: builds bup from /repo's working tree in
a scratch directory, runs TLC (model checking, simulation, trace validation),
collects verdicts, and writes evidence."""

import atexit, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
import signal, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'
TLA_DEPS = '/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """The check itself failed (not the property)."""


class Unresponsive(Exception):
    """The program under test hung, or died, in a process meant to answer questions."""


def ask(p, q, timeout=90):
    """Send the JSON question Q to P, a process with binary pipes, and return its answer."""
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    try:
        p.stdin.write(json.dumps(q).encode() + b'\n')
        p.stdin.flush()
        return json.loads(p.stdout.readline())
    except (ValueError, BrokenPipeError) as ex:
        raise Unresponsive(f'no answer to {str(q)[:300]}') from ex
    finally:
        timer.cancel()


class Result:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout
    def __repr__(self):
        return f'Result(rc={self.rc}, out={self.out[-300:]!r}, err={self.err[-600:]!r})'


def base_env(scratch):
    keep = {k: os.environ[k] for k in ('PATH', 'LANG') if k in os.environ}
    env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
           'HOME': os.path.join(scratch, 'home'), 'GIT_CONFIG_NOSYSTEM': '1',
           'TMPDIR': os.path.join(scratch, 'tmp'),
           'PYTHONHASHSEED': '0'}
    del keep
    return env


class Ctx:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.rng = random.Random(f'{prop}-{self.seed}')
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        atexit.register(self._cleanup)
        for f in glob.glob(os.path.join(VERIF, 'evidence/replay', f'{prop}-*.json')):
            os.unlink(f)
        for d in ('home', 'tmp', 'w'):
            os.mkdir(os.path.join(self.scratch, d))
        self.env = base_env(self.scratch)
        self.violations = []   # (key, description, replaypath)
        self.known_hits = set()
        self.cov = {'samples': []}
        self.assumptions = []
        self.states = self.transitions = self.traces = 0
        self.mc_runs = []
        self.notes = []
        self.src = None
        self.ncommands = 0
        self.jobs = int(os.environ.get('VERIF_JOBS', '8'))

    # ---- scratch
    def _cleanup(self):
        if os.environ.get('VERIF_KEEP'):
            print('kept', self.scratch)
            return
        subprocess.run(['chmod', '-R', 'u+rwx', self.scratch],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)

    @property
    def quick(self):
        return self.tier == 'quick'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    # ---- building
    def build(self):
        src = os.path.join(self.scratch, 'src')
        os.mkdir(src)
        files = subprocess.run(
            ['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-co',
             '--exclude-standard', '-z', '--', 'GNUmakefile', 'configure', 'config', 'dev',
             'lib', 'src', 'bup', 'bin', 'pytest', 'wvtest.sh'],
            stdout=subprocess.PIPE, check=True).stdout.split(b'\0')
        for f in files:
            if not f:
                continue
            p = os.path.join(REPO.encode(), f)
            if not os.path.lexists(p):
                continue
            d = os.path.join(src.encode(), f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            if os.path.islink(p):
                os.symlink(os.readlink(p), d)
            elif os.path.isfile(p):
                shutil.copy2(p, d)
        env = dict(self.env, BUP_PYTHON_CONFIG='/usr/bin/python3.12-config')
        p = subprocess.run(['make', '-j8', 'lib/cmd/bup', 'lib/bup/_helpers.so'],
                           cwd=src, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise Machinery('build failed: ' + p.stdout[-3000:].decode('utf-8', 'replace'))
        with open(os.path.join(src, 'lib/bup/checkout_info.py'), 'w') as f:
            f.write("commit='%s'\ndate='2026-01-01 00:00:00 +0000'\nmodified=False\n" % ('0' * 40))
        subprocess.run(['python3', '-m', 'compileall', '-q', 'lib/bup'], cwd=src,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False)
        self.src = src
        self.bup = os.path.join(src, 'bup')
        r = subprocess.run([self.bup, 'version'], env=self.env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise Machinery('bup does not start: ' + r.stdout[-3000:].decode('utf-8', 'replace'))
        return src

    def shim(self):
        """Build the LD_PRELOAD library; returns its path."""
        out = os.path.join(self.scratch, 'shim.so')
        if not os.path.exists(out):
            p = subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-o', out,
                                os.path.join(VERIF, 'harness/shim.c'), '-ldl'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise Machinery('shim: ' + p.stdout.decode()[-2000:])
        return out

    def import_bup(self):
        """Make the built bup package importable in this process."""
        sys.path.insert(0, os.path.join(self.src, 'lib'))

    def workdir(self, name):
        d = os.path.join(self.scratch, 'w', name)
        os.makedirs(d)
        return d

    def run(self, args, *, env=None, cwd=None, input=None, timeout=120):
        e = dict(self.env)
        if env:
            e.update({k: (v if isinstance(v, str) else os.fsdecode(v)) for k, v in env.items()})
        self.ncommands += 1
        p = subprocess.Popen(args, env=e, cwd=cwd or self.scratch,
                             stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             start_new_session=True)
        try:
            out, err = p.communicate(input, timeout=timeout)
            return Result(p.returncode, out, err)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
            return Result(-999, out, err + b'\nTIMEOUT', timeout=True)

    def bupcmd(self, repo, *args, **kw):
        env = dict(kw.pop('env', None) or {})
        env.setdefault('BUP_DIR', repo)
        return self.run([self.bup] + list(args), env=env, **kw)

    def remote_env(self):
        """An environment in which 'ssh HOST -- CMD' runs CMD here (with this bup)."""
        d = os.path.join(self.scratch, 'ssh-bin')
        if not os.path.exists(os.path.join(d, 'ready')):
            os.makedirs(d, exist_ok=True)
            for name, text in (('ssh', 'while [ "$1" != -- ]; do shift; done; shift; exec sh -c "$*"'),
                               ('bup', f'exec {self.bup} "$@"')):
                t = os.path.join(d, f'{name}.{threading.get_ident()}')
                with open(t, 'w') as f:
                    f.write(f'#!/bin/sh\n{text}\n')
                os.chmod(t, 0o755)
                os.rename(t, os.path.join(d, name))
            open(os.path.join(d, 'ready'), 'w').close()
        return {'PATH': d + ':' + self.env['PATH']}

    def parallel(self, fn, items, jobs=None):
        """Run fn over items; exceptions become ('exc', traceback) results."""
        out = [None] * len(items)
        with ThreadPoolExecutor(jobs or self.jobs * 2) as ex:
            futs = {ex.submit(fn, x): i for i, x in enumerate(items)}
            for f in as_completed(futs):
                out[futs[f]] = f.result()
        return out

    # ---- TLC
    def _java(self, args, extra_env=None, timeout=600, props=(), heap='3g'):
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        env = dict(self.env)
        env.update(extra_env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-XX:TieredStopAtLevel=1'] \
            if '-simulate' in args or extra_env else \
            ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap]
        cmd += list(props)
        cmd += ['-cp', TLA_JAR + ':' + TLA_DEPS, 'tlc2.TLC', '-metadir', meta,
                '-noGenerateSpecTE'] + args
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise Machinery(f'TLC timed out: {args}') from ex
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout.decode('utf-8', 'replace')

    def model_check(self, module, cfg=None, workers=8, timeout=600, env=None, coverage=True,
                    ignore_actions=(), heap='6g', extra=()):
        """Exhaustively check MODULE against CFG; returns (distinct, generated).
        A violated invariant is a violation of the design: machinery failure,
        since the specification does not depend on the tree."""
        cfg = cfg or module + '.cfg'
        args = ['-workers', str(workers), '-config', cfg]
        if coverage:
            args += ['-coverage', '1']
        args += list(extra)
        t = time.time()
        rc, out = self._java(args + [module], extra_env=env, timeout=timeout, heap=heap)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or 'No error has been found' not in out or not m:
            raise Machinery(f'model checking {module} ({cfg}) failed ({rc}):\n' + out[-5000:])
        gen, dist = map(int, m[-1])
        never = []
        if coverage:
            for name, d, g in re.findall(r'^<(\w+) line .*?>: (\d+):(\d+)', out, re.M):
                if int(g) == 0 and name not in ignore_actions:
                    never.append(name)
            covered = {n for n, d, g in re.findall(r'^<(\w+) line .*?>: (\d+):(\d+)', out, re.M)
                       if int(g) > 0}
            never = [n for n in set(never) if n not in covered]
            if never:
                raise Machinery(f'vacuous actions in {module} ({cfg}): {never}')
        self.states += dist
        self.transitions += gen
        self.mc_runs.append({'module': module, 'cfg': cfg, 'distinct_states': dist,
                             'transitions': gen, 'seconds': round(time.time() - t, 1)})
        return dist, gen

    def expect_mc_violation(self, module, cfg, what, timeout=600, env=None):
        """Sanity: a deliberately broken variant of the design must be rejected."""
        rc, out = self._java(['-workers', '4', '-config', cfg, module], extra_env=env,
                             timeout=timeout)
        if rc == 0 or not re.search(what, out):
            raise Machinery(f'{module} ({cfg}) was expected to violate {what}:\n' + out[-3000:])

    def simulate(self, module, cfg, num, depth, env=None, timeout=300, marker='@@'):
        """Generate behaviours with TLC -simulate; the module prints
        '@@<json>' lines (JSON strings escaped by TLC's PrintT)."""
        e = dict(env or {})
        args = ['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(self.seed),
                '-workers', '1', '-config', cfg, module]
        rc, out = self._java(args, extra_env=e, timeout=timeout)
        lines = []
        for line in out.splitlines():
            if line.startswith('"' + marker):
                s = json.loads(line)
                lines.append(json.loads(s[len(marker):]))
        if not lines or 'Error:' in out:
            raise Machinery(f'simulation of {module} failed ({rc}):\n' + out[-4000:])
        m = re.findall(r'(\d+) states checked', out.replace(',', ''))
        return lines

    def validate(self, module, traces, cfg=None, env=None, timeout=800, count=True, heap='6g',
                 shards=None, dfs=False):
        """Check TRACES against the trace specification MODULE.  Returns a list
        with, for each trace, {'pos': events accepted, 'len': n, 'bad': [clauses]}."""
        cfg = cfg or module + '.cfg'
        if not traces:
            return []
        if shards is None:
            shards = min(4, max(1, len(traces) // 4))
        groups = [list(range(i, len(traces), shards)) for i in range(shards)]
        groups = [g for g in groups if g]
        results = [None] * len(traces)
        gen_total = dist_total = 0

        def one(g):
            fd, path = tempfile.mkstemp(prefix='traces-', suffix='.json', dir=self.scratch)
            with os.fdopen(fd, 'w') as f:
                json.dump([traces[i] for i in g], f)
            outp = path + '.out'
            e = {'TRACES': path, 'VERDICTS': outp}
            e.update(env or {})
            props = []
            if dfs:
                props = ['-Dtlc2.tool.queue.IStateQueue=StateDeque']
            rc, out = self._java(['-workers', '1', '-deadlock', '-config', cfg, module],
                                 extra_env=e, timeout=timeout, props=props, heap=heap)
            if not os.path.exists(outp):
                raise Machinery(f'trace validation with {module} failed ({rc}):\n' + out[-6000:])
            with open(outp) as f:
                v = json.load(f)
            if 'No error has been found' not in out:
                raise Machinery(f'trace validation with {module} failed ({rc}):\n' + out[-6000:])
            m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
            os.unlink(path)
            os.unlink(outp)
            return g, v, tuple(map(int, m[-1]))

        with ThreadPoolExecutor(len(groups)) as ex:
            for g, v, (gen, dist) in ex.map(one, groups):
                gen_total += gen
                dist_total += dist
                assert len(v) == len(g), (len(v), len(g))
                for i, r in zip(g, v):
                    results[i] = r
        if count:
            self.states += dist_total
            self.transitions += gen_total
            self.traces += len(traces)
        return results

    def judge(self, module, traces, infos, prefixes=(), cfg=None, shards=None):
        """Validate TRACES (their events as in TraceBase.tla) and report the failing clauses."""
        res = self.validate(module, traces, cfg=cfg, shards=shards)
        ops = self.cov.setdefault('events_by_op', {})
        for t, v, info in zip(traces, res, infos):
            if v['pos'] != v['len']:
                raise Machinery(f'trace not fully examined: {v}')
            for e in t['ev']:
                ops[e['op']] = ops.get(e['op'], 0) + 1
            for b in sorted(v['bad'], key=repr):
                e = t['ev'][b[0] - 1]
                if prefixes and not b[1].startswith(tuple(prefixes) + ('harness',)):
                    continue
                self.violation(b[1], f'clause {b[1]} fails at event {b[0]} ({e["op"]}) '
                               + str(info)[:500], {'clause': b, 'event': e, 'info': info,
                                'trace': {k: x for k, x in t.items() if k != 'ev'}})
        if infos:
            self.cov['samples'] = [str(x)[:1500] for x in infos[:2]]
        return res

    # ---- verdicts
    def violation(self, key, desc, replay=None):
        """Record a violation identified by KEY (for known findings)."""
        for entry in known_findings():
            if entry['property'] == self.prop and entry['key'] == key:
                if key not in self.known_hits:
                    self.known_hits.add(key)
                    print(f'KNOWN-FINDING: property={self.prop} {entry["what"]}')
                return
        path = None
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.prop}-{len(self.violations)}.json')
        if len(self.violations) < 20:
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'key': key, 'what': desc, 'seed': self.seed,
                           'tier': self.tier, 'replay': replay}, f, indent=1, default=repr)
        self.violations.append((key, desc, path))

    def finish(self):
        cov = dict(self.cov)
        if self.level == 'model_checking':
            cov.setdefault('states', self.states)
            cov.setdefault('transitions', self.transitions)
            cov.setdefault('traces_validated_against_impl', self.traces)
        cov.setdefault('model_check_runs', self.mc_runs)
        cov.setdefault('bup_commands_run', self.ncommands)
        cov['samples'] = cov.get('samples', [])[:3]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(self.elapsed(), 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', f'.{self.prop}.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write('\n')
        os.rename(tmp, os.path.join(VERIF, 'evidence', f'{self.prop}.json'))
        for key, desc, path in self.violations[:20]:
            print(f'{self.prop}: [{key}] {desc}'[:1500])
        if self.violations:
            print(f'VIOLATION property={self.prop} replay={self.violations[0][2]}')
            return 1
        print(f'{self.prop}: ok ({self.tier}, {self.traces} traces validated, '
              f'{self.states} states, {self.elapsed():.1f}s)')
        return 0


_known = None

def known_findings():
    """Entries look like 'finding: property=X key=K what...' and
    'fixed: property=X commit what...'; the latter suppress nothing."""
    global _known
    if _known is None:
        _known = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
                if m:
                    _known.append({'property': m[1], 'key': m[2], 'what': m[3]})
    return _known


def main(prop, level, fn):
    ctx = Ctx(prop, level)
    def onterm(signum, frame):
        sys.exit(3)
    signal.signal(signal.SIGTERM, onterm)
    try:
        ctx.build()
        fn(ctx)
        rc = ctx.finish()
    except Unresponsive as ex:
        # the program under test hung or died: no behaviour to observe
        ctx.violation('unresponsive', str(ex))
        rc = ctx.finish()
    except Exception as ex:
        if not isinstance(ex, Machinery):
            traceback.print_exc()
        print(f'{prop}: machinery failure: {ex}', file=sys.stderr)
        rc = ctx.finish() if ctx.violations else 3
    sys.stdout.flush()
    sys.exit(rc)
