"""Runs streams generated by spec/SplitGen.tla through bup's splitters, for spec/SplitTrace.tla."""
import hashlib, json, os, random, shutil, subprocess, sys, threading
from vlib import ask


def sums(win):
    return (64 * 31 + sum(win),
            64 * 63 * 31 + sum((len(win) - i) * b for i, b in enumerate(win)))


def window(rng, bits, e, almost=False):
    """64 bytes at whose end there's a split point with exactly e further ones (generation only:
    whether it is one is up to the specification)."""
    e = min(e, 27 - bits)  # (the first sum is small)
    want = (1 << bits) - 1 | ((1 << e) - 1) << (bits + 1) | rng.getrandbits(1) << bits
    care = bits + e + 2
    if almost:
        want ^= 1 << rng.choice([0, bits - 1, rng.randrange(bits)])
        care = bits
    lo = (1 << min(care, 16)) - 1
    hi = (1 << max(0, min(care, 32) - 16)) - 1
    while True:
        w = bytearray(rng.randbytes(64))
        for _ in range(3000):
            a, b = sums(w)
            d1 = ((want >> 16) - a) & hi
            if d1:
                # some byte makes the sum right, if it's near
                i = rng.randrange(64)
                if w[i] + d1 <= 255 and d1 < 200:
                    w[i] += d1
                elif w[i] + d1 - hi - 1 >= 0:
                    w[i] += d1 - hi - 1
                else:
                    w[i] = rng.randrange(256)
                continue
            d2 = ((want & 0xffff) - b) & lo
            if not d2:
                return bytes(w)
            if d2 > lo // 2:
                d2 -= lo + 1
            # moving x from byte j to byte i changes the second sum by x times their distance
            i, j = rng.sample(range(64), 2)
            k = j - i
            x = int(d2 / k) if abs(d2) >= abs(k) else 0
            if not x:
                i = rng.randrange(63)
                j = i + 1
                x = d2 if abs(d2) < 20 else 1
            x = max(-min(w[i], 255 - w[j]), min(x, min(255 - w[i], w[j])))
            if not x:
                i, j = rng.sample(range(64), 2)
                x = rng.randint(-min(w[i], 255 - w[j]), min(255 - w[i], w[j]))
            w[i] += x
            w[j] -= x


class Maker:
    windows = {}
    lock = threading.Lock()

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.prev = b'x'

    def win(self, bits, e, almost=False):
        key = (bits, e, almost, self.rng.randrange(3))
        with Maker.lock:
            if key not in Maker.windows:
                Maker.windows[key] = window(random.Random(str(key)), bits, e, almost)
            return Maker.windows[key]

    def piece(self, p, bits):
        r, k, n = self.rng, p['k'], p['n']
        if k == 'rand':
            d = r.randbytes(n)
        elif k == 'zero':
            d = bytes(n)
        elif k == 'text':
            d = b''.join(b'line %d\n' % (i % 97) for i in range(n // 6 + 1))[:n]
        elif k == 'again':
            d = self.prev
        elif k == 'same':
            d = bytes([r.choice([255, 1, 31])]) * n
        elif k == 'hithit':
            d = self.win(bits, p['e']) * 2
        else:
            d = (r.randbytes(n) if n < 200000 else bytes(n)) + self.win(bits, p['e'], k == 'almost')
        self.prev = d[-5000:]
        return d


class SplitRun:
    def __init__(self, ctx, i, s, big):
        self.ctx, self.s, self.big = ctx, s, big
        self.m = Maker(f'split-{ctx.seed}-{big}-{i}')
        self.dir = ctx.workdir(f's{int(big)}-{i}')
        self.log = []

    def ask(self, **q):
        return ask(self.w, q)

    def split(self, files, arr, keep, fanbits=None):
        paths = []
        for n, d in enumerate(files):
            paths.append(os.path.join(self.dir, f'f{n}'))
            with open(paths[-1], 'wb') as f:
                f.write(d)
        if sum(map(len, files)) > 100000:
            arr = dict(arr, n=max(arr['n'], 20000))
        r = self.ask(do='split', paths=paths, arr=arr, keep=keep, bits=self.s['bits'],
                     fanbits=fanbits or self.s['fanbits'], seed=self.m.rng.randrange(10**6),
                     progress=self.m.rng.random() < .3)
        self.log.append(f'split {[len(d) for d in files]} {arr} keep={keep} bits={self.s["bits"]}'
                        + (' ' + r['err'] if 'err' in r else ''))
        return r

    def run(self):
        s, m = self.s, self.m
        self.w = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(__file__), 'split_worker.py'),
                                   os.path.join(self.ctx.src, 'lib')], env=self.ctx.env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        try:
            files = [b''.join(m.piece(p, s['bits']) for p in ps) for ps in s['files']]
            if s['long']:
                k = m.rng.randrange(len(files))
                at = m.rng.randrange(len(files[k]) + 1)
                files[k] = files[k][:at] + bytes(s['long']) + files[k][at:]
            if self.big:
                # Put a split point near where the buffer ends
                k = 1 << 23
                files[0] = files[0][:s['edge'] * 1000] + bytes(
                    max(0, k - s['edge'] - len(files[0][:s['edge'] * 1000]) - 64)) \
                    + m.win(s['bits'], 3) + files[0][s['edge'] * 1000:]
            ev = self.long(files) if self.big else self.short(files)
            if not self.big:
                recs = [m.piece(p, s['bits']) for p in s['recs']]
                if s['dull'] and s['bits'] == 13:
                    for k in range(0, len(recs), 2):
                        recs[k] = bytes(m.rng.choice([2500, 4000, 9000]))
                r = self.ask(do='records', bits=s['bits'], recs=[x.hex() for x in recs])
                ev.append({'op': 'records', 'bits': s['bits'], 'fanbits': 1, 'recs': [list(x) for x in recs],
                           'ok': 'got' in r, 'got': r.get('got', []), 'err': r.get('err', '')})
        finally:
            self.w.stdin.close()
            self.w.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'ev': ev}

    def short(self, files):
        s = self.s
        while sum(map(len, files)) > 60000:
            files.pop()
        ev, whole = [], b''.join(files)
        r = self.split(files, s['arr'][0], s['keep'])
        got = r.get('got', [])
        ev.append({'op': 'chunks', 'bits': s['bits'], 'fanbits': s['fanbits'], 'keep': s['keep'],
                   'files': [list(d) for d in files], 'ok': 'got' in r, 'got': got,
                   'same': r.get('sum') == hashlib.sha1(whole).hexdigest(), 'err': r.get('err', '')})
        a = s['arr'][1]
        r = self.split(files, a, s['keep'])
        ev.append({'op': 'again', 'ok': 'got' in r, 'got': r.get('got', []), 'want': got, 'from': 1})
        if not s['keep']:
            # Cut elsewhere
            at = self.m.rng.randint(0, len(whole))
            r = self.split([whole[:at], b'', whole[at:]], a, False)
            ev.append({'op': 'again', 'ok': 'got' in r, 'got': r.get('got', []), 'want': got, 'from': 1})
        return ev

    def long(self, files):
        s, rng = self.s, self.m.rng
        ev, whole = [], b''.join(files)
        r = self.split(files, s['arr'][0], s['keep'])
        got = r.get('got', [])
        # Where files end, if that's to be kept
        ends = {len(whole)}
        if s['keep']:
            n = 0
            for d in files:
                n += len(d)
                ends.add(n)
        at, starts = 0, []
        for n, level in got:
            starts.append(at)
            at += n
        interesting = [len(got) - 1] + [k for k, b in enumerate(starts) if abs(b % (1 << 23) - (1 << 23)) < 70000
                                        or b % (1 << 23) < 70000]
        pick = set(rng.sample(range(len(got)), min(len(got), 60))) | set(interesting[:60])
        pick = sorted(k for k in pick if 0 <= k < len(got))
        def win(a, b):
            return list(whole[max(a, b - 64):b])
        inside = []
        for k in pick:
            a, n = starts[k], got[k][0]
            for p in [1, n - 1] + [rng.randint(1, max(1, n - 1)) for _ in range(3)]:
                if 0 < p < n:
                    inside.append({'win': win(a, a + p)})
            # The positions where a split point was put
            for w in list(Maker.windows.values()):
                p = whole.find(w, a, a + n - 1)
                if p >= 0:
                    inside.append({'win': win(a, p + 64)})
        ev.append({'op': 'long', 'bits': s['bits'], 'fanbits': s['fanbits'], 'ok': 'got' in r, 'err': r.get('err', ''),
                   'same': r.get('sum') == hashlib.sha1(whole).hexdigest(), 'total': at, 'want': len(whole),
                   'most': max([n for n, l in got], default=0), 'inside': inside,
                   'ends': [{'win': win(starts[k], starts[k] + got[k][0]), 'n': got[k][0], 'level': got[k][1],
                             'last': starts[k] + got[k][0] in ends} for k in pick]})
        r = self.split(files, s['arr'][1], s['keep'])
        ev.append({'op': 'again', 'ok': 'got' in r, 'got': r.get('got', []), 'want': got, 'from': 1})
        if got and not s['keep']:
            k = rng.randrange(len(got))
            r = self.split([whole[starts[k]:]], s['arr'][1], False)
            ev.append({'op': 'again', 'ok': 'got' in r, 'got': r.get('got', []), 'want': got, 'from': k + 1})
        return ev


def check(ctx, num, nbig):
    scripts = [(x, False) for x in ctx.simulate('SplitGen', 'SplitGen.cfg', num, 3)]
    scripts += [(x, True) for x in ctx.simulate('SplitGen', 'SplitGenBig.cfg', nbig, 3)]
    runs = [SplitRun(ctx, i, s, b) for i, (s, b) in enumerate(scripts)]
    traces = ctx.parallel(lambda r: r.run(), runs)
    ctx.judge('SplitTrace', traces, [{'log': r.log, 'script': r.s} for r in runs], ['H01'], shards=8)
