"""Runs in a process of its own with the built bup on its path: splits what it's told to; one JSON
object per line."""
import hashlib, io, json, os, random, sys, threading

sys.path.insert(0, sys.argv[1])
from bup import _helpers
from bup.hashsplit import splitter


class Reader:
    """Gives at most n bytes at a time, in varying kinds of buffers."""
    def __init__(self, d, n, rng):
        self.d, self.n, self.rng, self.at = d, n, rng, 0

    def read(self, size):
        k = min(size, self.rng.randint(1, self.n))
        r = self.d[self.at:self.at + k]
        self.at += len(r)
        return r if self.rng.random() < .7 else self.rng.choice([bytearray, memoryview])(r)


def feed(fd, d, n, rng):
    at = 0
    while at < len(d):
        at += os.write(fd, d[at:at + rng.randint(1, n)])
    os.close(fd)


def arrivals(paths, arr, rng):
    """Opens each only when it's wanted, as split and save do."""
    threads = []
    for p in paths:
        with open(p, 'rb') as f:
            if arr['k'] == 'file':
                yield f
                continue
            d = f.read()
        if arr['k'] == 'read':
            yield Reader(d, arr['n'], rng)
        elif arr['k'] == 'bytesio':
            yield io.BytesIO(d)
        else:
            r, w = os.pipe()
            t = threading.Thread(target=feed, args=(w, d, arr['n'], rng))
            t.start()
            with os.fdopen(r, 'rb', 0) as f:
                yield f
            t.join()


for line in sys.stdin:
    q = json.loads(line)
    try:
        if q['do'] == 'split':
            rng = random.Random(q['seed'])
            out, sum_, held = [], hashlib.sha1(), []
            kw = {'fanbits': q['fanbits']} if q['fanbits'] else {}
            if q['progress']:
                kw['progress'] = lambda n, b: None
            for blob, level in splitter(arrivals(q['paths'], q['arr'], rng), keep_boundaries=q['keep'],
                                        blobbits=q['bits'], **kw):
                out.append([len(blob), level])
                held.append(blob)
                if len(held) > 3:
                    # A chunk must stay what it was when more has been read
                    sum_.update(held.pop(0))
            for b in held:
                sum_.update(b)
            a = {'got': out, 'sum': sum_.hexdigest()}
        else:
            s = _helpers.RecordHashSplitter(bits=q['bits'])
            a = {'got': []}
            for x in q['recs']:
                y, b = s.feed(bytes.fromhex(x))
                a['got'].append([int(y), b or 0])
    except Exception as ex:
        import traceback
        a = {'err': repr(ex) + ' ' + traceback.format_exc()[-700:]}
    sys.stdout.write(json.dumps(a) + '\n')
    sys.stdout.flush()
