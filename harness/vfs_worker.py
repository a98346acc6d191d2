"""Runs in a process of its own with the built bup on its path: answers requests about a
repository, one JSON object per line, by calling bup's vfs."""
import hashlib, json, os, stat, sys

sys.path.insert(0, sys.argv[1])
from bup import git, vfs
from bup.repo import LocalRepo, RemoteRepo

repo_dir = os.fsencode(sys.argv[2])
os.environb[b'BUP_DIR'] = repo_dir
git.check_repo_or_die()
b = lambda s: s.encode('utf-8', 'surrogateescape')
u = lambda s: s.decode('utf-8', 'surrogateescape')
KIND = {stat.S_IFREG: 'f', stat.S_IFDIR: 'd', stat.S_IFLNK: 'l'}


origs = {}
def places(path, d, hint):
    """Where in the file d is."""
    if path not in origs:
        with open(path, 'rb') as f:
            origs[path] = f.read()
    o = origs[path]
    if not d:
        return []
    out, k = [], o.find(d)
    while k >= 0 and len(out) < 100:
        out.append(k)
        k = o.find(d, k + 1)
    # (there can be too many places to list)
    if hint not in out and o[hint:hint + len(d)] == d:
        out.append(hint)
    return out


def describe(repo, item):
    k = KIND.get(stat.S_IFMT(vfs.item_mode(item)), '?')
    r = {'k': k, 'data': ''}
    if k == 'f':
        with vfs.fopen(repo, item) as f:
            r['data'] = hashlib.sha1(f.read()).hexdigest()
        r['size'] = vfs.item_size(repo, item)
    elif k == 'l':
        r['data'] = u(vfs.readlink(repo, item))
    return r


def resolve(repo, q):
    parent = None
    if q.get('from'):
        parent = vfs.resolve(repo, b(q['from']))
        if parent[-1][1] is None:
            return {'st': 'nofrom'}
    res = vfs.resolve(repo, b(q['path']), parent=parent, want_meta=q['meta'], follow=q['follow'])
    names = [u(n) for n, i in res][1:]
    if res[-1][1] is None:
        return {'st': 'none', 'names': names}
    return {'st': 'ok', 'names': names, 'item': describe(repo, res[-1][1])}


def answer(repo, q):
    try:
        if q['op'] == 'resolve':
            return resolve(repo, q)
        if q['op'] == 'try':
            res = vfs.try_resolve(repo, b(q['path']), want_meta=q['meta'])
            if res[-1][1] is None:
                return {'st': 'none', 'names': [u(n) for n, i in res][1:]}
            return {'st': 'ok', 'names': [u(n) for n, i in res][1:],
                    'item': describe(repo, res[-1][1])}
        if q['op'] == 'list':
            res = vfs.resolve(repo, b(q['path']), want_meta=q['meta'])
            if res[-1][1] is None:
                return {'st': 'none'}
            return {'st': 'ok', 'ents': [
                [u(n), KIND.get(stat.S_IFMT(vfs.item_mode(i)), '?')]
                for n, i in vfs.contents(repo, res[-1][1], want_meta=q['meta'])]}
        if q['op'] == 'saves':
            res = vfs.resolve(repo, b(q['path']), want_meta=q['meta'])
            if res[-1][1] is None:
                return {'st': 'none'}
            ents, latest = {}, ''
            for n, i in vfs.contents(repo, res[-1][1], want_meta=q['meta']):
                if n == b'latest':
                    latest = u(i.target)
                    i = vfs.resolve(repo, n, parent=res)[-1][1]
                if n != b'.':
                    if u(n) in ents:
                        return {'st': 'twice ' + u(n)}
                    ents[u(n)] = {'id': i.coid.hex()}
            return {'st': 'ok', 'ents': ents, 'latest': latest}
        if q['op'] == 'commit':
            i = vfs.resolve(repo, b(q['path']), want_meta=q['meta'])[-1][1]
            return {'st': 'ok', 'id': i.coid.hex()} if i is not None else {'st': 'none'}
        if q['op'] == 'read':
            res = vfs.resolve(repo, b(q['path']))
            item = res[-1][1]
            out = []
            with vfs.fopen(repo, item) as f:
                for c, n in q['calls']:
                    try:
                        if c == 'seek':
                            f.seek(n)
                            out.append({'ok': True, 'len': 0, 'at': [], 'pos': f.tell()})
                        elif c == 'tell':
                            out.append({'ok': True, 'len': 0, 'at': [], 'pos': f.tell()})
                        else:
                            was = f.tell()
                            d = f.read(n) if n >= 0 else f.read()
                            out.append({'ok': True, 'len': len(d), 'at': places(q['orig'], d, was),
                                        'pos': f.tell()})
                    except vfs.IOError as ex:
                        out.append({'ok': False, 'len': 0, 'at': [], 'pos': -1})
            return {'st': 'ok', 'res': out, 'size': vfs.item_size(repo, item)}
        if q['op'] == 'fuse':
            from bup.cmd.fuse import BupFs
            fs = BupFs(repo)
            out = []
            for at, n in q['calls']:
                try:
                    d = fs.read(q['path'], n, at)
                    out.append({'ok': True, 'len': len(d), 'at': places(q['orig'], d, at), 'pos': -1})
                except vfs.IOError as ex:
                    out.append({'ok': False, 'len': 0, 'at': [], 'pos': -1})
            return {'st': 'ok', 'res': out, 'size': fs.getattr(q['path']).st_size}
        return {'st': 'bad request'}
    except vfs.IOError as ex:
        import errno
        return {'st': {errno.ELOOP: 'loop', errno.ENOTDIR: 'notdir'}.get(ex.errno, 'ioerror'),
                'err': str(ex)[-200:]}
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt):
            raise
        return {'st': 'exc', 'err': repr(ex)[-300:]}


def main():
    with LocalRepo(repo_dir) as repo:
        for line in sys.stdin:
            print(json.dumps(answer(repo, json.loads(line))), flush=True)


main()
