"""Runs in a process of its own with the built bup on its path: keeps a reader of a directory of
indexes, and answers questions about objects; one JSON object per line."""
import json, os, sys

sys.path.insert(0, sys.argv[1])
from bup import git

path = os.fsencode(sys.argv[2])
r = None
for line in sys.stdin:
    q = json.loads(line)
    try:
        if q['do'] == 'open':
            if r is not None:
                r.close()
            r = git.PackIdxList(path)
            a = {}
        elif q['do'] == 'refresh':
            r.refresh()
            a = {}
        else:
            ans = []
            for h in q['q']:
                o = bytes.fromhex(h)
                x = r.exists(o)
                d = {'found': bool(x)}
                if q['full']:
                    s = r.exists(o, want_source=True)
                    y = r.exists(o, want_source=True, want_offset=True)
                    if bool(s) != bool(x) or bool(y) != bool(x):
                        d['found'] = None
                    if s and y:
                        d['src'] = [os.path.basename(os.fsdecode(z.pack)) for z in (s, y)]
                        d['ofs'] = y.offset
                ans.append(d)
            a = {'ans': ans}
    except Exception as ex:
        import traceback
        a = {'err': repr(ex) + ' ' + traceback.format_exc()[-700:]}
    sys.stdout.write(json.dumps(a) + '\n')
    sys.stdout.flush()
if r is not None:
    r.close()
