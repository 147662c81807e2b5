"""Removed lines of each planted bug: original (o) or from one of our commits (f).  python3 tools/blame.py [dir...]"""
import functools, glob, os, re, subprocess, sys
BASE = 'f0a33f3'


@functools.lru_cache(None)
def blame(f):
    o = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', f], capture_output=True, text=True).stdout.split('\n')
    r = subprocess.run(['git', '-C', '/repo', 'rev-list', BASE], capture_output=True, text=True).stdout.split()
    base = set(r)
    return [x.split(' ')[0].lstrip('^')[:39] in {y[:39] for y in base} for x in o if x]


def removed(patch):
    res, cur, n = [], None, 0
    for x in open(patch).read().split('\n'):
        if x.startswith('--- a/'):
            cur = x[6:]
        elif x.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', x).group(1))
        elif x.startswith('-') and not x.startswith('---'):
            res.append((cur, n)); n += 1
        elif x.startswith(' '):
            n += 1
    return res


if __name__ == '__main__':
    for d in sys.argv[1:] or sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../seeded/*'))):
        s = ''
        for f, n in removed(d + '/patch.diff'):
            b = blame(f)
            s += 'o' if b[n - 1] else 'f'
        print(os.path.basename(d), s)
