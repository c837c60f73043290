"""Which planted bugs change or stand next to lines of the original repository (only those count), going by git blame"""
import os
import re
import subprocess

BASE = '4a02dcc'
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
blame = {}


def original(path, n):
    if path not in blame:
        out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', BASE + '..HEAD', '--', path], capture_output=True, text=True).stdout.splitlines()
        blame[path] = [line.startswith('^') for line in out]
    return 0 < n <= len(blame[path]) and blame[path][n-1]


for b in sorted(os.listdir(here)):
    path, n, removed, added = None, 0, [], []
    for line in open(os.path.join(here, b, 'patch.diff')).read().splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif path and line.startswith('-') and not line.startswith('---'):
            removed.append(original(path, n))
            n += 1
        elif path and line.startswith(' '):
            n += 1
        elif path and line.startswith('+') and not line.startswith('+++'):
            added.append(original(path, n - 1) or original(path, n))
    if not any(removed) and not (not removed and any(added)):
        print(b, 'removed', removed, 'added', added)
