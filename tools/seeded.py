#!/usr/bin/env python3
"""Try the planted bugs: each patch is applied to a scratch copy of /repo and must leave the stable tests
passing, its demonstration must pass without and fail with it, and the property's check should catch it.

usage: seeded.py [--tier quick|thorough] [--seed N] [--all-checks] [--no-tests] [ID...]

The checks run from a scratch copy of /verif whose sim/core.py names the scratch copy of /repo, so several bugs can
be tried at once and neither /repo nor /verif is touched.
"""
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def one(bid, args):
    d = os.path.join(HERE, 'seeded', bid)
    meta = json.load(open(d + '/meta.json'))
    prop = meta['property']
    out = {'id': bid, 'property': prop}
    with tempfile.TemporaryDirectory(prefix='seeded-') as tmp:
        repo = tmp + '/repo'
        sh(['cp', '-a', '/repo', repo])
        r = sh(['git', 'apply', d + '/patch.diff'], cwd=repo)
        if r.returncode:
            return dict(out, error='patch does not apply: ' + r.stderr[:200])
        base = sh(['bash', d + '/demo.sh'], cwd='/repo', timeout=300)
        bad = sh(['bash', d + '/demo.sh'], cwd=repo, timeout=300)
        out['demo'] = 'ok' if base.returncode == 0 and bad.returncode != 0 else 'BAD(%d,%d)' % (base.returncode, bad.returncode)
        out['demo_msg'] = (bad.stderr.strip().splitlines() or [''])[-1][:100]
        if base.returncode:
            out['demo_msg'] = base.stderr[-300:]
        if '--no-tests' not in args:
            script = open('/opt/vp/test.sh').read().replace('cd /repo ', 'cd %s ' % repo)
            open(tmp + '/test.sh', 'w').write(script)
            sh(['bash', tmp + '/test.sh', tmp + '/out.json'], env={'PYTHONPATH': repo})
            base = json.load(open('/opt/vp/BASELINE.json'))
            stable = set(base.get('stable') or base.get('passed'))
            missing = sorted(stable - set(json.load(open(tmp + '/out.json'))['passed']))
            out['tests'] = 'missing %s' % missing[:4]
        verif = tmp + '/verif'
        os.makedirs(verif)
        for f in ('check', 'sim', 'known_findings.txt'):
            sh(['cp', '-a', HERE + '/' + f, verif])
        core = open(verif + '/sim/core.py').read()
        open(verif + '/sim/core.py', 'w').write(core.replace("REPO = '/repo'", 'REPO = %r' % repo))
        checks = [prop]
        if '--all-checks' in args:
            checks = ['C%02d' % n for n in range(1, 30) if os.path.exists('%s/sim/props/c%02d.py' % (HERE, n))]
        tier = args[args.index('--tier') + 1] if '--tier' in args else 'quick'
        seed = ['--seed', args[args.index('--seed') + 1]] if '--seed' in args else []
        caught = {}
        for c in checks:
            r = sh([verif + '/check', c, '--tier', tier] + seed, cwd=verif, env={'PYTHONPATH': repo})
            if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout:
                caught[c] = 'caught'
                if c == prop:
                    out['msg'] = next((line for line in r.stdout.splitlines() if line.startswith('  kind:')), '')[:160]
            elif r.returncode != 0:
                caught[c] = 'rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-200:])
            elif c == prop:
                caught[c] = 'MISSED'
        out['check'] = caught.pop(prop)
        if caught:
            out['also'] = sorted(caught)
    return out


def main():
    args = sys.argv[1:]
    ids = [a for n, a in enumerate(args) if not a.startswith('--') and (n == 0 or args[n - 1] not in ('--tier', '--seed'))]
    ids = ids or sorted(os.listdir(HERE + '/seeded'))
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for o in ex.map(lambda b: one(b, args), ids):
            good = o.get('demo') == 'ok' and o.get('tests', 'missing []').startswith('missing []') and o.get('check') == 'caught'
            bad += not good
            print('%-3s %-6s %-4s %-9s %-12s %-8s %s' % (
                'ok' if good else '**', o['id'], o['property'], o.get('demo'), o.get('tests', ''), o.get('check'),
                o.get('msg', '') if good else json.dumps(o)), flush=True)
            if o.get('also'):
                print('           also caught by: %s' % ' '.join(o['also']))
    print('%d of %d fine' % (len(ids) - bad, len(ids)))


if __name__ == '__main__':
    main()
