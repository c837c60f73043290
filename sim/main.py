"""Entry point: explore, replay, digest.  See ../check and ../DESIGN.md"""
import argparse
import hashlib
import json
import multiprocessing
import os
import resource
import subprocess
import sys
import time
import traceback

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
CHUNK = 8


def known_findings(pid):
    """Lines 'finding: property=<id> match=<text> :: what fails'.  'fixed:' lines suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                head, _, what = line.partition(' :: ')
                out.append((head.partition('match=')[2], what))
    return out


def _limit():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


_ctx = {}


def _init(pid, seed):
    _limit()
    _ctx['pid'], _ctx['seed'] = pid, seed
    _ctx['mod'] = core.load_property(pid)


def _work(chunk):
    pid, mod = _ctx['pid'], _ctx['mod']
    stats = core.Stats()
    for index in chunk:
        seed, scenario, bad = core.run_one(pid, _ctx['seed'], index, stats, mod)
        if bad:
            return stats.pack(), (index, seed, scenario, bad)
    return stats.pack(), None


def explore(pid, tier, base_seed, runs, workers, seconds=None):
    """Runs 0..runs-1, in order of index; the reported violation is the one with the lowest index."""
    chunks = [list(range(i, min(i + CHUNK, runs))) for i in range(0, runs, CHUNK)]
    total = core.Stats()
    found = None
    t0 = time.time()
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(workers, initializer=_init, initargs=(pid, base_seed))
    try:
        results = pool.imap(_work, chunks)
        for _ in chunks:
            packed, bad = results.next(timeout=600)
            total.merge(core.Stats.unpack(packed))
            if bad:
                found = bad
                break
            if seconds and time.time() - t0 > seconds:
                break
    finally:
        pool.terminate()
        pool.join()
    return total, found


def write_evidence(pid, tier, seed, mod, stats, wall, violations, extra):
    samples = []
    for index in range(2):
        s = core.generate(pid, mod, core.run_seed(seed, pid, index))
        txt = json.dumps(s)
        samples.append(dict(index=index, seed=core.run_seed(seed, pid, index),
                            scenario=s if len(txt) < 6000 else txt[:6000] + '...'))
    cov = dict(
        evaluations=stats.runs,
        distinct_nontrivial=len(stats.cases),
        rule=mod.RULE,
        samples=samples,
        steps_executed=stats.steps,
        oracle_checks=stats.checks,
        simulated_runs_per_hour=int(stats.runs / wall * 3600) if wall else 0,
        seeds_per_hour=int(stats.runs / wall * 3600) if wall else 0,
        simulated_time_s=round(stats.sim_time, 3),
        faults_fired=dict(sorted(stats.faults.items())),
        faults_scheduled=dict(sorted(stats.planned.items())),
        situations_reached=dict(sorted(stats.probes.items())),
        distinct_interleavings=len(stats.schedules),
        distinct_states=len(stats.states),
        state_measure=getattr(mod, 'STATE_MEASURE', ''),
        real_components=mod.REAL,
        stub_components=mod.STUB,
    )
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 3), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
        fp.write('\n')


def replay(path, quiet=False):
    with open(path) as fp:
        rep = json.load(fp)
    pid = rep['property']
    mod = core.load_property(pid)
    bad = core.execute(mod, rep['scenario'], core.Stats())
    if bad:
        if not quiet:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  kind: %s' % bad['kind'])
            print('  what: %s' % bad['message'])
        return 1, bad
    if not quiet:
        print('replay of %s: property %s held' % (path, pid))
    return 0, None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--digest')
    ap.add_argument('--no-minimise', action='store_true')
    ap.add_argument('--selftest', action='store_true', help='the interpreter, libraries and every property module load')
    args = ap.parse_args(argv)

    import x7.geom
    if not os.path.abspath(x7.geom.__file__).startswith(core.REPO + '/'):
        print('ERROR: x7.geom does not come from %s: %s' % (core.REPO, x7.geom.__file__))
        return 2

    if args.selftest:
        names = sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, 'sim', 'props')) if f[0] == 'c' and f.endswith('.py'))
        for name in names:
            core.load_property(name)
        print('OK', ' '.join(names))
        return 0

    if args.replay:
        return replay(args.replay)[0]

    if args.digest:
        # Digest over everything a run did; used to show that one seed is one execution
        mod = core.load_property(args.digest)
        h = hashlib.sha256()
        for index in range(args.runs or 50):
            st = core.Stats()
            seed, scenario, bad = core.run_one(args.digest, args.seed, index, st, mod)
            h.update(json.dumps([seed, scenario, bad, st.runs, st.steps, st.checks, st.sim_time, sorted(st.faults.items()),
                                 sorted(st.states), sorted(st.schedules), sorted(st.cases)], sort_keys=True).encode())
        print(args.digest, h.hexdigest())
        return 0

    pid = args.property
    mod = core.load_property(pid)
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    runs = args.runs or mod.RUNS[tier]
    t0 = time.time()
    stats, found = explore(pid, tier, args.seed, runs, args.workers, args.seconds)
    extra = {}

    code = 0
    for match, what in known_findings(pid):
        # Each listed finding is shown again on this tree by its own fixed scenario
        fn = getattr(mod, 'known_' + match, None)
        if fn and fn():
            print('KNOWN-FINDING: property=%s %s' % (pid, what))

    if found:
        index, seed, scenario, bad = found
        tried = 0
        small = scenario
        if not args.no_minimise and bad['kind'] != 'no-progress':
            from .shrink import minimise
            small, tried = minimise(mod, scenario, bad['kind'])
            bad2 = core.execute(mod, json.loads(json.dumps(small)), core.Stats())
            if not bad2:
                small, bad2 = scenario, bad
            bad = bad2
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (pid, bad['kind'].replace('/', '_')[:40], index))
        with open(path, 'w') as fp:
            json.dump(dict(property=pid, base_seed=args.seed, run_index=index, run_seed=seed, violation=bad,
                           scenario=small, original_steps=len(scenario['steps']), steps=len(small['steps']),
                           minimiser_executions=tried,
                           how='cd /verif && ./check --replay %s' % path), fp, indent=1)       # keys stay in the order of the run
            fp.write('\n')
        again = subprocess.run([os.path.join(VERIF, 'check'), '--replay', path], capture_output=True, text=True)
        extra['replay_reproduced_in_fresh_process'] = again.returncode == 1
        if again.returncode != 1:
            # Never report what does not reproduce
            print('ERROR: property=%s run %d failed (%s) but its replay did not reproduce' % (pid, index, bad['message']))
            print(again.stdout[-2000:], again.stderr[-2000:])
            code = 2
        else:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  kind: %s' % bad['kind'])
            print('  what: %s' % bad['message'])
            for line in bad.get('trace', []):
                print('    ' + line)
            print('  run index %d, seed %d, %d steps minimised to %d' % (
                index, seed, len(scenario['steps']), len(small['steps'])))
            code = 1
    wall = time.time() - t0
    write_evidence(pid, tier, args.seed, mod, stats, wall, 1 if code == 1 else 0, extra)
    if code == 0:
        print('OK property=%s tier=%s runs=%d distinct=%d steps=%d checks=%d faults=%d wall=%.1fs' % (
            pid, tier, stats.runs, len(stats.cases), stats.steps, stats.checks, sum(stats.faults.values()), wall))
    return code


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:       # noqa
        traceback.print_exc()
        sys.exit(2)
