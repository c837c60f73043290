"""Minimise a failing scenario: drop steps, then parts of the configuration, keeping the same kind of violation."""
import copy
import time

from .core import execute, Stats

LIST_KEYS = {'elems', 'inside', 'anims', 'cps', 'targets', 'movers', 'points', 'frames', 'nodes', 'body', 'clients', 'models'}


def minimise(mod, scenario, kind, budget=25.0):
    deadline = time.time() + budget
    tried = 0

    def fails(sc):
        nonlocal tried
        if time.time() > deadline:
            return False
        tried += 1
        bad = execute(mod, copy.deepcopy(sc), Stats())
        return bool(bad) and bad['kind'] == kind

    best = copy.deepcopy(scenario)

    def shrink_list(get, put):
        """ddmin over one list"""
        nonlocal best
        n = 2
        items = get(best)
        while items:
            size = max(1, len(items) // n)
            progress = False
            i = 0
            while i < len(items):
                if time.time() > deadline:
                    return
                cand = copy.deepcopy(best)
                put(cand, items[:i] + items[i + size:])
                if fails(cand):
                    best = cand
                    items = get(best)
                    progress = True
                else:
                    i += size
            if progress:
                n = max(n - 1, 2)
            elif size == 1:
                return
            else:
                n = min(n * 2, len(items))

    shrink_list(lambda s: s['steps'], lambda s, v: s.__setitem__('steps', v))

    # faults that are not needed
    for i, st in enumerate(best['steps']):
        if isinstance(st, dict) and st.get('fault'):
            cand = copy.deepcopy(best)
            cand['steps'][i]['fault'] = None
            if fails(cand):
                best = cand

    # configuration lists
    def walk(node, path=()):
        if isinstance(node, dict):
            for k in sorted(node):
                yield from walk(node[k], path + (k,))
        elif isinstance(node, list):
            if path and path[-1] in LIST_KEYS:
                yield path
            for i, v in enumerate(node):
                yield from walk(v, path + (i,))

    def at(node, path):
        for p in path:
            node = node[p]
        return node

    again = True
    while again and time.time() < deadline:
        again = False
        for path in list(walk(best.get('config', {}), ())):
            try:
                items = at(best['config'], path)
            except (KeyError, IndexError):
                continue
            for i in reversed(range(len(items))):
                if time.time() > deadline:
                    break
                cand = copy.deepcopy(best)
                del at(cand['config'], path)[i]
                if fails(cand):
                    best = cand
                    again = True
    shrink_list(lambda s: s['steps'], lambda s, v: s.__setitem__('steps', v))
    return best, tried
