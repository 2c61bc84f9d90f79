"""C17: load-balanced evaluation returns each case result once on any schedule."""
from itertools import product, combinations
import warnings
from mc.world import Chooser, Comm, World, following

PID = 'C17'
LEVEL = 'model_checking'
RULE = ('stateless model checking of the real master and worker code: every rank is a thread over a stand-in communicator, one runs at a time, and '
        'every order in which results can arrive at the master is explored depth first, for every number of ranks, number of cases, failing '
        'subset, with and without broadcast, with buffered and with synchronous sends, for both forms of giving arguments')
ASSUMPTIONS = ['messages between two ranks are not reordered (as MPI guarantees); sends are buffered or synchronous',
               'the results may be returned in any order']
NOTE = 'all arrival orders of all cases in the bounds are explored'
FORMS = ['args', 'kwargs', 'empty', 'generator', 'mixed']


def cases(tier):
    q = tier == 'quick'
    out = []
    for size in (0, 1, 2, 3, 4) + (() if q else (5,)):
        for n in range(0, 6 if q else 7):
            subsets = [c for k in range(n + 1) for c in combinations(range(n), k)]
            for fails in subsets:
                if n > 3 and 1 < len(fails) < n and (q or n > 5):
                    continue
                for bcast in (False, True):
                    for sync in (False, True) if size > 1 else (False,):
                        for form in FORMS:
                            if n > 3 and q and FORMS.index(form) != (len(fails) + bcast + sum(fails)) % 5:
                                continue
                            out.append([size, n, list(fails), bcast, sync, form])
    return out


def run(case, R):
    size, n, fails, bcast, sync, form = case
    path = []
    while path is not None:
        choose = Chooser(path)
        one(R, size, n, fails, bcast, sync, form, choose)
        R.trace()
        R.step(len(choose.taken) + n)
        R.state((size, n, tuple(fails), bcast, sync, form, tuple(choose.taken)))
        if R.fails:
            return
        path = following(choose.taken)


class Bad(Exception):
    pass


def one(R, size, n, fails, bcast, sync, form, choose):
    from openmdao.util.concurrent import concurrent_eval_lb
    calls = []

    def func(k, more=0, tail=()):
        calls.append(k)
        if k in fails:
            raise Bad('case %d is bad' % k)
        return ('result', k, more, tail)
    cs, want = [], []
    for k in range(n):
        f = form if form != 'mixed' else FORMS[k % 3]
        if f == 'args':
            cs.append(((k, k + 1), None))
            w = ('result', k, k + 1, ())
        elif f == 'kwargs':
            cs.append(([k], {'tail': (k,), 'more': -k}))
            w = ('result', k, -k, (k,))
        else:
            cs.append(([k], {}))
            w = ('result', k, 0, ())
        want.append(w if k not in fails else None)

    def given():
        return iter(cs) if form == 'generator' else list(cs)
    tag = 'ranks%s' % (size if size < 3 else 'N')

    def check(results, who):
        if not R.check(isinstance(results, list) and len(results) == n, tag + ':number-of-results', lambda: '%s: %s' % (who, results)):
            return
        left = list(range(n))
        for val, err in results:
            hit = None
            for k in left:
                if (k in fails and val is None and err is not None and 'case %d is bad' % k in err) or (k not in fails and err is None and val == want[k]):
                    hit = k
                    break
            if not R.check(hit is not None, tag + ':wrong-result', lambda: '%s: %s is none of the missing cases' % (who, (val, err))):
                return
            left.remove(hit)
    if size == 0:
        check(concurrent_eval_lb(func, given(), None, broadcast=bcast), 'serial')
        R.check(calls == list(range(n)), tag + ':calls', lambda: str(calls))
        return
    world = World(size, choose, sync)

    def body(rank):
        comm = Comm(world, list(range(size)), rank, ())
        return concurrent_eval_lb(func, given(), comm, broadcast=bcast)
    done = world.run(body)
    if not R.check(done, tag + ':never-ends', lambda: 'choices %s, called %s, waiting %s' % (choose.taken, calls, world.wait)):
        return
    bad = [v for v in world.ranks.values() if v[0] != 'ok']
    if not R.check(not bad, tag + ':raised', lambda: str(bad)):
        return
    R.check(sorted(calls) == list(range(n)), tag + ':calls', lambda: 'called for %s' % calls)
    check(world.ranks[0][1], 'master')
    if bcast:
        for r in range(size):
            R.check(world.ranks[r][1] == world.ranks[0][1], tag + ':broadcast', lambda: str(world.ranks))
    left = [m for v in world.messages.values() for m in v]
    R.check(not left, tag + ':messages-left', lambda: str(left))
