"""Enumerators of data-flow graphs and component trees."""
from itertools import combinations, product
from mc.models import set_partitions


def subsets(items, lo=0, hi=None):
    items = list(items)
    hi = len(items) if hi is None else hi
    for k in range(lo, hi + 1):
        for c in combinations(items, k):
            yield list(c)


def dags(n):
    """All DAGs p, c1..cn in topological numbering, every comp with >=1 input."""
    nodes = ['p'] + ['c%d' % i for i in range(1, n + 1)]
    opts = [list(subsets(nodes[:i], 1)) for i in range(1, n + 1)]
    for combo in product(*opts):
        yield [[s, 'c%d' % (i + 1)] for i, ss in enumerate(combo) for s in ss]


def trees(n, nested=True):
    """Component trees over p, c1..cn: partitions into groups, plus nestings."""
    cs = ['c%d' % i for i in range(1, n + 1)]
    for part in set_partitions(cs):
        t = ['p']
        for k, blk in enumerate(part):
            if len(blk) == 1:
                t.append(blk[0])
            else:
                t.append(['G', 'g%d' % k, blk])
        yield t
    if nested:
        if n >= 2:
            yield ['p', ['G', 'g', [['G', 'gg', cs]]]]
        if n >= 3:
            yield ['p', ['G', 'g', [cs[0], ['G', 'gg', cs[1:]]]]]
            yield ['p', ['G', 'g', [['G', 'gg', cs[:2]]] + cs[2:]]]
            yield [['G', 'g', ['p', ['G', 'gg', cs[:2]]]], ['G', 'h', cs[2:]]]
            yield ['p', ['G', 'g', [cs[0]]], ['G', 'gg', [['G', 'k', cs[1:2]]] + cs[2:]]]


def groups_of(tree):
    out = []

    def walk(node, path):
        if not isinstance(node, str):
            p = path + '.' + node[1] if path else node[1]
            out.append(p)
            for ch in node[2]:
                walk(ch, p)
    for ch in tree:
        walk(ch, '')
    return out
