"""The external interface the deployed contracts really have, and typed argument grids for it."""
from itertools import product

from .explore import A, lab

SKIP = ('fallback',)


def entries(chain, readonly):
    """[(address, method, ((parameter, type), ...))] of all contracts, in deployment order."""
    out = []
    for a in chain.order:
        for d in sorted(type(chain.scores[a]).get_api(), key=lambda d: d['name']):
            if d['type'] != 'function' or d['name'] in SKIP or bool(d.get('readonly')) != readonly:
                continue
            out.append((a, d['name'], tuple((p['name'], p['type'], 'default' in p) for p in d['inputs'])))
    return out


def grid(params, values, limit=1500):
    """Every combination of values for the parameters; optional parameters also left out.  With more than `limit`
    combinations the value lists are cut from the right until they fit (deterministically)."""
    lists = []
    for name, typ, optional in params:
        lists.append(list(values.get(typ, (None,))))
    n = lambda: product_size(lists)
    while n() > limit:
        k = max(range(len(lists)), key=lambda i: len(lists[i]))
        lists[k].pop()
    must = [p for p in params if not p[2]]
    seen = []
    for vals in product(*lists):
        yield dict((p[0], v) for p, v in zip(params, vals))
    if len(must) < len(params):
        for vals in product(*[lists[i] for i, p in enumerate(params) if not p[2]]):
            yield dict((p[0], v) for p, v in zip(must, vals))


def product_size(lists):
    n = 1
    for l in lists:
        n *= len(l)
    return n
