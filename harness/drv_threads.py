"""Runs threads of the real code under controlled schedules."""
import collections
import random
import sys

import sched
sched.install()

import codec        # noqa: E402
import gentypes     # noqa: E402
import marsh        # noqa: E402
from marsh import utils     # noqa: E402

MARSH = marsh.__file__.rsplit('/', 1)[0] + '/'


def where(filename):
    return filename.startswith(MARSH)


def plans(rng, total, n, orders, quick):
    """Schedules for n threads that take `total[k]` steps each when alone."""
    steps = sum(total)
    for order in orders:
        moves = [order.count(k + 1) for k in range(n)]
        if len(set(order)) == n:
            yield 'order', sched.sliced([k - 1 for k in order],
                                        [max(1, -(-total[k] // moves[k])) for k in range(n)])
    once = range(1, total[0] + 1)
    for at in rng.sample(once, min(len(once), quick['one'])):
        yield 'one', sched.switches([at])
    for _ in range(quick['two']):
        a = rng.randrange(1, total[0] + 1)
        b = a + rng.randrange(1, max(2, total[-1]))
        yield 'two', sched.switches([a, b])
    for _ in range(quick['more']):
        yield 'more', sched.switches(rng.sample(range(1, steps + 1), min(steps, rng.randrange(3, 9))))
    for _ in range(quick['wild']):
        yield 'wild', sched.wild(rng, rng.choice([0.5, 0.1, 0.02]))


def explore(rng, make, n, orders, quick, opcodes, clear):
    """(kind of schedule, results) of many schedules; make() gives fresh functions."""
    count = None
    for k in (0, 1):        # the first may also fill caches that stay
        clear()
        s = sched.Scheduler(sched.alone, where, opcodes)
        res = s.run(make())
        count = s.count
        yield 'alone', s, res
    for kind, plan in plans(rng, [max(1, c) for c in count], n, orders, quick):
        clear()
        s = sched.Scheduler(plan, where, opcodes)
        res = s.run(make())
        yield kind, s, res
        if s.dead:
            return


# -- L03 --------------------------------------------------------------------------------
class Source:

    def __init__(self, items):
        self.items = items
        self.at = 0

    def __iter__(self):
        return self

    def __next__(self):
        s = sched.CURRENT
        if s is not None:
            s.point()
        if self.at >= len(self.items):
            raise StopIteration
        x = self.items[self.at]
        self.at += 1
        if s is not None:
            s.point()
        return x


def shared(job, emit):
    rng = random.Random(job['seed'])
    runs = 0
    while runs < job['n']:
        items = [rng.choice('abc') for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        n = rng.choice([2, 2, 3])
        state = {}

        def make():
            state['src'] = Source(items)
            it = utils.IterableFromIterator(state['src'])
            return [lambda: list(it)] * n

        seen = set()
        for kind, s, res in explore(rng, make, n, [], {'one': 20, 'two': 20, 'more': 10, 'wild': 20},
                                    rng.random() < 0.8, lambda: None):
            runs += 1
            ev = {'op': 'threads', 'items': items, 'draws': state['src'].at,
                  'seen': [r[1] if r[0] == 'ok' else [f'!{r[0]} {r[1]!r}'] for r in res]}
            if repr(ev) not in seen:
                seen.add(repr(ev))
                emit(dict(ev, schedule=kind))
    emit({'runs': runs})


# -- U12 --------------------------------------------------------------------------------
ANNOTATED = dict(depth=(1, 2), weights={'ann': 20, 'dc': 6})


def outcome(kind, x, init, enc):
    if kind == 'ok':
        if init and init != initial(x, []):
            return {'k': f'default dicts started from {init}', 'v': ['N'], 'at': []}
        return {'k': 'ok', 'v': enc(x), 'at': []}
    path = getattr(x, 'path', '')
    return {'k': codec.err_kind(x), 'v': ['N'], 'at': list(path) if isinstance(path, str) else ['?'],
            'why': f'{type(x).__name__}: {x}'[:300]}


def initial(v, out):
    """What the default dicts in a value start from."""
    if isinstance(v, dict):
        if isinstance(v, collections.defaultdict):
            try:
                v.default_factory()
                out.append('ok')
            except Exception as err:
                out.append(type(err).__name__)
        for x in v.values():
            initial(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            initial(x, out)
    return out


def attempt(type_, e):
    try:
        v = marsh.unmarshal(type_, e)
    except Exception as err:
        return 'err', err, []
    return 'ok', v, initial(v, [])


def clear():
    marsh.schema.caches.cache_clear()
    marsh.schema.UnmarshalSchema.cache_clear()


def unmarshal(job, emit):
    import typing
    import drv_types
    rng = random.Random(job['seed'])
    runs = scenarios = 0
    orders = job['orders']
    import typelib
    while runs < job['n']:
        first = rng.random() < 0.5
        profile = rng.choice([dict(depth=(0, 1)), dict(depth=(1,), weights=ANNOTATED['weights']), drv_types.PROFILES['U07'], dict(depth=(1,))]) \
            if first else rng.choice([drv_types.PROFILES['U07']] * 3 + [dict(depth=(1, 2)), ANNOTATED])
        g, t, env = drv_types.make(rng, profile, rng.choice(profile['depth']))
        t = drv_types.typed(t, env)
        scenarios += 1
        try:
            type_, text, enc = gentypes.build(rng, t, env, module=f'tm{scenarios}')
        except (TypeError, SyntaxError, ValueError, NameError):
            continue
        mod = sys.modules[f'tm{scenarios}']
        pool = [(t, type_), (['list', t], typing.List[type_]), (['dict', ['str'], t], typing.Dict[str, type_]),
                (['union', [['none'], t, ['int']]], typing.Union[None, type_, int])]
        if rng.random() < (0.6 if first else 0.3):
            pool += [(['ann', t, [], [['tag', 4]]], typing.Annotated[type_, typelib.Tag(4)])] * 4
        for name, d in env:
            if hasattr(mod, name):
                pool += [(d, getattr(mod, name))] * 2
        if rng.random() < 0.35:
            pool = [(['ddict', ['str'], d], typing.DefaultDict[str, p]) for d, p in pool]
        els = gentypes.Elements(rng, env, mess=0.05, missing=0.03)
        n = 2 if first else rng.choice([2, 2, 2, 3])
        work = []
        for k in range(n):
            if k and rng.random() < 0.5:
                work.append(list(work[0]))
                continue
            ops = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))]
            if t[0] == 'union' or t == ['none']:
                ops = [pool[0]]
            work.append([(d, p, els(d)) for d, p in ops])
        if any(r[0][0] == 'union' and (t[0] in ('union', 'none', 'any') or t == ['int']) for w in work for r in w):
            continue

        def make():
            return [lambda w=w: [attempt(p, e) for _, p, e in w] for w in work]

        seen = set()
        quick = {'one': 10, 'two': 6, 'more': 4, 'wild': 4}
        fresh = rng.random() < 0.85
        if first:
            # the first use of schemas that are there already, switching nearly everywhere once
            work[0] = work[0][:1]
            work[1:] = [list(work[0]) for _ in work[1:]]
            quick = {'one': 60, 'two': 3, 'more': 2, 'wild': 2}

            def start():
                clear()
                for _, p, _ in work[0]:
                    try:
                        marsh.schema.UnmarshalSchema(p)
                    except Exception:
                        pass
        else:
            start = clear if fresh else (lambda: None)
        for kind, s, res in explore(rng, make, n, rng.sample(orders[n - 2], 8), quick, rng.random() < 0.15, start):
            runs += 1
            for k, (w, r) in enumerate(zip(work, res)):
                for i, (d, p, e) in enumerate(w):
                    ev = {'op': 'um', 't': d, 'env': env, 'e': enc(e), 'src': text, 'kw': []}
                    if r[0] == 'ok':
                        ev['out'] = outcome(*r[1][i], enc)
                    else:
                        ev['out'] = {'k': f'{r[0]} {r[1]!r}'[:200], 'v': ['N'], 'at': []}
                    key = repr((k, i, ev['out']))
                    if key not in seen:
                        seen.add(key)
                        emit(dict(ev, schedule=kind, thread=k))
    emit({'runs': runs, 'scenarios': scenarios})


def main(job, emit):
    {'shared': shared, 'unmarshal': unmarshal}[job['mode']](job, emit)


if __name__ == '__main__':
    codec.run(main)
