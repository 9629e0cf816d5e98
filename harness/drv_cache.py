"""Runs histories of cached functions, dictionaries of any key, value caches
and shared iterators, one call after the other."""
import collections
import gc
import random
import weakref

import codec
import marsh
from marsh import utils


# -- L02: dictionaries and value caches -------------------------------------------
class Plain:
    pass


class Aloof:
    """Can only be compared with itself."""
    __hash__ = None

    def __eq__(self, other):
        if other is not self:
            raise TypeError('no')
        return True


ALOOF = Aloof(), Aloof()
NAN = float('nan')
OBJS = [Plain() for _ in range(3)]
#: types of one name, whose values are equal to those of others
INT = type('int', (int,), {})
STR = type('str', (str,), {})
LIST = type('list', (list,), {})
# (equality class, hashable, type, object)
KEYS = [
    (1, True, 1, 1), (1, True, 2, 1.0), (1, True, 3, True), (2, True, 4, 'a'), (3, True, 4, ''),
    (4, True, 1, -1), (5, True, 1, -2), (6, True, 5, (1,)), (6, True, 5, (1.0,)), (7, True, 6, None),
    (8, True, 7, int), (9, True, 7, str), (10, True, 8, frozenset({1})), (11, True, 9, OBJS[0]),
    (12, True, 9, OBJS[1]), (13, True, 2, NAN), (14, True, 4, '1'), (15, True, 5, ()),
    (1, True, 11, INT(1)), (2, True, 12, STR('a')), (17, True, 11, INT(0)), (2, False, 26, LIST([2])), (3, False, 26, LIST()),
    (16, True, 5, (1, 2)), (17, True, 1, 0), (17, True, 3, False), (18, True, 10, b'a'),
    (1, False, 20, [1]), (1, False, 20, [1.0]), (1, False, 21, collections.UserList([1])),
    (2, False, 20, [2]), (3, False, 20, []), (4, False, 22, {}), (5, False, 22, {'a': 1}),
    (6, False, 23, {1}), (7, False, 5, ([1],)), (8, False, 5, ({},)), (9, False, 24, bytearray(b'a')),
    (10, False, 20, [[1]]), (11, False, 20, [1, 2]), (12, False, 20, [NAN]), (13, False, 20, [int]),
    (14, False, 25, ALOOF[0]), (15, False, 25, ALOOF[1]), (16, False, 20, [ALOOF[0]]),
]


def code(k):
    return {'c': k[0], 'h': k[1], 'y': k[2]}


class Names:
    """The code a key seen in an iteration goes by."""

    def __init__(self):
        self.used = []

    def add(self, k):
        self.used.append(k)
        return k[3]

    def seen(self, obj):
        if type(obj) is int and obj > 1000:
            return [obj, True]
        hashable = True
        try:
            hash(obj)
        except TypeError:
            hashable = False
        for k in self.used:
            try:
                if k[1] == hashable and (k[3] is obj or k[3] == obj):
                    return [k[0], k[1]]
            except TypeError:
                pass
        return ['unknown', repr(obj)]


def key_error(fn):
    try:
        return fn()
    except KeyError:
        return ['KeyError']


def dict_op(d, o, key, keys, names):
    """One call of a SafeDict; `key` is the object, `keys` those of an update."""
    op = o['op']
    v = o.get('v')
    if op == 'set':
        d[key] = v
        return ['ok']
    if op == 'get':
        return key_error(lambda: ['v', d[key]])
    if op == 'del':
        def delete():
            del d[key]
            return ['ok']
        return key_error(delete)
    if op == 'has':
        return ['b', key in d]
    if op == 'getd':
        return ['v', d.get(key, v)]
    if op == 'pop':
        return key_error(lambda: ['v', d.pop(key)])
    if op == 'popd':
        return ['v', d.pop(key, v)]
    if op == 'setdefault':
        return ['v', d.setdefault(key, v)]
    if op == 'update':
        d.update([(k, p[1]) for k, p in zip(keys, o['ps'])])
        return ['ok']
    if op == 'touch':
        out = []
        for k in d:
            d[k] = v
            out.append(names.seen(k))
        return ['keys', out]
    if op == 'popitem':
        def popitem():
            k, x = d.popitem()
            return ['item', [names.seen(k), x]]
        return key_error(popitem)
    if op == 'clear':
        d.clear()
        return ['ok']
    if op == 'keys':
        return ['keys', [names.seen(k) for k in d]]
    if op == 'rev':
        return ['keys', [names.seen(k) for k in reversed(d)]]
    if op == 'values':
        return ['values', list(d.values())]
    if op == 'items':
        return ['items', [[names.seen(k), x] for k, x in d.items()]]
    if op == 'len':
        return ['n', len(d)]
    if op == 'fill':
        return fill(d, o)


def cache_op(d, o, key):
    op = o['op']
    if op == 'set':
        d[key] = o['v']
        return ['ok']
    if op == 'look':
        return key_error(lambda: ['v', d[key]])
    if op == 'del':
        def delete():
            del d[key]
            return ['ok']
        return key_error(delete)
    if op == 'len':
        return ['n', len(d)]
    if op == 'info':
        i = d.cache_info()
        return ['info', i.hits, i.misses, i.currsize]
    if op == 'fill':
        return fill(d, o)
    {'clear': d.cache_clear, 'off': d.cache_disable, 'on': d.cache_enable}[op]()
    return ['ok']


def fill(d, o):
    for n in range(o['a'], o['b'] + 1):
        d[n] = o['v']
    return ['ok']


def guarded(fn):
    kind, r = codec.guard(fn)
    if kind == 'ok':
        return r
    return ['hang'] if kind == 'hang' else [type(r).__name__, str(r)[:80]]


DICT_OPS = ['set'] * 8 + ['get', 'del', 'del', 'has', 'getd', 'pop', 'popd', 'setdefault', 'update',
                          'touch', 'popitem', 'keys', 'rev', 'values', 'items', 'items', 'len']


def safe_history(rng):
    cache = rng.random() < 0.4
    typed = cache and rng.random() < 0.5
    d = utils.ValueCache(typed=typed) if cache else utils.SafeDict()
    few = rng.sample(KEYS, rng.randrange(2, 8))
    if rng.random() < 0.5:
        few += [k for k in KEYS if any(k[0] == f[0] and k[1] == f[1] for f in few)]
    names = Names()
    ops = []
    for n in range(rng.choice([4, 8, 16, 40])):
        k = rng.choice(few)
        op = rng.choice(DICT_OPS if not cache else
                        ['set'] * 5 + ['look'] * 6 + ['del', 'del', 'len', 'info', 'info'])
        if rng.random() < 0.02:
            op = 'clear'
        if cache and rng.random() < 0.05:
            op = rng.choice(['on', 'on', 'off'])
        o = {'op': op, 'k': code(k), 'v': n + 1}
        ks = []
        if op == 'update':
            ks = [rng.choice(few) for _ in range(rng.randrange(4))]
            o['ps'] = [[code(x), 100 + n * 10 + i] for i, x in enumerate(ks)]
        key = names.add(k)
        keys = [names.add(x) for x in ks]
        o['out'] = guarded(lambda: cache_op(d, o, key) if cache
                           else dict_op(d, o, key, keys, names))
        ops.append(o)
    return {'typed': typed, 'cache': cache, 'ops': ops}


SIZES = [70, 140, 300, 1100, 2100, 5000]


def plain(rng, top):
    n = rng.choice([1, 2, 64, 65, 100, 128, 256, 257, 1000, 1024, 4096, rng.randrange(1, top + 10)])
    return (1000 + n, True, 1, 1000 + n)


def big_history(rng):
    """The same with thousands of keys."""
    cache = rng.random() < 0.5
    typed = cache and rng.random() < 0.5
    d = utils.ValueCache(typed=typed) if cache else utils.SafeDict()
    names = Names()
    ops, top = [], rng.choice(SIZES)
    for n in range(14):
        o = {'op': rng.choice(['set', 'del', 'get', 'has', 'getd', 'pop', 'popd', 'setdefault', 'popitem',
                               'len', 'len'] if not cache else ['set', 'look', 'look', 'look', 'del', 'len', 'info']),
             'v': n + 1}
        if n in (0, 5):
            o.update(op='fill', a=1001 + n * 10, b=1000 + top + n)
        if n == 13 and not cache:
            o['op'] = rng.choice(['keys', 'rev', 'values', 'items'])
        k = plain(rng, top)
        o['k'] = code(k)
        key = names.add(k)
        o['out'] = guarded(lambda: cache_op(d, o, key) if cache else dict_op(d, o, key, [], names))
        ops.append(o)
    return {'typed': typed, 'cache': cache, 'ops': ops}


REPLAY_KEYS = {(1, True, 1): 1, (2, True, 1): 'b', (1, False, 3): [1], (2, False, 3): [2],
               (1, True, 2): 1.0}


def safe_replay(case, typed):
    d = utils.ValueCache(typed=True) if typed else utils.SafeDict()
    back = {repr(k): [c, h] for (c, h, y), k in REPLAY_KEYS.items()}
    for o, (out, items) in zip(case['ops'], case['seen']):
        key = REPLAY_KEYS[o['k']['c'], o['k']['h'], o['k']['y']]
        key = list(key) if isinstance(key, list) else key
        if typed:
            got = guarded(lambda: cache_op(d, o, key))
            now = [len(items)] if len(d) == len(items) else ['len', len(d)]
            want = [len(items)]
        else:
            got = guarded(lambda: dict_op(d, o, key, [], None))
            kind, now = codec.guard(lambda: [[back[repr(k)], v] for k, v in d.items()])
            want = items
            if kind == 'ok':
                kind, r = codec.guard(lambda: [back[repr(k)] for k in reversed(d)])
                if kind == 'ok' and r != [i[0] for i in reversed(items)]:
                    now = ['reversed', r]
        if got != out or now != want or len(d) != len(items):
            return {'case': case, 'at': o, 'got': got, 'now': repr(now), 'want': [out, want]}
    return None


# -- L02: pools of value caches -----------------------------------------------------
POOL_KEYS = {(c, h, y): x for c, h, y, x in KEYS}


class PoolWorld:
    def __init__(self):
        self.pool = utils.CachePool()
        self.caches = []

    def do(self, o):
        pool, op = self.pool, o['op']
        if op == 'new':
            self.caches.append(pool.new_value_cache(o['n']))
            return ['ok']
        if op == 'give':
            pool.add(o['n'], self.caches[o['c'] - 1])
            return ['ok']
        if op == 'at':
            k = o['o'].get('k')
            return cache_op(self.caches[o['c'] - 1], o['o'], POOL_KEYS[k['c'], k['h'], k['y']] if k else None)
        if op == 'all':
            {'clear': pool.cache_clear, 'off': pool.cache_disable, 'on': pool.cache_enable}[o['what']]()
            return ['ok']
        if op == 'which':
            return key_error(lambda: ['cache', self.number(pool[o['n']])])
        if op == 'known':
            return ['b', o['n'] in pool]
        if op == 'names':
            names = list(pool)
            if names != list(pool.keys()) or [self.number(c) for c in pool.values()] != [self.number(pool[n]) for n in names]:
                return ['differ']
            return ['names', [[n, self.number(c)] for n, c in pool.items()]]
        if op == 'count':
            return ['n', len(pool)]
        if op == 'infos':
            return ['infos', [[n, i.hits, i.misses, i.currsize] for n, i in pool.cache_info().items()]]

    def number(self, cache):
        return [c is cache for c in self.caches].index(True) + 1


def pool_history(rng):
    world = PoolWorld()
    ops = []
    few = rng.sample(KEYS, 4)
    # many caches at times
    names, start = rng.choice([('abc', 0)] * 5 + [('abcdefghijklmnop', 14)])
    for n in range(rng.choice([6, 12, 30]) + 2 * start):
        r = rng.random()
        name = rng.choice(names)
        if r < .12 or len(world.caches) < start or not world.caches:
            o = {'op': 'new', 'n': name}
        elif r < .2:
            o = {'op': 'give', 'n': name, 'c': rng.randrange(len(world.caches)) + 1}
        elif r < .65:
            op = rng.choice(['set'] * 4 + ['look'] * 6 + ['del', 'len', 'info', 'on', 'off', 'clear'])
            o = {'op': 'at', 'c': rng.randrange(len(world.caches)) + 1,
                 'o': {'op': op, 'k': code(rng.choice(few)), 'v': n}}
        elif r < .8:
            o = {'op': 'all', 'what': rng.choice(['clear', 'off', 'on', 'on'])}
        else:
            o = {'op': rng.choice(['which', 'known', 'names', 'count', 'infos', 'infos']), 'n': name}
        o['out'] = guarded(lambda: world.do(o))
        ops.append(o)
    return {'op': 'pool', 'ops': ops}


def pool_replay(case):
    world = PoolWorld()
    for o, want in zip(case['ops'], case['outs']):
        got = guarded(lambda: world.do(o))
        if got != want:
            return {'case': case, 'at': o, 'got': got, 'want': want}
    return None


# -- L02: weak collections of types -------------------------------------------------
class Skipped:
    pass


class TypesWorld:
    def __init__(self):
        self.cache = utils.WeakTypeCache(skip_types=[Skipped, int])
        self.types = {}

    def number(self, t):
        return next((i for i, x in self.types.items() if x is t), -1)

    def type(self, i):
        if i not in self.types:
            # the truth and the size of a type are of no matter, nor is its name
            meta = type('Meta', (type,), {'__bool__': lambda cls: False} if i % 3 else {'__len__': lambda cls: 0})
            self.types[i] = [type, meta][i % 2](f'T{i % 5}', (), {})
        return self.types[i]

    def do(self, o):
        cache, op = self.cache, o['op']
        if op == 'add':
            cache.add(self.type(o['i']))
        elif op == 'skip':
            cache.add(Skipped)
            cache.add(int)
        elif op == 'alias':
            import typing
            cache.add(typing.List[int])
            cache.add(typing.Dict[str, Skipped])
        elif op == 'gone':
            if self.types.pop(o['i'], None) is not None:
                gc.collect()
        elif op == 'clear':
            cache.clear()
        elif op == 'has':
            return ['b', self.type(o['i']) in cache]
        elif op == 'len':
            return ['n', len(cache)]
        elif op == 'all':
            return ['types', [self.number(t) for t in cache]]
        elif op == 'part':
            out = []
            for t in cache:
                if len(out) == o['n']:
                    break
                out.append(self.number(t))
            return ['types', out]
        return ['ok']


def types_history(rng):
    world = TypesWorld()
    ops = []
    gone = set()
    for _ in range(rng.choice([5, 10, 20])):
        i = rng.choice([x for x in range(1, 12) if x not in gone])
        op = rng.choice(['add'] * 8 + ['has', 'len', 'all', 'all', 'part', 'skip', 'alias'])
        r = rng.random()
        if r < .04 and i in world.types and len(gone) < 4:
            op = 'gone'
            gone.add(i)
        elif r < .08:
            op = 'clear'
        o = {'op': op, 'i': i, 'n': rng.randrange(4)}
        o['out'] = guarded(lambda: world.do(o))
        ops.append(o)
    return {'op': 'types', 'ops': ops}


def types_replay(case):
    world = TypesWorld()
    for o, want in zip(case['ops'], case['seen']):
        got = guarded(lambda: world.do(o))
        now = guarded(lambda: [world.number(t) for t in world.cache])
        members = guarded(lambda: sorted(i for i, t in world.types.items() if t in world.cache))
        if got != ['ok'] or now != want or len(world.cache) != len(want) or members != sorted(want):
            return {'case': case, 'at': o, 'got': got, 'now': now, 'want': want}
    return None


# -- L01: cached functions ----------------------------------------------------------
class Unhashable:
    __hash__ = None

    def __eq__(self, other):
        return self is other


class EqOnly:
    """Equal objects of equal hash."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, EqOnly) and self.n == other.n

    def __hash__(self):
        return 7


ARGS = KEYS + [(30, True, 30, EqOnly(1)), (30, True, 30, EqOnly(1)), (31, True, 30, EqOnly(2)),
               (40, False, 31, Unhashable())]
ARGS = [k for k in ARGS if k[0] != 13 or not k[1]] + [(13, True, 2, NAN)]


class Boom(ValueError):
    pass


def function_world(caches, rng=None, pooled=True):
    """Functions with the caches asked for; every evaluation is a new number."""
    world = {'runs': 0, 'raise': '', 'want': None}

    def body(args, kwargs):
        world['runs'] += 1
        a, k = world['want']
        if len(a) != len(args) or any(x is not y for x, y in zip(a, args)) \
                or list(k) != list(kwargs) or any(k[n] is not kwargs[n] for n in k):
            return ('wrong arguments', repr(args), repr(kwargs))
        if world['raise']:
            raise {'ValueError': Boom, 'TypeError': TypeError}[world['raise']]('asked for')
        return ['v', world['runs']]

    pool = utils.CachePool()
    fns = []
    for n, c in enumerate(caches):
        def fn(*args, **kwargs):
            return body(args, kwargs)
        kw = {'maxsize': None if c['max'] == -1 else c['max'], 'typed': c['typed'],
              'safe': c['safe'], 'binding': c['bind'] or None}
        defaults = {'maxsize': None, 'typed': False, 'safe': True, 'binding': None}
        kw = {k: v for i, (k, v) in enumerate(kw.items()) if v != defaults[k] or (n + i + len(caches)) % 2}
        if pooled:
            fn = pool.new_callable_cache(fn, name=f'f{n}', **kw) if n % 2 else \
                pool.new_callable_cache(name=f'f{n}', **kw)(fn)
        else:
            fn = utils.cache(fn, **kw) if n % 2 else utils.cache(**kw)(fn)
        fns.append(fn)
    return world, pool, fns


def info(i):
    return [i.hits, i.misses, -1 if i.maxsize is None else i.maxsize, i.currsize]


def run_op(world, pool, fns, o, args=(), kwargs=None):
    op = o['op']
    before = world['runs']
    if op == 'call':
        world['raise'] = o['raise']
        world['want'] = (args, kwargs)
        try:
            res = fns[o['f'] - 1](*args, **kwargs)
        except Boom:
            res = ['ValueError']
        except TypeError:
            res = ['TypeError']
        except Exception as err:
            res = [type(err).__name__, str(err)[:80]]
        world['want'] = None
    elif op == 'fill':
        world['raise'] = ''
        res = []
        for n in range(o['a'], o['b'] + 1):
            world['want'] = ((n,), {})
            res.append(fns[o['f'] - 1](n))
    elif op == 'info':
        res = ['info', info(fns[o['f'] - 1].cache_info())]
    elif op == 'pool.info':
        d = pool.cache_info()
        res = ['info', [info(d[f'f{n}']) for n in range(len(fns))]]
    elif op.startswith('pool.'):
        {'clear': pool.cache_clear, 'off': pool.cache_disable, 'on': pool.cache_enable}[op[5:]]()
        res = ['ok']
    else:
        f = fns[o['f'] - 1]
        {'clear': f.cache_clear, 'off': f.cache_disable, 'on': f.cache_enable}[op]()
        res = ['ok']
    return [res, world['runs'] - before]


class Self:
    pass


class Slotted:
    """Can not be referred to weakly."""
    __slots__ = ()


def lru_history(rng):
    caches = [{'max': rng.choice([-1, -1, 0, 1, 2, 3, 4]), 'typed': rng.random() < 0.5,
               'safe': rng.random() < 0.7, 'bind': rng.choice(['', '', 'weak', 'ignore'])}
              for _ in range(rng.randrange(1, 4))]
    world, pool, fns = function_world(caches)
    few = rng.sample(ARGS, rng.randrange(2, 6))
    if rng.random() < 0.6:
        few += [k for k in ARGS if any(k[0] == f[0] for f in few)][:5]
    selves = {}
    ops = []
    fresh = 100

    def someone():
        nonlocal fresh
        if len(selves) < 3:
            fresh += 1
            kind = rng.choice([Self, Self, Self, Unhashable, Slotted])
            selves[fresh] = kind()
        c = rng.choice(sorted(selves))
        x = selves[c]
        h = isinstance(x, Self)
        return {'c': c, 'h': h, 'y': 50}, x

    for _ in range(rng.choice([4, 8, 16, 32])):
        f = rng.randrange(len(caches)) + 1
        bind = caches[f - 1]['bind']
        r = rng.random()
        o = {'op': 'call', 'f': f}
        args, kwargs = [], {}
        if r < 0.8:
            o['raise'] = rng.choice([''] * 8 + ['ValueError', 'TypeError'])
            ks = [rng.choice(few) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
            o['a'], args = [code(k) for k in ks], [k[3] for k in ks]
            if bind:
                c, x = someone()
                o['a'].insert(0, c)
                args.insert(0, x)
            o['k'] = []
            for name in rng.sample(['x', 'y', 'fn', 'self_'], rng.choice([0, 0, 0, 1, 2])):
                k = rng.choice(few)
                o['k'].append([name, code(k)])
                kwargs[name] = k[3]
            x = None
        else:
            o['op'] = rng.choice(['info', 'info', 'info', 'pool.info', 'clear', 'off', 'on', 'on',
                                  'pool.clear', 'pool.off', 'pool.on', 'pool.on'])
            if rng.random() < 0.25 and selves and all(c['bind'] != 'ignore' for c in caches):
                o['op'] = 'forget'
        if o['op'] == 'forget':
            # whoever is only known to the caches is gone
            x = selves.pop(rng.choice(sorted(selves)))
            args = kwargs = None
            ref = weakref.ref(x) if not isinstance(x, Slotted) else (lambda: None)
            x = None
            world['want'] = None
            gc.collect(0)
            if ref() is not None:
                gc.collect()
            o['out'] = [['gone' if ref() is None else 'alive'], 0]
        else:
            o['out'] = run_op(world, pool, fns, o, args, kwargs)
        ops.append(o)
    return {'caches': caches, 'ops': ops}


def big_lru(rng):
    """The same with thousands of entries."""
    size = rng.choice([-1, -1, 50, 100, 128, 1000, 3000])
    cfg = {'max': size, 'typed': rng.random() < 0.5, 'safe': rng.random() < 0.7, 'bind': ''}
    world, pool, fns = function_world([cfg], pooled=rng.random() < 0.5)
    ops, top = [], 0
    for n in range(14):
        o = {'op': 'call', 'f': 1, 'raise': ''}
        args = ()
        if n in (0, 6):
            more = rng.choice(SIZES)
            o.update(op='fill', a=1001 + top, b=1000 + top + more)
            top += more
        elif rng.random() < 0.3:
            o['op'] = 'info'
        else:
            c = rng.choice([plain(rng, top)[0], 1000 + top - rng.randrange(min(top, 200)),
                            1000 + top - abs(size) + rng.randrange(-2, 3)])
            if c <= 1000:
                c = 1001
            if c > 1000 + top:
                # later ranges begin after it
                c = 1000 + top
            o['a'], o['k'], args = [{'c': c, 'h': True, 'y': 1}], [], (c,)
        o['out'] = guarded(lambda: run_op(world, pool, fns, o, args, {}))
        ops.append(o)
    return {'caches': [cfg], 'ops': ops}


LRU_ARGS = {(1, 2): 1, (2, 2): 2, (3, 2): 3, (1, 3): 1.0, (9, 1): 'x', (7, 9): [7], (8, 2): 8}


def lru_replay(case, cfg):
    world, pool, fns = function_world([cfg], pooled=len(case['ops']) % 2 == 0)
    for o, out in zip(case['ops'], case['outs']):
        args = [LRU_ARGS[a['c'], a['y']] for a in o.get('a', [])]
        kwargs = {n: LRU_ARGS[a['c'], a['y']] for n, a in o.get('k', [])}
        got = guarded(lambda: run_op(world, pool, fns, o, args, kwargs))
        if got != out:
            return {'case': case, 'cfg': cfg, 'at': o, 'got': got, 'want': out}
    got = guarded(lambda: info(fns[0].cache_info()))
    if got != case['info']:
        return {'case': case, 'cfg': cfg, 'got': got, 'want': case['info']}
    return None


# -- L03: shared iterators ------------------------------------------------------------
class Broken(Exception):
    pass


class Source:
    """An iterator that goes on after raising, as iterators may."""

    def __init__(self, items):
        self.items = items
        self.at = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.at >= len(self.items):
            raise StopIteration
        x = self.items[self.at]
        self.at += 1
        if x == '!':
            raise Broken
        return x


def shared_op(shared, its, src, o):
    if o['op'] == 'new':
        its.append(iter(shared))
        return ['ok', src.at]
    if o['op'] == 'bool':
        try:
            x = 'true' if shared else 'false'
        except Broken:
            x = 'raise'
        return [x, src.at]
    if o['op'] == 'take':
        it = its[o['c'] - 1]
        return [[x for _, x in zip(range(o['n']), it)], src.at]
    try:
        x = next(its[o['c'] - 1])
    except StopIteration:
        x = 'end'
    except Broken:
        x = 'raise'
    return [x, src.at]


def shared_replay(case):
    src = Source(case['items'])
    shared, its = utils.IterableFromIterator(src), []
    for o, out in zip(case['ops'], case['outs']):
        got = guarded(lambda: shared_op(shared, its, src, o))
        if got != out:
            return {'case': case, 'at': o, 'got': got, 'want': out}
    return None


def shared_history(rng):
    items = [rng.choice('abcd') if rng.random() < 0.9 else '!'
             for _ in range(rng.choice([0, 1, 2, 5, 12, 60]))]
    if rng.random() < 0.5:
        items = [x for x in items if x != '!']
    src = Source(items)
    shared, its, ops = utils.IterableFromIterator(src), [], []
    for _ in range(rng.choice([5, 20, 80])):
        r = rng.random()
        o = {'op': 'new'} if r < 0.1 or not its else {'op': 'bool'} if r < 0.15 else \
            {'op': 'next', 'c': rng.randrange(len(its)) + 1}
        o['out'] = guarded(lambda: shared_op(shared, its, src, o))
        ops.append(o)
    return {'op': 'history', 'items': items, 'ops': ops}


def long_iteration(rng):
    """Thousands of items, some taken many at a time."""
    items = [str(n) for n in range(rng.choice([*SIZES, 10500]))]
    src = Source(items)
    shared, its, ops = utils.IterableFromIterator(src), [], []
    for n in range(12):
        o = {'op': 'new'} if n in (0, 4) else {'op': 'next', 'c': rng.randrange(len(its)) + 1} \
            if rng.random() < 0.4 else {'op': 'take', 'c': rng.randrange(len(its)) + 1,
                                        'n': rng.choice([10, 64, 1000, 4097, 20000])}
        o['out'] = guarded(lambda: shared_op(shared, its, src, o))
        ops.append(o)
    return {'op': 'history', 'items': items, 'ops': ops}


def main(job, emit):
    rng = random.Random(job['seed'])
    mode = job['mode']
    if mode == 'record':
        make = {'safe': safe_history, 'lru': lru_history, 'shared': shared_history,
                'pool': pool_history, 'types': types_history}[job['what']]
        for _ in range(job['n']):
            emit(make(rng))
        big = {'safe': big_history, 'lru': big_lru, 'shared': long_iteration}.get(job['what'])
        for _ in range(job['n'] // 250 if big else 0):
            emit(big(rng))
        return
    if mode == 'replay':
        bad = 0
        for case in job['cases']:
            r = {'safe': lambda: safe_replay(case, job.get('typed')),
                 'lru': lambda: lru_replay(case, job.get('cfg')),
                 'pool': lambda: pool_replay(case),
                 'types': lambda: types_replay(case),
                 'shared': lambda: shared_replay(case)}[job['what']]()
            if r is not None:
                emit(r)
                bad += 1
                if bad > 20:
                    break
        emit({'done': len(job['cases'])})


if __name__ == '__main__':
    codec.run(main)
