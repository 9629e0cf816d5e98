"""Python values <-> the tagged tuples of spec/Values.tla, and call guards.
Runs inside the drivers."""
import collections
import collections.abc
import dataclasses
import decimal
import json
import math
import signal
import sys
import types


def digits(text):
    return list(text)


def enc_float(x):
    if math.isnan(x):
        return ['fnan']
    if math.isinf(x):
        return ['finf', x < 0]
    sign, ds, exp = decimal.Decimal(repr(x)).as_tuple()
    if not any(ds):
        return ['f', bool(sign), ['0'], 0]
    ds = list(ds)
    while ds[-1] == 0:
        ds.pop()
        exp += 1
    while ds[0] == 0:
        ds.pop(0)
    return ['f', bool(sign), [str(d) for d in ds], exp]


def enc_str(s):
    if s == '???':
        return ['M']
    return ['s', list(s)]


class Encoder:
    """hook(value, encode) may return a code for values this class does not know."""

    def __init__(self, abstract=False, hook=None):
        self.abstract = abstract
        self.hook = hook

    def __call__(self, v):
        if v is None:
            return ['N']
        t = type(v)
        if v is dataclasses.MISSING:
            return ['M']
        if t is bool:
            return ['b', v]
        if t is int:
            return ['i', v < 0, list(str(abs(v)))]
        if t is float:
            return enc_float(v)
        if t is str:
            return enc_str(v)
        if self.hook is not None:
            code = self.hook(v, self)
            if code is not None:
                return code
        if t is list or t is tuple:
            tag = 't' if self.abstract or t is tuple else 'l'
            return [tag, [self(x) for x in v]]
        if t is dict:
            return ['d', [[self(k), self(x)] for k, x in v.items()]]
        if self.abstract:
            if isinstance(v, collections.abc.Mapping) or (
                hasattr(v, 'keys') and hasattr(v, '__getitem__') and not isinstance(v, type)
            ):
                return ['d', [[self(k), self(v[k])] for k in v]]
            if not isinstance(v, (str, bytes, type)) and hasattr(v, '__getitem__') \
                    and hasattr(v, '__len__'):
                return ['t', [self(x) for x in v]]
        if isinstance(v, (bool, int, float, str)):
            return ['?', t.__name__, str(v)]
        return ['?', getattr(t, '__name__', '?'), '']


enc_abs = Encoder(abstract=True)
enc = Encoder()


def dec(c):
    """Build the plain python value a code stands for."""
    tag = c[0]
    if tag == 'N':
        return None
    if tag == 'M':
        return '???'
    if tag == 'b':
        return c[1]
    if tag == 'i':
        n = int(''.join(c[2]))
        return -n if c[1] else n
    if tag == 'f':
        return float(('-' if c[1] else '') + ''.join(c[2]) + 'e' + str(c[3]))
    if tag == 'finf':
        return -math.inf if c[1] else math.inf
    if tag == 'fnan':
        return math.nan
    if tag == 's':
        return ''.join(c[1])
    if tag == 'l':
        return [dec(x) for x in c[1]]
    if tag in ('t', 'q'):
        return tuple(dec(x) for x in c[1])
    if tag in ('d', 'm'):
        return {dec(k): dec(x) for k, x in c[1]}
    if tag == 'set':
        return {dec(x) for x in c[1]}
    raise ValueError(c)


# -- odd but legitimate containers -------------------------------------------
class OddMapping:
    """A mapping by protocol only."""

    def __init__(self, items):
        self._items = dict(items)

    def __getitem__(self, key):
        return self._items[key]

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)

    def __contains__(self, key):
        return key in self._items

    def keys(self):
        return self._items.keys()

    def values(self):
        return self._items.values()

    def items(self):
        return self._items.items()

    def get(self, key, default=None):
        return self._items.get(key, default)


class AbcMapping(collections.abc.Mapping):

    def __init__(self, items):
        self._items = dict(items)

    def __getitem__(self, key):
        return self._items[key]

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)


class AbcSequence(collections.abc.Sequence):
    __hash__ = None     # containers that can change have no hash


    def __init__(self, items):
        self._items = list(items)

    def __getitem__(self, index):
        return self._items[index]

    def __len__(self):
        return len(self._items)


MAPPINGS = {
    'dict': dict,
    'OrderedDict': collections.OrderedDict,
    'proxy': lambda d: types.MappingProxyType(dict(d)),
    'abc': AbcMapping,
    'userdict': collections.UserDict,
}
SEQUENCES = {
    'list': list,
    'tuple': tuple,
    'abc': AbcSequence,
    'deque': collections.deque,
    'userlist': collections.UserList,
}


def dress(rng, v, odd=0.3):
    """The same element with other container types."""
    if isinstance(v, dict):
        items = [(k, dress(rng, x, odd)) for k, x in v.items()]
        kind = rng.choice(list(MAPPINGS)) if rng.random() < odd else 'dict'
        return MAPPINGS[kind](dict(items))
    if isinstance(v, (list, tuple)):
        items = [dress(rng, x, odd) for x in v]
        kind = rng.choice(list(SEQUENCES)) if rng.random() < odd else \
            rng.choice(['list', 'tuple'])
        return SEQUENCES[kind](items)
    return v


# -- guarded calls --------------------------------------------------------------
class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def guard(fn, seconds=10):
    """('ok', value) | ('err', exception) | ('hang', None)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        try:
            value = fn()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return 'ok', value
    except Hang:
        return 'hang', None
    except Exception as err:
        return 'err', err
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def err_kind(err):
    """The family of an error, by public classes only."""
    import marsh
    import marsh.parse
    e = marsh.errors
    if isinstance(err, e.MissingValueError):
        return 'missing'
    if isinstance(err, e.UnmarshalError):
        return 'unmarshal'
    if isinstance(err, e.PathError):
        return 'path'
    if isinstance(err, e.MarshalError):
        return 'marshal'
    if isinstance(err, e.ConfigFileError):
        return 'config'
    if isinstance(err, e.MarshError):
        return 'marsh'
    if isinstance(err, marsh.parse.ParseError):
        return 'parse'
    return 'alien:' + type(err).__name__


def outcome(fn, encode, seconds=10):
    """The outcome of a call as an event field."""
    kind, x = guard(fn, seconds)
    if kind == 'ok':
        return {'k': 'ok', 'v': encode(x), 'at': []}
    if kind == 'hang':
        return {'k': 'hang', 'v': ['N'], 'at': []}
    path = getattr(x, 'path', '')
    return {'k': err_kind(x), 'v': ['N'], 'at': list(path) if isinstance(path, str) else ['?'],
            'why': f'{type(x).__name__}: {x}'[:300]}


def run(main):
    """Entry of a driver: main(job, emit)."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    with open(sys.argv[1], encoding='utf-8') as f:
        job = json.load(f)
    with open(sys.argv[2], 'w', encoding='utf-8') as out:
        def emit(ev):
            out.write(json.dumps(ev, ensure_ascii=False) + '\n')
        main(job, emit)
