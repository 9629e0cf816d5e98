"""Generates type descriptors of spec/Unmarshal.tla, python source for them and
elements for them.  Nothing in here knows how the code under test works."""
import decimal
import keyword

import codec
import marsh

ANY = ['any']
NONE = ['none']
PRIMS = ['bool', 'int', 'float', 'str']
SEQS = ['list', 'seq', 'mseq', 'vtuple', 'set', 'deque']
MAPS = ['dict', 'map', 'mmap', 'odict', 'ddict']
NAN = float('nan')     # the one and only: a set has it once
ABSTRACT = ['seq', 'mseq', 'map', 'mmap']
enc = codec.enc

#: protocols by the descriptors of the builtin types that have them
PROTOCOLS = {
    'SupportsInt': [['float'], ['int'], ['bool']],
    'SupportsIndex': [['int'], ['bool']],
    'HasKeys': [['mmap', ANY, ANY], ['map', ANY, ANY]],
    'HasInsert': [['mseq', ANY]],
    'HasEncode': [['str']],
    'HasBitLength': [['int'], ['bool']],
    'SupportsFloat': [['float'], ['int'], ['bool']],
    'SupportsAbs': [['float'], ['int'], ['bool'], ['complex']],
    'SupportsComplex': [['complex']],
    'HasConjugate': [['float'], ['int'], ['bool'], ['complex']],
    'HasLen': [['bytes'], ['mmap', ANY, ANY], ['map', ANY, ANY], ['mseq', ANY], ['seq', ANY], ['str']],
    'HasRepr': [['float'], ['int'], ['bool'], ['bytes'], ['mmap', ANY, ANY], ['map', ANY, ANY], ['mseq', ANY], ['seq', ANY],
                ['str'], ['complex']],
}

FIELD_NAMES = ['a', 'b', 'c', 'x', 'y', 'key', 'name', 'value', 'self', 'data', 'kw', 'args', 'é', 'element',
               'default', 'cls', 'type_', 'k1', 'n0']
ODD_KEYS = ['x.y', 'a b', '0', 'class', 'q"t', '-1']
MEMBER_NAMES = ['A', 'B', 'RED', 'green', 'x', 'one', 'True_', 'VALUE', 'nope']


class Gen:

    def __init__(self, rng, weights=None, odd=0.06):
        self.rng = rng
        self.n = 0
        self.env = []           # [name, descriptor] pairs
        self.pool = []          # closed descriptors worth repeating
        self.odd = odd
        self.no_initvars = False
        self.weights = {
            'prim': 10, 'sub': 1, 'none': 0.7, 'any': 1.5, 'bytes': 1, 'complex': 0.7, 'slice': 0.7,
            'seq': 6, 'map': 6, 'tuple': 3, 'union': 4, 'opt': 3, 'lit': 3, 'enum': 2,
            'dc': 4, 'nt': 3, 'td': 3, 'fn': 2, 'ann': 3, 'tvar': 1, 'proto': 0.6, 'ref': 1,
            'user': 0, 'rf': 0,
        }
        self.weights.update(weights or {})

    def name(self, prefix):
        self.n += 1
        return f'{prefix}{self.n}'

    def pick(self, table):
        names = [k for k, w in table.items() if w > 0]
        return self.rng.choices(names, [table[k] for k in names])[0]

    # -- types ---------------------------------------------------------------
    def type(self, depth, ban=()):
        rng = self.rng
        table = {k: w for k, w in self.weights.items() if k not in ban}
        if depth <= 0:
            table = {k: w for k, w in table.items()
                     if k in ('prim', 'sub', 'none', 'any', 'bytes', 'complex', 'slice', 'dtm', 'date', 'log', 'lit', 'enum',
                              'proto', 'ref')} or {'prim': 1}
        if not self.env:
            table.pop('ref', None)
        if self.pool and rng.random() < 0.12:
            t = rng.choice(self.pool)
            if t[0] not in ban and KIND.get(t[0], t[0]) not in ban:
                return t
        kind = self.pick(table)
        t = getattr(self, 'make_' + kind)(depth)
        if kind in ('sub', 'user', 'enum', 'dc', 'nt', 'td', 'rf', 'union', 'lit', 'ann') and closed(t):
            self.pool.append(t)
        return t

    def make_prim(self, depth):
        return [self.rng.choice(PRIMS)]

    def make_sub(self, depth):
        return ['sub', self.rng.choice(['int', 'float', 'str']), self.name('S')]

    def make_none(self, depth):
        return NONE

    def make_any(self, depth):
        return ANY

    def make_bytes(self, depth):
        return ['bytes']

    def make_complex(self, depth):
        return ['complex']

    def make_slice(self, depth):
        return ['slice']

    def make_dtm(self, depth):
        return ['dtm']

    def make_date(self, depth):
        return [self.rng.choice(DATES)]

    def make_log(self, depth):
        return ['log']

    def make_seq(self, depth):
        kind = self.rng.choices(SEQS, [5, 3, 1, 3, 2, 1])[0]
        if kind == 'set':
            return [kind, self.hashable(depth - 1)]
        return [kind, self.type(depth - 1)]

    def make_user(self, depth):
        """A class of its own made from a container."""
        t = self.make_seq(depth) if self.rng.random() < 0.5 else self.make_map(depth)
        if t[0] in ABSTRACT or not closed(t):
            return t
        return ['user', t, self.name('X')]

    def hashable(self, depth):
        rng = self.rng
        if rng.random() < self.odd:
            return rng.choice([['list', ['int']], ['dict', ['str'], ANY], ANY, ['slice'], ['set', ['str']], ['bytes'],
                               ['tuple', [['list', ['str']]]]])
        r = rng.random()
        if r < 0.45:
            return [rng.choice(['str', 'int', 'str', 'bool', 'float'])]
        if r < 0.6:
            return self.make_lit(0)
        if r < 0.7:
            return self.make_enum(0)
        if r < 0.8:
            return ['tuple', [self.hashable(0) for _ in range(rng.randrange(1, 3))]]
        if r < 0.9:
            return self.optional(self.hashable(0))
        return ['union', distinct([[x] for x in rng.sample(PRIMS, 2)])]

    def optional(self, t):
        if t[0] in ('union', 'none', 'any'):
            return t
        ts = [t, NONE] if self.rng.random() < 0.8 else [NONE, t]
        return ['union', ts]

    def make_opt(self, depth):
        return self.optional(self.type(depth - 1, ban=('union', 'opt', 'none', 'any')))

    def make_map(self, depth):
        kind = self.rng.choices(MAPS, [6, 2, 1, 1, 1.5])[0]
        key = ['str'] if self.rng.random() < 0.5 else self.hashable(min(depth - 1, 1))
        return [kind, key, self.type(depth - 1)]

    def make_tuple(self, depth):
        if self.rng.random() < 0.1:
            # more items than there are digits
            items = [self.type(0) for _ in range(3)]
            return ['tuple', [self.rng.choice(items) for _ in range(self.rng.choice([10, 11, 12]))]]
        return ['tuple', [self.type(depth - 1) for _ in range(self.rng.choice([0, 1, 2, 2, 3, 3, 4]))]]

    def make_union(self, depth):
        rng = self.rng
        if rng.random() < 0.35:
            ts = [[x] for x in rng.sample(PRIMS + ['none'], rng.randrange(2, 5))]
        else:
            ts = [self.type(depth - 1, ban=('union', 'opt', 'any', 'tvar_')) for _ in range(rng.randrange(2, 5))]
        if rng.random() < 0.01:
            # many alternatives
            ts = [['lit', [enc(f'v{i}' if rng.random() < 0.5 else i)]] for i in range(rng.choice([12, 40]))] + ts
        ts = distinct(ts)
        if len(ts) < 2:
            return ts[0]
        return ['union', ts]

    def make_tvar(self, depth):
        rng = self.rng
        if rng.random() < 0.5:
            return ['tvar', [self.type(depth - 1, ban=('any', 'none', 'ref'))]]
        ts = distinct([self.type(depth - 1, ban=('union', 'opt', 'any', 'tvar', 'ref', 'none'))
                       for _ in range(3)])
        return ['tvar', ts if len(ts) > 1 else [ts[0]]]

    def literal(self):
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            return enc(rng.choice(['a', 'b', '1', 'true', '', 'None', 'x.y', 'é', '0', 'auto', '1.0']))
        if r < 0.75:
            return enc(rng.choice([0, 1, 2, -1, 10]))
        if r < 0.9:
            return enc(rng.random() < 0.5)
        return ['N']

    def make_lit(self, depth):
        vals = []
        if self.rng.random() < 0.02:
            n = self.rng.choice([20, 70, 140])
            return ['lit', [enc(i if self.rng.random() < 0.7 else f'v{i}') for i in range(n)]]
        for _ in range(self.rng.choice([1, 2, 2, 3, 4])):
            v = self.literal()
            if v not in vals:
                vals.append(v)
        return ['lit', vals]

    def make_enum(self, depth):
        rng = self.rng
        if rng.random() < 0.03:
            # many members
            return ['enum', self.name('E'), [[list(f'M{i}'), enc(i if rng.random() < 0.5 else f'v{i}')]
                                             for i in range(rng.choice([20, 70, 140]))]]
        names = rng.sample(MEMBER_NAMES, rng.randrange(1, 4))
        values = []
        pool = [1, 2, 0, 'a', 'A', 'RED', 'x', True, 1.5, 'B', '2', None, 'green', 10]
        for nm in names:
            while True:
                v = rng.choice(pool)
                if all(v != w for w in values):
                    break
            values.append(v)
        return ['enum', self.name('E'), [[list(nm), enc(v)] for nm, v in zip(names, values)]]

    def default_for(self, t, mutable):
        """Code of a default value (not necessarily of the type), or None."""
        rng = self.rng
        if dated(t) or rng.random() < 0.15:
            return ['N']
        base = t[0]
        if base == 'set' and mutable or mutable and rng.random() < 0.08:
            return ['set', [enc(x) for x in rng.choice([[], [], [1], ['a']])]]
        if base in ('int', 'bool', 'float', 'str'):
            return enc({'int': rng.choice([0, 3, -1]), 'bool': rng.random() < 0.5,
                        'float': rng.choice([0.5, 2.0]), 'str': rng.choice(['', 'd', '5'])}[base])
        if base in ('list', 'mseq', 'seq') and mutable:
            return enc(rng.choice([[], [1], ['x', []]]))
        if base in ('dict', 'mmap', 'map') and mutable:
            return enc(rng.choice([{}, {'q': 1}]))
        if base in ('tuple', 'vtuple', 'seq'):
            return enc(())
        if base == 'lit':
            return t[1][0] if t[1][0] != ['M'] else ['N']
        return enc(rng.choice([None, 5, 'dflt']))

    def fields(self, kind, depth, cls):
        rng = self.rng
        names = rng.sample(FIELD_NAMES, rng.choice([0, 1, 1, 2, 2, 3, 4]))
        if rng.random() < 0.008:
            # many fields
            names = [f'f{i}' for i in range(rng.choice([20, 70, 140]))]
            depth = 0
        if kind == 'nt':
            names = [n for n in names if n not in ('self', 'cls', 'type_', 'é') and not n.startswith('_')]
        if kind in ('dc', 'fn'):
            names = [n for n in names if n not in ('self', 'cls') or kind == 'dc' and n == 'cls']
        if kind == 'td' and rng.random() < 0.25:
            names += rng.sample(ODD_KEYS, 1)
        out = []
        for n in names:
            f = {'n': list(n), 't': self.type(depth - 1), 'd': [], 'opt': False, 'k': 'pk', 'f': False, 'iv': False}
            if kind == 'td':
                f['opt'] = rng.random() < 0.4
            elif rng.random() < 0.4:
                f['f'] = kind == 'dc' and rng.random() < 0.5
                mutable = f['f'] or kind != 'dc'
                f['d'] = [self.default_for(f['t'], mutable)]
            if kind == 'dc':
                if rng.random() < 0.15:
                    f['k'] = 'ko'
                f['iv'] = rng.random() < 0.12 and not f['f'] and not self.no_initvars
            out.append(f)
        if kind == 'fn':
            r = rng.random()
            for f in out[:]:
                x = rng.random()
                f['k'] = 'po' if x < 0.15 else 'ko' if x > 0.8 else 'pk'
            out.sort(key=lambda f: ['po', 'pk', 'ko'].index(f['k']))
            free = [n for n in FIELD_NAMES if n not in names and n not in ('self', 'cls')]
            rng.shuffle(free)
            if r < 0.25:
                out.append({'n': list(free.pop()), 't': self.type(depth - 1), 'd': [], 'opt': False, 'k': 'va',
                            'f': False, 'iv': False})
            if 0.15 < r < 0.4:
                out.append({'n': list(free.pop()), 't': self.type(depth - 1), 'd': [], 'opt': False, 'k': 'vk',
                            'f': False, 'iv': False})
            out.sort(key=lambda f: ['po', 'pk', 'va', 'ko', 'vk'].index(f['k']))
        # python wants parameters with a default last
        positional = [f for f in out if f['k'] in ('po', 'pk')]
        if kind != 'td':
            seen = False
            for f in positional:
                if seen and not f['d']:
                    if kind == 'dc':
                        f['k'] = 'ko'
                    else:
                        f['d'] = [self.default_for(f['t'], kind != 'dc')]
                seen = seen or bool(f['d'])
        return out

    def struct(self, kind, depth):
        cls = self.name({'dc': 'D', 'nt': 'N', 'td': 'T', 'fn': 'F'}[kind])
        return ['struct', kind, cls, self.fields(kind, depth, cls)]

    def make_dc(self, depth):
        return self.struct('dc', depth)

    def make_nt(self, depth):
        return self.struct('nt', depth)

    def make_td(self, depth):
        return self.struct('td', depth)

    def make_fn(self, depth):
        return self.struct('fn', depth)

    def make_rf(self, depth):
        """A class that refuses some arguments by an exception of its own."""
        cls = self.name('Z')
        return ['struct', 'rf', cls, self.fields('fn', depth, cls)]

    def make_ann(self, depth):
        rng = self.rng
        t = self.type(depth - 1, ban=('ann',))
        pre = []
        post = []
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            pre.append(rng.choices([['etag', rng.randrange(9)], ['efirst', 0], ['edef', 0], ['emiss', 0], ['efail', 0],
                                    ['efailk', 0], ['efailat', 0]], [3, 4, 3, 1, 0.4, 0.3, 0.3])[0])
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            post.append(rng.choices([['tag', rng.randrange(9)], ['pos', 0], ['neg', 0], ['uns', 0], ['popd', 0],
                                     ['fail', 0], ['failo', 0], ['failat', 0], ['failmiss', 0]],
                                    [5, 1.5, 1, 1, 1.5, 0.4, 0.3, 0.3, 0.2])[0])
        for anns in (pre, post):
            if anns and rng.random() < 0.15:
                anns.insert(rng.randrange(len(anns) + 1), list(rng.choice(anns)))
        return ['ann', t, pre, post]

    def make_proto(self, depth):
        name = self.rng.choice(list(PROTOCOLS))
        return ['proto', PROTOCOLS[name], name]

    def make_space(self, depth):
        rng = self.rng

        def own(prefix):
            fs = []
            for n in rng.sample(FIELD_NAMES[:8], rng.randrange(3)):
                t = self.type(min(depth - 1, 1), ban=('space', 'ref', 'fn'))
                fs.append({'n': list(n), 't': t, 'd': [self.default_for(t, True)] if rng.random() < 0.4 else [],
                           'opt': False, 'k': 'ko', 'f': False, 'iv': False})
            return ['struct', 'fn', self.name(prefix), fs]
        names = rng.sample(['a', 'b', 'x', 'one', 'Two', 'k-3', 'x.y', 'q"t'], rng.choice([1, 1, 2, 3]))
        return ['space', own('P'), [[list(n), own('Q')] for n in names]]

    def make_ref(self, depth):
        return ['ref', self.rng.choice(self.env)[0]]

    # -- recursive types -------------------------------------------------------
    def recursive(self, depth, count=1):
        """`count` structures that refer to each other (always escapably)."""
        rng = self.rng
        kinds = [rng.choice(['dc', 'dc', 'nt', 'td']) for _ in range(count)]
        names = [self.name('R') for _ in kinds]
        saved = self.env
        self.env = [[n, None] for n in names]
        out = []
        for kind, n in zip(kinds, names):
            fs = self.fields_plain(kind, depth)
            r = rng.random()
            target = ['ref', rng.choice(names)]
            wrap = rng.choice(['direct', 'direct', 'opt', 'list', 'dict', 'vtuple', 'seq', 'optlist', 'union', 'dictlist', 'ann'])
            t = {'opt': ['union', [target, NONE]], 'list': ['list', target], 'dict': ['dict', ['str'], target],
                 'vtuple': ['vtuple', target], 'seq': ['seq', target],
                 'optlist': ['union', [['list', target], NONE]],
                 'union': ['union', [['int'], ['list', target], ['ref', rng.choice(names)], NONE]],
                 'dictlist': ['dict', ['str'], ['list', target]],
                 'ann': ['list', ['ann', target, [], [['tag', 3]]]],
                 'direct': target,
                 }[wrap]
            if t[0] == 'union' and len(t[1]) == 4:
                t = ['union', distinct(t[1])]
            made = kind == 'dc' and rng.random() < 0.4
            none = ['N'] if rng.random() < 0.7 else enc(rng.choice([[], {}, [1]] if made else [5, 'd', ()]))
            fs.append({'n': list('next'), 't': t, 'd': [none] if kind in ('dc', 'nt') else [],
                       'opt': kind == 'td', 'k': 'pk', 'f': made, 'iv': False})
            if r < 0.4:
                fs.append({'n': list('more'), 't': ['union', [['list', ['ref', rng.choice(names)]], NONE]],
                           'd': [['N']] if kind in ('dc', 'nt') else [],
                           'opt': kind == 'td', 'k': 'pk', 'f': False, 'iv': False})
            out.append(['struct', kind, n, fs])
        self.env = saved + [[n, t] for n, t in zip(names, out)]
        return out

    def fields_plain(self, kind, depth):
        rng = self.rng
        fs = []
        for n in rng.sample(['a', 'b', 'c', 'v'], rng.randrange(0, 3)):
            env, self.env = self.env, []
            t = self.type(min(depth, 1))
            self.env = env
            fs.append({'n': list(n), 't': t, 'd': [], 'opt': False, 'k': 'pk', 'f': False, 'iv': False})
        return fs


KIND = {**{p: 'prim' for p in PRIMS}, **{s: 'seq' for s in SEQS}, **{m: 'map' for m in MAPS}}


def closed(t):
    if isinstance(t, list):
        return not (len(t) == 2 and t[0] == 'ref') and all(closed(x) for x in t)
    if isinstance(t, dict):
        return closed(t['t'])
    return True


def mixed(t):
    """Has it typed dicts with both required and optional keys?"""
    if isinstance(t, list):
        if len(t) == 4 and t[0] == 'struct' and t[1] == 'td' and len({f['opt'] for f in t[3]}) > 1:
            return True
        return any(mixed(x) for x in t)
    if isinstance(t, dict):
        return mixed(t['t'])
    return False


DATES = ('dtm', 'day', 'clock')


def dated(t):
    """Are there dates in this type?"""
    return any(f"['{x}']" in repr(t) for x in DATES)


def vague(t, inside=False):
    """Is there a date where other texts may be tried as one?"""
    if isinstance(t, dict):
        return vague(t['t'])
    if not isinstance(t, list):
        return False
    if len(t) == 1 and t[0] in DATES:
        return inside
    if t[:1] in (['union'], ['tvar'], ['proto']):
        single = len([x for x in t[1] if x != NONE]) == 1
        return any(vague(x, inside or not single) for x in t[1])
    return any(vague(x, inside) for x in t)


def canon(t):
    """A key equal for types that python's typing may consider equal."""
    if t[0] in ('union',):
        return ('union', tuple(sorted(map(repr, map(canon, t[1])))))
    if t[0] == 'lit':
        return ('lit', tuple(sorted(map(repr, t[1]))))
    out = []
    for x in t:
        if isinstance(x, list) and x and isinstance(x[0], str) and x[0] not in ('struct', 'enum'):
            out.append(canon(x))
        elif isinstance(x, list):
            out.append(tuple(canon(y) if isinstance(y, list) and y and isinstance(y[0], str) else repr(y) for y in x))
        else:
            out.append(x)
    return tuple(out)


def distinct(ts):
    seen, out = set(), []
    for t in ts:
        k = repr(canon(t))
        if k not in seen:
            seen.add(k)
            out.append(t)
    return out


# -- python source -----------------------------------------------------------------
TYPING = {
    'list': ['List', 'list'], 'seq': ['Sequence', 'collections.abc.Sequence'],
    'mseq': ['MutableSequence', 'collections.abc.MutableSequence'], 'set': ['Set', 'set'],
    'deque': ['Deque', 'collections.deque'], 'dict': ['Dict', 'dict'],
    'map': ['Mapping', 'collections.abc.Mapping'],
    'mmap': ['MutableMapping', 'collections.abc.MutableMapping'],
    'odict': ['typing.OrderedDict', 'collections.OrderedDict'],
    'ddict': ['DefaultDict', 'collections.defaultdict'],
}
HEADER = '''
import collections
import collections.abc
import dataclasses
import datetime
import enum
import functools
import logging
import typing
import typing_extensions
from dataclasses import InitVar, dataclass, field
from typing import *
import marsh
import typelib
from typelib import *
_marsh_uuid = lambda name: f'{__name__}.{name}'
'''
PRE = {'etag': 'ETag({})', 'efirst': 'EFirst()', 'edef': 'EDef()', 'emiss': 'EMiss()', 'efail': 'EFail()',
       'efailk': 'EFailKey()', 'efailat': 'EFailAt()'}
POST = {'tag': 'Tag({})', 'failat': 'FailAt()', 'failmiss': 'FailMiss()', 'fail': 'Fail()', 'failo': 'FailOther()', 'pos': 'marsh.annotation.Positive()',
        'neg': 'marsh.annotation.Negative()', 'uns': 'marsh.annotation.Unsigned()',
        'popd': 'marsh.annotation.Populated()'}
#: annotations that may be given as a class as well
BY_CLASS = {'efailat', 'failat', 'failmiss', 'efirst', 'edef', 'emiss', 'efail', 'efailk', 'fail', 'failo', 'pos', 'neg', 'uns', 'popd'}


class Source:
    """Python source for descriptors.  `classes` maps class names to how their
    instances are coded."""

    def __init__(self, rng, future=None):
        self.rng = rng
        self.future = rng.random() < 0.25 if future is None else future
        self.defs = []
        self.done = set()
        self.ready = set()
        self.generic = {}
        self.inside = 0
        self.qualifier = ''
        self.env = {}
        self.classes = {}
        self.named = False
        self.n = 0

    def text(self):
        head = 'from __future__ import annotations\n' if self.future else ''
        return head + HEADER + '\n'.join(self.defs) + '\n'

    def fresh(self, prefix):
        self.n += 1
        return f'_{prefix}{self.n}'

    def value(self, code):
        return repr(codec.dec(code))

    def expr(self, t, quoted=False):
        """Expression of a type.  Inside definitions names are quoted unless
        annotations are not evaluated."""
        rng = self.rng
        tag = t[0]
        if tag in ('bool', 'int', 'float', 'str', 'bytes', 'complex', 'slice'):
            return tag
        if tag == 'none':
            return 'None'
        if tag in DATES:
            return {'dtm': 'datetime.datetime', 'day': 'datetime.date', 'clock': 'datetime.time'}[tag]
        if tag == 'log':
            return 'logging.Logger'
        if tag == 'any':
            return 'Any'
        if tag == 'sub':
            self.define(t)
            return t[2]
        if tag == 'enum':
            self.define(t)
            return t[1]
        if tag == 'struct':
            self.define(t)
            return t[2]
        if tag == 'ref':
            # names work where python or the code resolves them: in definitions
            if t[1] not in self.ready or (self.inside and rng.random() < 0.5):
                return repr(t[1])
            return t[1]
        if tag == 'proto':
            return t[2]
        if tag == 'space':
            self.define_space(t)
            return t[1][2]
        if tag == 'user':
            return self.user(t)
        if tag == 'vtuple':
            if t[1] == ANY and rng.random() < 0.5:
                return rng.choice(['tuple', 'Tuple'])
            return f"{rng.choice(['Tuple', 'tuple'])}[{self.expr(t[1])}, ...]"
        if tag in SEQS:
            if t[1] == ANY and rng.random() < 0.5:
                return rng.choice(TYPING[tag])
            return f'{rng.choice(TYPING[tag])}[{self.expr(t[1])}]'
        if tag in MAPS:
            if t[1] == ANY and t[2] == ANY and rng.random() < 0.6:
                return rng.choice(TYPING[tag])
            return f'{rng.choice(TYPING[tag])}[{self.expr(t[1])}, {self.expr(t[2])}]'
        if tag == 'tuple':
            return f"{rng.choice(['Tuple', 'tuple'])}[{', '.join(map(self.expr, t[1])) or '()'}]"
        if tag == 'union':
            ts = [self.expr(x) for x in t[1]]
            plain = all(x not in ('None',) and not x.startswith(("'", '"')) for x in ts)
            if len(ts) == 2 and ts[1] == 'None' and rng.random() < 0.6:
                return f'Optional[{ts[0]}]'
            if plain and rng.random() < 0.3 and not any(x[0] == 'struct' and x[1] == 'td' for x in t[1]):
                return f"Union[{', '.join(ts)}]" if any(x[0] in ('proto', 'tvar') for x in t[1]) \
                    else '(' + ' | '.join(ts) + ')'
            return f"Union[{', '.join(ts)}]"
        if tag == 'lit':
            vals = []
            for v in t[1]:
                vals.append(self.value(v))
            return f"Literal[{', '.join(vals)}]"
        if tag == 'tvar':
            name = self.fresh('V')
            ts = [self.expr(x) for x in t[1]]
            if len(ts) == 1:
                self.defs.append(f'{name} = TypeVar({name!r}, bound={ts[0]})')
            else:
                self.defs.append(f"{name} = TypeVar({name!r}, {', '.join(ts)})")
            return name
        if tag == 'ann':
            qualifier, self.qualifier = self.qualifier, ''
            inner = self.expr(t[1])
            if qualifier:
                inner = f'{qualifier}[{inner}]'
            metas = []
            pre = [self.meta(PRE, a) for a in t[2]]
            post = [self.meta(POST, a) for a in t[3]]
            # order matters within each of the two kinds only
            while pre or post:
                source = pre if pre and (not post or rng.random() < 0.5) else post
                metas.append(source.pop(0))
                if rng.random() < 0.1:
                    metas.append(rng.choice(["'text'", '5', 'NotAnAnnotation()', 'int']))
            if not metas:
                metas.append("'nothing'")
            if len(metas) > 1 and rng.random() < 0.2:
                return f"Annotated[Annotated[{inner}, {metas[0]}], {', '.join(metas[1:])}]"
            return f"Annotated[{inner}, {', '.join(metas)}]"
        raise ValueError(t)

    def user(self, t):
        """A class derived from a container: with the types of its items, generic, or with any items."""
        rng = self.rng
        inner, name = t[1], t[2]
        if name in self.done:
            return self.generic.get(name, name)
        args = [self.expr(x) for x in inner[1:]]
        self.done.add(name)
        self.classes[name] = 'is'
        bare = {'list': 'list', 'vtuple': 'tuple', 'set': 'set', 'deque': 'collections.deque', 'dict': 'dict',
                'odict': 'collections.OrderedDict'}
        base = TYPING[inner[0]][0] if inner[0] != 'vtuple' else 'Tuple'
        full = lambda xs: f"{base}[{', '.join(xs)}{', ...' if inner[0] == 'vtuple' else ''}]"
        other = {'list': 'collections.UserList, Sequence[{}]', 'dict': 'collections.UserDict, Mapping[{}]'}
        r = rng.random()
        if all(x == ANY for x in inner[1:]) and inner[0] in bare and r < 0.5:
            self.defs.append(f'class {name}({bare[inner[0]]}): pass')
        elif r < 0.3:
            names = [self.fresh('V') for _ in args]
            self.defs.extend(f'{v} = TypeVar({v!r})' for v in names)
            self.defs.append(f'class {name}({full(names)}): pass')
            self.generic[name] = f"{name}[{', '.join(args)}]"
        elif r < 0.5 and inner[0] in other:
            self.defs.append(f"class {name}({other[inner[0]].format(', '.join(args))}): pass")
        elif r < 0.6:
            self.defs.append(f'class {name}B({full(args)}): pass')
            self.defs.append(f'class {name}({name}B): pass')
        else:
            self.defs.append(f'class {name}({full(args)}): pass')
        self.ready.add(name)
        return self.generic.get(name, name)

    def meta(self, table, a):
        text = table[a[0]].format(a[1])
        if a[0] in BY_CLASS and self.rng.random() < 0.4:
            return text[:-2]
        if self.rng.random() < 0.15:
            return f'unhashable({text})'
        return text

    def annotation(self, t):
        """The expression of the type of a field."""
        e = self.expr(t)
        if not self.future and self.rng.random() < 0.12 and '\n' not in e:
            return repr(e)
        return e

    def define(self, t):
        name = t[2] if t[0] != 'enum' else t[1]
        if name in self.done:
            return
        self.done.add(name)
        if t[0] == 'sub':
            odd = ''.join(f"\n    def {m}(self): return 'odd'" for m in ('__str__', '__repr__', '__format__')
                          if self.rng.random() < 0.25).replace('__format__(self', '__format__(self, spec')
            self.defs.append(f'class {name}({t[1]}):{odd or " pass"}')
            self.classes[name] = 'is'
        elif t[0] == 'enum':
            rows = ''.join(f"\n    {''.join(n)} = {self.value(v)}" for n, v in t[2])
            self.defs.append(f'class {name}(enum.Enum):{rows}')
            self.classes[name] = 'e'
        else:
            self.inside += 1
            getattr(self, 'define_' + t[1])(name, t[3])
            self.inside -= 1
        self.ready.add(name)

    def define_space(self, t):
        """A class and its components in a namespace."""
        name = t[1][2]
        if name in self.done:
            return
        self.done.add(name)
        out = []
        for base, (_, _, cls, fields) in [('', t[1])] + [(f'({name})', c[1]) for c in t[2]]:
            ps = ', '.join(['self', *self.params(fields)])
            saved = ', '.join(f"({''.join(f['n'])!r}, {''.join(f['n'])})" for f in fields)
            out.append(f'class {cls}{base}:\n    def __init__({ps}):\n        self._call = Call({cls!r}, [{saved}])')
            self.classes[cls] = ['call']
        out.append(f"_s{name} = marsh.namespaces.new(_marsh_uuid({name!r}) + f'.{{len(marsh.namespaces)}}', {name})")
        out += [f"_s{name}.register({c[1][2]}, name={''.join(c[0])!r})" for c in t[2]]
        self.defs += out
        self.ready.add(name)

    def dflt(self, f):
        code = f['d'][0]
        if self.named and not f['f'] and code[0] in ('l', 'd', 'set'):
            # default objects that the driver can get hold of
            if 'live' not in f:
                f['live'] = self.fresh('k')
                self.defs.insert(0, f"{f['live']} = {self.value(code)}")
            return f['live']
        return self.value(code)

    def define_dc(self, name, fields):
        rows = []
        ivs = []
        for f in fields:
            n = ''.join(f['n'])
            a = self.annotation(f['t'])
            if f['iv']:
                ivs.append(n)
                if a.startswith(("'", '"')):
                    a = a[1:-1] if self.future else self.expr(f['t'])
                a = f'InitVar[{a}]'
            opts = []
            if f['d']:
                opts.append(f"default_factory=lambda: {self.dflt(f)}" if f['f'] else f'default={self.dflt(f)}')
            if f['k'] == 'ko':
                opts.append('kw_only=True')
            for extra in ('repr=False', 'compare=False', 'hash=False', "metadata={'m': 1}"):
                if self.rng.random() < 0.04:
                    opts.append(extra)
            if len(opts) == 1 and opts[0].startswith('default=') and self.rng.random() < 0.6:
                rows.append(f'    {n}: {a} = {opts[0][8:]}')
            elif opts:
                rows.append(f"    {n}: {a} = field({', '.join(opts)})")
            else:
                rows.append(f'    {n}: {a}')
        if self.rng.random() < 0.15:
            rows.append('    klass_var_: ClassVar[int] = 3')
        if self.rng.random() < 0.1:
            rows.append('    hidden_: int = field(init=False, default=4)')
        if ivs:
            rows.append(f"    def __post_init__(self, {', '.join(ivs)}):")
            rows.append(f"        object.__setattr__(self, '_iv', dict({', '.join(f'{i}={i}' for i in ivs)}))")
        deco = self.rng.choice(['@dataclass', '@dataclass', '@dataclass(frozen=True)', '@dataclass(eq=False)'])
        self.defs.append(f'{deco}\nclass {name}:\n' + ('\n'.join(rows) or '    pass'))
        self.classes[name] = ['o', [''.join(f['n']) for f in fields]]

    def define_nt(self, name, fields):
        rows = []
        for f in fields:
            row = f"    {''.join(f['n'])}: {self.annotation(f['t'])}"
            rows.append(row + (f' = {self.dflt(f)}' if f['d'] else ''))
        self.defs.append(f'class {name}(NamedTuple):\n' + ('\n'.join(rows) or '    pass'))
        self.classes[name] = ['nt', [''.join(f['n']) for f in fields]]

    def define_td(self, name, fields):
        names = [''.join(f['n']) for f in fields]
        opts = [f['opt'] for f in fields]
        total = not (opts and all(opts)) or (self.rng.random() < 0.4 and not self.future)
        if opts and not self.future and not all(opts) and self.rng.random() < 0.15:
            total = False

        def wrap(f):
            qualifier = ''
            if total and f['opt']:
                qualifier = 'NotRequired'
            elif not f['opt'] and (not total or not self.future and self.rng.random() < 0.05):
                qualifier = 'Required'
            if qualifier and f['t'][0] == 'ann' and self.rng.random() < 0.5:
                self.qualifier = qualifier      # within the annotations
                return self.expr(f['t'])
            e = self.expr(f['t'])
            return f'{qualifier}[{e}]' if qualifier else e
        td = self.rng.choice(['TypedDict'] * 3 + ['typing_extensions.TypedDict'])
        simple = all(n.isidentifier() and not keyword.iskeyword(n) for n in names)
        inherit = simple and len(fields) > 1 and self.rng.random() < 0.2 and total
        if simple and (self.rng.random() < 0.7 or inherit):
            rows = [f'    {n}: {wrap(f)}' for n, f in zip(names, fields)]
            suffix = '' if total else ', total=False'
            if inherit:
                base = f'_{name}Base'
                self.defs.append(f'class {base}({td}):\n{rows[0]}')
                self.defs.append(f'class {name}({base}):\n' + '\n'.join(rows[1:]))
            else:
                self.defs.append(f'class {name}({td}{suffix}):\n' + ('\n'.join(rows) or '    pass'))
        else:
            rows = ', '.join(f'{n!r}: {wrap(f)}' for n, f in zip(names, fields))
            self.defs.append(f"{name} = {td}({name!r}, {{{rows}}}{'' if total else ', total=False'})")

    def params(self, fields):
        out = []
        bare = False
        for i, f in enumerate(fields):
            n = ''.join(f['n'])
            if f['k'] == 'ko' and not bare and not any(g['k'] == 'va' for g in fields):
                out.append('*')
                bare = True
            star = {'va': '*', 'vk': '**'}.get(f['k'], '')
            a = self.annotation(f['t'])
            if f['t'] == ANY and self.rng.random() < 0.5:
                out.append(f'{star}{n}' + (f'={self.dflt(f)}' if f['d'] else ''))
            else:
                out.append(f'{star}{n}: {a}' + (f' = {self.dflt(f)}' if f['d'] else ''))
            if f['k'] == 'po' and not any(g['k'] == 'po' for g in fields[i + 1:]):
                out.append('/')
        return out

    def define_rf(self, name, fields):
        ps = self.params(fields)
        names = [''.join(f['n']) for f in fields]
        saved = ', '.join(f'({n!r}, {n})' for n in names)
        err = self.rng.choice(['ValueError', 'TypeError', 'KeyError', 'ZeroDivisionError', 'OSError'])
        self.defs.append(f"class {name}:\n    def __init__({', '.join(['self', *ps])}):\n"
                         f"        refuse_empty({err}, [{', '.join(names)}])\n        self._call = Call({name!r}, [{saved}])")
        self.classes[name] = ['call']

    def define_fn(self, name, fields):
        ps = self.params(fields)
        saved = ', '.join(f"({''.join(f['n'])!r}, {''.join(f['n'])})" for f in fields)
        nested = getattr(self, 'toplevel', None) != name
        how = self.rng.choice(['class', 'class', 'slots', 'new'] if nested else
                              ['class', 'def', 'def', 'instance', 'method', 'classmethod', 'static', 'partial', 'partialkw',
                               'new', 'meta', 'wrapped', 'slots', 'inherit'])
        defaulted = [f for f in fields if f['k'] == 'ko' and f['d']]
        if how == 'partialkw' and not defaulted:
            how = 'partial'
        sep = ', ' if ps else ''
        ps = ', '.join(ps)
        body = f'Call({name!r}, [{saved}])'
        d = self.defs.append
        if how in ('class', 'slots', 'inherit'):
            extra = "    __slots__ = ('_call',)\n" if how == 'slots' else ''
            own = '_B' + name if how == 'inherit' else name
            d(f'class {own}:\n{extra}    def __init__(self{sep}{ps}):\n        self._call = {body}')
            if how == 'inherit':
                d(f'class {name}({own}):\n    pass')
        elif how == 'def':
            d(f'def {name}({ps}):\n    return {body}')
        elif how == 'instance':
            d(f'class _{name}:\n    def __call__(self{sep}{ps}):\n        return {body}\n{name} = _{name}()')
        elif how == 'method':
            d(f'class _{name}:\n    def run(self{sep}{ps}):\n        return {body}\n{name} = _{name}().run')
        elif how == 'classmethod':
            d(f'class _{name}:\n    @classmethod\n    def run(cls{sep}{ps}):\n        return {body}\n{name} = _{name}.run')
        elif how == 'static':
            d(f'class _{name}:\n    @staticmethod\n    def run({ps}):\n        return {body}\n{name} = _{name}.run')
        elif how == 'partial':
            if self.rng.random() < 0.5 and not any(f['k'] == 'po' for f in fields):
                d(f'def _{name}(z_, /{sep}{ps}):\n    return {body}\n{name} = functools.partial(_{name}, 99)')
            else:
                d(f'def _{name}(z_: int{sep}{ps}):\n    return {body}\n{name} = functools.partial(_{name}, 99)')
        elif how == 'partialkw':
            f = defaulted[-1]
            n = ''.join(f['n'])
            plain = ', '.join(self.params([{**g, 'd': []} if g is f else g for g in fields]))
            d(f'def _{name}({plain}):\n    return {body}\n{name} = functools.partial(_{name}, {n}={self.dflt(f)})')
        elif how == 'new':
            d(f'class {name}:\n    def __new__(cls{sep}{ps}):\n        self = object.__new__(cls)\n'
              f'        self._call = {body}\n        return self')
        elif how == 'meta':
            d(f'class _M{name}(type):\n    def __call__(cls{sep}{ps}):\n        return {body}\n'
              f'class {name}(metaclass=_M{name}): pass')
        else:
            d(f'def _w{name}(f):\n    @functools.wraps(f)\n    def inner(*args_, **kwargs_):\n'
              f'        return f(*args_, **kwargs_)\n    return inner\n'
              f'@_w{name}\ndef {name}({ps}):\n    return {body}')
        self.classes[name] = ['call']


def build(rng, t, env=(), future=None, module='tm', extra=(), named=False):
    """Returns (python type, source text, encoder)."""
    import sys
    import types
    import typing
    if any(mixed(x) for x in (t, *(d for _, d in env), *extra)):
        future = False      # python itself ignores NotRequired in unevaluated annotations
    src = Source(rng, future)
    src.named = named
    if t[0] == 'struct':
        src.toplevel = t[2]
    order = list(env)
    rng.shuffle(order)
    for name, d in order:
        src.define(d)
    # other types the module defines before
    for x in extra:
        src.expr(x)
    main = src.expr(t)
    if t[0] == 'ref':
        main = t[1]
    src.defs.append(f'_main = {main}')
    for clear in typing._cleanups:
        clear()
    cut = 0
    if len(src.defs) > 1 and rng.random() < 0.25 and not named:
        # some of the types live in another module, and each knows the other one's names
        cut = rng.randrange(1, len(src.defs))
    defs, src.defs = src.defs, src.defs[:cut]
    first = src.text()
    src.defs = defs[cut:]
    text = src.text()
    mod = types.ModuleType(module)
    mod.__dict__['__file__'] = f'<{module}>'
    sys.modules[module] = mod
    if cut:
        part = types.ModuleType(module + '_part')
        sys.modules[module + '_part'] = part
        exec(compile(first, f'<{module}_part>', 'exec', dont_inherit=True), part.__dict__)
        mod.__dict__.update({k: v for k, v in part.__dict__.items() if k not in ('__name__', '__builtins__')})
        exec(compile(text, f'<{module}>', 'exec', dont_inherit=True), mod.__dict__)
        part.__dict__.update({k: v for k, v in mod.__dict__.items() if k not in part.__dict__})
        text = f'# {module}_part\n{first}\n# {module}\nfrom {module}_part import *\n{text}'
    else:
        exec(compile(text, f'<{module}>', 'exec', dont_inherit=True), mod.__dict__)
    return mod.__dict__['_main'], text, encoder(src.classes, mod)


def plain_container(v):
    """The same container of the class it was derived from."""
    import collections
    for base in (collections.OrderedDict, dict, list, tuple, set, collections.deque):
        if isinstance(v, collections.defaultdict):
            return collections.defaultdict(v.default_factory, v)
        if isinstance(v, base):
            return base(v)
    if isinstance(v, collections.UserList):
        return v.data
    if isinstance(v, collections.UserDict):
        return v.data
    return None


def encoder(classes, mod):
    import collections
    import datetime
    import logging
    import types
    import typelib

    def hook(v, encode):
        t = type(v)
        if t is codec.AbcMapping:
            return ['m', [[encode(k), encode(v[k])] for k in v]]
        if t is codec.AbcSequence:
            return ['q', [encode(x) for x in v]]
        if t is bytes:
            return ['by', list(v)]
        if t is complex:
            return ['cx', codec.enc_float(v.real), codec.enc_float(v.imag)]
        if t is datetime.datetime:
            return ['dt', list(v.isoformat())]
        if t is datetime.date:
            return ['day', list(v.isoformat())]
        if t is datetime.time:
            return ['tm', list(v.isoformat())]
        if isinstance(v, logging.Logger):
            return ['lg', list(v.name), encode(v.level)]
        if t is slice:
            return ['sl', encode(v.start), encode(v.stop), encode(v.step)]
        if t is set:
            # not-a-number differs from itself, the specification counts it once
            out = []
            for x in map(encode, v):
                if x not in out:
                    out.append(x)
            return ['set', out]
        if t is collections.deque:
            return ['dq', [encode(x) for x in v]]
        if t is types.MappingProxyType:
            return ['mp', [[encode(k), encode(x)] for k, x in v.items()]]
        if t is collections.OrderedDict:
            return ['od', [[encode(k), encode(x)] for k, x in v.items()]]
        if t is collections.defaultdict:
            kind, x = codec.guard(v.default_factory)
            return ['dd', [[encode(k), encode(x2)] for k, x2 in v.items()],
                    ['ok', encode(x)] if kind == 'ok' else ['err']]
        if t is typelib.Call:
            return ['o', v.name, [[list(n), encode(x)] for n, x in v.values]]
        name = t.__name__
        how = classes.get(name)
        if how is None or getattr(mod, name, None) is not t:
            return None
        if how == 'is':
            inner = plain_container(v)
            if inner is not None:
                return ['is', name, encode(inner)]
            base = [b for b in (int, float, str) if isinstance(v, b)][0]
            plain = str.__str__(v) if base is str else base(v)
            return ['is', name, encode(plain)]
        if how == 'e':
            return ['e', name, list(v.name)]
        if how[0] == 'call':
            return encode(v._call)
        names = how[1]
        iv = getattr(v, '_iv', {}) if not isinstance(v, tuple) else {}
        return [how[0], name, [[list(n), encode(iv[n] if n in iv else getattr(v, n))] for n in names]]
    return codec.Encoder(hook=hook)


def is_plain(e):
    """Is the element one that is marshaled to itself?"""
    if type(e) is dict:
        return all(type(k) is str and is_plain(x) for k, x in e.items())
    if type(e) is list:
        return all(map(is_plain, e))
    return e is None or type(e) in (bool, int, float, str)


def as_keywords(rng, e):
    """The element and values for its keys, which together are that element."""
    if e == marsh.MISSING and isinstance(e, str):
        return e, {}
    if not (isinstance(e, dict) or type(e) is codec.AbcMapping):
        return e, {}
    kw = {k: e[k] for k in e if type(k) is str and k not in ('type_', 'element', 'self') and is_plain(e[k]) and rng.random() < 0.6}
    rest = {k: e[k] for k in e if k not in kw or rng.random() < 0.2}
    if not rest and rng.random() < 0.5:
        return marsh.MISSING, kw
    return (codec.AbcMapping(rest) if type(e) is codec.AbcMapping else rest), kw


def clear(e):
    """Are all texts in this element surely dates or surely none?"""
    if isinstance(e, str):
        if not any(c.isalnum() for c in e):
            return True
        try:
            return abs(float(e)) < 253402300799 if len(e) < 20 else False
        except ValueError:
            pass
        import re
        return re.fullmatch(r'[1-9]\d{3}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{6})?([-+]\d\d:\d\d)?', e) is not None
    if isinstance(e, (list, tuple)) or type(e) is codec.AbcSequence:
        return all(map(clear, e))
    if isinstance(e, dict) or type(e) is codec.AbcMapping:
        return all(clear(e[k]) for k in e)
    return True


# -- elements -------------------------------------------------------------------------
INTS = [0, 1, -1, 2, 3, 7, 10, 42, -5, 1000]
FLOATS = [0.5, 1.0, -2.0, 0.0, 3.25, 1e10, -0.0, 10.0]
TEXTS = ['', 'a', 'b', 'x', 'hello', 'True', 'no', '1', '0', '-3', '1.5', '2.0', 'None', 'null', 'é', 'a.b', ' 5 ',
         '1_000', '+7', '1e3', 'on', 'YES', 'aGk=', 'YQ', '1,5', '1:2', '::', ' - 1 : :2', 'RED', 'A', '0x1', 'inf']
KEYS = ['a', 'b', 'c', 'x', 'k', '0', '1', '2', 'x.y', 'q"t', '', ' ', 'é', 'real', 'imag', 'start', 'stop', 'name', 'zz']


class Elements:

    def __init__(self, rng, env=(), mess=0.12, missing=0.03, dressed=0.15, big=True):
        self.rng = rng
        self.env = dict(env)
        self.mess = mess
        self.missing = missing
        self.dressed = dressed
        self.fuel = 60
        self.exact = False

    def __call__(self, t):
        self.fuel = 60
        # floats have no room for such numbers, the specification does not round
        self.exact = t[0] == 'int' or t[:2] == ['sub', 'int']
        return self.dress(self.of(t))

    def dress(self, v):
        rng = self.rng
        if isinstance(v, dict):
            items = {k: self.dress(x) for k, x in v.items()}
            return codec.AbcMapping(items) if rng.random() < self.dressed else items
        if isinstance(v, (list, tuple)):
            items = [self.dress(x) for x in v]
            r = rng.random()
            if r < self.dressed:
                return codec.AbcSequence(items)
            return tuple(items) if r < 0.4 else items
        return v

    def text(self):
        return self.rng.choice(TEXTS)

    def scalar(self):
        rng = self.rng
        r = rng.random()
        if r < 0.12:
            return None
        if r < 0.25:
            return rng.random() < 0.5
        if r < 0.45:
            return rng.choice(INTS)
        if r < 0.6:
            return rng.choice(FLOATS)
        return self.text()

    def anything(self, depth=2):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < 0.5:
            return self.scalar()
        n = rng.choice([0, 1, 1, 2, 3])
        if r < 0.75:
            return [self.anything(depth - 1) for _ in range(n)]
        return {self.key(): self.anything(depth - 1) for _ in range(n)}

    def key(self):
        rng = self.rng
        if rng.random() < 0.06:
            return rng.choice([None, 3, True, 1.5])
        return rng.choice(KEYS)

    def of(self, t):
        rng = self.rng
        self.fuel -= 1
        r = rng.random()
        if r < self.missing:
            return '???'
        if r < self.missing + self.mess or self.fuel < 0:
            return self.anything() if self.fuel > 0 else rng.choice([None, {}, [], 1])
        return getattr(self, 'of_' + KIND.get(t[0], t[0]), self.of_other)(t)

    def of_other(self, t):
        return self.scalar()

    def number(self):
        """A number as text, or nearly one, of digits few enough for no rounding."""
        rng = self.rng
        digits = lambda n: ''.join(rng.choice('0123456789') for _ in range(n))
        text = rng.choice(['', '', '', '-', '+', ' ', '\t-']) + digits(rng.choice([0, 1, 1, 2, 3, 5]))
        if rng.random() < 0.5:
            text += '.' + rng.choice([digits(rng.choice([0, 1, 2, 4])), '0', '00'])
        if rng.random() < 0.35:
            text += rng.choice('eE') + rng.choice(['', '+', '-']) + rng.choice(['0', '1', '2', '3', '05', '10', ''])
        if rng.random() < 0.25:
            i = rng.randrange(len(text) + 1)
            # integers with an exponent are read by way of floats: only where those are exact
            text = text[:i] + rng.choice(['_', '_', ' ', '.', '-', 'e', 'x', ',', "'"] + ([] if 'e' in text.lower()[:i] else ['0'])) + text[i:]
            try:
                if float(text).is_integer() and decimal.Decimal(text.strip()) != int(float(text)):
                    text = 'e'
            except ValueError:
                pass
        return text + rng.choice(['', '', '', '', ' ', '\n'])

    def near(self):
        """A float close to an integer, and seldom one."""
        rng = self.rng
        n = rng.choice([0, 1, 2, -1, -5, 99, 4096, 10**6])
        return n + rng.choice([1, -1]) * rng.choice([0.5, 0.25, 1e-3, 1e-6, 1e-8, 0.0, 1e-9])

    def of_prim(self, t):
        rng = self.rng
        r = rng.random()
        base = t[0]
        if base == 'sub':
            base = t[1]
        if base == 'bool':
            if r < 0.2:
                word = rng.choice(['true', 'YES', 'on', 'False', 'nO', 'OFF', 'y', 'N', '1', '0'])
                i = rng.randrange(len(word) + 1)
                return rng.choice([word[:i], word[i:], word + ' ', ' ' + word, word[:i] + word[i:].swapcase(), word + word[-1],
                                   self.near(), self.number(), '00', '1.0', '01', 1e-9, -1])
            return rng.choice([True, False, 1, 0, 'true', 'No', 'YES', 'off', '1', 'n', 1.0, 'on', 'False', 'y', '0.0',
                               -0.0, 2, 'tru'])
        if base == 'int':
            if r < 0.3:
                return rng.choice(INTS)
            if r < 0.34:
                return self.number()
            if r < 0.4:
                return rng.choice([self.near(), str(self.near())])
            if r < 0.55:
                n = rng.choice([10**18, -10**20, 123456789012] + ([2**53 + 1, -(10**30) - 7] if self.exact else []))
                return n if rng.random() < 0.5 else str(n)
            return rng.choice([str(rng.choice(INTS)), ' 12 ', '+4', '1_0', '5.0', 5.0, '1e2', True, '-0', '007', '5.5', 2.5,
                               '-7', '1__0', '', '0x10', '12abc', '--1', '1e-2', '10e-1', float('inf'), 'nan', '- 1'])
        if base == 'float':
            if r < 0.15:
                return self.number()
            if r < 0.2:
                return rng.choice([self.near(), str(self.near())])
            return rng.choice([rng.choice(FLOATS), rng.choice(INTS), '1.5', '.5', '2.', '1e-7', '-inf', 'Infinity', 'nan',
                               ' 3.0 ', '1_0.5', 'abc', '1e400', '1e5', True, '-0', '0.1', 'e5', '+1.25', '1.5.2', '12345.678',
                               1e16, 1e-5, 123456789.125, '1E+3'])
        return self.scalar() if r < 0.3 else self.text()

    of_sub = of_prim

    def of_space(self, t):
        rng = self.rng
        name, own = rng.choice([('', t[1])] + t[2] * 2)
        e = self.of(own)
        if rng.random() < 0.05:
            name = rng.choice(['zz', '', '???', 'A', 1, None, [], 'x.y'])
        if isinstance(e, dict) and (name or rng.random() < 0.05):
            pairs = list(e.items())
            pairs.insert(rng.randrange(len(pairs) + 1), ('name', name if isinstance(name, (type(None), int)) else ''.join(name)))
            e = dict(pairs)
        return e

    def of_none(self, t):
        return None if self.rng.random() < 0.7 else self.scalar()

    def of_any(self, t):
        return self.anything()

    def moment(self):
        import datetime
        rng = self.rng
        tz = rng.choice([None, None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(
            hours=rng.randrange(-11, 12), minutes=rng.choice([0, 30])))])
        day = datetime.date(rng.choice([1970, 2000, 2024, rng.randrange(1000, 9999)]), rng.choice([1, 2, 12, rng.randrange(1, 13)]), 1)
        day += datetime.timedelta(days=rng.randrange(31))
        return datetime.datetime(day.year, day.month, day.day, rng.randrange(24),
                                 rng.randrange(60), rng.randrange(60), rng.choice([0, 0, 0, 123456, 120000, 1]), tz)

    def of_dtm(self, t):
        """Dates by numbers, by parts and by the texts that are surely dates or surely none."""
        rng = self.rng
        r = rng.random()
        if r < 0.25:
            return self.moment().isoformat()
        if r < 0.3:
            return rng.choice(['', '::', ' ', '-', '!?', True, None, False, '- - -'])
        if r < 0.5:
            n = rng.choice([0, 1, -1, 86399, 86400, -86400, 951782400, 1709164800, rng.randrange(-62135596800, 253402300800),
                            rng.randrange(10 ** 9), -rng.randrange(10 ** 9), 253402300799, -62135596800])
            n = rng.choice([n, n, n + rng.choice([0.5, 0.25, 0.125])])
            if rng.random() < 0.1:
                return rng.choice([253402300800, -62135596801, 10 ** 12, float('inf'), float('nan'), 1e30, -1e300])
            return str(n) if rng.random() < 0.3 else n
        names = {'day': 3, 'clock': 3}.get(t[0], 6)
        full = [rng.choice([1, 1970, 2000, 2023, 2024, 9999, 1900, 2100]), rng.choice([1, 2, 2, 4, 12, 7]),
                rng.choice([1, 28, 29, 30, 31]), rng.choice([0, 23, 12]), rng.choice([0, 59, 5]), rng.choice([0, 59, 30]),
                rng.choice([0, 1, 999999, 500000]), None]
        if rng.random() < 0.15:
            full[rng.randrange(7)] = rng.choice([0, -1, 13, 24, 32, 60, 10000, 10 ** 6, 10 ** 30, 1.0, '1', None, True, '???'])
        keys = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']
        if t[0] == 'day':
            full, keys = full[:3], keys[:3]
        elif t[0] == 'clock':
            full, keys = full[3:], keys[3:]
        n = rng.choice([len(full), 3, names, rng.randrange(len(full) + 1)])
        if rng.random() < 0.5:
            out = full[:n]
            if rng.random() < 0.05:
                out = full + [rng.choice([0, None])]
            return out
        out = dict(zip(keys[:n], full))
        if rng.random() < 0.15:
            out[rng.choice(['fold', 'fold', 'hour', 'tzinfo', 'x', 'days'])] = rng.choice([0, 1, 2, None])
        if rng.random() < 0.1 and out:
            out.pop(rng.choice(list(out)))
        if rng.random() < 0.3:
            items = list(out.items())
            rng.shuffle(items)
            out = dict(items)
        return out

    of_day = of_clock = of_dtm

    def of_log(self, t):
        rng = self.rng
        name = lambda: rng.choice(['', 'root', 'vv', 'vv.w', 'vv.w.x', 5, True, 'é', 'x', None, '???', 1.5])
        level = lambda: rng.choice(['DEBUG', 'INFO', 'WARN', 'FATAL', 'CRITICAL', 'NOTSET', 'debug', 'x', '', 10, 0, 35, -5, '20',
                                    '5.0', 10.0, True, 1.5, None, '???', [], 'ERROR', 'WARNING', 10 ** 12])
        r = rng.random()
        if r < 0.3:
            return name()
        out = {}
        if rng.random() < 0.8:
            out['name'] = name()
        if rng.random() < 0.7:
            out['level'] = level()
        if rng.random() < 0.1:
            out[rng.choice(['x', 'Name', 0])] = 1
        if rng.random() < 0.05:
            return list(out.values())
        return out

    def of_bytes(self, t):
        rng = self.rng
        if rng.random() < 0.15:
            return rng.choice([5, 1234, True, 1.5, 'abcd', 'ab', 'a', 'abc=', 'a=b=', '====', 'ab-_', 'ab+/', 'a b c d', '!!'])
        import base64
        raw = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 7)))
        text = rng.choice([base64.urlsafe_b64encode, base64.b64encode])(raw).decode()
        return text.rstrip('=') if rng.random() < 0.4 else text

    def of_complex(self, t):
        rng = self.rng
        f = lambda: self.of_prim(['float'])
        return rng.choice([f(), [], [f()], [f(), f()], {'real': f()}, {'imag': f()}, {'real': f(), 'imag': f()}, {},
                           {'0': f()}, {'0': f(), '1': f()}, [f(), f(), f()], {'x': 1}, '1+2j'])

    def of_slice(self, t):
        rng = self.rng
        i = lambda: rng.choice([None, 1, 0, -2, '3', '', 5, 2.0, 'x'])
        j = lambda: rng.choice(['', '1', '-2', ' 3', '- 4 ', '10', '', 'x', '007'])
        return rng.choice([f'{j()}:{j()}', f'{j()}:{j()}:{j()}', [i()], [i(), i()], [i(), i(), i()], [], {},
                           {'start': i()}, {'stop': i(), 'step': i()}, {'start': i(), 'stop': i(), 'step': i()}, '5', 5, ':', '::',
                           [1, 2, 3, 4], {'x': 1}, '1:2:3:4', None])

    def of_seq(self, t):
        n = self.rng.choice([0, 1, 1, 2, 2, 3, 4])
        out = [self.of(t[1]) for _ in range(n)]
        r = self.rng.random()
        if r < 0.05 and out and self.fuel > 0:
            # long, and of few values
            return [self.rng.choice(out) for _ in range(self.rng.randrange(5, 40) if self.rng.random() < 0.95
                                                        else self.rng.randrange(70, 300))]
        if r < 0.12 and t[1][0] not in ('list', 'dict', 'struct'):
            # equal in python and yet different
            return self.rng.sample([1, True, 1.0, '1', 0, False, -0.0, 0.0, '0'], self.rng.randrange(2, 5))
        return out

    def of_map(self, t):
        rng = self.rng
        out = {}
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            k = rng.choice(KEYS) if t[1] == ['str'] and rng.random() < 0.8 else self.of(t[1])
            if isinstance(k, (list, dict, tuple)):
                k = self.key()
            if k == '???' and rng.random() < 0.7:
                continue
            out[k] = self.of(t[2])
        if rng.random() < 0.05 and out and self.fuel > 0:
            vs = list(out.values())
            for i in range(rng.randrange(5, 30) if rng.random() < 0.95 else rng.randrange(70, 300)):
                out[rng.choice([f'k{i}', str(i), str(-i)])] = rng.choice(vs)
        return out

    def of_user(self, t):
        return self.of(t[1])

    def of_tuple(self, t):
        rng = self.rng
        if rng.random() < (0.12 if len(t[1]) < 10 else 0.5):
            out = [(str(i), self.of(x)) for i, x in enumerate(t[1])]
            if rng.random() < 0.5:
                rng.shuffle(out)
            if rng.random() < 0.1:
                out.append((rng.choice([str(len(t[1])), '-1', '00', '']), self.scalar()))
            elif out and rng.random() < 0.1:
                out.pop()
            return dict(out)
        out = [self.of(x) for x in t[1]]
        r = rng.random()
        if r < 0.08:
            out.append(self.scalar())
        elif r < 0.16 and out:
            out.pop()
        return out

    def of_union(self, t):
        return self.of(self.rng.choice(t[1]))

    of_tvar = of_union
    of_proto = of_union

    def of_lit(self, t):
        rng = self.rng
        v = codec.dec(rng.choice(t[1]))
        r = rng.random()
        if r < 0.65 or v is None:
            return v
        if r < 0.85:
            return str(v)
        return self.scalar()

    def of_enum(self, t):
        rng = self.rng
        n, v = rng.choice(t[2])
        r = rng.random()
        if r < 0.45:
            return ''.join(n)
        v = codec.dec(v)
        if r < 0.8:
            return v
        return str(v)

    def of_ann(self, t):
        rng = self.rng
        e = self.of(t[1])
        if t[2] and rng.random() < 0.5:
            for a in reversed(t[2]):
                if a[0] == 'efirst':
                    e = [e, 1]
        return e

    def of_ref(self, t):
        return self.of(self.env[t[1]])

    def of_struct(self, t):
        rng = self.rng
        fields = t[3]
        if rng.random() < 0.25:
            fs = [f for f in fields if f['k'] in ('po', 'pk')]
            if rng.random() < 0.4 and fs:
                fs = fs[:rng.randrange(len(fs) + 1)]
            out = [self.of(f['t']) for f in fs]
            va = [f for f in fields if f['k'] == 'va']
            if va:
                out += [self.of(va[0]['t']) for _ in range(rng.randrange(3))]
            if rng.random() < 0.05:
                out.append(self.scalar())
            return out
        out = {}
        fs = list(fields)
        if rng.random() < 0.3:
            rng.shuffle(fs)
        for f in fs:
            n = ''.join(f['n'])
            if f['k'] == 'va':
                continue
            if f['k'] == 'vk':
                for _ in range(rng.randrange(3)):
                    out[self.key()] = self.of(f['t'])
                continue
            skip = 0.45 if (f['d'] or f['opt']) else 0.08
            if rng.random() < skip:
                continue
            out[n] = self.of(f['t'])
        if rng.random() < 0.07:
            out[self.key()] = self.scalar()
        return out


# -- values ---------------------------------------------------------------------------
class Values:
    """Builds values of types with the classes of a built module."""

    def __init__(self, rng, mod, env=(), odd=0.05):
        self.rng = rng
        self.mod = mod
        self.env = dict(env)
        self.odd = odd
        self.fuel = 50

    def __call__(self, t):
        self.fuel = 50
        return self.of(t)

    def of(self, t):
        self.fuel -= 1
        return getattr(self, 'of_' + KIND.get(t[0], t[0]))(t)

    def of_prim(self, t):
        rng = self.rng
        base = t[1] if t[0] == 'sub' else t[0]
        if base == 'bool':
            return rng.random() < 0.5
        if base == 'int':
            return rng.choice(INTS + [10**12, -(2**40)])
        if base == 'float':
            return rng.choice(FLOATS + [1e-7, 123456.789, 1e16, 0.1, 1e22, -5e-324, float('inf'), float('-inf'), NAN,
                                        float(2**53), 1e22])
        return rng.choice(TEXTS + KEYS + ['1e5', '0b1', '~', 'null', '[', '{a: 1}', "it's", 'a: b', '- x', '#c', '!t', '&a', '*a',
                                          'yes', '2020-01-01', '1:30', '0o7', '=', '<<', '%', '@x', '`', '|', '>', '\\', 'tab\t',
                                          'new\nline', ' lead', 'trail ', '"', "\'", '日本', '😀', '?', '? x', '.5', '1_0', 'NaN',
                                          '.nan', '.inf', '\x85', '\u2028', '\ufeffx', '\x7f'])

    def of_sub(self, t):
        return getattr(self.mod, t[2])(self.of_prim(t))

    def of_user(self, t):
        import collections
        v = self.of(t[1])
        cls = getattr(self.mod, t[2])
        return cls(v.default_factory, v) if t[1][0] == 'ddict' else cls(v)

    def of_none(self, t):
        return None

    def of_any(self, t):
        rng = self.rng
        if rng.random() < 0.6 or self.fuel < 0:
            return self.of_prim([rng.choice(PRIMS)]) if rng.random() < 0.85 else None
        n = rng.randrange(3)
        kids = [self.of(t) for _ in range(n)]
        self.fuel -= n
        if rng.random() < 0.5:
            return tuple(kids) if rng.random() < 0.8 else kids
        return {rng.choice(KEYS): x for x in kids}

    def of_bytes(self, t):
        return bytes(self.rng.randrange(256) for _ in range(self.rng.randrange(8)))

    def of_complex(self, t):
        f = lambda: self.rng.choice([0.0, 1.0, -2.5, 1e10, 0.1, 3.0, float('inf'), 1e-13, -1e-300, 5e-324, 1e15, 0.0])
        return complex(f(), f())

    def of_log(self, t):
        import logging
        out = logging.getLogger(self.rng.choice(['', 'vv', 'vv.w', 'a b', 'é']))
        out.setLevel(self.rng.choice([0, 10, 20, 30, 40, 50, 15, -3, 1000]))
        return out

    def of_slice(self, t):
        i = lambda: self.rng.choice([None, None, 0, 1, -3, 10])
        return slice(i(), i(), i())

    def of_dtm(self, t):
        import datetime
        rng = self.rng
        tz = rng.choice([None, None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(
            hours=rng.randrange(-11, 12), minutes=rng.choice([0, 30])))])
        return datetime.datetime(rng.randrange(1000, 9999), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24),
                                 rng.randrange(60), rng.randrange(60), rng.choice([0, 0, 123456, 120000, 1]), tz)

    def of_seq(self, t):
        import collections
        n = self.rng.choice([0, 1, 1, 2, 2, 3]) if self.fuel > 0 else 0
        xs = [self.of(t[1]) for _ in range(n)]
        kind = t[0]
        if kind == 'set':
            out = set()
            for x in xs:
                try:
                    out.add(x)
                except TypeError:
                    pass
            return out
        if kind == 'deque':
            return collections.deque(xs)
        if kind == 'seq':
            return tuple(xs) if self.rng.random() > self.odd else xs
        return tuple(xs) if kind == 'vtuple' else xs

    def of_map(self, t):
        import collections
        import types
        out = {}
        for _ in range(self.rng.choice([0, 1, 1, 2, 2, 3]) if self.fuel > 0 else 0):
            try:
                k = self.of(t[1])
                # keys are text in an element
                if not isinstance(k, (tuple, complex, slice)) and not hasattr(k, '__dataclass_fields__'):
                    out[k] = self.of(t[2])
            except TypeError:
                pass
        kind = t[0]
        if kind == 'map':
            return types.MappingProxyType(out)
        if kind == 'odict':
            return collections.OrderedDict(out)
        if kind == 'ddict':
            return collections.defaultdict(lambda: None, out)
        return out

    def of_tuple(self, t):
        return tuple(self.of(x) for x in t[1])

    def of_union(self, t):
        ts = t[1]
        if self.fuel < 0 and NONE in ts:
            return None
        return self.of(self.rng.choice(ts))

    of_tvar = of_union
    of_proto = of_union

    def of_lit(self, t):
        return codec.dec(self.rng.choice(t[1]))

    def of_enum(self, t):
        return getattr(self.mod, t[1])[''.join(self.rng.choice(t[2])[0])]

    def of_ann(self, t):
        return self.of(t[1])

    def of_ref(self, t):
        return self.of(self.env[t[1]])

    def of_struct(self, t):
        kind, name, fields = t[1:]
        kwargs = {}
        for f in fields:
            n = ''.join(f['n'])
            if self.fuel < 0 and (f['d'] or f['opt']):
                if f['d'] and kind != 'td':
                    continue
                if f['opt']:
                    continue
            if kind == 'td' and f['opt'] and self.rng.random() < 0.4:
                continue
            if f['d'] and self.rng.random() < 0.15:
                continue
            kwargs[n] = self.of(f['t'])
        if kind == 'td':
            return kwargs
        return getattr(self.mod, name)(**kwargs)
