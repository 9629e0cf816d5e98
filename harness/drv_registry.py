"""Runs histories of priority orders and of schema registries."""
import dataclasses
import random
import typing

import codec
import drv_history
import marsh

NAMES = 'abcdef'


# -- orders -----------------------------------------------------------------
def given(rng, vs):
    """One of the forms relative priorities can be given in."""
    if not vs:
        return rng.choice([None, [], (), set()])
    if len(vs) == 1 and rng.random() < 0.6:
        return vs[0]
    kind = rng.choice([list, tuple, set, frozenset, iter])
    return kind(vs)


def guard(fn):
    try:
        return fn()
    except ValueError:
        return ['ValueError']


def names(rng, order):
    n = len(order)
    way = rng.randrange(5)
    if way == 0:
        out = list(order)
    elif way == 1:
        out = [order[i] for i in range(n)]
    elif way == 2:
        out = [order[i - n] for i in range(n)]
    elif way == 3:
        out = list(reversed(order))[::-1]
    else:
        out = list(order[:])
    if len(out) != n or any(order.count(v) != 1 or v not in order for v in out):
        return ['inconsistent', out]
    return out


def call(rng, order, o):
    if o['op'] == 'add':
        kw = dict(lower_priority=given(rng, o['lo']), higher_priority=given(rng, o['hi']))
        if o['p'] or rng.random() < 0.5:
            kw['priority'] = o['p']
        if o['replace'] or rng.random() < 0.3:
            kw['replace'] = o['replace']

        def add():
            got = order.add(**kw)(o['v']) if rng.random() < 0.3 else order.add(o['v'], **kw)
            return ['ok'] if got == o['v'] else ['returned', got]
        return guard(add)
    n = len(order)
    if o['op'] == 'del':
        if o['from'] == o['to'] and rng.random() < 0.7:
            i = o['from'] - 1
            del order[i if rng.random() < 0.5 else i - n]
        else:
            del order[o['from'] - 1:o['to']]
        return ['ok']
    if o['op'] == 'list':
        return ['names', names(rng, order)]
    if o['op'] == 'slice':
        part = order[o['from'] - 1:o['to']]
        return ['names', names(rng, part)]
    return guard(lambda: ['n', order.index(o['v']) + 1])


def orders(job, emit):
    for n, case in enumerate(job['cases']):
        rng = random.Random(n)
        order = marsh.utils.PriorityOrder()
        for i, o in enumerate(case['ops']):
            got = [call(rng, order, o), names(rng, order)]
            if got != case['seen'][i]:
                emit({'ops': case['ops'][:i + 1], 'want': case['seen'][i], 'got': got})
                break
    emit({'done': len(job['cases'])})


def subset(rng, values, v):
    k = rng.choice([0, 0, 0, 1, 1, 2])
    vs = [x for x in rng.sample(values, min(k, len(values))) if x != v or rng.random() < 0.05]
    return vs


def random_order(rng):
    values = list(NAMES[:rng.randrange(2, 7)])
    numbers = rng.choice([[0], [0, 1], [-1, 0, 1, 2], [-10, 0, 5]])
    order = marsh.utils.PriorityOrder()
    ops = []
    relations = rng.choice([0, 0.4, 1, 1])
    # mostly along one direction, so that relations are not circular
    line = values[:]
    rng.shuffle(line)
    for _ in range(rng.randrange(3, 22)):
        r = rng.random()
        n = len(order)
        if r < 0.5 or not n:
            v = rng.choice(values)
            lo, hi = [], []
            if rng.random() < relations:
                lo, hi = subset(rng, values, v), subset(rng, values, v)
                if rng.random() < 0.9:
                    at = line.index(v)
                    lo = [x for x in lo if line.index(x) > at]
                    hi = [x for x in hi if line.index(x) < at]
            o = {'op': 'add', 'v': v, 'p': rng.choice(numbers), 'lo': lo, 'hi': hi,
                 'replace': rng.random() < 0.4}
        elif r < 0.6:
            i, j = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
            o = {'op': 'del', 'from': i, 'to': max(i, j) if rng.random() < 0.3 else i}
        elif r < 0.85:
            o = {'op': 'list'}
        elif r < 0.93:
            i = rng.randrange(1, n + 1)
            o = {'op': 'slice', 'from': i, 'to': rng.randrange(i, n + 1)}
        else:
            o = {'op': 'index', 'v': rng.choice(values)}
        o['out'] = call(rng, order, o)
        ops.append(o)
    o = {'op': 'list'}
    o['out'] = call(rng, order, o)
    return {'start': [], 'ops': ops + [o]}


# -- registries -------------------------------------------------------------
class Token:
    """Not a type: nothing that comes with the package fits it."""

    def __init__(self, name):
        self.name = name


class T1:
    pass


class T2:

    def __init__(self, x=1, *args, **kwargs):
        pass


@dataclasses.dataclass
class D1:
    pass


@dataclasses.dataclass(eq=False)
class D2:
    pass


def holder(t):
    """A class that can only be used if what it holds can be."""
    def __init__(self, x: t = None):
        self.x = x
    return type('H', (), {'__init__': __init__})


@dataclasses.dataclass
class DH:
    x: object


class World:
    """Fresh schema classes that can be registered, and types made of tokens."""

    def __init__(self, rng, infos, kind):
        self.rng = rng
        self.kind = kind
        if kind == 'unmarshal':
            t0 = Token('t0')
            self.toks = {'t0': t0, 't1': T1, 't2': T2, 'h0': holder(t0)}
            base, wrapper = marsh.schema.UnmarshalSchema, marsh.schema.core.unmarshal.WrapperUnmarshalSchema
            builtin = base.registry.match(T1)[0]
        else:
            t0 = Token('t0')
            self.toks = {'t0': t0, 't1': D1(), 't2': D2(), 'h0': DH(t0)}
            base, wrapper = marsh.schema.MarshalSchema, marsh.schema.core.marshal.WrapperMarshalSchema
            builtin = base.registry.match(D1())[0]
        self.schemas = {'builtin': builtin}
        for v, info in infos.items():
            self.schemas[v] = self.make(v, info, wrapper if info['wrap'] else base)
        self.types = {}

    def make(self, v, info, base):
        fits = {id(self.toks[t]) for t in info['fits']}
        fail = self.rng.random() < 0.5
        known = {id(x) for x in self.toks.values()}

        def match(cls, value):
            if id(value) in fits:
                return True
            if id(value) in known and fail:
                raise TypeError('not supported')
            return False

        def unmarshal(self, element):
            return [v, self.schema.unmarshal(element)] if info['wrap'] else [v]

        def marshal(self):
            return [v, self.schema.marshal()] if info['wrap'] else [v]
        return type('S' + v, (base,), {'match': classmethod(match), 'unmarshal': unmarshal, 'marshal': marshal})

    def register(self, o):
        """An order is kept of classes: relations name the classes."""
        rng = self.rng
        cls = self.schemas[o['v']]
        rel = {k: given(rng, [self.schemas[v] for v in o[x]])
               for k, x in (('lower_priority', 'lo'), ('higher_priority', 'hi'))}
        kw = dict(rel)
        if o['p'] or rng.random() < 0.5:
            kw['priority'] = o['p']
        if o['replace'] or rng.random() < 0.5:
            kw['replace'] = o['replace']
        way = rng.randrange(4)

        def add():
            if way == 0:
                got = marsh.schema.register(**kw)(cls)
            elif way == 1:
                got = type(cls).registry.register(cls, **kw) if self.kind == 'unmarshal' \
                    else cls.registry.register(cls, **kw)
            else:
                got = marsh.schema.register(cls, **kw)
            return ['ok'] if got is cls else ['returned', repr(got)]
        return guard(add)

    def chain(self, value):
        if isinstance(value, list):
            out = []
            for x in value:
                out += [x] if isinstance(x, str) else self.chain(x)
            return out
        return ['builtin']

    def use(self, o):
        key = (o['how'], *o['toks'])
        rng = self.rng
        ts = [self.toks[t] for t in o['toks']]
        if self.kind == 'unmarshal':
            if key not in self.types or rng.random() < 0.2:
                drv_history.fresh_typing()
                self.types[key] = self.type(o['how'], ts)
            ty, e, pick = self.types[key]
            value = marsh.unmarshal(ty, e)
        else:
            value, pick = self.value(o['how'], ts)
            value = marsh.marshal(value)
        return ['ok', [self.chain(v) for v in pick(value)]]

    @staticmethod
    def type(how, ts):
        t = ts[0]
        one = {}
        names = [f'f{i}' for i in range(len(ts))]
        if how == 'plain':
            return t, one, lambda v: [v]
        if how == 'list':
            return typing.List[t], [one], lambda v: v
        if how == 'dict':
            return typing.Dict[str, t], {'k': one}, lambda v: [v['k']]
        if how == 'nested':
            return typing.Dict[str, typing.List[typing.Optional[t]]], {'k': [one]}, lambda v: v['k']
        if how == 'tuple':
            return typing.Tuple[tuple(ts)], [one] * len(ts), list
        if how == 'union':
            return typing.Union[tuple(ts + [int])], one, lambda v: [v]
        if how == 'ann':
            return typing.Annotated[t, 'x'], one, lambda v: [v]
        if how == 'default':
            cls = dataclasses.make_dataclass('C', [('x', t, dataclasses.field(default_factory=dict))])
            return cls, {'x': one}, lambda v: [v.x]
        cls = dataclasses.make_dataclass('C', list(zip(names, ts)))
        e = {k: one for k in names}
        if how == 'deep':
            return typing.List[cls], [e], lambda v: [getattr(v[0], k) for k in names]
        return cls, e, lambda v: [getattr(v, k) for k in names]

    @staticmethod
    def value(how, ts):
        t = ts[0]
        names = [f'f{i}' for i in range(len(ts))]
        if how in ('list', 'tuple'):
            return ts if how == 'list' else tuple(ts), lambda v: v
        if how == 'dict':
            return {'k': t}, lambda v: [v['k']]
        if how == 'nested':
            return {'k': [t]}, lambda v: v['k']
        if how in ('field', 'default', 'deep'):
            cls = dataclasses.make_dataclass('C', list(zip(names, ts)))
            value = cls(*ts)
            if how == 'deep':
                return [value], lambda v: [v[0][k] for k in names]
            return value, lambda v: [v[k] for k in names]
        return t, lambda v: [v]

    def run(self, o):
        if o['op'] == 'add':
            return self.register(o)
        try:
            return self.use(o)
        except (marsh.errors.UnmarshalError, marsh.errors.MarshalError) as err:
            good = marsh.errors.UnmarshalError if self.kind == 'unmarshal' else marsh.errors.MarshalError
            return ['UnmarshalError' if isinstance(err, good) else type(err).__name__]


def registry_case(job, emit):
    for n, case in enumerate(job['cases']):
        kind = case.get('kind') or ('unmarshal' if n % 3 else 'marshal')

        def one(out, case=case, n=n, kind=kind):
            infos = {v: {'wrap': False, 'fits': []} for v in 'abhwz'}
            infos.update({o['v']: {'wrap': o['wrap'], 'fits': o['fits']} for o in case['ops'] if o['op'] == 'add'})
            w = World(random.Random(n), infos, kind)
            for i, o in enumerate(case['ops']):
                if kind == 'marshal' and o['op'] == 'use' and o['how'] == 'union':
                    continue
                got = w.run(o)
                if got != case['outs'][i]:
                    out({'kind': kind, 'ops': case['ops'][:i + 1], 'want': case['outs'][i], 'got': got})
                    return
        drv_history.forked(one, emit)
    emit({'done': len(job['cases'])})


TOKS = ['t0', 't1', 't2', 'h0']
HOWS = ['plain', 'list', 'dict', 'nested', 'tuple', 'union', 'ann', 'default', 'field', 'deep']


def random_registry(rng, out):
    kind = rng.choice(['unmarshal', 'unmarshal', 'marshal'])
    values = list('abcd'[:rng.randrange(2, 5)])
    infos = {v: {'wrap': rng.random() < 0.3, 'fits': sorted(rng.sample(TOKS, rng.randrange(1, 5)))}
             for v in values}
    w = World(rng, infos, kind)
    # The other schemas of the package are not modelled: numbers next to theirs, and at the same time relations
    # that put schemas between them, would show how they lie.
    relations = rng.choice([0, 0.5, 1])
    beside = rng.random() < 0.5
    line = values + ['builtin'] * beside
    rng.shuffle(line)
    numbers = [100, 100, 101, 102] + ([-1000, 0, 0, 1] if not relations else [] if beside else [-1000])
    pool = [{'op': 'use', 'how': rng.choice(HOWS), 'toks': [rng.choice(TOKS)]} for _ in range(4)]
    pool = [o for o in pool if o['how'] not in ('union', 'nested') or o['toks'] != ['h0']]
    for how in ('union', 'tuple', 'field', 'deep'):
        # a wrapper makes its schema late: whether a union with h0 has a member without schema may show late, too
        toks = TOKS[:3] if how == 'union' else TOKS
        pool.append({'op': 'use', 'how': how, 'toks': rng.sample(toks, 2)})
    if kind == 'marshal':
        pool = [o for o in pool if o['how'] != 'union']
    ops = []
    for _ in range(rng.randrange(4, 16)):
        if rng.random() < 0.4:
            v = rng.choice(values)
            lo = hi = []
            if rng.random() < relations:
                at = line.index(v)
                lo = [x for x in subset(rng, line, v) if line.index(x) > at or rng.random() < 0.1]
                hi = [x for x in subset(rng, line, v) if line.index(x) < at or rng.random() < 0.1]
            o = dict({'op': 'add', 'v': v, 'p': rng.choice(numbers), 'lo': lo, 'hi': hi,
                      'replace': rng.random() < 0.5}, **infos[v])
        else:
            o = dict(rng.choice(pool))
        o['out'] = w.run(o)
        ops.append(o)
    fits = ['t1', 't2', 'h0']
    out({'start': [{'v': 'builtin', 'p': 0, 'fits': fits}], 'ops': ops, 'kind': kind})


def record(job, emit):
    rng = random.Random(job['seed'])
    for _ in range(job['orders']):
        emit(random_order(rng))
    for _ in range(job['registries']):
        seed = rng.random()
        drv_history.forked(lambda out: random_registry(random.Random(seed), out), emit)


def main(job, emit):
    {'orders': orders, 'registries': registry_case, 'record': record}[job['mode']](job, emit)


if __name__ == '__main__':
    codec.run(main)
