"""Runs histories of namespaces, each in a process of its own."""
import dataclasses
import random
import typing

import codec
import drv_history
import marsh


class World:
    """Classes of the specification as dataclasses."""

    def __init__(self, classes, keys, rng):
        self.rng = rng
        self.keys = keys
        self.cls = {}
        self.name = {}
        self.fields = {k['c']: k['fields'] for k in classes}
        self.types = {}
        self.alike = rng.random() < 0.2      # all classes have one name

    def dataclass(self, c, bases, fields, init=True):
        """A dataclass with these fields of its own."""
        drv_history.fresh_typing()
        cls = dataclasses.make_dataclass(
            'K' if self.alike else c, [(f['f'], self.type(f['t']), self.default(f['d'])) for f in fields],
            bases=tuple(self.cls[b] for b in bases), namespace={'__module__': 'world'})
        self.cls[c] = cls
        self.name[cls] = c
        return cls

    @staticmethod
    def default(d):
        if not d:
            return dataclasses.field()
        return dataclasses.field(default=None if d[0][0] == 'none' else d[0][1])

    def type(self, t):
        rng = self.rng
        if t[0] == 'int':
            return int
        if t[0] == 'cls':
            return self.cls[t[1]] if rng.random() < 0.9 else typing.Annotated[self.cls[t[1]], 'x']
        if t[0] == 'list':
            return typing.List[self.type(t[1])]
        if t[0] == 'opt':
            return typing.Optional[self.type(t[1])]
        return typing.Union[tuple(self.type(x) for x in t[1])]

    def element(self, e):
        if e[0] == 'map':
            items = [(k, self.element(v)) for k, v in e[1]]
            self.rng.shuffle(items)
            return dict(items)
        if e[0] == 'seq':
            items = [self.element(v) for v in e[1]]
            return tuple(items) if self.rng.random() < 0.2 else items
        return None if e[0] == 'none' else e[1]

    def value(self, v):
        if v[0] == 'obj':
            return self.cls[v[1]](**{k: self.value(x) for k, x in v[2]})
        if v[0] == 'seq':
            return [self.value(x) for x in v[1]]
        return None if v[0] == 'none' else v[1]

    def code(self, v):
        if v is None:
            return ['none']
        if isinstance(v, bool) or isinstance(v, float):
            return ['other', repr(v)]
        if isinstance(v, int):
            return ['int', v]
        if isinstance(v, str):
            return ['str', v]
        if isinstance(v, (list, tuple)):
            return ['seq', [self.code(x) for x in v]]
        if isinstance(v, dict):
            order = [k for k in self.keys if k != 'name'] + ['name']
            items = sorted(v.items(), key=lambda x: order.index(x[0]) if x[0] in order else -1)
            return ['map', [[k, self.code(x)] for k, x in items]]
        c = self.name.get(type(v))
        if c is None:
            return ['other', repr(type(v))]
        return ['obj', c, [[f['f'], self.code(getattr(v, f['f']))] for f in self.fields[c]]]

    def run(self, o):
        rng = self.rng
        spaces = marsh.namespaces
        op = o['op']
        if op == 'new':
            ns = spaces.new(o['n'], self.cls[o['c']])
            return ['ok'] if ns is spaces[o['n']] and isinstance(ns, marsh.schema.namespace.Namespace) else ['other']
        if op == 'del':
            del spaces[o['n']]
            return ['ok'] if o['n'] not in spaces and o['n'] not in list(spaces) else ['other']
        if op == 'find':
            name = spaces.find_class(self.cls[o['c']])
            return ['name', [] if name is None else [name]]
        if op == 'marshal':
            return ['ok', self.code(marsh.marshal(self.value(o['v'])))]
        if op == 'use':
            key = repr(o['t'])
            if key not in self.types or rng.random() < 0.2:
                drv_history.fresh_typing()
                self.types[key] = self.type(o['t'])
            return ['ok', self.code(marsh.unmarshal(self.types[key], self.element(o['e'])))]
        ns = spaces[o['n']]
        if op == 'reg':
            cls = self.cls[o['c']]
            kw = {'name': o['name'], 'replace': o['replace']}
            got = ns.register(**kw)(cls) if rng.random() < 0.4 else ns.register(cls, **kw)
            return ['ok'] if got is cls else ['other']
        if op == 'has':
            has = {o['name'] in ns, o['name'] in list(ns), ns.get(o['name']) is not None, o['name'] in dict(ns.items())}
            return ['has', has.pop()] if len(has) == 1 else ['other', sorted(has)]
        if op == 'len':
            return ['len', len(ns)] if len(ns) == len(list(ns)) == len(set(ns)) else ['other']
        e = self.element(o['e'])
        r = rng.random()
        if r < 0.4 and isinstance(e, dict):
            inside = {k: v for k, v in e.items() if rng.random() < 0.4}
            rest = {k: v for k, v in e.items() if k not in inside}
            if 'name' not in rest and 'element' not in rest:
                args = [inside] if inside or rng.random() < 0.5 else []
                return ['ok', self.code(ns.build(*args, name=o['name'], **rest))]
        if r < 0.4 and isinstance(e, list):
            n = rng.randrange(len(e) + 1)
            return ['ok', self.code(ns.build(e[:n], *e[n:], name=o['name']))]
        return ['ok', self.code(ns.build(e, name=o['name']))]

    def outcome(self, o):
        try:
            return self.run(o)
        except marsh.errors.UnmarshalError:
            return ['UnmarshalError']
        except marsh.errors.MarshalError:
            return ['MarshalError']
        except marsh.errors.MarshError:
            return ['MarshError']
        except KeyError:
            return ['KeyError']
        except ValueError:
            return ['ValueError']
        except Exception as err:
            return ['other', type(err).__name__, str(err)]


INT = ['int']
#: the classes of MCNames: own fields and direct bases
FIXED = [('B', [], []), ('A', ['B'], [('x', INT, [['int', 0]])]),
         ('E', ['A'], [('y', ['opt', ['cls', 'B']], [['none']])]),
         ('O', [], []), ('P', ['O', 'B'], [('y', ['opt', ['cls', 'B']], [['none']])])]


def describe(w, decl):
    """The classes as the specification sees them; fields as Python has them."""
    classes = []
    own = {}
    for c, bases, fields in decl:
        fields = [{'f': f, 't': t, 'd': d} for f, t, d in fields]
        cls = w.dataclass(c, bases, fields)
        for f in fields:
            own[f['f']] = f
        all_ = [own[f.name] for f in dataclasses.fields(cls)]
        w.fields[c] = all_
        classes.append({'c': c, 'up': [w.name[x] for x in cls.__mro__ if x in w.name], 'fields': all_})
    return classes


def replay(job, emit):
    for n, case in enumerate(job['cases']):
        def one(out, case=case, n=n):
            w = World([], ['x', 'y'], random.Random(n))
            describe(w, FIXED)
            for i, o in enumerate(case['ops']):
                got = w.outcome(o)
                if got != o['out']:
                    out({'ops': case['ops'][:i + 1], 'want': o['out'], 'got': got})
                    return
        drv_history.forked(one, emit)
    emit({'done': len(job['cases'])})


class Maker:
    """Random classes, types, elements and values."""

    def __init__(self, rng):
        self.rng = rng
        self.decl = []
        self.keys = []
        self.plain = {}

    def declare(self):
        rng = self.rng
        names = [f'C{i}' for i in range(rng.randrange(3, 8))]
        for i, c in enumerate(names):
            bases = []
            if i and rng.random() < 0.8:
                bases = rng.sample(names[:i], 1 if i < 2 or rng.random() < 0.8 else 2)
            fields = []
            for j in range(rng.choice([0, 0, 1, 1, 2])):
                key = f'f{i}{j}' if rng.random() < 0.97 or 'name' in self.keys else 'name'
                self.keys.append(key)
                t = self.pick(names[:i], 2)
                fields.append((key, t, self.default(t, i)))
            self.decl.append((c, bases, fields))
        self.names = names

    def pick(self, names, depth):
        rng = self.rng
        r = rng.random()
        if not names or r < 0.4:
            return INT
        if r < 0.7 or not depth:
            return ['cls', rng.choice(names)]
        if r < 0.8:
            return ['list', self.pick(names, depth - 1)]
        if r < 0.92:
            return ['opt', ['cls', rng.choice(names)]]
        two = rng.sample(names, min(len(names), 2))
        return ['union', [['cls', x] for x in two]] if len(two) > 1 else ['cls', two[0]]

    def default(self, t, i):
        # fields after one with a default need one
        if t[0] == 'int':
            return [['int', self.rng.randrange(3)]]
        return [['none']]

    def classes(self, c):
        return next(k for k in self.known if k['c'] == c)

    def below(self, c):
        return [k['c'] for k in self.known if c in k['up']]

    def element(self, t, depth, mess):
        rng = self.rng
        if rng.random() < mess:
            return rng.choice([['int', 1], ['str', 'zz'], ['none'], ['seq', []], ['map', []],
                               ['map', [['name', ['int', 1]]]], ['map', [['name', ['seq', [['int', 1]]]]]]])
        if t[0] == 'int':
            return ['int', rng.randrange(5)]
        if t[0] == 'list':
            return ['seq', [self.element(t[1], depth - 1, mess) for _ in range(rng.randrange(3))]]
        if t[0] == 'opt':
            return ['none'] if rng.random() < 0.2 or depth <= 0 else self.element(t[1], depth, mess)
        if t[0] == 'union':
            return self.element(rng.choice(t[1]), depth, mess)
        return self.arguments(t[1], depth, mess, rng.random() < 0.75)

    def arguments(self, c, depth, mess, named):
        rng = self.rng
        below = self.below(c)
        pairs = []
        if named:
            name = None
            if self.regs and rng.random() < 0.85:
                fit = [r for r in self.regs if r[1] in below]
                name, c2 = rng.choice(fit if fit and rng.random() < 0.8 else self.regs)
                if c2 in below or rng.random() < 0.5:
                    c = c2
            name = rng.choice(['a', 'b', 'zz']) if name is None else name
            name = ['str', name]
            if rng.random() < 0.04:
                name = rng.choice([['none'], ['str', '???'], ['str', ''], ['str', c]])
            pairs = [['name', name]]
        fields = self.classes(c)['fields']
        if not named and rng.random() < 0.25:
            n = rng.randrange(len(fields) + 1)
            return ['seq', [self.element(f['t'], depth - 1, mess) for f in fields[:n]]
                    + ([['int', 1]] if rng.random() < 0.05 else [])]
        for f in fields:
            if f['f'] != 'name' and (rng.random() < 0.6 if depth > 0 else f['t'] == INT):
                pairs.append([f['f'], self.element(f['t'], depth - 1, mess)])
        if rng.random() < mess:
            key = rng.choice(self.keys + ['unknown'])
            if all(p[0] != key for p in pairs):
                pairs.append([key, ['int', 1]])
        return ['map', pairs]

    def value(self, t, depth):
        rng = self.rng
        if t[0] == 'int':
            return ['int', rng.randrange(5)]
        if t[0] == 'list':
            return ['seq', [self.value(t[1], depth - 1) for _ in range(rng.randrange(3))]]
        if t[0] == 'opt':
            return ['none'] if rng.random() < 0.3 else self.value(t[1], depth)
        if t[0] == 'union':
            return self.value(rng.choice(t[1]), depth)
        if depth <= 0:
            return ['none']
        c = rng.choice(self.below(t[1]))
        return ['obj', c, [[f['f'], self.value(f['t'], depth - 1)] for f in self.classes(c)['fields']]]


NAMES = ['a', 'a', 'b', 'c', '', 'a.b', 'x y']


def history(rng, out):
    m = Maker(rng)
    m.declare()
    m.regs = []
    w = World([], m.keys, rng)
    while True:
        try:
            m.known = describe(w, m.decl)
            break
        except TypeError:      # bases without a method resolution order
            m = Maker(rng)
            m.declare()
            m.regs = []
            w = World([], m.keys, rng)
    keys = [k for k in m.keys if k != 'name'] + ['name']
    spaces = ['m', 'k', 'l'][:rng.choice([1, 2, 2, 3])]
    live = set()
    ops = []
    pool = []
    n = rng.randrange(5, 30)
    change = rng.choice([0.3, 0.5])
    big = rng.random() < 0.02
    for step in range(n):
        r = rng.random()
        if not live and r < 0.7 or r < 0.06:
            n_ = rng.choice(spaces)
            c = rng.choice(m.names[:3] if rng.random() < 0.8 else m.names)
            o = {'op': 'new', 'n': n_, 'c': c}
            if big and n_ not in live:
                # many components at once
                o['out'] = w.outcome(o)
                ops.append(o)
                below = m.below(c)
                for i in range(rng.choice([65, 100, 130, 260])):
                    o = {'op': 'reg', 'n': n_, 'name': f'n{i}', 'c': rng.choice(below), 'replace': False}
                    m.regs.append((o['name'], o['c']))
                    o['out'] = w.outcome(o)
                    ops.append(o)
                o = {'op': 'len', 'n': n_}
            live.add(n_)
        elif r < 0.1:
            o = {'op': 'del', 'n': rng.choice(spaces)}
            live.discard(o['n'])
        elif r < change and live:
            o = {'op': 'reg', 'n': rng.choice(sorted(live)), 'name': rng.choice(NAMES), 'c': rng.choice(m.names),
                 'replace': rng.random() < 0.6}
            m.regs.append((o['name'], o['c']))
        elif r < change + 0.05:
            o = {'op': rng.choice(['has', 'len', 'find']), 'n': rng.choice(spaces), 'name': rng.choice(NAMES),
                 'c': rng.choice(m.names)}
        elif r < change + 0.1:
            name, c = rng.choice(m.regs) if m.regs else ('a', m.names[0])
            o = {'op': 'build', 'n': rng.choice(spaces), 'name': name, 'e': m.arguments(c, 2, 0.03, False)}
        elif r < change + 0.2:
            o = {'op': 'marshal', 'v': m.value(rng.choice([['cls', rng.choice(m.names)]] * 3 + [m.pick(m.names, 2)]), 3)}
        else:
            if pool and rng.random() < 0.5:
                t = rng.choice(pool)
            else:
                t = ['cls', rng.choice(m.names)] if rng.random() < 0.6 else m.pick(m.names, 2)
                pool.append(t)
            o = {'op': 'use', 't': t, 'e': m.element(t, 3, rng.choice([0, 0, 0.05, 0.2]))}
        o['out'] = w.outcome(o)
        ops.append(o)
        if o['op'] == 'marshal' and o['out'][0] == 'ok' and o['v'][0] == 'obj':
            # and back
            c = rng.choice(next(k for k in m.known if k['c'] == o['v'][1])['up'])
            o = {'op': 'use', 't': ['cls', c], 'e': o['out'][1]}
            o['out'] = w.outcome(o)
            ops.append(o)
    out({'classes': m.known, 'keys': keys, 'ops': ops})


def record(job, emit):
    rng = random.Random(job['seed'])
    for _ in range(job['n']):
        seed = rng.random()
        drv_history.forked(lambda out: history(random.Random(seed), out), emit)


def main(job, emit):
    {'record': record, 'replay': replay}[job['mode']](job, emit)


if __name__ == '__main__':
    codec.run(main)
