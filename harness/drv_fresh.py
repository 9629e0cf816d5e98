"""Changes results, elements and defaults between calls and looks for containers they share."""
import copy
import random
import sys

import codec
import drv_types
import gentypes
import marsh
import typelib

MUTABLE = {'l', 'd', 'm', 'q', 'od', 'dd', 'set', 'dq', 'o'}
WEIGHTS = {'any': 8, 'seq': 8, 'map': 8, 'dc': 7, 'nt': 5, 'td': 4, 'fn': 3, 'tuple': 4, 'union': 2, 'opt': 2, 'prim': 4,
           'ann': 3, 'space': 2}


class Labels:
    """Encodes values with labels on the containers that are known already."""

    def __init__(self, hook):
        self.known = {}
        self.keep = []
        self.encoder = codec.Encoder(hook=lambda v, encode: self.labelled(v, hook))
        self.hook = hook
        self.new = []
        self.at = None

    def know(self, v, label):
        if id(v) not in self.known:
            self.known[id(v)] = label
            self.keep.append(v)

    def labelled(self, v, hook):
        t = type(v)
        if hook is not None:
            code = hook(v, self.encoder)
        else:
            code = None
        if code is None:
            if t is list or t is tuple:
                code = ['t' if t is tuple else 'l', [self.encoder(x) for x in v]]
            elif t is dict:
                code = ['d', [[self.encoder(k), self.encoder(x)] for k, x in v.items()]]
            else:
                return None
        if code[0] not in MUTABLE:
            return code
        if self.at is not None and code[0] == 'dd':
            code[2] = ['err']
        if id(v) in self.known:
            return code + [self.known[id(v)]]
        if self.at is not None:         # every container gets a name
            label = [self.at, str(len(self.keep))]
            self.know(v, label)
            return code + [label]
        if any(v is x for x in self.new):
            return code + [['twice']]
        self.new.append(v)
        return code

    def name_all(self, v, at):
        """The code of v, with all its containers known from now on."""
        self.at = at
        try:
            return self.encoder(v)
        finally:
            self.at = None

    def result(self, v, at):
        """The code of v, with its containers that were known before."""
        self.new = []
        code = self.encoder(v)
        for x in self.new:
            self.know(x, [at, ''])
        made, self.new = self.new, []
        return code, made


def change(rng, v):
    """Change a container in place."""
    try:
        if isinstance(v, (list,)):
            r = rng.random()
            if r < 0.5 or not v:
                v.append(rng.choice([99, 'changed']))
            elif r < 0.75:
                v[rng.randrange(len(v))] = 'changed'
            else:
                v.clear()
        elif isinstance(v, dict):
            if rng.random() < 0.6 or not v:
                v['changed'] = 1
            else:
                v.clear()
        elif isinstance(v, set):
            v.add('changed')
        elif hasattr(v, 'appendleft'):
            v.appendleft('changed')
        elif hasattr(v, '__dict__') and v.__dict__ and not isinstance(v, typelib.Call):
            name = rng.choice(list(v.__dict__))
            if name not in ('_call', '_iv'):
                setattr(v, name, 'changed')
        else:
            return
    except (AttributeError, TypeError):
        pass


def settle(t, mod, labels):
    """Code default objects as they are."""
    if isinstance(t, dict):
        settle(t['t'], mod, labels)
        if t.get('live'):
            t['d'] = [labels.name_all(getattr(mod, t['live']), 'd')]
    elif isinstance(t, list):
        for x in t:
            settle(x, mod, labels)


def record(job, emit):
    rng = random.Random(job['seed'])
    n = modules = 0
    while n < job['n']:
        profile = {'weights': WEIGHTS} if rng.random() < 0.9 else drv_types.PROFILES['U07']
        g, t, env = drv_types.make(rng, profile, rng.choice([1, 2, 2, 3]))
        t, env = copy.deepcopy((drv_types.typed(t, env), env))
        if gentypes.vague(t, True) or gentypes.vague([d for _, d in env], True):
            continue
        modules += 1
        name = f'tm{modules}'
        try:
            type_, text, enc = gentypes.build(rng, t, env, module=name, named=True)
        except (TypeError, SyntaxError, ValueError, NameError) as err:
            emit({'skip': f'{type(err).__name__}: {err}', 't': t})
            continue
        labels = Labels(enc.hook)
        for x in (t, env):
            settle(x, sys.modules[name], labels)
        els = gentypes.Elements(rng, env, mess=0.02, missing=0.08)
        elements = [els(t) for _ in range(2)]
        if rng.random() < 0.5:
            elements.append({})
        made = []
        values = []
        for step in range(rng.randrange(3, 9)):
            n += 1
            e = rng.choice(elements)
            code = labels.name_all(e, 'e')
            more, kw = [], {}
            ev = {'op': 'um', 't': t, 'env': env, 'e': code, 'src': text, 'step': step, 'kw': [], 'more': []}
            if values and rng.random() < 0.25:
                v = rng.choice(values)
                ev = {'op': 'ms', 'v': labels.name_all(v, 'v'), 'src': text, 'step': step, 'kw': [], 'more': []}
                kind, x = codec.guard(lambda: marsh.marshal(v))
            elif t[0] == 'space' and rng.random() < 0.4:
                # the same by way of the namespace
                comp, own = rng.choice(t[2])
                e = els(own)
                elements.append(e)
                ev.update(t=own, e=labels.name_all(e, 'e'))
                if rng.random() < 0.5 and isinstance(e, dict):
                    kw = gentypes.as_keywords(rng, els(own))[1]
                    kw.pop('name', None)
                elif isinstance(e, list) and rng.random() < 0.5:
                    more = els(own)
                    more = [x for x in (more if isinstance(more, list) else [more]) if gentypes.is_plain(x)]
                ev.update(more=[codec.enc(x) for x in more], kw=codec.enc(kw)[1])
                space = getattr(sys.modules[name], '_s' + t[1][2])
                kind, x = codec.guard(lambda: space.build(e, *more, name=''.join(comp), **kw))
            else:
                if rng.random() < 0.15 and (isinstance(e, dict) or e == marsh.MISSING):
                    kw = gentypes.as_keywords(rng, els(t))[1]
                    ev['kw'] = codec.enc(kw)[1]
                kind, x = codec.guard(lambda: marsh.unmarshal(type_, e, **kw))
            if kind == 'ok':
                code, new = labels.result(x, f'r{step}.')
                ev['out'] = {'k': 'ok', 'v': code}
                made += new
                if ev['op'] == 'um':
                    values.append(x)
            else:
                ev['out'] = {'k': 'err', 'v': ['N']}
            if ev['op'] == 'um':
                ev['after'] = labels.name_all(e, 'late')
            else:
                ev['after'] = labels.name_all(v, 'late')
            ev['moreafter'], ev['kwafter'] = [codec.enc(x) for x in more], codec.enc(kw)[1]
            emit(ev)
            for x in elements:
                labels.name_all(x, 'e')
            if made and rng.random() < 0.8:
                for x in rng.sample(made, min(len(made), rng.choice([1, 1, 3]))):
                    change(rng, x)
            if rng.random() < 0.3:
                e = rng.choice(elements)
                if isinstance(e, (list, dict)):
                    change(rng, e)


# -- histories of the specification --------------------------------------------
def replay(job, emit):
    import collections
    import dataclasses
    import typing

    @dataclasses.dataclass
    class D:
        a: typing.List[int] = dataclasses.field(default_factory=list)
        b: typing.Any = dataclasses.field(default_factory=lambda: [[5]])
        c: typing.Dict[str, typing.List[int]] = dataclasses.field(default_factory=lambda: {'k': [7]})

    class N(typing.NamedTuple):
        a: typing.List[typing.Any]
        b: typing.Any

    class T(typing.TypedDict):
        a: typing.Any
        b: typing.List[typing.List[int]]

    types = {
        'nested': typing.List[typing.List[int]], 'loose': typing.List[typing.Any], 'any': typing.Any, 'bare': list,
        'named': typing.Dict[str, typing.List[int]], 'namedany': typing.Dict[str, typing.Any],
        'struct': D, 'record': N, 'keys': T, 'maybe': typing.Optional[typing.List[typing.List[int]]],
        'dflt': typing.DefaultDict[str, typing.List[int]],
    }

    def deep(v):
        if isinstance(v, dict):
            return {k: deep(x) for k, x in v.items()} or []
        if isinstance(v, (list, tuple)) and not hasattr(v, '_fields'):
            return [deep(x) for x in v]
        if isinstance(v, D):
            return {'a': deep(v.a), 'b': deep(v.b), 'c': deep(v.c)}
        if isinstance(v, N):
            return {'a': deep(v.a), 'b': deep(v.b)}
        return v

    def follow(v, path):
        for p in path:
            if isinstance(v, D) or isinstance(v, N):
                v = getattr(v, p)
            else:
                v = v[int(p) - 1 if p.isdigit() else p]
        return v

    for case in job['cases']:
        elements = {'seq': [[1], [2]], 'map': {'a': [1], 'b': [[2]]}, 'two': {'a': [1], 'b': [2]}, 'none': {}}
        results = []
        for step, (o, want) in enumerate(zip(case['ops'], case['seen'])):
            if o['op'] == 'use':
                results.append(marsh.unmarshal(types[o['t']], elements[o['e']]))
            elif o['op'] == 'marshal':
                results.append(marsh.marshal(results[o['k'] - 1]))
            else:
                v = follow(results[o['k'] - 1] if o['op'] == 'change' else elements[o['e']], o['p'])
                if isinstance(v, dict):
                    v['z'] = 9
                else:
                    v.append(9)
            seen = {'results': [deep(v) for v in results], 'elements': [deep(elements[k]) for k in ('seq', 'map', 'two', 'none')]}
            if seen != want:
                emit({'case': case, 'step': step, 'seen': seen, 'want': want})
                break
    emit({'done': len(job['cases'])})


def main(job, emit):
    {'record': record, 'replay': replay}[job['mode']](job, emit)


if __name__ == '__main__':
    codec.run(main)
