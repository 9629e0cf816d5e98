"""Marshals values of generated types and unmarshals them again."""
import os
import random
import sys

import codec
import drv_types
import gentypes
import marsh
import marsh.config
import marsh.parse

WEIGHTS = {'fn': 0, 'user': 1.5, 'slice': 2, 'complex': 2, 'bytes': 2, 'enum': 3, 'dc': 6, 'nt': 5, 'td': 5, 'lit': 3, 'dtm': .6, 'log': .5, 'sub': 2,
           'map': 8, 'ann': 1.5}


def text(e):
    """The documented way to write an element as text, everything quoted."""
    if isinstance(e, dict):
        return '{' + ', '.join(f'{text(k)}: {text(x)}' for k, x in e.items()) + '}'
    if isinstance(e, (list, tuple)):
        return '[' + ', '.join(map(text, e)) + ']'
    if isinstance(e, str):
        return '"' + e.replace('\\', '\\\\').replace('"', '\\"') + '"'
    return {True: 'true', False: 'false', None: 'null'}[e] if e is None or isinstance(e, bool) else repr(e)


def walk(e):
    yield e
    if isinstance(e, dict):
        for k, x in e.items():
            yield k
            yield from walk(x)
    elif isinstance(e, (list, tuple)):
        for x in e:
            yield from walk(x)


def record(job, emit):
    rng = random.Random(job['seed'])
    n = modules = 0
    while n < job['n']:
        g = gentypes.Gen(rng, WEIGHTS, odd=0)
        g.no_initvars = True
        env = []
        if rng.random() < 0.15:
            g.recursive(rng.choice([0, 1]), rng.randrange(1, 4))
            env = g.env
            t = rng.choice(env)[1]
        else:
            t = g.type(rng.choice([0, 1, 2, 2, 3]))
        if gentypes.vague(t) or gentypes.vague([d for _, d in env]):
            continue
        modules += 1
        name = f'tr{modules}'
        try:
            type_, src, enc = gentypes.build(rng, t, env, module=name)
        except (TypeError, SyntaxError, ValueError, NameError) as err:
            emit({'skip': f'{type(err).__name__}: {err}', 't': t})
            continue
        values = gentypes.Values(rng, sys.modules[name], env)
        for k in range(4):
            v = values(t)
            n += 1
            ev = {'t': t, 'env': env, 'v': enc(v), 'src': src}
            kind, m = codec.guard(lambda: marsh.marshal(v))
            ev['m'] = codec.outcome(lambda: marsh.marshal(v), enc)
            ev['back'] = codec.outcome(lambda: marsh.unmarshal(type_, m), enc) if kind == 'ok' else ev['m']
            parts = list(walk(m)) if kind == 'ok' else []
            # interpolations are a feature of config files
            if kind == 'ok' and rng.random() < 0.5 and not any(isinstance(x, str) and '${' in x for x in parts):
                ext = rng.choice(['yaml', 'json', 'yml'])
                path = f'c{rng.randrange(5)}.{ext}'
                # not every text can be stored in a file
                if isinstance(m, dict) and not any(isinstance(x, str) and not x.isprintable() for x in parts):
                    def through():
                        if os.path.exists(path):
                            os.unlink(path)
                        marsh.config.write(m, path)
                        return marsh.unmarshal(type_, marsh.config.load(path))
                    ev['file'] = codec.outcome(through, enc)
                    ev['via'] = path
            if kind == 'ok' and rng.random() < 0.5 and not any(
                    isinstance(x, float) and (x != x or x in (float('inf'), float('-inf')) or abs(x) > 2**53) or x == '???'
                    for x in parts):
                ev['text'] = text(m)
                ev['intext'] = codec.outcome(lambda: marsh.unmarshal(type_, marsh.parse.element(text(m))), enc)
            emit(ev)


def replay(job, emit):
    """Values of the types of the specification, there and back."""
    rng = random.Random(job['seed'])
    for n, case in enumerate(job['cases']):
        try:
            type_, src, enc = gentypes.build(rng, case['t'], case['env'], module=f'tq{n}')
        except (TypeError, SyntaxError, ValueError, NameError) as err:
            emit({'skip': f'{type(err).__name__}: {err}', 't': case['t']})
            continue
        for i, want, back in case['r']:
            v = marsh.unmarshal(type_, codec.dec(job['elems'][i]))
            kind, m = codec.guard(lambda: marsh.marshal(v))
            out = codec.outcome(lambda: marsh.marshal(v), enc)
            again = codec.outcome(lambda: marsh.unmarshal(type_, m), enc) if kind == 'ok' else out
            # sets have an order of their own
            if out['k'] != 'ok' or not drv_types.agrees(again, back) or out['v'] != want and "'set'" not in repr(case['t']):
                emit({'t': case['t'], 'env': case['env'], 'e': job['elems'][i], 'm': out, 'out': again,
                      'specified': {'m': want, 'back': back}, 'src': src})
    emit({'done': len(job['cases'])})


def main(job, emit):
    {'record': record, 'replay': replay}[job['mode']](job, emit)


if __name__ == '__main__':
    codec.run(main)
