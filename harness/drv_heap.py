"""Runs editing histories and looks at every element after every edit."""
import dataclasses
import random
import typing

import codec
import gen
import marsh

EL = marsh.element
enc = codec.enc_abs


@dataclasses.dataclass
class Box:
    a: typing.Any = None
    b: typing.List[typing.Any] = dataclasses.field(default_factory=list)


TYPES = [typing.Any, typing.Dict[str, typing.Any], typing.List[typing.Any],
         typing.Union[int, typing.List[typing.Any], Box], Box, typing.Tuple[typing.Any, ...],
         typing.Dict[str, typing.List[str]], typing.List[Box]]


def look(v):
    """Identity, type and content of everything inside v."""
    t = type(v).__name__
    if isinstance(v, (str, bytes)) or v is None or isinstance(v, (int, float)):
        return (t, repr(v))
    if hasattr(v, 'keys'):
        return (t, id(v), [(k, look(v[k])) for k in v])
    if hasattr(v, '__getitem__'):
        return (t, id(v), [look(x) for x in v])
    return (t, id(v))


def apply(vs, o, rng):
    x = vs[o['i'] - 1]
    y = vs[o['j'] - 1]
    p = o['p']
    op = o['op']
    if op == 'select':
        return EL.select(x, p)
    if op == 'set' or op == 'combine':
        if o.get('via') == 'parse' and op == 'set':
            return marsh.parse.SetValue(path=p, value=y, combine=False).apply(x)
        if o.get('via') == 'parse':
            return marsh.parse.SetValue(path=p, value=y, combine=True).apply(x)
        return EL.override(x, y, p, combine=op == 'combine')
    if op == 'remove':
        if not isinstance(x, (dict, list, tuple)) and not hasattr(x, '__getitem__') \
                or isinstance(x, str):
            raise marsh.errors.PathError('nothing to remove from')
        if o.get('via') == 'parse':
            return marsh.parse.DeleteValue(path=p).apply(x)
        return EL.remove(x, p)
    if op == 'merge':
        return EL.merge(x, y)
    if op == 'concat':
        return EL.merge(x, y, concatenate=True)
    if op == 'standardize':
        return EL.standardize(x)
    if op == 'resolve':
        return EL.resolve(x)
    if op == 'unmarshal':
        marsh.unmarshal(rng.choice(TYPES), x)
    if op == 'marshal':
        marsh.marshal(x)
    if op == 'missing':
        EL.has_missing(x)
    raise marsh.errors.PathError('no element produced')


def history(start, ops, rng):
    vs = [start]
    after = []
    frozen = True
    seen = [look(start)]
    bad = None
    for o in ops:
        kind, r = codec.guard(lambda: apply(vs, o, rng))
        if kind == 'hang' or (kind == 'err' and not isinstance(r, marsh.errors.MarshError)):
            bad = kind if kind == 'hang' else f'{type(r).__name__}: {r}'
        for v, s in zip(vs, seen):
            frozen = frozen and look(v) == s
        vs.append(r if kind == 'ok' else None)
        seen.append(look(vs[-1]))
        after.append([enc(v) for v in vs])
    return after, frozen, bad


def main(job, emit):
    rng = random.Random(job['seed'])
    if job['mode'] == 'replay':
        for n, case in enumerate(job['cases']):
            ops = [dict(o, p=marsh.path.join_fields([''.join(f) for f in o['p']]))
                   for o in case['ops']]
            start = codec.dec(case['versions'][0])
            start = EL.standardize(start, sequence_type=list) if n % 2 else \
                codec.dress(rng, start, 0.3)
            after, frozen, bad = history(start, ops, rng)
            want = case['versions']
            if not frozen or bad or any(a != want[:k + 2] for k, a in enumerate(after)):
                emit({'case': case, 'after': after, 'frozen': frozen, 'bad': bad})
        emit({'done': len(job['cases'])})
        return
    for _ in range(job['n']):
        plain = gen.element(rng, 3) if rng.random() < 0.98 else gen.big_element(rng)
        if not isinstance(plain, (dict, list)):
            plain = {'a': plain, 'b': [gen.element(rng, 2)]}
        start = EL.standardize(plain, sequence_type=list) if rng.random() < 0.5 else \
            codec.dress(rng, plain)
        ops = []
        for k in range(rng.randrange(3, 7)):
            op = rng.choice(['select', 'set', 'combine', 'combine', 'remove', 'merge', 'concat',
                             'standardize', 'resolve', 'unmarshal', 'marshal', 'missing'])
            # paths come from the start so that they tend to exist
            fields = gen.walk_fields(rng, plain, 0.1)[:rng.choice([1, 1, 2, 3])]
            p = gen.path_text(rng, fields, mess=0)
            if op == 'remove' and not fields:
                op = 'select'
            ops.append({'op': op, 'i': rng.randrange(k + 1) + 1, 'j': rng.randrange(k + 1) + 1,
                        'p': p, 'via': rng.choice(['', 'parse'])})
        s = enc(start)
        if 'resolve' in {o['op'] for o in ops} and not resolvable(plain):
            for o in ops:
                if o['op'] == 'resolve':
                    o['op'] = 'missing'
        after, frozen, bad = history(start, ops, rng)
        if bad and frozen and any(o['op'] in ('unmarshal', 'marshal') for o in ops):
            pass    # other properties decide what these return
        emit({'start': s, 'ops': [dict(o, p=list(o['p'])) for o in ops], 'after': after,
              'frozen': frozen})


def resolvable(e):
    """omegaconf only takes certain keys, and no missing values at the root."""
    if isinstance(e, dict):
        return all(type(k) is str for k in e) and all(resolvable(v) for v in e.values())
    if isinstance(e, list):
        return all(resolvable(v) for v in e)
    return e != '???' and not (isinstance(e, int) and abs(e) > 10**17)


if __name__ == '__main__':
    codec.run(main)
