"""Records what unmarshal does with generated types and elements."""
import logging
import random

import codec
import drv_bind
import gentypes
import marsh

PROFILES = {
    'U01': dict(weights={'prim': 14, 'sub': 5, 'lit': 10, 'enum': 8, 'bytes': 7, 'date': 3, 'log': 1, 'complex': 5, 'slice': 6, 'none': 2,
                         'proto': 3, 'seq': 1, 'map': 1, 'tuple': 1, 'union': 1, 'opt': 2, 'dc': .5, 'nt': 0, 'td': 0,
                         'fn': 0, 'ann': .5, 'any': 1, 'tvar': 1, 'ref': 0}, depth=(0, 1)),
    'U02': dict(weights={'user': 1, 'rf': 4, 'space': .7, 'union': 18, 'opt': 8, 'lit': 6, 'enum': 4, 'tvar': 3, 'seq': 3, 'map': 3, 'prim': 6}, depth=(1, 2)),
    'U03': dict(weights={'dc': 12, 'date': 1, 'nt': 10, 'td': 10, 'space': 3, 'tuple': 8, 'fn': 3, 'seq': 2, 'map': 2, 'union': 2}, depth=(1, 2, 3)),
    'U05': dict(weights={'user': 6, 'seq': 16, 'date': 1, 'log': .7, 'map': 16, 'tuple': 3, 'prim': 8, 'union': 2, 'dc': 1, 'nt': 1, 'td': 1, 'fn': .5},
                depth=(1, 2, 3)),
    'U06': dict(weights={'user': 1, 'space': 1, 'ann': 20, 'seq': 4, 'map': 4, 'union': 4, 'opt': 3, 'dc': 4, 'nt': 3, 'td': 4, 'fn': 3, 'tuple': 3,
                         'tvar': 2}, depth=(1, 2, 3)),
    'U07': dict(recursive=1, depth=(1,)),
    'U08': dict(mess=0.3, depth=(0, 1, 2, 3), weights={'rf': 1, 'date': 2, 'space': 2, 'log': 1, 'user': 1}, recursive=0.15),
    'U09': dict(missing=0.25, weights={'rf': 1, 'user': 1, 'space': 2, 'dc': 8, 'date': 1.5, 'log': 1, 'td': 6, 'nt': 5, 'fn': 4, 'any': 3, 'ann': 4}, depth=(0, 1, 2, 3)),
}


def make(rng, profile, depth, plain=True):
    """A generated type: descriptor, environment, other types it comes with."""
    g = gentypes.Gen(rng, profile.get('weights'))
    if plain:
        # no dates, whose texts are not all judged, and no loggers, which are state of the process
        g.weights.update(date=0, log=0)
    env = []
    if rng.random() < profile.get('recursive', 0 if profile.get('weights') else 0.15):
        g.recursive(rng.choice([0, 1]), rng.randrange(1, 4))
        env = g.env
        r = rng.random()
        if r < 0.5:
            t = ['ref', rng.choice(env)[0]]
        else:
            g.weights['ref'] = 12
            t = g.type(2)
    else:
        t = g.type(depth)
        if rng.random() < 0.1:
            t = g.type(depth)
    return g, t, env


def typed(t, env):
    """Use the structure itself at the top: a bare name stands for nothing there."""
    if t[0] == 'ref':
        return dict(env)[t[1]]
    return t


def record(job, emit):
    rng = random.Random(job['seed'])
    profile = PROFILES[job['prop']]
    n = 0
    modules = 0
    while n < job['n']:
        g, t, env = make(rng, profile, rng.choice(profile['depth']), plain=False)
        t = typed(t, env)
        if gentypes.vague(t) or gentypes.vague([d for _, d in env]):
            continue
        dated = gentypes.dated([t, env])
        logs = "['log']" in repr([t, env])
        modules += 1
        try:
            type_, text, enc = gentypes.build(rng, t, env, module=f'tm{modules}')
        except (TypeError, SyntaxError, ValueError, NameError) as err:
            emit({'skip': f'{type(err).__name__}: {err}', 't': t})
            continue
        els = gentypes.Elements(rng, env, mess=profile.get('mess', 0.1), missing=profile.get('missing', 0.03))
        for _ in range(job.get('per_type', 4)):
            e = els(t)
            if dated and not gentypes.clear(e):
                continue
            n += 1
            if logs:
                for logger in [logging.getLogger(), *map(logging.getLogger, logging.root.manager.loggerDict)]:
                    logger.setLevel(0)
            kw = {}
            if rng.random() < 0.15:
                e, kw = gentypes.as_keywords(rng, e)
            ev = {'op': 'um', 't': t, 'env': env, 'e': enc(e), 'src': text, 'kw': enc(kw)[1]}
            if not kw and rng.random() < 0.06:
                try:
                    m = e if e is marsh.MISSING else drv_bind.marshaled(e)
                    if drv_bind.standard(m):
                        ev['e'] = enc(m)
                        rest = () if e is marsh.MISSING else (e,)
                        ev['out'] = codec.outcome(lambda: marsh.cast(type_, *rest), enc)
                        emit(ev)
                        continue
                except KeyError:
                    pass
            ev['out'] = codec.outcome(lambda: marsh.unmarshal(type_, e, **kw) if e != marsh.MISSING or rng.random() < 0.5
                                      else marsh.unmarshal(type_, **kw), enc)
            emit(ev)


def norm(c):
    """Codes of values up to the order of sets."""
    tag = c[0]
    if tag in ('l', 't', 'q', 'dq'):
        return [tag, [norm(x) for x in c[1]]]
    if tag in ('d', 'm', 'mp', 'od', 'dd'):
        rest = [[x[0], norm(x[1])] if x[0] == 'ok' else x for x in c[2:]]
        return [tag, [[norm(k), norm(x)] for k, x in c[1]], *rest]
    if tag == 'set':
        return [tag, sorted([norm(x) for x in c[1]], key=repr)]
    if tag == 'is':
        return [tag, c[1], norm(c[2])]
    if tag in ('o', 'nt'):
        return [tag, c[1], [[n, norm(x)] for n, x in c[2]]]
    return c


def agrees(out, r):
    if r['ok']:
        return out['k'] == 'ok' and norm(out['v']) == norm(r['v'])
    return out['k'] == ('missing' if r['miss'] else 'unmarshal') and ''.join(out['at']) == '.'.join(map(''.join, r['at']))


def replay(job, emit):
    """Types and elements of the specification, with what each gives."""
    rng = random.Random(job['seed'])
    for n, case in enumerate(job['cases']):
        try:
            type_, text, enc = gentypes.build(rng, case['t'], case['env'], module=f'tr{n}')
        except (TypeError, SyntaxError, ValueError, NameError) as err:
            emit({'skip': f'{type(err).__name__}: {err}', 't': case['t']})
            continue
        order = list(enumerate(case['r']))
        rng.shuffle(order)
        for i, r in order:
            e = codec.dec(job['elems'][i])
            out = codec.outcome(lambda: marsh.unmarshal(type_, e), enc)
            if not agrees(out, r):
                emit({'t': case['t'], 'env': case['env'], 'e': job['elems'][i], 'out': out, 'specified': r, 'src': text})
    emit({'done': len(job['cases'])})


def star_keys(job, emit):
    """Keys of typed dicts are any text: known to fail for those starting with a star."""
    import typing
    for key in ('*a', '**a'):
        t = ['struct', 'td', 'T', [{'n': list(key), 't': ['int'], 'd': [], 'opt': False, 'k': 'pk'}]]
        type_ = typing.TypedDict('T', {key: int})
        ev = {'op': 'um', 't': t, 'env': [], 'e': codec.enc({key: 1}), 'src': 'td-star-key', 'kw': []}
        ev['out'] = codec.outcome(lambda: marsh.unmarshal(type_, {key: 1}), codec.enc)
        emit(ev)


def main(job, emit):
    {'record': record, 'replay': replay, 'star_keys': star_keys}[job['mode']](job, emit)


if __name__ == '__main__':
    codec.run(main)
