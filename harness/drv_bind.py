"""Binds call-site values and elements to the parameters of callables."""
import random

import codec
import gentypes
import marsh
import marsh.schema
import typelib

WEIGHTS = {'fn': .3, 'prim': 14, 'any': 4, 'seq': 4, 'map': 4, 'opt': 4, 'dc': 1, 'nt': .5, 'td': .5, 'ann': 1}


def plain(rng, depth=1):
    r = rng.random()
    if depth and r < 0.2:
        return [plain(rng, 0) for _ in range(rng.randrange(3))]
    if depth and r < 0.3:
        return {rng.choice('abc'): plain(rng, 0) for _ in range(rng.randrange(3))}
    return rng.choice([None, True, 5, -1, 0.5, 'site', '', 'x.y', 42, '7'])


def marshaled(v):
    """What casting makes of a plain value first (see spec/Marshal.tla), None if it has odd keys."""
    if isinstance(v, (dict, codec.AbcMapping)):
        if not all(isinstance(k, str) for k in v):
            raise KeyError
        return {k: marshaled(v[k]) for k in v}
    if isinstance(v, (list, tuple, codec.AbcSequence)):
        return tuple(marshaled(x) for x in v)
    return v


def standard(v):
    if isinstance(v, dict):
        return all(standard(x) for x in v.values())
    if isinstance(v, tuple):
        return all(map(standard, v))
    return type(v) in (type(None), bool, int, float, str)


def observe(name, call, enc):
    before = typelib.Call.made[name]
    out = codec.outcome(call, enc)
    return out, typelib.Call.made[name] - before


def record(job, emit):
    rng = random.Random(job['seed'])
    n = modules = 0
    while n < job['n']:
        g = gentypes.Gen(rng, WEIGHTS)
        t = g.struct('fn', rng.choice([1, 1, 2]))
        modules += 1
        try:
            type_, text, enc = gentypes.build(rng, t, [], module=f'tb{modules}')
        except (TypeError, SyntaxError, ValueError, NameError) as err:
            emit({'skip': f'{type(err).__name__}: {err}', 't': t})
            continue
        els = gentypes.Elements(rng, [], mess=0.06, missing=0.03)
        for _ in range(4):
            n += 1
            r = rng.random()
            e = els(t)
            names = [''.join(f['n']) for f in t[3] if f['k'] in ('po', 'pk', 'ko')]
            positional = [f for f in t[3] if f['k'] in ('po', 'pk')]
            va = any(f['k'] == 'va' for f in t[3])
            if r < 0.25:
                ev = {'op': 'args', 't': t, 'env': [], 'e': enc(e), 'ca': [], 'ck': [], 'src': text}
                how = marsh.unmarshal_args
                if rng.random() < 0.5:
                    try:
                        ev['e'] = enc(marshaled(e))
                        how = marsh.cast_args
                    except KeyError:
                        pass

                e = marsh.MISSING if rng.random() < 0.15 else e
                if e is marsh.MISSING:
                    ev['e'] = ['M']
                rest = () if e is marsh.MISSING and rng.random() < 0.7 else (e,)

                def call():
                    got = how(type_, *rest)
                    if typelib.Call.made[t[2]] != before:
                        raise AssertionError('called too early')
                    return type_(*got.args, **got.kwargs)
                before = typelib.Call.made[t[2]]
                ev['out'], ev['calls'] = observe(t[2], call, enc)
                emit(ev)
                continue
            if r < 0.35:
                # named values go on top of the mapping
                kw = {rng.choice(names or ['zz']): plain(rng) for _ in range(rng.randrange(3))}
                base = e if isinstance(e, (dict, codec.AbcMapping)) else {}
                expect = dict(base)
                expect.update(marshaled(kw))
                ev = {'op': 'call', 't': t, 'env': [], 'e': enc(expect), 'ca': [], 'ck': [], 'src': text}
                if {'type_', 'element'} & set(kw):
                    continue
                args = (type_, base) if base or rng.random() < 0.5 else (type_,)
                if not kw and len(args) == 1:
                    ev['e'] = ['M']
                ev['out'], ev['calls'] = observe(t[2], lambda: marsh.unmarshal(*args, **kw), enc)
                emit(ev)
                continue
            na = rng.randrange(len(positional) + 1) if positional and rng.random() < 0.5 else 0
            if va and na == len(positional) or rng.random() < 0.05:
                na += rng.randrange(3)
            ca = [plain(rng) for _ in range(na)]
            ck = {}
            for nm in names + rng.choice([[], [], ['zz', 'other']]):
                if nm in names[:na] and rng.random() < 0.95:
                    continue
                if rng.random() < 0.3:
                    ck[nm] = plain(rng)
            if rng.random() < 0.3:
                e = marsh.MISSING
            elif isinstance(e, dict) and rng.random() < 0.5:
                for nm in list(e):
                    if rng.random() < 0.6:
                        del e[nm]
            ev = {'op': 'call', 't': t, 'env': [], 'e': enc(e), 'ca': [enc(x) for x in ca],
                  'ck': [[enc(k), enc(x)] for k, x in ck.items()], 'src': text}
            # absent elements and empty arguments may be left out
            kwargs = {}
            if ca or rng.random() < 0.5:
                kwargs['default_args'] = rng.choice([tuple, list])(ca)
            if ck or rng.random() < 0.5:
                kwargs['default_kwargs'] = ck
            ev['out'], ev['calls'] = observe(
                t[2], lambda: marsh.schema.UnmarshalSchema(type_).unmarshal(e, **kwargs), enc)
            emit(ev)


def replay(job, emit):
    for sig in job['sigs']:
        ps, bare = [], False
        fields = sig['sig']
        for i, f in enumerate(fields):
            nm = ''.join(f['n'])
            if f['k'] == 'ko' and not bare and not any(g['k'] == 'va' for g in fields):
                ps.append('*')
                bare = True
            star = {'va': '*', 'vk': '**'}.get(f['k'], '')
            ps.append(f'{star}{nm}: int' + (f" = {codec.dec(f['d'][0])}" if f['d'] else ''))
            if f['k'] == 'po' and not any(g['k'] == 'po' for g in fields[i + 1:]):
                ps.append('/')
        names = [''.join(f['n']) for f in fields]
        made = []
        ns = {'made': made}
        exec(f"def fn({', '.join(ps)}):\n    made.append(1)\n"
             f"    return [{', '.join(names)}]", ns)
        schema = marsh.schema.UnmarshalSchema(ns['fn'])
        for case in sig['cases']:
            ca = [codec.dec(x) for x in case['c']['ca']]
            ck = {codec.dec(k): codec.dec(x) for k, x in case['c']['ck']}
            e = codec.dec(case['e'])
            del made[:]
            out = codec.outcome(lambda: schema.unmarshal(e, ca, ck), codec.enc)
            want = case['r']
            if want['ok']:
                good = out['k'] == 'ok' and out['v'] == ['l', [v for _, v in want['v']]] and len(made) == 1
            elif want['site']:
                good = not made and (out['k'] == 'alien:TypeError' or (out['k'] in ('unmarshal', 'missing')
                                                                        and not want['over']))
            else:
                good = not made and out['k'] == ('missing' if want['miss'] else 'unmarshal') and \
                    ''.join(out['at']) == '.'.join(''.join(x) for x in want['at'])
            if not good:
                emit({'sig': ps, 'case': case, 'out': out, 'calls': len(made)})


def main(job, emit):
    {'record': record, 'replay': replay}[job['mode']](job, emit)


if __name__ == '__main__':
    codec.run(main)
