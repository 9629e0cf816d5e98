"""Runs the editing functions of the code and records what they do."""
import random

import codec
import gen
import marsh

EL = marsh.element
enc = codec.enc_abs


def call(ev, fn, encode=enc):
    ev['out'] = codec.outcome(fn, encode)
    return ev


def paths_of(fields):
    return marsh.path.join_fields(fields)


def replay(job, emit):
    """Every edit of every small element the specification reaches."""
    rng = random.Random(job['seed'])
    paths = [[''.join(f) for f in p] for p in job['paths']]
    texts = [paths_of(p) for p in paths]
    values = [codec.dec(v) for v in job['values']]
    for n, case in enumerate(job['cases']):
        e = codec.dec(case['elem'])
        if n % 3:
            e = codec.dress(rng, e, 0.4)
        res = case['res']

        def check(what, i, fn, want):
            out = codec.outcome(fn, enc)
            if isinstance(want, dict) and 'ok' in want:
                good = (out['k'] == 'ok' and out['v'] == want['v']) if want['ok'] else \
                    (out['k'] == 'path' and out['at'] == want['text'])
            else:
                good = out['k'] == 'ok' and out['v'] == want
            if not good:
                emit({'elem': case['elem'], 'what': what, 'i': i, 'out': out, 'want': want})

        def prep(r):
            if not r['ok']:
                r['text'] = list(paths_of([''.join(f) for f in r['at']]))
            return r
        nv = len(values)
        for combine, name in ((False, 'set'), (True, 'combine')):
            for i, want in enumerate(res.get(name, ())):
                p, v = texts[i // nv], values[i % nv]
                check(name, i, lambda: EL.override(e, v, p, combine=combine), prep(want))
        if not isinstance(e, str) and e is not None:
            for i, want in enumerate(res.get('remove', ())):
                check('remove', i, lambda: EL.remove(e, texts[i + 1]), prep(want))
        for i, want in enumerate(res.get('merge', ())):
            check('merge', i, lambda: EL.merge(e, values[i]), want)
        for i, want in enumerate(res.get('concat', ())):
            check('concat', i, lambda: EL.merge(e, values[i], concatenate=True), want)
        for i, want in enumerate(res.get('before', ())):
            check('before', i, lambda: EL.merge(values[i], e), want)
        for i, want in enumerate(res.get('select', ())):
            check('select', i, lambda: EL.select(e, texts[i]), prep(want))
        if 'missing' in res:
            check('missing', 0, lambda: EL.has_missing(e), ['b', res['missing']])
        emit({'done': n})


def variant(rng, e):
    """Another element that overlaps with e."""
    if isinstance(e, dict) and rng.random() < 0.85:
        out = {}
        ks = list(e)
        rng.shuffle(ks)
        for k in ks:
            if rng.random() < 0.6:
                out[k] = variant(rng, e[k])
        for _ in range(rng.randrange(2)):
            out[gen.key(rng)] = gen.element(rng, 1)
        return out
    if rng.random() < 0.25:
        return '???'
    return gen.element(rng, 2)


def record(job, emit):
    rng = random.Random(job['seed'])
    for n in range(job['n']):
        plain = gen.any_element(rng)
        e = codec.dress(rng, plain) if rng.random() < 0.6 else plain
        what = job['what']
        if what == 'set':
            p = gen.path_text(rng, gen.walk_fields(rng, plain))
            x = gen.element(rng, rng.randrange(3))
            combine = rng.random() < 0.5
            if rng.random() < 0.1:
                e = plain = rng.choice(['???', None, {}, []])
            ev = {'op': 'set', 'e': enc(e), 'p': list(p), 'x': enc(x), 'combine': combine}
            kw = {'combine': combine} if combine or rng.random() < 0.5 else {}
            emit(call(ev, lambda: EL.override(e, codec.dress(rng, x), p, **kw)))
        elif what == 'remove':
            if not isinstance(plain, (dict, list)):
                continue
            p = gen.path_text(rng, gen.walk_fields(rng, plain, 0.15))
            try:
                if not marsh.path.split(p):
                    continue
            except marsh.errors.PathError:
                pass
            ev = {'op': 'remove', 'e': enc(e), 'p': list(p)}
            emit(call(ev, lambda: EL.remove(e, p)))
        elif what == 'merge':
            es = [e] + [codec.dress(rng, variant(rng, plain)) for _ in range(rng.randrange(0, 4) if rng.random() < 0.99
                                                                         else rng.choice([9, 17, 33, 70]))]
            if rng.random() < 0.3:
                rng.shuffle(es)
            concat = rng.random() < 0.4
            ev = {'op': 'merge', 'es': [enc(x) for x in es], 'concat': concat}
            emit(call(ev, lambda: EL.merge(*es, concatenate=concat)))
        else:
            r = n % 10
            if r < 5:
                p = gen.path_text(rng, gen.walk_fields(rng, plain, 0.15))
                emit(call({'op': 'select', 'e': enc(e), 'p': list(p)},
                          lambda: EL.select(e, p)))
            elif r < 8:
                p = gen.path_text(rng, gen.walk_fields(rng, plain, 0.1))
                steps = []

                def go():
                    for s in EL.iterative_select(e, p):
                        steps.append([enc(s.element), list(s.path), list(s.remaining_path)])
                ev = call({'op': 'steps', 'e': enc(e), 'p': list(p)}, go)
                ev['steps'] = steps
                emit(ev)
            elif r < 9:
                emit(call({'op': 'missing', 'e': enc(e)}, lambda: EL.has_missing(e)))
            else:
                import collections
                import types
                m, mt = rng.choice([('d', dict), ('od', collections.OrderedDict),
                                    ('mp', types.MappingProxyType)])
                s, st = rng.choice([('t', tuple), ('l', list)])

                def hook(v, encode):
                    if type(v) is collections.OrderedDict:
                        return ['od', [[encode(k), encode(x)] for k, x in v.items()]]
                    if type(v) is types.MappingProxyType:
                        return ['mp', [[encode(k), encode(x)] for k, x in v.items()]]
                exact = codec.Encoder(hook=hook)
                kw = {}
                if (m, s) != ('d', 't') or rng.random() < 0.5:
                    kw = {'mapping_type': mt, 'sequence_type': st}
                emit(call({'op': 'standardize', 'e': enc(e), 'map': m, 'seq': s},
                          lambda: EL.standardize(e, **kw), exact))


def main(job, emit):
    {'replay': replay, 'record': record}[job['mode']](job, emit)


if __name__ == '__main__':
    codec.run(main)
