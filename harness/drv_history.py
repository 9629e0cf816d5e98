"""Runs histories of uses of types, each in a process of its own."""
import copy
import gc
import json
import os
import random
import sys
import typing

import codec
import drv_types
import gentypes
import marsh

#: values that are equal without being of the same type
EQUALS = [(['i', False, ['1']], ['b', True]), (['i', False, ['0']], ['b', False]),
          (['f', False, ['1'], 0], ['i', False, ['1']])]


def equals(rng, v, literal):
    for a, b in EQUALS:
        if literal and 'f' in (a[0], b[0]):
            continue
        if v == a:
            return b
        if v == b:
            return a
    return v


def relative(rng, t, rate, done):
    """A type related to t: parts in another order, equal values of other types, other annotations, other classes by
    the same names."""
    def go(t):
        if isinstance(t, dict):
            f = dict(t, t=go(t['t']))
            if f['d'] and rng.random() < rate:
                f['d'] = [equals(rng, f['d'][0], False)]
            return f
        if not isinstance(t, list) or not t:
            return t
        tag = t[0]
        if not isinstance(tag, str):
            return [go(x) for x in t]
        if tag == 'union':
            ts = [go(x) for x in t[1]]
            if rng.random() < rate:
                rng.shuffle(ts)
            ts = gentypes.distinct(ts)
            return ['union', ts] if len(ts) > 1 else ts[0]
        if tag == 'lit':
            vals = []
            for v in t[1]:
                if rng.random() < rate:
                    v = equals(rng, v, True)
                if v not in vals:
                    vals.append(v)
            if rng.random() < rate:
                rng.shuffle(vals)
            return ['lit', vals]
        if tag == 'ann':
            pre, post = [[[a, rng.randrange(9) if a in ('tag', 'etag') and rng.random() < rate else n] for a, n in x]
                         for x in t[2:4]]
            return ['ann', go(t[1]), pre, post]
        if tag == 'struct':
            if t[2] not in done:
                done[t[2]] = t[:3] + [[go(f) for f in t[3]]]
            return done[t[2]]
        if tag in ('list', 'seq', 'mseq') and rng.random() < rate / 4:
            return [rng.choice(['list', 'seq', 'mseq', 'vtuple']), go(t[1])]
        if tag in ('int', 'bool', 'float', 'str') and rng.random() < rate / 4:
            return [rng.choice(['int', 'bool', 'float', 'str'])]
        if tag in gentypes.SEQS or tag == 'vtuple':
            return [tag, go(t[1])]
        if tag in gentypes.MAPS:
            return [tag, t[1], go(t[2])]
        if tag == 'tuple':
            return ['tuple', [go(x) for x in t[1]]]
        return t
    return go(t)


def related(rng, t, env):
    """(t, env) with changes in some of it; None if this is not a type any more."""
    done = {}
    env2 = [[name, relative(rng, d, 0.5, done)] for name, d in env]
    t2 = relative(rng, t, rng.choice([0, 0.3, 0.7]), done)
    return copy.deepcopy(t2), copy.deepcopy(env2)


def parts(t, mod):
    """Descriptors in t of classes of the module."""
    out = []
    if isinstance(t, dict):
        return parts(t['t'], mod)
    if not isinstance(t, list):
        return out
    if t[:1] == ['space']:
        # components are found by their name as well
        spaces = [t] + [['space', c, [[n, c]]] for n, c in t[2]]
        return [(s, getattr(mod, s[1][2])) for s in spaces if hasattr(mod, s[1][2])] + \
            [p for s in spaces for f in s[1][3] for p in parts(f, mod)]
    if t[:1] == ['struct'] and len(t) == 4 and hasattr(mod, t[2]):
        out.append((t, getattr(mod, t[2])))
    if t[:1] == ['enum'] and hasattr(mod, t[1]):
        out.append((t, getattr(mod, t[1])))
    for x in t:
        out += parts(x, mod)
    return out


def fresh_typing():
    for clear in typing._cleanups:
        clear()


class Made:
    """A type in a module of its own, with types made of it."""

    def __init__(self, rng, t, env, name):
        self.t, self.env, self.name = t, env, name
        self.type, self.text, self.enc = gentypes.build(rng, t, env, module=name)
        mod = sys.modules[name]
        self.pool = [(t, self.type)] * 3 + parts(t, mod)
        for n, d in env:
            if hasattr(mod, n):
                self.pool.append((d, getattr(mod, n)))
        d, p = rng.choice(self.pool)
        hard = "['dtm']" in repr(d) or d[0] in ('union', 'tvar', 'proto', 'none', 'any', 'int', 'bool')
        for _ in range(2):
            fresh_typing()
            kind = rng.choice(['list', 'dict', 'union', 'noinu', 'tuple'])
            if kind == 'list':
                self.pool.append((['list', d], typing.List[p]))
            elif kind == 'dict':
                self.pool.append((['dict', ['str'], d], typing.Dict[str, p]))
            elif kind == 'tuple' and self.pool:
                d2, p2 = rng.choice(self.pool)
                self.pool.append((['tuple', [d, d2]], typing.Tuple[p, p2]))
            elif not hard:
                ts = [(['none'], None), (d, p), (['int'], int), (['str'], str)]
                if kind == 'noinu':
                    ts = ts[1:]
                rng.shuffle(ts)
                ts = [x for x in ts if x[0] in (['int'], ['none']) or x[0] is d or rng.random() < 0.5]
                if len(gentypes.distinct([x[0] for x in ts])) == len(ts) > 1:
                    self.pool.append((['union', [x[0] for x in ts]], typing.Union[tuple(x[1] for x in ts)]))

    def drop(self):
        sys.modules.pop(self.name, None)
        self.pool = self.type = self.enc = None


def history(rng, emit, hid):
    profile = rng.choice([drv_types.PROFILES[x] for x in
                          ('U01', 'U02', 'U02', 'U03', 'U05', 'U06', 'U07', 'U07', 'U08')])
    depth = rng.choice(profile['depth'])
    g, t, env = drv_types.make(rng, profile, depth)
    bases = [(drv_types.typed(t, env), env)]
    if rng.random() < 0.3:
        g, t, env = drv_types.make(rng, profile, depth)
        bases.append((drv_types.typed(t, env), env))
    variants = []
    for b in bases:
        variants += [b, b, related(rng, *b), related(rng, *b), related(rng, *b)]
    made = {}
    step = 0

    def get():
        k = rng.randrange(len(variants))
        if k not in made:
            try:
                made[k] = Made(rng, *variants[k], f'tm{k}')
            except (TypeError, SyntaxError, ValueError, NameError):
                return None
        return k

    for step in range(rng.randrange(8, 26)):
        r = rng.random()
        if r < 0.06:
            rng.choice([marsh.schema.caches.cache_clear, marsh.schema.UnmarshalSchema.cache_clear,
                        marsh.schema.UnmarshalSchema.registry.cache_clear])()
            continue
        k = get()
        if k is None:
            continue
        m = made[k]
        d, p = rng.choice(m.pool)
        # typing itself takes equal names of different modules in postponed annotations for each other
        fresh_typing()
        if r < 0.10:
            codec.guard(lambda: marsh.doc.markdown(p))
        elif r < 0.14:
            codec.guard(lambda: marsh.schema.UnmarshalSchema(p).doc(rng.choice([0, 3])))
        elif r < 0.17:
            codec.guard(lambda: marsh.schema.UnmarshalSchema(p).select(rng.choice(['a', 'x', '0'])))
        elif r < 0.20:
            m.drop()
            m = made.pop(k)
            del m, p, d
            gc.collect()
        elif r < 0.23:
            codec.guard(lambda: marsh.marshal(marsh.unmarshal(p, gentypes.Elements(rng, m.env, mess=0)(d))))
        else:
            els = gentypes.Elements(rng, m.env, mess=rng.choice([0.05, 0.05, 0.4]), missing=0.02)
            e = els(d)
            ev = {'op': 'um', 't': d, 'env': m.env, 'e': m.enc(e), 'src': m.text, 'kw': [], 'history': hid, 'step': step}
            ev['out'] = codec.outcome(lambda: marsh.unmarshal(p, e), m.enc)
            emit(ev)


def forked(fn, emit):
    """Run fn(emit) in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        code = 1
        try:
            with os.fdopen(w, 'w', encoding='utf-8') as out:
                fn(lambda ev: out.write(json.dumps(ev, ensure_ascii=False) + '\n'))
            code = 0
        except BaseException as err:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, encoding='utf-8') as f:
        for line in f:
            emit(json.loads(line))
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError('the process of a history failed')


def record(job, emit):
    rng = random.Random(job['seed'])
    n = 0

    def count(ev):
        nonlocal n
        n += 1
        emit(ev)
    hid = 0
    while n < job['n']:
        hid += 1
        seed = rng.random()
        forked(lambda out: history(random.Random(seed), out, hid), count)


def replay(job, emit):
    """Histories of the specification, with the outcomes it wants."""
    types = job['types']
    for case in job['cases']:
        def one(out, case=case):
            rng = random.Random(repr(case))
            built = {}
            for step, o in enumerate(case['ops']):
                if o['op'] == 'clear':
                    marsh.schema.UnmarshalSchema.cache_clear()
                    continue
                if o['op'] == 'drop':
                    if o['i'] in built:
                        built.pop(o['i']).drop()
                        gc.collect()
                    continue
                i = o['i']
                if i not in built:
                    built[i] = Made(rng, types[i - 1], [], f'tm{i}')
                m = built[i]
                res = codec.outcome(lambda: marsh.unmarshal(m.type, codec.dec(o['e'])), m.enc)
                want = o['out']
                good = (want[0] == 'ok' and res['k'] == 'ok' and res['v'] == want[1]) or \
                    (want[0] == 'err' and res['k'] == 'unmarshal')
                if not good:
                    out({'case': case, 'step': step, 'out': res, 'want': want, 'src': m.text})
                    return
        forked(one, emit)
    emit({'done': len(job['cases'])})


def main(job, emit):
    {'record': record, 'replay': replay}[job['mode']](job, emit)


if __name__ == '__main__':
    codec.run(main)
