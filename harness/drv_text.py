"""Reads and writes path and element texts with the code."""
import random
import re

import codec
import gen
import marsh
import marsh.parse

P = marsh.path
enc = codec.enc_abs


def enc_text(s):
    return list(s)


def enc_override(o):
    if isinstance(o, marsh.parse.DeleteValue):
        return {'kind': 'delete', 'path': list(o.path), 'combine': False, 'v': ['N']}
    if isinstance(o, marsh.parse.SetValue):
        return {'kind': 'value', 'path': list(o.path), 'combine': bool(o.combine),
                'v': enc(o.value)}
    if isinstance(o, marsh.parse.SetConfig):
        return {'kind': 'config', 'path': list(o.path), 'combine': bool(o.combine),
                'v': enc(tuple(o.names))}
    return {'kind': type(o).__name__, 'path': [], 'combine': False, 'v': ['N']}


NUM = re.compile(r'[0-9_.]+(?:[eE][+-]?[0-9_]+)?')


def exact(text):
    """Whether the numbers in a text are the decimals they look like: floats
    beyond 2**53 are integers that only come close."""
    for m in NUM.finditer(text):
        try:
            x = float(m.group())
        except ValueError:
            continue
        if ('e' in m.group().lower() or '.' in m.group()) and abs(x) > 2**53 and x != 1e22:
            return False
        if 0 < abs(x) < 1e-290 or (x != int(x) if abs(x) < 1e300 else False) \
                and sum(c.isdigit() for c in m.group()) > 15:
            return False
    return True


def fits(text):
    """Whether the integers in a text have room in a float, should one be asked for."""
    return all(int(float(m)) == int(m) for m in re.findall(r'\d{16,300}', text.replace('_', '')))


def replay(job, emit):
    what = job['what']
    for n, case in enumerate(job['cases']):
        text = ''.join(case['t'])
        if not exact(text):
            continue
        want = case['m']
        if what == 'path':
            out = codec.outcome(lambda: P.split(text), lambda v: [list(f) for f in v])
            good = (out['k'] == 'ok' and out['v'] == want['fields']) if want['ok'] \
                else out['k'] == 'path'
        elif what == 'element':
            out = codec.outcome(lambda: marsh.parse.element(text), enc)
            good = (out['k'] == 'ok' and out['v'] == want['v']) if want['ok'] \
                else out['k'] == 'parse'
        else:
            out = codec.outcome(lambda: marsh.parse.override(text), enc_override)
            if want['ok']:
                good = out['k'] == 'ok' and all(
                    out['v'][f] == want[f] for f in ('kind', 'path', 'combine', 'v'))
            else:
                good = out['k'] == 'parse'
        if not good:
            emit({'t': text, 'out': out, 'want': want})
    emit({'done': len(job['cases'])})


FIELD_CHARS = ['a', 'b', 'Z', '.', '/', ':', '"', "'", '\\', ' ', 'é', '日', '0', '-', '=', '[', '\n']


def field(rng, long=False):
    n = rng.choice([0, 1, 1, 2, 3, 5])
    if long:
        n = rng.randrange(100, 300)
    return ''.join(rng.choice(FIELD_CHARS) for _ in range(n))


def record_path(job, emit):
    rng = random.Random(job['seed'])
    for n in range(job['n']):
        d = rng.choice(['.', '.', '.', '/', ':', ' '])
        fs = [field(rng, rng.random() < 0.005) for _ in range(rng.randrange(0, 6))]
        if rng.random() < 0.02:
            fs = [field(rng) for _ in range(40)]
        good = [f for f in fs if f]
        r = rng.random()
        if r < 0.5:
            p = gen.path_text(rng, good, d, mess=0.15)
        elif r < 0.75:
            p = ''.join(rng.choice(FIELD_CHARS) for _ in range(rng.randrange(0, 9)))
        else:
            p = P.join_fields(fs, d)
        op = ['split', 'join', 'escape', 'prepend', 'append', 'head', 'tail', 'strip'][n % 8]
        f = field(rng)
        ev = {'op': op, 'd': d, 'p': list(p), 'f': list(f)}
        kw = {} if d == '.' and rng.random() < 0.5 else {'delimiter': d}
        if op == 'split':
            ev['out'] = codec.outcome(lambda: P.split(p, **kw), lambda v: [list(x) for x in v])
        elif op == 'join':
            ev['f'] = [list(x) for x in fs]
            ev['out'] = codec.outcome(lambda: P.join_fields(fs, **kw), enc_text)
        elif op == 'escape':
            ev['out'] = codec.outcome(lambda: P.escape_field(f, **kw), enc_text)
        elif op == 'prepend':
            ev['out'] = codec.outcome(lambda: P.prepend(p, f, **kw), enc_text)
        elif op == 'append':
            ev['out'] = codec.outcome(lambda: P.append(p, f, **kw), enc_text)
        elif op == 'strip':
            ev['out'] = codec.outcome(lambda: P.strip_delimiter(p, **kw), enc_text)
        else:
            fn = P.head if op == 'head' else P.tail
            ev['out'] = codec.outcome(lambda: tuple(fn(p, **kw)), lambda v: [list(x) for x in v])
        emit(ev)


NUMBERS = ['0', '1', '-1', '+7', '007', '1_000', '1__0', '_1', '1_', '.5', '5.', '1.5', '-2.50',
           '1e3', '1E-3', '1e+22', '2.5e10', '1e', 'e5', '1.5.2', 'inf', '-Infinity', 'NaN', '0x1f',
           '123456789012345678901234567890', '-0', '-0.0', '00.10', '1 000', '9007199254740993',
           '0.1', '3.0', '12345.678', '1e-7', '+.5', '--1', '1-', '999999999999999', '+', '-', '.']
BARE = ['a', 'hello', 'true', 'False', 'NULL', 'null ', 'nul', 'None', 'yes', 'a b', ' x', 'x ', 'é',
        '???', '??', 'a=b', "it's", 'a"b', '~', '@', '-', '.', '\\,', '\\\\', 'a\\ b', '\t', '']


def random_text(rng, depth=3):
    r = rng.random()
    if depth <= 0 or r < 0.45:
        r = rng.random()
        if r < 0.4:
            s = rng.choice(NUMBERS)
        elif r < 0.75:
            s = rng.choice(BARE)
        else:
            q = rng.choice('"\'')
            s = q + ''.join(rng.choice(['a', ' ', ',', '}', ']', ':', '5', '\\' + q, '\\\\', "'" if
                                        q == '"' else '"', 'é']) for _ in range(rng.randrange(5))) + q
        return ws(rng) + s + ws(rng)
    n = rng.choice([0, 1, 2, 3])
    if rng.random() < 0.04:
        n = 40
        depth = 1
    if r < 0.75:
        o, c = rng.choice([('[', ']'), ('(', ')')])
        return ws(rng) + o + ','.join(random_text(rng, depth - 1) for _ in range(n)) + ws(rng) \
            + c + ws(rng)
    return ws(rng) + '{' + ','.join(
        ws(rng) + rng.choice(['a', 'b', '"k"', "'x:y'", 'a b', 'c\\:d', '1', '']) + ws(rng) + ':'
        + random_text(rng, depth - 1) for _ in range(n)) + '}' + ws(rng)


def ws(rng):
    return rng.choice(['', '', '', '', ' ', '\t', '  ', '\n', '\u00a0'])


def mutate(rng, text):
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        i = rng.randrange(len(text) + 1)
        r = rng.random()
        if r < 0.5 and text:
            text = text[:i] + text[i + 1:]
        else:
            text = text[:i] + rng.choice(list('[](){},:"\'\\ a1+=@~')) + text[i:]
    return text


def record_grammar(job, emit):
    rng = random.Random(job['seed'])
    for n in range(job['n']):
        if n % 12 == 0:
            t = mutate(rng, rng.choice(NUMBERS + BARE))
            if not exact(t):
                continue
            emit({'op': 'terminal', 't': list(t),
                  'out': codec.outcome(lambda: marsh.parse.terminal(t), enc)})
            continue
        if n % 12 == 1:
            t = mutate(rng, rng.choice(['', ' ', '[', '(']) + ','.join(
                random_text(rng, 0) for _ in range(rng.randrange(4))) + rng.choice(['', ']', ')']))
            emit({'op': 'names', 't': list(t), 'out': codec.outcome(
                lambda: marsh.parse.config_names(t), lambda v: enc(tuple(v)))})
            continue
        t = mutate(rng, random_text(rng, rng.randrange(0, 4)))
        if not exact(t):
            continue
        emit({'op': 'element', 't': list(t),
              'out': codec.outcome(lambda: marsh.parse.element(t), enc)})


# -- writing -------------------------------------------------------------------
def safe_bare(s):
    """Whether a string can stand unquoted anywhere."""
    return (s != '' and s == s.strip() and all(c.isalnum() or c in ' .-_/%' for c in s)
            and s[0].isalpha() and s.lower() not in
            ('true', 'false', 'null', 'inf', 'nan', 'infinity'))


def write(rng, e, indent=False):
    if e is None:
        return rng.choice(['null', 'NULL', 'Null'])
    if e is True or e is False:
        t = str(e)
        return rng.choice([t, t.lower(), t.upper()])
    if isinstance(e, (int, float)):
        return repr(e)
    if isinstance(e, str):
        r = rng.random()
        if safe_bare(e) and r < 0.5:
            return e
        q = rng.choice('"\'')
        if r > 0.9:
            return q + ''.join('\\' + c for c in e) + q
        return q + ''.join('\\' + c if c in (q, '\\') else c for c in e) + q
    pad = ws if indent else (lambda rng: '')
    if isinstance(e, dict):
        return '{' + pad(rng) + ','.join(
            pad(rng) + write_key(rng, k) + pad2(rng, k) + ':' + pad(rng) + write(rng, v, indent)
            + pad3(rng, v, pad) for k, v in e.items()) + '}'
    o, c = rng.choice(['[]', '()'])
    return o + pad(rng) + ','.join(
        pad(rng) + write(rng, x, indent) + pad3(rng, x, pad) for x in e) + c


def write_key(rng, k):
    q = rng.choice('"\'')
    return q + ''.join('\\' + c if c in (q, '\\') else c for c in k) + q


def pad2(rng, k):
    return rng.choice(['', ' '])


def pad3(rng, v, pad):
    # whitespace after an unquoted string would belong to it
    return pad(rng) if isinstance(v, (dict, list)) else ''


def strings_only(e):
    """No integral floats, no other keys than strings."""
    if isinstance(e, float) and e == int(e):
        return e + 0.5 if abs(e) < 1e9 else 0.25
    if isinstance(e, dict):
        return {str(k): strings_only(v) for k, v in e.items()}
    if isinstance(e, list):
        return [strings_only(v) for v in e]
    return e


def record_written(job, emit):
    rng = random.Random(job['seed'])
    for n in range(job['n']):
        e = strings_only(gen.any_element(rng))
        t = write(rng, e, rng.random() < 0.5)
        emit({'op': 'written', 'e': enc(e), 't': list(t),
              'out': codec.outcome(lambda: marsh.parse.element(t), enc)})


# -- overrides ---------------------------------------------------------------------
def override_text(rng, plain):
    fields = gen.walk_fields(rng, plain, 0.15)
    p = gen.path_text(rng, fields, mess=0.03)
    r = rng.random()
    # the path is read as a string first: escape for that
    if r < 0.35:
        p = ''.join('\\' + c if c in '+=@\\' else c for c in p)
    elif r < 0.7:
        q = rng.choice('"\'')
        p = q + ''.join('\\' + c if c in (q, '\\') else c for c in p) + q
    r = rng.random()
    if r < 0.2:
        return ws(rng) + '~' + ws(rng) + p
    if r < 0.28:
        return p + rng.choice(['@', '+@']) + rng.choice(
            ['a', 'a,b', ' "x,y" , z', '[a, b]', '(a)', '', 'a,', ' ', '[', 'p/q.yaml'])
    return ws(rng) + p + rng.choice(['=', '=', '+=']) + (
        write(rng, strings_only(gen.element(rng, 2)), True) if rng.random() < 0.7
        else random_text(rng, 2))


def record_override(job, emit):
    rng = random.Random(job['seed'])
    for n in range(job['n']):
        plain = gen.any_element(rng)
        if n % 2:
            t = override_text(rng, plain)
            if rng.random() < 0.3:
                t = mutate(rng, t)
            if not exact(t):
                continue
            emit({'op': 'override', 't': list(t), 'out': codec.outcome(
                lambda: marsh.parse.override(t), enc_override)})
            continue
        ts = []
        while len(ts) < rng.choice([1, 2, 2, 3, 4, 6]):
            t = override_text(rng, plain)
            if not exact(t):
                continue
            try:
                o = marsh.parse.override(t)
                if isinstance(o, marsh.parse.SetConfig) or (
                        isinstance(o, marsh.parse.DeleteValue) and not P.split(o.path)):
                    continue
            except Exception:
                if rng.random() < 0.9:
                    continue
            ts.append(t)

        def fold():
            e = plain
            for t in ts:
                e = marsh.parse.override(t).apply(e)
            return e
        emit({'op': 'fold', 'e': enc(plain), 'ts': [list(t) for t in ts],
              'out': codec.outcome(fold, enc)})


def main(job, emit):
    {'replay': replay, 'path': record_path, 'grammar': record_grammar,
     'written': record_written, 'override': record_override}[job['mode']](job, emit)


if __name__ == '__main__':
    codec.run(main)
