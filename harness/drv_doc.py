"""Records the documentation of types, the types at paths and the help of programs."""
import contextlib
import io
import os
import random
import re
import sys

import codec
import drv_bind
import gentypes
import marsh
import marsh.doc.terminal
import marsh.schema

WEIGHTS = {'fn': 3, 'dc': 8, 'nt': 4, 'td': 4, 'tuple': 4, 'prim': 14, 'opt': 4, 'space': 3}
SPECIAL = re.compile(r'^name = "(.*?)" -> (.*)$', re.S)


def chars(text):
    return list(text) if isinstance(text, str) else ['?', repr(text)]


def tree(doc):
    """A documentation as in spec/Doc.tla."""
    out = {'d': [] if doc.default is None else [chars(doc.default)], 'f': [], 's': [], 'st': []}
    if doc.fields is not None:
        out['f'] = [[[chars(name), tree(field.doc), chars(field.type or '')] for name, field in doc.fields.items()]]
    for special in doc.special_fields or ():
        m = SPECIAL.match(special.value)
        out['s'].append(chars(m[1]) if m else ['?'])
        out['st'].append(chars(m[2]) if m else ['?'])
    return out


def lines(text):
    """The entries of a rendered documentation."""
    out = []
    for block in text.split('\n\n') if text else []:
        bare = block.lstrip(' ')
        out.append({'indent': len(block) - len(bare), 'text': list(bare.rstrip('\n'))})
    return out


def write(rng, fields):
    """A text of a path."""
    out = []
    for f in fields:
        if re.search(r'[.\'"\\]', f):
            if '"' not in f and '\\' not in f and rng.random() < 0.5:
                out.append(f'"{f}"')
            else:
                out.append(re.sub(r'([.\'"\\])', r'\\\1', f))
        elif rng.random() < 0.04:
            out.append(f"'{f}'")
        else:
            out.append(f)
    text = '.'.join(out)
    if text and rng.random() < 0.04:
        text = rng.choice(['.' + text, text + '.', text.replace('.', '..', 1)])
    return text


def walk(rng, t, env, steps):
    """Fields of some path into a type."""
    while t[0] in ('ann', 'tvar', 'ref'):
        if t[0] == 'tvar' and len(t[1]) > 1:
            t = ['union', t[1]]
        else:
            t = t[1] if t[0] == 'ann' else t[1][0] if t[0] == 'tvar' else env[t[1]]
    kind = gentypes.KIND.get(t[0], t[0])
    if kind in ('seq', 'map') or t[0] == 'vtuple':
        return walk(rng, t[-1], env, steps)
    if kind == 'union' and len(t[1]) == 2 and gentypes.NONE in t[1]:
        return walk(rng, [x for x in t[1] if x != gentypes.NONE][0], env, steps)
    if steps <= 0:
        return []
    options = []
    if t[0] == 'space':
        options = [(''.join(n), c) for n, c in t[2]] + [(''.join(f['n']), f['t']) for f in t[1][3]]
    if t[0] == 'struct':
        options = [({'va': '*', 'vk': '**'}.get(f['k'], '') * (rng.random() < 0.5) + ''.join(f['n']), f['t'])
                   for f in t[3]]
    if t[0] == 'tuple':
        options = [(str(i), x) for i, x in enumerate(t[1])]
    if not options:
        return []
    n, x = rng.choice(options)
    return [n] + walk(rng, x, env, steps - 1)


def path_of(rng, t, env):
    fields = walk(rng, t, env, rng.choice([0, 1, 1, 2, 2, 3, 4]))
    r = rng.random()
    if r < 0.15:
        fields.append(rng.choice(['a', 'zz', '0', 'name', 'real', 'x.y', 'key', '*']))
    elif r < 0.25 and fields:
        i = rng.randrange(len(fields))
        fields[i] = rng.choice(['q', '1', fields[i] + 'x', fields[i].upper(), 'self'])
    elif r < 0.3 and fields:
        del fields[rng.randrange(len(fields))]
    return write(rng, fields)


def select(rng, schema, path, depth, elements, enc):
    try:
        got = schema.select(path)
    except marsh.errors.PathError as err:
        return {'k': 'path', 'at': chars(err.path)}, []
    except Exception as err:
        return {'k': type(err).__name__, 'at': []}, []
    uses = []
    for e in elements:
        out = codec.outcome(lambda e=e: got.unmarshal(e), enc)
        if out['k'] in ('hang',):
            out = {'k': 'skip'}
        uses.append({'e': enc(e), 'out': out})
    return {'k': 'ok', 'at': [], 'doc': tree(got.doc(depth))}, uses


def site(rng, t):
    """Values for the call site of a callable."""
    fields = t[3]
    positional = [f for f in fields if f['k'] in ('po', 'pk')]
    va = any(f['k'] == 'va' for f in fields)
    vk = any(f['k'] == 'vk' for f in fields)
    n = rng.choice([0, 0, 1, 2, len(positional)])
    n = min(n, len(positional)) + (rng.randrange(3) if va and n >= len(positional) else 0)
    ca = [drv_bind.plain(rng) for _ in range(n)]
    free = [''.join(f['n']) for f in positional[n:]] + [''.join(f['n']) for f in fields if f['k'] == 'ko']
    ck = {k: drv_bind.plain(rng) for k in free if rng.random() < 0.3}
    if vk:
        ck |= {k: drv_bind.plain(rng) for k in ('zz', 'other') if rng.random() < 0.3}
    return ca, ck


def show(rng, type_, t, path, ca, ck, depth):
    """Runs a program that is asked for help."""
    if t[0] == 'struct' and t[1] == 'fn' and (ca or ck or rng.random() < 0.6):
        main = marsh.main(type_, help_depth=depth)
    else:
        def program(*args, **kwargs):
            raise AssertionError('called')
        main = marsh.main(program, config=type_, help_depth=depth)
    h = rng.choice(['-h', '--help'])
    argv = [h] if not path else [f'--help={path}'] if path.startswith('-') else rng.choice([[h, path], [f'--help={path}']])
    old = sys.argv
    sys.argv = ['program.py', *argv]
    out = io.StringIO()
    code = -1
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main(*ca, **ck)
    except SystemExit as err:
        code = err.code if isinstance(err.code, int) else 0 if err.code is None else 1
    finally:
        sys.argv = old
    return code, out.getvalue()


def record(job, emit):
    os.environ['COLUMNS'] = '100000'
    rng = random.Random(job['seed'])
    n = modules = 0
    while n < job['n']:
        g = gentypes.Gen(rng, WEIGHTS)
        if rng.random() < 0.2:
            rec = g.recursive(2, rng.choice([1, 1, 2, 3]))
            g.env = [[x[2], x] for x in rec]
            t = ['ref', rng.choice(rec)[2]] if rng.random() < 0.7 else g.type(2)
        else:
            r = rng.random()
            t = g.struct(rng.choice(['fn', 'fn', 'dc', 'nt', 'td']), 3) if r < 0.6 else g.type(rng.choice([1, 2, 3]))
        modules += 1
        try:
            type_, text, enc = gentypes.build(rng, t, g.env, module=f'td{job["seed"]}x{modules}')
            schema = marsh.schema.UnmarshalSchema(type_)
        except (TypeError, SyntaxError, ValueError, NameError, RecursionError) as err:
            emit({'skip': f'{type(err).__name__}: {err}', 't': t})
            continue
        except marsh.errors.MarshError as err:
            emit({'skip': f'{type(err).__name__}: {err}', 't': t})
            continue
        env = dict(g.env)
        base = {'t': t, 'env': g.env, 'src': text, 'ca': [], 'ck': []}
        callable_ = t[0] == 'struct' and t[1] == 'fn'
        for _ in range(3):
            n += 1
            depth = rng.choice([0, 1, 1, 2, 2, 3, 5])
            ev = {**base, 'op': 'doc', 'depth': depth}
            ca, ck = site(rng, t) if callable_ else ([], {})
            if (ca or ck) and rng.random() < 0.6:
                doc = schema.doc(depth, default_args=ca or None, default_kwargs=ck or None)
                ev |= {'ca': [enc(x) for x in ca], 'ck': [[list(k), enc(x)] for k, x in ck.items()]}
            else:
                doc = schema.doc(depth)
            ev['doc'] = tree(doc)
            emit(ev)
            # how it is shown
            prefix = rng.choice(['', '', 'a', 'a.b', 'x.y.z'])
            limit = rng.choice([0, 1, 2, depth, depth, depth + 1])
            source = doc if rng.random() < 0.5 or ev['ca'] or ev['ck'] else schema if rng.random() < 0.5 else type_
            if source is not doc:
                limit = depth
            shown = marsh.doc.terminal.format_unmarshal_fields(source, prefix_path=prefix, width=100000, depth=limit)
            emit({**base, 'op': 'lines', 'doc': ev['doc'], 'depth': limit, 'prefix': list(prefix),
                  'lines': lines(shown)})
            # paths
            path = path_of(rng, t, env)
            if path not in ('', '.', '..'):
                elements = []
                if "'space'" not in repr(base['t']) + repr(g.env):
                    els = gentypes.Elements(rng, g.env)
                    elements = [e for e in (els.anything() for _ in range(2)) if '???' not in repr(e)]
                out, uses = select(rng, schema, path, depth, elements, enc)
                emit({**base, 'op': 'select', 'path': list(path), 'depth': depth, 'out': out, 'uses': uses})
            # programs
            if callable_ or rng.random() < 0.3:
                depth = rng.choice([1, 2, 2, 3])
                path = rng.choice(['', path]) if callable_ else path
                if path in ('.', '..') or not callable_ and not path:
                    continue
                code, text_out = show(rng, type_, t, path, ca, ck, depth)
                if not path:
                    found = tree(schema.doc(depth, default_args=ca or None, default_kwargs=ck or None))
                    got = text_out.split('\nfields:\n', 1)[1] if '\nfields:\n' in text_out else ''
                    got = lines(got[:-1] if got.endswith('\n') else got)
                else:
                    found, got = [], []
                    if code == 0:
                        found = tree(schema.select(path).doc(depth))
                        got = lines(text_out[:-1] if text_out.endswith('\n') else text_out)
                        got = [x for x in got if x['indent'] > 0]
                emit({**base, 'op': 'help', 'path': list(path), 'depth': depth, 'code': code, 'doc': found,
                      'lines': got, 'ca': [enc(x) for x in ca], 'ck': [[list(k), enc(x)] for k, x in ck.items()]})


def named(t, names):
    """A type of the model, with a name of its own for each structure."""
    if t[0] == 'struct':
        name = names.setdefault(repr(t), f'S{len(names)}')
        return ['struct', t[1], name, [{**f, 't': named(f['t'], names)} for f in t[3]]]
    if t[0] in ('union', 'tuple', 'tvar'):
        return [t[0], [named(x, names) for x in t[1]]]
    return [t[0], *[named(x, names) if isinstance(x, list) and x and isinstance(x[0], str) else x for x in t[1:]]]


def same(a, b):
    """Is a documentation as specified?"""
    if a['d'] != b['d'] or a['s'] != b['s'] or len(a['f']) != len(b['f']):
        return False
    if not a['f']:
        return True
    return len(a['f'][0]) == len(b['f'][0]) and all(x[0] == y[0] and same(x[1], y[1])
                                                     for x, y in zip(a['f'][0], b['f'][0]))


def replay(job, emit):
    """Types of the model with their documentation and paths."""
    rng = random.Random(job['seed'])
    for i, case in enumerate(job['cases']):
        t = named(case['t'], {})
        type_, text, enc = gentypes.build(rng, t, [], module=f'tm{job["part"]}x{i}')
        schema = marsh.schema.UnmarshalSchema(type_)
        n = 0
        for depth, want in enumerate(case['docs']):
            n += 1
            got = tree(schema.doc(depth))
            if not same(got, want):
                emit({'what': 'doc', 't': t, 'src': text, 'depth': depth, 'doc': got, 'want': want})
        for p in case['paths']:
            n += 1
            fields = [''.join(x) for x in p['p']]
            out, _ = select(rng, schema, '.'.join(fields), 2, [], enc)
            want = p['at'] if not p['ok'] else []
            if out['k'] != ('ok' if p['ok'] else 'path') or out['at'] != list('.'.join(''.join(x) for x in want)) \
                    or p['ok'] and not same(out['doc'], p['doc'][0]):
                emit({'what': 'path', 't': t, 'src': text, 'path': fields, 'out': out, 'want': p})
        emit({'done': n})


def main(job, emit):
    if job['mode'] == 'replay':
        replay(job, emit)
    if job['mode'] == 'record':
        record(job, emit)


if __name__ == '__main__':
    codec.run(main)
