"""Runs programs through their entry points, each history of runs in a process and a directory of its own."""
import contextlib
import io
import json
import os
import random
import re
import sys
import tempfile

import codec
import drv_config
import drv_history
import drv_text
import gentypes
import marsh
import typelib
import yaml

WEIGHTS = {'fn': .3, 'prim': 14, 'any': 2, 'seq': 4, 'map': 3, 'opt': 4, 'dc': 2, 'nt': .5, 'td': .5, 'ann': 1}
TIME = re.compile(r'^\d{8}T\d{6}\.\d{6}Z$')
#: stands for our directory in texts
TOP = '\0'


class Raised(Exception):
    """What a program raises."""


class World(drv_config.World):

    def __init__(self, rng, top):
        super().__init__(rng, top)
        self.known = {}

    def put(self, path, node):
        super().put(path, node)
        if node[0] != 'dir':
            with open(self.real(path), 'rb') as fp:
                self.known[path] = (fp.read(), node)

    def nodes(self):
        """Everything below our directory."""
        out = []

        def go(path):
            for name in sorted(os.listdir(self.real(path))):
                p = (*path, name)
                if os.path.isdir(self.real(p)):
                    out.append([self.names(p), ['dir']])
                    go(p)
                else:
                    out.append([self.names(p), self.node(p)])
        go(())
        return out

    def names(self, path):
        return [list('<time>' if TIME.match(x) else x) for x in path]

    def node(self, path):
        with open(self.real(path), 'rb') as fp:
            data = fp.read()
        if path in self.known and self.known[path][0] == data:
            return self.known[path][1]
        ext = os.path.splitext(path[-1])[1].lower()
        try:
            if ext == '.json':
                return ['file', codec.enc_abs(json.loads(data))]
            if ext in ('.yaml', '.yml'):
                return ['file', codec.enc_abs(yaml.safe_load(data.decode()))]
        except Exception:
            pass
        return ['junk']

    def here(self):
        return self.names(self.virtual(os.getcwd()))

    def both(self, text):
        """A text with our directory in it, for marsh and for the specification."""
        return text.replace(TOP, self.top), list(text.replace(TOP, ''))

    def path(self, text):
        return TOP + text if text.startswith('/') else text


class Program:
    """A program: a callable or a callable and its config class."""

    def __init__(self, world, kind, t, type_, enc, logging=False):
        self.world = world
        self.kind = kind
        self.t = t
        self.enc = enc
        self.calls = []
        self.behave = ['return']
        self.buf = None
        options = {'setup_logging': True} if logging else {}
        if kind == 'config':
            def program(*args, **kwargs):
                return self.called(args, kwargs)
            self.main = marsh.main(program, config=type_, **options)
        elif options or world.rng.random() < 0.5:
            self.main = marsh.main(**options)(type_)
        else:
            self.main = marsh.main(type_)
        typelib.Call.also = self.also

    def also(self, call):
        if self.kind == 'fn' and call.name == self.t[2]:
            self.log(self.enc(call))

    def called(self, args, kwargs):
        if len(args) == 1 and not kwargs and not self.direct:
            self.log(self.enc(args[0]))
        else:
            self.log(['site', [self.enc(x) for x in args], [[self.enc(k), self.enc(v)] for k, v in kwargs.items()]])
        return 'value'

    def log(self, code):
        self.calls.append({'v': code, 'cwd': self.world.here()})
        if self.shown is None and self.buf is not None:
            self.shown = self.buf.getvalue()
        print('the program was called')
        b = self.behave
        if b[0] == 'raise':
            raise {'Raised': Raised(), 'KeyboardInterrupt': KeyboardInterrupt(), 'SystemExit': SystemExit(5),
                   'MarshError': marsh.errors.MarshError('no'), 'OSError': OSError('no'),
                   'UnmarshalError': marsh.errors.UnmarshalError('no', path='a')}[b[1]]
        if b[0] == 'write':
            with open(self.world.real(''.join(x) for x in b[1]), 'w') as fp:
                fp.write('written\n')
        if b[0] == 'cd':
            os.chdir(self.world.both(b[2])[0])

    def run(self, argv, ca, ck, behave, asked):
        self.calls = []
        self.behave = behave
        self.shown = None
        self.direct = bool(ca or ck)
        old = sys.argv
        sys.argv = ['program.py', *argv]
        self.buf = io.StringIO()
        kind = {'Raised': Raised, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit,
                'MarshError': marsh.errors.MarshError, 'OSError': OSError,
                'UnmarshalError': marsh.errors.UnmarshalError}.get(behave[1] if behave[0] == 'raise' else None, ())
        try:
            with contextlib.redirect_stdout(self.buf), contextlib.redirect_stderr(io.StringIO()):
                value = self.main(*ca, **ck)
            end = ['returned']
            if self.kind == 'fn' and self.t[1] == 'dc':
                self.calls.append({'v': self.enc(value), 'cwd': self.inside()})
            elif self.kind == 'config' and value != 'value':
                end = ['returned other']
        except BaseException as err:
            if self.calls and isinstance(err, kind):
                end = ['raised', behave[1]]
            elif isinstance(err, SystemExit):
                end = ['exit', '0' if not err.code else 'nonzero']
            elif isinstance(err, Exception):
                end = ['exit', 'nonzero']
            else:
                end = ['?', type(err).__name__]
        finally:
            sys.argv = old
        return {'end': end, 'calls': self.calls, 'cwd': self.world.here(), 'fs': self.world.nodes(),
                'docs': self.docs() if asked else []}

    def inside(self):
        """Where a class without a body was made: unknown."""
        return self.world.here()

    def docs(self):
        """The configs that may be meant by what was written to the standard output."""
        if self.shown is not None:
            texts = [self.shown]
        else:
            lines = self.buf.getvalue().splitlines(keepends=True)
            texts = [''.join(lines[:n]) for n in range(1, len(lines) + 1) if n < 60 or n > len(lines) - 20]
        docs = []
        for text in texts:
            try:
                code = codec.enc_abs(yaml.safe_load(text))
            except Exception:
                continue
            if text and code not in docs:
                docs.append(code)
        return docs


# -- command lines -------------------------------------------------------------
def arrange(rng, o, junk):
    """An argument list with these options: values of `o` are texts or None."""
    groups = []
    bare = []
    if o['help'] is not None:
        h = rng.choice(['-h', '--help'])
        if o['help'] == '':
            bare.append([h])
        else:
            groups.append(rng.choice([[h, o['help']], [f'--help={o["help"]}']]))
    if o['root'] is not None:
        groups.append(rng.choice([['-c', o['root']], ['--config-dir', o['root']], [f'--config-dir={o["root"]}']]
                                 + ([[f'-c{o["root"]}']] if o['root'] else [])))
    if o['output'] is not None:
        if o['output'] == 'default':
            bare.append([rng.choice(['-o', '--output'])])
        else:
            groups.append(rng.choice([['-o', o['output']], ['--output', o['output']], [f'--output={o["output"]}']]
                                     + ([[f'-o{o["output"]}']] if o['output'] else [])))
    if o['out'] is not None:
        if o['out'] == '-' and rng.random() < 0.5:
            bare.append(['--config-out'])
        elif o['out'] == '-':
            groups.append(['--config-out=-'] if rng.random() < 0.5 else ['--config-out', '-'])
        else:
            groups.append(rng.choice([['--config-out', o['out']], [f'--config-out={o["out"]}']]))
    if junk:
        groups.append(junk)
    rng.shuffle(groups)
    overrides = o['overrides']
    front = overrides and (bare or junk == ['-c'] or rng.random() < 0.5)
    # an option without its value takes the next argument
    if junk == ['-c']:
        groups.remove(junk)
        bare.append(junk)
    rest = groups + bare if rng.random() < 0.5 or not bare else bare[:-1] + groups + bare[-1:]
    if junk == ['-c'] and rest[-1] != junk:
        rest.remove(junk)
        rest.append(junk)
    args = [x for g in rest for x in g]
    return [*overrides, *args] if front else [*args, *overrides]


def plain(e):
    """As a config file or a command line can hold it."""
    if isinstance(e, dict):
        return {str(k): plain(v) for k, v in e.items() if isinstance(k, str)}
    if isinstance(e, (list, tuple)):
        return [plain(v) for v in e]
    return e


def keyed(e):
    """With the keys a command line can hold."""
    if isinstance(e, dict):
        return {str(k): keyed(v) for k, v in e.items()}
    return [keyed(v) for v in e] if isinstance(e, (list, tuple)) else e


class Line:
    """Spreads an element over overrides, configs and the call site."""

    def __init__(self, rng, world, root):
        self.rng = rng
        self.world = world
        self.root = root            # a path
        self.overrides = []         # with TOP
        self.files = 0
        self.meta = 0

    def text(self, e):
        """The text of a value (command lines have no null characters)."""
        return drv_text.write(self.rng, keyed(e), self.rng.random() < 0.3).replace('\0', '')

    def file(self, e, how='='):
        """A config with this content, by some name."""
        rng = self.rng
        self.files += 1
        base = self.root if self.root is not None else self.world.cwd
        parent = rng.choice([d for d in self.world.dirs if rng.random() < 0.3 or d[:len(base)] == base] or [()])
        path = (*parent, f'c{self.files}' + rng.choice(['.json', '.yaml', '.yml', '.YML']))
        if rng.random() < 0.15 and isinstance(e, dict):
            e = {**e, '_meta_': {'f': self.files}}
        self.world.put(path, ['file', codec.enc_abs(e)])
        if path[:len(base)] == base and rng.random() < 0.8:
            name = '/'.join(path[len(base):])
        else:
            name = TOP + '/' + '/'.join(path)
        return os.path.splitext(name)[0] if rng.random() < 0.6 else name

    def path(self, fields):
        p = drv_text.gen.path_text(self.rng, [f for f in fields], mess=0)
        q = self.rng.choice(['', '"', "'"])
        if not q:
            p = ''.join('\\' + c if c in '+=@\\' else c for c in p)
            # not to be taken for an option or a deletion
            return '\\' + p if p[:1] in ('-', '~', ' ', '"', "'") else p
        return q + ''.join('\\' + c if c in (q, '\\') else c for c in p) + q

    def name(self, name):
        if ',' in name or self.rng.random() < 0.2:
            return f'"{name}"'
        return name

    def add(self, fields, e, depth=1):
        """Overrides that set what is at a path."""
        rng = self.rng
        r = rng.random()
        if r < 0.2:
            self.overrides.append(f'{self.path(fields)}@{self.name(self.file(e))}')
        elif r < 0.3:
            self.meta += 1
            self.overrides.append(f'_meta_.m{self.meta}={self.text(e)}')
            self.overrides.append(f'{self.path(fields)}="${{_meta_.m{self.meta}}}"')
        elif r < 0.45 and depth and isinstance(e, dict) and e and all(e):
            if rng.random() < 0.4:
                self.overrides.append(self.path(fields) + '={}')
            for k, v in e.items():
                self.add([*fields, k], v, depth - 1)
        elif r < 0.45 and depth and isinstance(e, list):
            n = rng.randrange(len(e) + 1)
            self.overrides.append(f'{self.path(fields)}={self.text(e[:n])}')
            for i in range(n, len(e)):
                if rng.random() < 0.5:
                    self.overrides.append(f'{self.path(fields)}+={self.text([e[i]])}')
                else:
                    self.add([*fields, str(i)], e[i], depth - 1)
        else:
            self.overrides.append(f'{self.path(fields)}={self.text(e)}')

    def spread(self, e):
        rng = self.rng
        if not isinstance(e, dict) or not all(e):
            self.add([], e)
            return
        if e and rng.random() < 0.25:
            # all of it in configs, in layers
            layers = [{} for _ in range(rng.choice([1, 1, 2, 3]))]
            for k, v in e.items():
                rng.choice(layers)[k] = v
                if rng.random() < 0.2:
                    layers[0].setdefault(k, rng.choice([None, 1, 'x', [1], {'a': 1}]))
            names = [self.name(self.file(x)) for x in layers]
            if rng.random() < 0.5:
                self.overrides.append('@' + ','.join(names))
            else:
                self.overrides.append('@' + names[0])
                self.overrides += ['+@' + x for x in names[1:]]
        else:
            for k, v in e.items():
                self.add([k], v)

    def noise(self, e):
        rng = self.rng
        r = rng.random()
        if r < 0.4:
            o = drv_text.override_text(rng, e)
        elif r < 0.55:
            o = '~' + self.path(drv_text.gen.walk_fields(rng, e, 0.2))
        elif r < 0.8:
            o = self.path(drv_text.gen.walk_fields(rng, e, 0.2)) + rng.choice(['=', '+=']) \
                + self.text(drv_text.gen.element(rng, 1))
        elif r < 0.9:
            o = rng.choice(['@nowhere', 'a@c1', '@c1', '+@c1', 'x=${_meta_.m1}', 'x="${zz}"', '', '=', 'a', '[', '_meta_.z=1',
                            '_meta_=3', '=5', '={}', '.=[]'])
        else:
            o = self.path(['a']) + '=' + self.text({'b': [1, 2]})
        if not o.startswith('-') and '\0' not in o and drv_text.fits(o):
            self.overrides.insert(rng.randrange(len(self.overrides) + 1), o)


def record(rng, emit, mode, n):
    g = gentypes.Gen(rng, WEIGHTS)
    kind = rng.choice(['fn', 'fn', 'fn', 'config'])
    env = []
    if kind == 'fn':
        t = g.struct('fn', rng.choice([1, 1, 2]))
        if rng.random() < 0.1 and t[3]:
            f = rng.choice(t[3])
            name = list(rng.choice(['fn', 'schema', 'config', 'prog', 'description', 'setup_logging', 'args']))
            if f['k'] not in ('va', 'vk') and all(x['n'] != name for x in t[3]):
                f['n'] = name
    else:
        t = g.struct(rng.choice(['dc', 'dc', 'nt', 'td', 'fn']), 1) if rng.random() < 0.7 else g.type(2)
    try:
        type_, text, enc = gentypes.build(rng, t, env, module=f'tr{n}')
    except (TypeError, SyntaxError, ValueError, NameError) as err:
        emit({'skip': f'{type(err).__name__}: {err}', 't': t})
        return
    if kind == 'config' and type_ is None:
        return
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as top:
        w = World(rng, top)
        for d in rng.sample([('d',), ('x y',), ('d.json',)], rng.randrange(3)):
            w.put(d, ['dir'])
            if rng.random() < 0.5:
                w.put((*d, 'e'), ['dir'])
        w.cwd = rng.choice(w.dirs)
        w.put(rng.choice([('file',), ('o.json',), ('f.txt',)]), ['junk'])
        ev = {'kind': kind, 't': t, 'env': env, 'cwd': [list(x) for x in w.cwd], 'runs': [], 'src': text}
        program = Program(w, kind, t, type_, enc, logging=rng.random() < 0.1)
        plans = [plan(rng, w, kind, t, env, mode) for _ in range(rng.choice([1, 1, 2, 3]))]
        ev['fs'] = w.nodes()
        os.chdir(w.real(w.cwd))
        for p in plans:
            p['o']['overrides'] = p['o']['overrides'][:14]
            texts = {k: (w.both(x) if x is not None else None) for k, x in p['o'].items() if k != 'overrides'}
            overrides = [w.both(x) for x in p['o']['overrides']]
            argv = arrange(rng, {**{k: x and x[0] if x is not None else None for k, x in texts.items()},
                                 'overrides': [x[0] for x in overrides]}, p['junk'])
            o = {k: [] if x is None else [x[1]] for k, x in texts.items()}
            if p['o']['output'] == 'default':
                o['output'] = [list('jobs/<time>')]
            elif p['o']['output']:
                o['output'] = [list(''.join(o['output'][0]).replace('%%', '%'))]
            o['overrides'] = [x[1] for x in overrides]
            o['known'] = not p['junk']
            behave = p['b']
            asked = p['o']['out'] == '-' and p['o']['help'] is None
            ca, ck = p['ca'], p['ck']
            out = program.run(argv, ca, ck, behave, asked)
            if t[1:2] == ['dc'] and kind == 'fn' and out['calls']:
                out['calls'][0]['cwd'] = []     # not seen
            ev['runs'].append({'ca': [enc(x) for x in ca], 'ck': [[enc(k), enc(x)] for k, x in ck.items()],
                               'o': o, 'b': behave[:2] if behave[0] != 'cd' else ['cd', list(w.both(behave[2])[1])],
                               'argv': argv, 'out': out})
        emit(ev)
        os.chdir('/')


def plan(rng, w, kind, t, env, mode):
    """A command line, the values of the call site and what the program does."""
    els = gentypes.Elements(rng, env, mess=0.04, missing=0.02, dressed=0)
    e = plain(els(t))
    ca, ck = [], {}
    if kind == 'fn':
        positional = [f for f in t[3] if f['k'] in ('po', 'pk')]
        if rng.random() < 0.25:
            ca = [marked(rng) for _ in range(rng.randrange(len(positional) + 1))]
            if any(f['k'] == 'va' for f in t[3]) and len(ca) == len(positional) or rng.random() < 0.03:
                ca += [marked(rng) for _ in range(rng.randrange(3))]
        if rng.random() < 0.35:
            names = [''.join(f['n']) for f in t[3] if f['k'] in ('pk', 'ko')]
            taken = [''.join(f['n']) for f in positional[:len(ca)]]
            for k in names + (['zz'] if rng.random() < 0.06 else []):
                if rng.random() < 0.4 and (k not in taken or rng.random() < 0.05):
                    ck[k] = marked(rng)
        if rng.random() < 0.5 and isinstance(e, dict):
            for k in list(e):
                if k in ck and rng.random() < 0.7:
                    del e[k]
        if ca and isinstance(e, list) and rng.random() < 0.5:
            e = e[:max(0, len(e) - len(ca))]
    elif rng.random() < 0.04:
        ca, ck = [marked(rng) for _ in range(rng.randrange(3))], {'k': marked(rng)} if rng.random() < 0.5 else {}
    root = rng.choice(w.dirs) if rng.random() < 0.35 else None
    line = Line(rng, w, root)
    if not (e == '???' or e == {}) or rng.random() < 0.3:
        line.spread(e)
    while rng.random() < 0.15:
        line.noise(e)
    if rng.random() < 0.05:
        rng.shuffle(line.overrides)
    if rng.random() < 0.1:
        line.overrides.insert(rng.randrange(len(line.overrides) + 1), rng.choice(['_meta_.z=1', '_meta_.q={a: 1}']))
    o = {'help': None, 'root': None, 'output': None, 'out': None, 'overrides': [x for x in line.overrides if x[:1] != '-']}
    if root is not None:
        rel = '/'.join(root[len(w.cwd):])
        if root[:len(w.cwd)] == w.cwd and rel and rng.random() < 0.6:
            o['root'] = rel + rng.choice(['', '', '/'])
        else:
            o['root'] = TOP + '/' + '/'.join(root)
    often = 1.0 if mode == 'steps' else 0.3
    if rng.random() < 0.1 * often:
        o['help'] = rng.choice(['', '', 'a', 'zz.b', '.', 'a.0'])
    if rng.random() < 0.5 * often:
        o['output'] = rng.choice(['o', 'o/p', 'd', 'd/e/f', 'file', 'file/x', 'o.json', 'default', TOP + '/abs/q', './o', 'o/', '50%%',
                                  'o//p', ''])
    if rng.random() < 0.5 * often:
        o['out'] = rng.choice(['-', '-', '-', 'out.json', 'out.yaml', 'out.yml', 'O.JSON', 'out.txt', 'out', 'no/out.json', 'o/out.yaml',
                               TOP + '/abs.yml', 'd/out.json', 'd.json', '', 'c1.yaml'])
    behave = ['return']
    if rng.random() < 0.5 * often and t[1:2] != ['dc']:
        r = rng.random()
        if r < 0.5:
            behave = ['raise', rng.choice(['Raised', 'KeyboardInterrupt', 'SystemExit', 'MarshError', 'OSError', 'UnmarshalError'])]
        elif r < 0.75:
            d = rng.choice(w.dirs)
            behave = ['cd', None, TOP + '/' + '/'.join(d)]
        else:
            behave = ['write', [list(x) for x in (*rng.choice(w.dirs), 'mark')]]
    junk = None
    if rng.random() < 0.03:
        junk = rng.choice([['--nope'], ['-x'], ['--logging-level=BOGUS'], ['-c'], ['--nope=1']])
    return {'o': o, 'ca': ca, 'ck': ck, 'b': behave, 'junk': junk}


def marked(rng):
    return rng.choice([None, True, 5, -1, 0.5, 'site', '', 'x.y', [1], {'a': 'b'}, 42])


def replay(case, emit, world, n):
    """A run of the specification."""
    rng = random.Random(f'{n}/{case}')
    p, o, b = case['p'], case['o'], case['b']
    type_, text, enc = gentypes.build(rng, p['t'], [], module=f'tr{n}')
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as top:
        w = World(rng, top)
        for path, node in world['fs']:
            w.put(tuple(''.join(x) for x in path), node)
        w.cwd = tuple(''.join(x) for x in world['cwd'])
        ev = {'kind': p['kind'], 't': p['t'], 'env': [], 'cwd': world['cwd'], 'fs': w.nodes()}
        program = Program(w, p['kind'], p['t'], type_, enc)
        os.chdir(w.real(w.cwd))
        texts = {k: w.both(w.path(''.join(x[0])))[0] if x else None for k, x in o.items() if k not in ('overrides', 'known')}
        if o['help']:
            texts['help'] = ''.join(o['help'][0])
        argv = arrange(rng, {**texts, 'overrides': [''.join(x) for x in o['overrides']]},
                       None if o['known'] else rng.choice([['--nope'], ['-x'], ['--nope=1']]))
        behave = [*b, w.path(''.join(b[1]))] if b[0] == 'cd' else b
        out = program.run(argv, [codec.dec(x) for x in p['ca']], {codec.dec(k): codec.dec(x) for k, x in p['ck']}, behave,
                          o['out'] == [['-']] and not o['help'])
        ev['runs'] = [{'ca': p['ca'], 'ck': p['ck'], 'o': o, 'b': b, 'argv': argv, 'out': out}]
        emit(ev)
        os.chdir('/')


def main(job, emit):
    if job['mode'] == 'replay':
        for n, case in enumerate(job['cases']):
            drv_history.forked(lambda out: replay(case, out, job['world'], n), emit)
        return
    for n in range(job['n']):
        rng = random.Random(job['seed'] * 1000003 + n)
        drv_history.forked(lambda out: record(rng, out, job['mode'], n), emit)


if __name__ == '__main__':
    codec.run(main)
