"""Runs histories of config files, each in a process and a directory of its own."""
import contextlib
import io
import json
import os
import random
import tempfile

import codec
import drv_history
import drv_text
import gen
import marsh
import yaml

META = '_meta_'
STEMS = ['a', 'b', 'a.b', '.a', 'A', 'a b', 'é']
EXTS = ['.json', '.yaml', '.yml', '.JSON', '.Yml', '', '.txt', '.cfg', '.']
DIRS = ['d', 'e', 'd.json', 'x y']


def chars(path):
    return [list(x) for x in path]


class World:
    """Paths of the specification below a directory of our own."""

    def __init__(self, rng, top):
        self.rng = rng
        self.top = os.path.realpath(top)
        self.ops = []
        self.dirs = [()]
        self.files = []
        self.cwd = ()

    def real(self, path):
        return os.path.join(self.top, *path)

    def virtual(self, real):
        real = os.path.abspath(real)
        if real != self.top and not real.startswith(self.top + '/'):
            return ['?', real]
        return [x for x in real[len(self.top):].split('/') if x]

    def text(self, text):
        """A text that is absolute in the specification: marsh gets it below our directory."""
        return self.top + text if text.startswith('/') else text

    # -- the world ---------------------------------------------------------
    def put(self, path, node):
        rng = self.rng
        self.forget(path)
        self.remove(path)
        real = self.real(path)
        if node[0] == 'dir':
            os.mkdir(real)
            self.dirs.append(path)
            return
        if node[0] == 'junk':
            data = rng.choice([b'{"a": [', b'{]', b'\xff\xfe\x00{', b'a: {b: [\n'])
        else:
            data = self.write(codec.dec(node[1]), os.path.splitext(real)[1].lower()).encode()
        with open(real, 'wb') as fp:
            fp.write(data)
        self.files.append(path)

    def write(self, element, ext):
        rng = self.rng
        if ext in ('.yaml', '.yml'):
            if element is None and rng.random() < 0.5:
                return rng.choice(['', '# nothing\n', 'null\n', '~\n'])
            return yaml.safe_dump(element, sort_keys=False, default_flow_style=rng.choice([None, True, False]),
                                  allow_unicode=rng.random() < 0.5, default_style=None)
        return json.dumps(element, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.5)

    def remove(self, path):
        import shutil
        real = self.real(path)
        if os.path.isdir(real):
            shutil.rmtree(real)
        elif os.path.exists(real):
            os.remove(real)

    def forget(self, path):
        n = len(path)
        self.dirs = [p for p in self.dirs if p[:n] != path or not n]
        self.files = [p for p in self.files if p[:n] != path]

    # -- calls -------------------------------------------------------------
    @staticmethod
    def guard(fn, errors=()):
        try:
            return fn()
        except marsh.errors.ConfigFileError:
            return ['ConfigFileError']
        except errors as err:
            for cls in errors:
                if isinstance(err, cls):
                    return [cls.__name__]

    def find(self, name):
        return self.guard(lambda: ['found', chars(self.virtual(marsh.config.find_config(self.text(name))))])

    def load(self, names, root, resolve, keep, concat):
        names = [self.text(x) for x in names]
        kwargs = {}
        if resolve is not True or self.rng.random() < 0.5:
            kwargs['resolve'] = resolve
        if keep or self.rng.random() < 0.5:
            kwargs['keep_meta'] = keep
        if concat or self.rng.random() < 0.5:
            kwargs['concatenate'] = concat
        if root or self.rng.random() < 0.3:
            kwargs['root'] = self.text(root) or self.rng.choice(['', None])

        def go():
            return ['ok', codec.enc_abs(marsh.config.load(*names, **kwargs))]
        try:
            return self.guard(go)
        except Exception as err:
            kind = type(err).__module__.split('.')[0]
            if kind == 'omegaconf' or (isinstance(err, marsh.errors.MarshError)):
                return ['unresolved']
            if kind in ('yaml', 'json') or isinstance(err, (OSError, UnicodeError)):
                return ['unreadable']
            return ['?', type(err).__name__]

    def tree(self, name):
        return self.guard(lambda: ['tree', self.leaves(marsh.config.tree(self.text(name)))], (OSError,))

    @staticmethod
    def leaves(text):
        """The paths of the leaves of a drawn tree."""
        stack, leaves, lines = [], [], text.split('\n')[1:]
        for n, line in enumerate(lines):
            at = max(line.find('├── '), line.find('└── '))
            depth = at // 4
            stack = stack[:depth] + [line[at + 4:]]
            last = n + 1 == len(lines) or (max(lines[n + 1].find('├── '), lines[n + 1].find('└── ')) // 4) <= depth
            if last:
                leaves.append(chars(stack))
        return leaves

    def dump(self, name, e):
        def go():
            element = codec.dec(e)
            if self.rng.random() < 0.05 and name != '-':
                element = json.loads(json.dumps(element)) if '.json' in name.lower() else element
            before = codec.enc_abs(element)
            marsh.config.write(element, self.text(name))
            return ['done'] if codec.enc_abs(element) == before else ['changed']
        return self.guard(go, (ValueError, OSError))

    def stdout(self, e):
        """Written to the standard output, and read again."""
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            if self.rng.random() < 0.5:
                marsh.config.write(codec.dec(e))
            else:
                marsh.config.write(codec.dec(e), '-')
        return ['ok', codec.enc_abs(yaml.safe_load(buf.getvalue()))]

    def apply(self, e, texts, root, keep):
        """Override commands one after the other."""
        rng, element = self.rng, codec.dec(e)
        kwargs = {}
        if keep or rng.random() < 0.5:
            kwargs['keep_meta'] = keep
        if root or rng.random() < 0.3:
            kwargs['root'] = self.text(root) or rng.choice(['', None])

        def go(element=element):
            for text in texts:
                element = marsh.parse.override(text).apply(element, **kwargs)
            return ['ok', codec.enc_abs(element)]
        try:
            return self.guard(go)
        except Exception as err:
            for kind, cls in (('parse', marsh.parse.ParseError), ('path', marsh.errors.PathError)):
                if isinstance(err, cls):
                    return [kind]
            kind = type(err).__module__.split('.')[0]
            if kind == 'omegaconf' or isinstance(err, marsh.errors.MarshError):
                return ['unresolved']
            if kind in ('yaml', 'json') or isinstance(err, (OSError, UnicodeError)):
                return ['unreadable']
            return ['?', type(err).__name__]

    def drop(self, e):
        """Without its metadata, and what became of the element itself."""
        element = codec.dec(e)
        out = marsh.config.drop_meta(element)
        return ['dropped', codec.enc_abs(out), codec.enc_abs(element)]

    def ext(self, ext):
        """Support for another extension."""
        @marsh.config.ConfigSchema.registry.register
        class Other(marsh.config.ConfigSchema):

            @classmethod
            def match(cls, value):
                return os.path.splitext(value)[1].lower() == ext

            def loads(self, encoded):
                return json.loads(encoded)

            def dumps(self, element):
                return json.dumps(element)
        return ['done']

    def do(self, o):
        """The call of an operation of the specification."""
        op = o['op']
        if op == 'put':
            self.put(tuple(''.join(x) for x in o['path']), o['node'])
            return ['done']
        if op == 'rm':
            path = tuple(''.join(x) for x in o['path'])
            self.forget(path)
            self.remove(path)
            return ['done']
        if op == 'cd':
            path = tuple(''.join(x) for x in o['path'])
            self.cwd = path
            os.chdir(self.real(path))
            return ['done']
        if op == 'ext':
            return self.ext(''.join(o['ext']))
        if op == 'find':
            return self.find(''.join(o['name']))
        if op == 'load':
            return self.load([''.join(x) for x in o['names']], ''.join(o['root']), o['resolve'], o['keep'], o['concat'])
        if op == 'apply':
            return self.apply(o['e'], [''.join(x) for x in o['texts']], ''.join(o['root']), o['keep'])
        if op == 'drop':
            return self.drop(o['e'])
        if op == 'tree':
            return self.tree(''.join(o['name']))
        return self.dump(''.join(o['name']), o['e'])


# -- recorded ----------------------------------------------------------------
def element(rng, depth=2):
    """An element any of the formats can hold, some with references."""
    def clean(e):
        if isinstance(e, dict):
            return {str(k) if k is not None else 'none': clean(v) for k, v in e.items()}
        if isinstance(e, list):
            return [clean(v) for v in e]
        return e
    e = clean(gen.element(rng, depth, odd_keys=0))
    r = rng.random()
    if r < 0.3:
        return e
    words = ['p', 'q', 'r', 's', 't']
    e = {}
    for w in rng.sample(words, rng.randrange(1, 6)):
        e[w] = node(rng, words, 2)
    if rng.random() < 0.4:
        e[META] = {'x': rng.choice([1, 'm', None, True, 2.5]), 'y': rng.choice([3, 'z'])}
    if rng.random() < 0.15:
        # nothing but this one key is metadata
        e[rng.choice(['_meta_x', 'x_meta_', '_meta', '_meta__', 'meta'])] = rng.choice([1, {'_meta_': 2}, ['_meta_']])
    if rng.random() < 0.1:
        return [e, rng.choice(['${0.p}', '${1}', 7])]
    return e


def node(rng, words, depth):
    r = rng.random()
    if r < 0.3:
        return gen.scalar(rng)
    if r < 0.55:
        path = [rng.choice(words)] + [rng.choice(words + ['0', '1']) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
        return '${' + '.'.join(path) + '}'
    if r < 0.62:
        return rng.choice(['a${_meta_.x}', '${_meta_.y}b', '${_meta_.x}${_meta_.y}', '${_meta_}', '${_meta_.x}', '$x {y}'])
    if depth <= 0:
        return rng.randrange(5)
    if r < 0.85:
        return {rng.choice(words): node(rng, words, depth - 1) for _ in range(rng.randrange(3))}
    return [node(rng, words, depth - 1) for _ in range(rng.randrange(3))]


def plain(e):
    """Without what only one of the formats keeps."""
    if isinstance(e, dict):
        return {k: plain(v) for k, v in e.items()}
    if isinstance(e, list):
        return [plain(v) for v in e]
    return e


def filename(rng):
    return rng.choice(STEMS[:2] if rng.random() < 0.6 else STEMS) + rng.choice(EXTS[:3] if rng.random() < 0.6 else EXTS)


def some_name(rng, w):
    """A name for marsh: of a file there is, with or without its extension, or of none."""
    if w.files and rng.random() < 0.8:
        path = rng.choice(w.files)
        if path[:len(w.cwd)] == w.cwd and rng.random() < 0.75:
            text = '/'.join(path[len(w.cwd):])
        elif rng.random() < 0.3:
            text = '../' * len(w.cwd) + '/'.join(path)
        else:
            text = '/' + '/'.join(path)
        r = rng.random()
        if r < 0.6:
            text = os.path.splitext(text)[0]
        elif r < 0.65:
            text = os.path.splitext(text)[0] + rng.choice(EXTS)
    else:
        d = rng.choice(w.dirs)
        text = '/'.join((*d[len(w.cwd):], filename(rng))) if d[:len(w.cwd)] == w.cwd else filename(rng)
    r = rng.random()
    if not w.cwd and text.startswith('..'):
        text = 'a'
    if r < 0.05:
        text = './' + text if not text.startswith('/') else text
    elif r < 0.08:
        text = text + rng.choice(['/', 'x', '.', ''])
    elif r < 0.1:
        text = text.replace('/', '//')
    elif r < 0.12:
        text = rng.choice(['', '.', '..', '.json', 'd/', '/', 'nowhere/a', '../a' if w.cwd else './a'])
    return text


def commands(rng, w, plain):
    """Texts of override commands, some with names of configs."""
    texts = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        if rng.random() < 0.45:
            t = drv_text.override_text(rng, plain)
            try:
                o = marsh.parse.override(t)
                if not drv_text.exact(t) or (isinstance(o, marsh.parse.DeleteValue) and not marsh.path.split(o.path)):
                    continue
                if isinstance(o, marsh.parse.SetConfig) and not (o.names and all(map(inside, o.names))):
                    continue
            except marsh.errors.MarshError:
                pass
            except marsh.parse.ParseError:
                if rng.random() < 0.7:
                    continue
            texts.append(t)
            continue
        names = [some_name(rng, w) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        names = [x for x in names if inside(x)] or ['a']
        quote = rng.choice('"\'')
        written = [x if drv_text.safe_bare(x) and rng.random() < 0.6 else
                   quote + ''.join('\\' + c if c in (quote, '\\') else c for c in x) + quote for x in names]
        t = ','.join(written)
        if rng.random() < 0.2:
            t = '[' + t + ']'
        path = gen.path_text(rng, gen.walk_fields(rng, plain, 0.1), mess=0) if rng.random() < 0.6 else ''
        texts.append(''.join('\\' + c if c in '+=@~\\"\' ' else c for c in path) + rng.choice(['@', '+@']) + t)
    return texts


def inside(name):
    """Whether a name leads nowhere outside of our directory."""
    return not name.startswith('/') and '..' not in name and '\\' not in name


def record(rng, emit, n, weight=0.06):
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as top:
        w = World(rng, top)
        os.chdir(w.top)
        exts = ['.json', '.yaml', '.yml']

        def op(o):
            out = w.do(o)
            w.ops.append({**o, 'out': out})

        def code(e, name):
            return codec.enc_abs(plain(e))
        for _ in range(rng.randrange(4, 16)):
            r = rng.random()
            if r < 0.3 or not w.files:
                parent = rng.choice(w.dirs)
                if len(parent) < 2 and rng.random() < 0.3:
                    path = (*parent, rng.choice(DIRS))
                    if path not in w.dirs and path not in w.files:
                        op({'op': 'put', 'path': chars(path), 'node': ['dir']})
                    continue
                path = (*parent, filename(rng))
                if path in w.dirs:
                    continue
                node_ = ['junk'] if rng.random() < 0.06 else ['file', code(element(rng), path[-1])]
                if path[-1].lower().endswith('.txt') or '.' not in path[-1]:
                    node_ = ['junk'] if rng.random() < 0.3 else node_
                op({'op': 'put', 'path': chars(path), 'node': node_})
            elif r < 0.35:
                path = rng.choice(w.files + w.dirs)
                if path and w.cwd[:len(path)] != path:
                    op({'op': 'rm', 'path': chars(path)})
            elif r < 0.39:
                op({'op': 'cd', 'path': chars(rng.choice(w.dirs))})
            elif r < 0.43:
                ext = rng.choice(['.cfg', '.txt'])
                if ext not in exts:
                    exts.append(ext)
                    op({'op': 'ext', 'ext': list(ext)})
            elif r < 0.55 and rng.random() < weight * 8:
                on = element(rng)
                op({'op': 'apply', 'e': code(on, ''), 'texts': [list(t) for t in commands(rng, w, on)],
                    'root': list('/' + '/'.join(rng.choice(w.dirs)) if rng.random() < 0.3 else ''),
                    'keep': rng.random() < 0.4})
            elif r < 0.55:
                op({'op': 'find', 'name': list(some_name(rng, w))})
            elif r < 0.78:
                names = [some_name(rng, w) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                root = ''
                if rng.random() < 0.35:
                    d = rng.choice(w.dirs)
                    root = '/' + '/'.join(d) if rng.random() < 0.5 or d[:len(w.cwd)] != w.cwd else '/'.join(d[len(w.cwd):])
                    if rng.random() < 0.2:
                        root += '/'
                    if root.startswith('/'):
                        names = [x.replace('..', 'd') for x in names]
                    names = [x if x.startswith('/') or rng.random() < 0.2 else os.path.basename(x) for x in names]
                    names = ['./' + x if not x.startswith('/') and rng.random() < 0.15 else x for x in names]
                op({'op': 'load', 'names': [list(x) for x in names], 'root': list(root), 'resolve': rng.random() < 0.6,
                    'keep': rng.random() < 0.3, 'concat': rng.random() < 0.4})
            elif r < 0.86:
                d = rng.choice(w.dirs)
                name = '/' + '/'.join(d) if rng.random() < 0.5 or d[:len(w.cwd)] != w.cwd else '/'.join(d[len(w.cwd):]) or '.'
                if rng.random() < 0.1:
                    name += rng.choice(['/', '/.', '/..' if d else '/', 'x', '/a.json'])
                op({'op': 'tree', 'name': list(name)})
            elif rng.random() < weight * 8:
                on = element(rng)
                op({'op': 'apply', 'e': code(on, ''), 'texts': [list(t) for t in commands(rng, w, on)],
                    'root': list('/' + '/'.join(rng.choice(w.dirs)) if rng.random() < 0.3 else ''),
                    'keep': rng.random() < 0.4})
            elif r < 0.89:
                op({'op': 'drop', 'e': code(element(rng), '')})
            else:
                name = some_name(rng, w) if rng.random() < 0.3 else '/'.join((*rng.choice(w.dirs), filename(rng)))
                if not name.startswith('/') and rng.random() < 0.3:
                    name = '/' + name
                if name == '-':
                    continue
                e = code(element(rng), name)
                op({'op': 'write', 'name': list(name), 'e': e})
                if w.ops[-1]['out'] == ['done']:
                    path = tuple(w.virtual(os.path.join(os.getcwd(), w.text(name))))
                    if path not in w.files:
                        w.files.append(path)
                    if rng.random() < 0.7:
                        op({'op': 'load', 'names': [list(name)], 'root': [], 'resolve': False, 'keep': True,
                            'concat': False})
        emit({'n': n, 'ops': w.ops})
        os.chdir('/')


def main(job, emit):
    if job['mode'] == 'record':
        for n in range(job['n']):
            rng = random.Random(job['seed'] * 1000003 + n)
            drv_history.forked(lambda out: record(rng, out, n, job.get('weight', 0.06)), emit)
        return
    if job['mode'] == 'commands':
        drv_history.forked(lambda out: replay_commands(job, out), emit)
        emit({'done': len(job['cases'])})
        return
    for case in job['cases']:
        drv_history.forked(lambda out: replay(case, out), emit)
    emit({'done': len(job['cases'])})


def same(want, out):
    if want[0] == 'tree' and out[0] == 'tree':
        return sorted(map(str, want[1])) == sorted(map(str, out[1]))
    return want == out


def replay(case, emit):
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as top:
        w = World(random.Random(str(case)), top)
        os.chdir(w.top)
        for n, o in enumerate(case['ops']):
            out = w.do(o)
            if not same(o['out'], out):
                emit({'ops': case['ops'][:n + 1], 'out': out})
                break
        os.chdir('/')


def replay_commands(job, emit):
    """Lists of commands in the one directory of the specification."""
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as top:
        w = World(random.Random(job['seed']), top)
        os.chdir(w.top)
        for path, node_ in job['fs']:
            w.put(tuple(''.join(x) for x in path), node_)
        for case in job['cases']:
            out = w.apply(case['e'], [''.join(x) for x in case['texts']], '', case['keep'])
            if out != case['out']:
                emit({'case': case, 'out': out})
        os.chdir('/')


if __name__ == '__main__':
    codec.run(main)
