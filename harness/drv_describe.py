"""Records the texts that describe types and fields, and how help and documentation show them."""
import abc
import contextlib
import dataclasses
import importlib.util
import io
import os
import random
import re
import signal
import sys
import tempfile

import codec
import marsh
import marsh.doc.markdown
import marsh.doc.restructuredtext
import marsh.doc.terminal
import marsh.schema

WORDS = ('amber birch cedar dune ember fjord grove heath islet jetty knoll lagoon marsh nook oasis pond quarry reef shoal tarn '
         'upland vale weir yonder zone the of and a in to with, over. under; reed salt/fresh (tidal) 3 42').split()
NAMES = ['a', 'b', 'size', 'size_2', 'the', 'amber', 'x9', 'long_parameter_name']
TYPES = {'int': ['1', '-3'], 'str': ["'s'", "'two words'"], 'bool': ['True'], 'float': ['0.5']}
#: fields of functions that take any number
STARS = {'rest': '*', 'more': '**'}
STYLES = ('google', 'rest', 'numpy', 'epydoc')


def words(text):
    return text.split() if isinstance(text, str) else []


def paragraphs(text):
    """A text as in spec/Describe.tla."""
    if text is None:
        return []
    if not isinstance(text, str):
        return [['?', repr(text)]]
    return [words(p) for p in re.split(r'\n\s*\n', text) if p.strip()]


@contextlib.contextmanager
def within(seconds):
    """Gives up on documentation that takes forever."""
    def late(*_):
        raise TimeoutError
    signal.signal(signal.SIGALRM, late)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)


class Writer:
    """Writes the source of a chain of classes (or of a function)."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.stars = False

    def sentence(self, top=9):
        out = self.rng.choices(WORDS, k=self.rng.choice([1, 2, 3, 5, top]))
        if not out[0][0].isalpha():
            out[0] = 'moor'
        if len(out) == 1:
            out[0] = out[0].strip(',.;') + ' '.strip()
        return out

    def text(self):
        return [self.sentence(14) for _ in range(self.rng.choice([1, 1, 1, 2, 3]))]

    def wrapped(self, words_, indent, first=''):
        """Words over several lines at times."""
        if len(words_) > 2 and self.rng.random() < 0.4:
            k = self.rng.randint(1, len(words_) - 1)
            return ' '.join(words_[:k]) + '\n' + indent + ' '.join(words_[k:])
        return ' '.join(words_)

    def docstring(self, main, notes, pad):
        """The lines of a docstring."""
        rng = self.rng
        out = [self.wrapped(p, pad) if i else ' '.join(p) for i, p in enumerate(main)]
        style = rng.choice(STYLES)
        if style != 'epydoc':  # (which has no such names)
            notes = [[STARS.get(n, '') * self.stars + n, x] for n, x in notes]
        if notes:
            if style == 'google':
                part = pad + rng.choice(['Args:', 'Arguments:', 'Parameters:', 'Params:', 'Attributes:'])
                for n, w in notes:
                    t = rng.choice(['', '', ' (int)', ' (Optional[str])'])
                    part += f'\n{pad}    {n}{t}: {self.wrapped(w, pad + " " * 8)}'
                out.append(part.lstrip(' '))
                if rng.random() < 0.3:
                    out.append(f'{rng.choice(["Returns", "Raises"])}:\n{pad}    KeyError: nothing of note')
            elif style == 'rest':
                out.append('\n'.join(f'{pad if i else ""}:param {rng.choice(["", "", "int "])}{n}: '
                                     f'{self.wrapped(w, pad + "    ")}' for i, (n, w) in enumerate(notes))
                           + (f'\n{pad}:returns: nothing of note' if rng.random() < 0.3 else ''))
            elif style == 'numpy':
                part = 'Parameters\n' + pad + '----------'
                for n, w in notes:
                    part += f'\n{pad}{n}{rng.choice([" : int", ""])}\n{pad}    {self.wrapped(w, pad + "    ")}'
                out.append(part)
            else:
                out.append('\n'.join(f'{pad if i else ""}@param {n}: {" ".join(w)}' for i, (n, w) in enumerate(notes)))
        body = f'\n\n{pad}'.join(out)
        end = rng.choice(['', f'\n{pad}']) if not notes else f'\n{pad}'
        return f'{pad}"""{body}{end}"""'

    def note(self, w, pad):
        """A bare text."""
        q = self.rng.choice(['"', "'", '"""', "'''"])
        if len(q) == 3:
            text = self.wrapped(w, pad if self.rng.random() < 0.8 else '  ')
            if self.rng.random() < 0.2:
                text = f'\n{pad}{text}\n{pad}'
            return f'{pad}{q}{text}{q}'
        return f'{pad}{q}{" ".join(w)}{q}'

    def annotated(self, f):
        t = self.rng.choice(sorted(TYPES))
        return f'{f}: {t} = {self.rng.choice(TYPES[t])}'

    def other(self, pad, kind):
        self.n += 1
        if kind == 'td':
            return f'{pad}{self.rng.choice(["...", "pass"])}'
        return self.rng.choice([
            f'{pad}def m{self.n}(self):\n{pad}    pass', f'{pad}pass', f'{pad}...', f'{pad}3',
            f'{pad}@property\n{pad}def p{self.n}(self):\n{pad}    """{" ".join(self.sentence())}"""',
            f'{pad}("amber", "birch")'])

    def statement(self, stmt, pad, kind):
        if stmt['s'] == 'ann':
            return pad + self.annotated(stmt['n']) + self.rng.choice(['', '', '  # reed', '\n', f'\n{pad}# of reed\n'])
        if stmt['s'] == 'str':
            return self.note(stmt['w'], pad)
        return self.other(pad, kind)

    def body(self, fields, kind):
        out = []
        for f in fields:
            out.append({'s': 'ann', 'n': f, 'w': []})
            r = self.rng.random()
            if r < 0.45:
                out.append({'s': 'str', 'n': '', 'w': self.sentence()})
                if r < 0.06:
                    out.append({'s': 'str', 'n': '', 'w': self.sentence()})
            elif r < 0.65:
                out.append({'s': 'other', 'n': '', 'w': []})
                if r < 0.55:
                    out.append({'s': 'str', 'n': '', 'w': self.sentence()})
        return out

    def described(self, fields, known, kind, looks):
        """A class (or function) with its docstring."""
        rng = self.rng
        doc = []
        if rng.random() < 0.7:
            notes = [[n, self.sentence()] for n in known if rng.random() < 0.5]
            # parameters that take any number are written with stars, or without
            self.stars = rng.random() < 0.6
            rng.shuffle(notes)
            main = self.text()
            if kind in ('dc', 'nt') and rng.random() < 0.15:
                main = [looks] + main[1:]
            doc = [{'main': main, 'notes': notes}]
        return {'doc': doc, 'body': self.body(fields, kind) if kind != 'fn' else []}


def world(rng, w):
    """The kind and the fields of a chain of described classes."""
    kind = rng.choice(['fn', 'dc', 'dc', 'dc', 'class', 'class', 'nt', 'td'])
    depth = rng.choice([1, 1, 2, 2, 3, 4, 5]) if kind in ('dc', 'class') else 1
    chain, known, declared = [], [], []
    for i in range(depth):
        fresh = [n for n in NAMES if n not in known]
        again = [n for n in known if rng.random() < 0.3]
        fields = rng.sample(fresh, min(len(fresh), rng.randint(1 if i == 0 else 0, 3)))
        known = known + fields
        own = fields + again
        rng.shuffle(own)
        if kind == 'class':
            own = [n for n in own if rng.random() < 0.7]
        declared.append(own)
        if kind == 'fn':
            known = known + [n for n in STARS if rng.random() < 0.3]
        looks = ' '.join(f'{n}: int,' for n in NAMES * rng.choice([1, 3])).rstrip(',').split()
        looks = [f'C{i}({looks[0]}', *looks[1:-1], looks[-1] + ')', 'of', 'reed']
        chain.insert(0, w.described(own, known, kind, looks))
    return kind, chain, known


def source(rng, w, kind, chain, fields, pad=''):
    """The source of a chain, each with a name, and the fields in order."""
    parts, inner = [], pad + '    '
    n = len(chain)
    for i, c in reversed(list(enumerate(chain))):
        name = f'C{n - 1 - i}'
        base = f'C{n - 2 - i}' if i < n - 1 else ''
        lines = []
        if kind == 'fn':
            lines.append(f'{pad}def {name}({", ".join(STARS[f] + f if f in STARS else w.annotated(f) for f in fields)}):')
        else:
            if kind == 'dc':
                lines.append(f'{pad}@dataclasses.dataclass{rng.choice(["", "()", "(repr=False)", "(eq=False)"])}')
            base = {'nt': 'typing.NamedTuple', 'td': 'typing.TypedDict'}.get(kind, base)
            lines.append(f'{pad}class {name}({base}):' if base else f'{pad}class {name}:')
        if c['doc']:
            lines.append(w.docstring(c['doc'][0]['main'], c['doc'][0]['notes'], inner))
        for stmt in c['body']:
            text = w.statement(stmt, inner, kind)
            if kind == 'td' and stmt['s'] == 'ann':
                text = re.sub(r' = [^#\n]*', '', text, count=1)
            lines.append(text)
        if kind == 'class' and i == 0:
            lines.append(f'{inner}def __init__(self, {", ".join(w.annotated(f) for f in fields)}):\n{inner}    pass')
        lines.append(f'{inner}pass')
        parts.append('\n'.join(lines))
    return '\n\n'.join(parts)


def load(folder, name, text):
    path = os.path.join(folder, name + '.py')
    with open(path, 'w') as f:
        f.write(text)
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    sys.modules[name] = module
    spec.loader.exec_module(module)
    return module


def build(rng, w, kind, chain, fields, folder, name):
    """The type of a chain and its source."""
    nested = rng.random() < 0.3
    head = 'import dataclasses\nimport typing\n\n\n'
    last = f'C{len(chain) - 1}'
    if nested:
        text = head + 'def make():\n' + source(rng, w, kind, chain, fields, '    ') + f'\n\n    return {last}\n'
    else:
        text = head + source(rng, w, kind, chain, fields) + '\n'
    module = load(folder, name, text)
    return (module.make() if nested else getattr(module, last)), text


def heads(doc, path=''):
    return [words(f'{path}{n}: {f.type}' + (f' = {f.doc.default}' if f.doc.default else '')) for n, f in (doc.fields or {}).items()]


def program_help(rng, type_, kind, given, epilog):
    kw = {}
    if given:
        kw['description'] = ' '.join(x for p in given[0] for x in p)
    if epilog:
        kw['epilog'] = ' '.join(epilog)
    if kind == 'fn' and rng.random() < 0.7:
        main = marsh.main(type_, prog='reeds', **kw)
    else:
        def program(config):
            """Not this text."""
        main = marsh.main(program, config=type_, prog='reeds', **kw)
    argv, out, code = sys.argv, io.StringIO(), 0
    sys.argv = ['reeds', rng.choice(['-h', '--help'])]
    try:
        with contextlib.redirect_stdout(out):
            main()
    except SystemExit as err:
        code = err.code or 0
    finally:
        sys.argv = argv
    return {'code': code if isinstance(code, int) else 1, 'words': words(out.getvalue())}


def record(job, emit):
    rng = random.Random(job['seed'])
    with tempfile.TemporaryDirectory() as folder:
        for i in range(job['n']):
            w = Writer(rng)
            kind, chain, fields = world(rng, w)
            type_, text = build(rng, w, kind, chain, fields, folder, f'dsc{job["seed"]}x{i}')
            schema = marsh.schema.UnmarshalSchema(type_)
            try:
                with within(10):
                    doc = schema.doc(rng.choice([1, 1, 2]))
            except TimeoutError:
                emit({'kind': kind, 'chain': chain, 'fields': [], 'src': text, 'op': 'texts', 'text': [['?', 'no answer']],
                      'said': []})
                continue
            names = [n.strip('*') for n in doc.fields]
            base = {'kind': kind, 'chain': chain, 'fields': names, 'src': text}
            shown = paragraphs(doc.description)
            emit({**base, 'op': 'texts', 'text': shown, 'said': [words(f.description) for f in doc.fields.values()]})
            os.environ['COLUMNS'] = str(rng.choice([70, 80, 120]))
            width = rng.choice([None, 60, 79, 200])
            out = marsh.doc.terminal.format_unmarshal_fields(rng.choice([doc, schema, type_]), width=width)
            emit({**base, 'op': 'lines', 'heads': heads(doc), 'blocks': [words(b) for b in out.split('\n\n')] if out else []})
            out = marsh.doc.terminal.format_unmarshal_help(doc, width=width)
            emit({**base, 'op': 'page', 'heads': heads(doc), 'text': shown, 'type': words(doc.type), 'words': words(out)})
            if rng.random() < 0.4:
                given = [w.text()] if rng.random() < 0.3 else []
                epilog = w.sentence(40) if rng.random() < 0.3 else []
                emit({**base, 'op': 'help', 'text': shown, 'given': given, 'epilog': epilog, 'heads': heads(doc),
                      **program_help(rng, type_, kind, given, epilog)})
            if rng.random() < 0.25:
                emit(sections(rng, w))
            if rng.random() < 0.35:
                others = [world(rng, w) for _ in range(rng.choice([1, 1, 2]))]
                made = [(kind, chain, type_, text)]
                for j, (k, c, f) in enumerate(others):
                    made.append((k, c, *build(rng, w, k, c, f, folder, f'dsc{job["seed"]}x{i}y{j}')))
                emit(tree(rng, made) if rng.random() < 0.6 else components(rng, made, f'dsc{job["seed"]}x{i}'))
                for j in range(len(others)):
                    sys.modules.pop(f'dsc{job["seed"]}x{i}y{j}', None)
            sys.modules.pop(f'dsc{job["seed"]}x{i}', None)


def tree(rng, made):
    """Documents a structure of described structures."""
    made = [m for m in made if m[0] != 'fn']
    depth = rng.choice([1, 2, 2, 3])
    outer = dataclasses.make_dataclass('Outer', [(f'p{i}', m[2]) for i, m in enumerate(made)])
    prefix = rng.choice(['', '', 'top', 'x.y'])
    with within(10):
        doc = marsh.schema.UnmarshalSchema(outer).doc(depth)
    parts = []
    for i, (kind, chain, _, _) in enumerate(made):
        field = doc.fields[f'p{i}']
        path = f'{prefix}.p{i}' if prefix else f'p{i}'
        parts.append({'kind': kind, 'chain': chain, 'head': words(f'{path}: {field.type}'), 'said': words(field.description),
                      'text': paragraphs(field.doc.description), 'fields': [n.strip('*') for n in field.doc.fields or {}],
                      'heads': heads(field.doc, path + '.') if depth > 1 else [],
                      'deep': [words(f.description) for f in (field.doc.fields or {}).values()]})
    out = marsh.doc.terminal.format_unmarshal_fields(doc if depth > 1 else rng.choice([doc, outer]), prefix, depth=depth,
                                                     width=rng.choice([80, 200]))
    return {'op': 'tree', 'parts': parts, 'src': '\n'.join(m[3] for m in made), 'depth': depth,
            'blocks': [words(b) for b in out.split('\n\n')] if out else []}


def components(rng, made, name):
    """Documents the components of a namespace."""
    made = [m for m in made if m[0] in ('dc', 'class', 'nt')]
    base = abc.ABCMeta('Base', (), {})
    for m in made:
        base.register(m[2])
    space = marsh.namespaces.new(name, base)
    for i, m in enumerate(made):
        space.register(m[2], name=f'n{i}')
    with within(10):
        doc = marsh.schema.UnmarshalSchema(base).doc(rng.choice([0, 1, 2]))
    parts = []
    for f in doc.special_fields:
        i = int(re.match(r'name = "n(\d+)"', f.value)[1])
        kind, chain, _, _ = made[i]
        parts.append({'kind': kind, 'chain': chain, 'head': words(f.value), 'text': paragraphs(f.description), 'n': i})
    out = marsh.doc.terminal.format_unmarshal_fields(doc, width=rng.choice([80, 200]))
    return {'op': 'components', 'parts': parts, 'src': '\n'.join(m[3] for m in made), 'named': len(made),
            'blocks': [words(b) for b in out.split('\n\n')] if out else []}


def sections(rng, w):
    """Documents types of the user in one of the formats."""
    given, schemas = [], []
    for _ in range(rng.randint(0, 6)):
        title = w.sentence() if rng.random() < 0.8 else []
        text = w.sentence(30) if rng.random() < 0.7 else []
        given.append([title, text])
        schemas.append(type('S', (marsh.schema.UnmarshalSchema,), {
            'doc_static_type': staticmethod(lambda t=title: ' '.join(t) or None),
            'doc_static_description': staticmethod(lambda t=text: w.wrapped(t, '') or None)}))
    given_as = rng.choice([list, tuple, iter])
    form = rng.choice(['md', 'rst', 'table'])
    got = []
    if form == 'md':
        kw = {'heading': rng.randint(1, 6)} if rng.random() < 0.7 else {}
        mark = '#' * kw.get('heading', 3) + ' '
        out = marsh.doc.markdown.format_types(given_as(schemas), **kw)
        for line in out.split('\n'):
            if line.startswith('#'):
                got.append([words(line[len(mark):]) if line.startswith(mark) else ['?', line], []])
            elif line:
                got[-1][1] += words(line)
    elif form == 'rst':
        kw = {'section': rng.choice('#*=-^"')} if rng.random() < 0.7 else {}
        mark = kw.get('section', '^')
        lines = marsh.doc.restructuredtext.format_types(given_as(schemas), **kw).split('\n')
        for k, line in enumerate(lines):
            if line and set(line) == {mark}:
                if k and lines[k - 1] and len(lines[k - 1]) == len(line):
                    got.append([words(lines[k - 1]), []])
                elif mark not in '#*':
                    got.append([['?', line], []])
            elif line and not (k + 1 < len(lines) and lines[k + 1] and set(lines[k + 1]) == {mark}):
                got[-1][1] += words(line)
    else:
        title = ' '.join(w.sentence()) if rng.random() < 0.5 else None
        out = marsh.doc.restructuredtext.format_types_table(given_as(schemas), title)
        lines = [x for x in out.split('\n') if x]
        if lines[0] != '.. list-table::' + (f' {title}' if title else ''):
            got.append([['?', lines[0]], []])
        rows = [x for x in lines if x.startswith((' ' * 4 + '* - ', ' ' * 6 + '- '))]
        cells = [words(x.split('- ', 1)[1]) for x in rows]
        if cells[:2] != [['Type'], ['Description']]:
            got.append([['?', *cells[:2]], []])
        got += [[cells[k], cells[k + 1]] for k in range(2, len(cells) - 1, 2)]
    return {'op': 'sections', 'given': given, 'got': got, 'form': form}


def replay(job, emit):
    """Chains of the model with the texts of their fields."""
    rng = random.Random(job['seed'])
    with tempfile.TemporaryDirectory() as folder:
        for i, case in enumerate(job['cases']):
            w = Writer(rng)
            kind = rng.choice(['dc', 'class'])
            fields = ['a', 'b']
            if kind == 'dc':
                have = {x['n'] for c in case['chain'] for x in c['body'] if x['s'] == 'ann'}
                fields = [n for n in fields if n in have]
            type_, text = build(rng, w, kind, case['chain'], fields, folder, f'dsm{job["part"]}x{i}')
            doc = marsh.schema.UnmarshalSchema(type_).doc(1)
            got = {n: words(f.description) for n, f in doc.fields.items()}
            main = paragraphs(doc.description)
            if kind == 'dc' and case['chain'][0]['doc'] and case['chain'][0]['doc'][0]['notes']:
                main = main[:len(case['text'])]
            if main != case['text'] or any(got.get(n) != case[n] for n in fields):
                emit({'what': 'texts', 'src': text, 'got': got, 'text': main, 'want': case})
        emit({'done': len(job['cases'])})


def main(job, emit):
    if job['mode'] == 'replay':
        replay(job, emit)
    if job['mode'] == 'record':
        record(job, emit)


if __name__ == '__main__':
    codec.run(main)
