"""Seeded generators of elements, paths and texts (driver side)."""
import random

WORDS = ['a', 'b', 'c', 'key', 'x.y', 'q"t', "it's", 'b\\s', '0', '1', '-1', '10', 'a b', ' ', 'é', '日本',
         'True', 'null', '1.5', '.', '\\', 'a=b', '@x', '~d', '+', 'a,b', '[', '}', ':', '_', 'A']
STRINGS = ['', 'hello', '5', '-3', '1.5', 'true', 'null', 'a.b', ' pad ', '{x: 1}', '[1]', 'é日', "'q'", '\\', '??', '????']


def scalar(rng):
    r = rng.random()
    if r < 0.12:
        return None
    if r < 0.2:
        return rng.random() < 0.5
    if r < 0.35:
        return rng.choice([0, 1, -1, 2, 7, 42, -13, 10**18, 2**53 + 1, -10**25])
    if r < 0.45:
        return rng.choice([0.5, -1.25, 3.0, 1e10, 2.5e-7, -0.0, 1e22])
    if r < 0.55:
        return '???'
    if r < 0.553:
        return ''.join(rng.choice(STRINGS + WORDS) for _ in range(rng.choice([30, 90, 300])))
    if r < 0.75:
        return rng.choice(STRINGS)
    return rng.choice(WORDS)


def key(rng, odd=0.0):
    if rng.random() < odd:
        return rng.choice([None, 2, 3.5, 17])
    return rng.choice(WORDS)


def element(rng, depth=3, width=3, odd_keys=0.03):
    r = rng.random()
    if depth <= 0 or r < 0.25:
        return scalar(rng)
    n = rng.choice([0] + list(range(1, width + 1)) * 2)
    if r < 0.62:
        return {key(rng, odd_keys): element(rng, depth - 1, width, odd_keys) for _ in range(n)}
    return [element(rng, depth - 1, width, odd_keys) for _ in range(n)]


def big_element(rng):
    """Long or deep, not both."""
    r = rng.random()
    if r < 0.35:
        return [rng.choice([scalar(rng), {'a': rng.randrange(9)}]) for _ in range(rng.randrange(15, 41))]
    if r < 0.7:
        return {f'k{i}': scalar(rng) for i in range(rng.randrange(15, 41))}
    e = scalar(rng)
    for i in range(rng.randrange(6, 13)):
        e = {'d': e} if rng.random() < 0.6 else [scalar(rng), e]
    return e


def huge_element(rng):
    """Far longer or deeper."""
    n = rng.choice([70, 105, 130, 260, 520])
    r = rng.random()
    if r < 0.3:
        return [rng.choice([i, {'a': i}, [i]]) for i in range(n)]
    if r < 0.6:
        return {f'k{i}': rng.choice([i, {'a': i}, [i]]) for i in range(n)}
    e = scalar(rng)
    for i in range(rng.choice([20, 40, 70])):
        e = {'d': e} if rng.random() < 0.6 else [scalar(rng), e]
    return e


def any_element(rng):
    if rng.random() < 0.004:
        return huge_element(rng)
    return big_element(rng) if rng.random() < 0.06 else element(rng, rng.randrange(0, 5))


def walk_fields(rng, e, stray=0.25):
    """Fields of a path that mostly exists in e."""
    fields = []
    far = rng.random() < 0.1
    while len(fields) < (100 if far else 14):
        if not (far and rng.random() < 0.97) and rng.random() < stray:
            fields.append(rng.choice(WORDS + ['zz', '99', '-9']))
            if rng.random() < 0.6:
                break
            continue
        if isinstance(e, dict) and e:
            k = rng.choice(list(e))
            e = e[k]
            fields.append(str(k) if k != '' else 'e')
        elif isinstance(e, (list, tuple)) and len(e):
            i = rng.randrange(len(e) + 1)
            r = rng.random()
            if i == len(e):
                fields.append(str(i))
                break
            if r < 0.25:
                fields.append(str(i - len(e)))
            elif r < 0.32:
                fields.append(rng.choice([f'+{i}', f'0{i}', f' {i} ', f'{i}.0', f'{i}_']))
            else:
                fields.append(str(i))
            e = e[i]
        else:
            break
        if rng.random() < (0.005 if far else 0.15):
            break
    return [f for f in fields if f]


def path_text(rng, fields, delim='.', mess=0.1):
    """One of the many texts of a path."""
    out = []
    for f in fields:
        r = rng.random()
        if r < 0.25 and '"' not in f and '\\' not in f:
            out.append(f'"{f}"')
        elif r < 0.4 and "'" not in f and '\\' not in f:
            out.append(f"'{f}'")
        elif r < 0.5:
            out.append(''.join('\\' + c for c in f))
        else:
            out.append(''.join('\\' + c if c in ('"', "'", '\\', delim) else c for c in f))
    text = delim.join(out)
    r = rng.random()
    if r < mess:
        i = rng.randrange(len(text) + 1)
        text = text[:i] + rng.choice([delim, '"', "'", '\\', delim * 2, 'z']) + text[i:]
    return text
