"""U01-U03, U05-U09: unmarshaling to generated types."""
from lib import parallel


def slim(ev):
    return {k: v for k, v in ev.items() if k != 'src'}


LAWS = {
    'U01': ['Identity', 'Stable', 'Exact'],
    'U02': ['First', 'Nested', 'LastNone'],
    'U03': ['Named', 'Flipped', 'AsAbsent'],
    'U05': ['ItemByItem', 'Joined', 'KeyByKey', 'AsContainer'],
    'U06': ['InTwo'],
    'U07': ['Unrolled'],
    'U08': ['Located'],
    'U09': ['AsAbsent'],
}


def model(chk):
    res = chk.tlc('MCUnmarshal', f'CONSTANT What = "{chk.prop}"\nCONSTANT Deep = {"TRUE" if chk.thorough or chk.prop != "U07" else "FALSE"}\nSPECIFICATION Spec\n'
                  'CHECK_DEADLOCK FALSE\n' + ''.join(f'INVARIANT {x}\n' for x in ['Emit', 'NoMarker', *LAWS[chk.prop]]), workers=3)
    elems = next(p['elems'] for p in res.prints if 'elems' in p)
    types = {p['n']: {'t': p['t'], 'env': p['env'], 'r': [None] * len(elems)} for p in res.prints if 't' in p}
    for p in res.prints:
        if 'r' in p:
            types[p['n']]['r'][p['i'] - 1] = p['r']
    types = list(types.values())
    chk.rng.shuffle(types)
    done = skipped = 0
    for out in parallel(*[
        (lambda k=k: chk.driver('drv_types.py', {'mode': 'replay', 'seed': chk.seed * 10 + k, 'elems': elems, 'cases': types[k::3]},
                                hashseed=chk.seed * 3 + k)) for k in range(3)]):
        for ev in out:
            if 'done' in ev:
                done += ev['done']
            elif 'skip' in ev:
                skipped += 1
            else:
                chk.violation({'what': 'a type of the specification is unmarshaled to otherwise', 'event': ev})
    if skipped > len(types) // 20:
        raise AssertionError('too many types could not be built')
    chk.traces += len(types) * len(elems)
    chk.notes['types_enumerated'] = len(types)
    chk.notes['elements_enumerated'] = len(elems)


def run(chk):
    def random_types():
        parts = 4
        n = chk.pick(20000, 60000)
        events = []
        for part in parallel(*[
            (lambda k=k: chk.driver('drv_types.py', {
                'mode': 'record', 'prop': chk.prop, 'seed': chk.seed * 1000 + k, 'n': n // parts},
                hashseed=chk.seed * 11 + k)) for k in range(parts)]):
            events += part
        skipped = [ev for ev in events if 'skip' in ev]
        events = [ev for ev in events if 'skip' not in ev]
        chk.notes['types_python_does_not_allow'] = len(skipped)
        chk.notes['random_calls'] = len(events)
        if chk.prop == 'U03':
            events += chk.driver('drv_types.py', {'mode': 'star_keys'})
        chk.judge('JudgeUnmarshal', events, workers=8,
                  key=lambda ev: 'td-star-key' if ev['src'] == 'td-star-key' else None)
        for ev in events[:3]:
            chk.sample(slim(ev))
    parallel(random_types, lambda: model(chk))
