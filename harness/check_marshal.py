"""U10: marshaling and unmarshaling again gives the value back."""
from lib import parallel


def model(chk, what):
    res = chk.tlc('MCMarshal', f'CONSTANT What = "{what}"\nCONSTANT Deep = {chk.pick("FALSE", "TRUE")}\nSPECIFICATION Spec\n'
                  'CHECK_DEADLOCK FALSE\nINVARIANT EmitMarshal\nINVARIANT RoundTrip\nINVARIANT Simple\nINVARIANT Settled\n', workers=2)
    elems = next(p['elems'] for p in res.prints if 'elems' in p)
    types = {p['n']: {'t': p['t'], 'env': p['env'], 'r': []} for p in res.prints if 't' in p}
    total = 0
    for p in res.prints:
        if 'm' in p:
            total += 1
            types[p['n']]['r'].append([p['i'] - 1, p['m'], p['back']])
    types = list(types.values())
    chk.rng.shuffle(types)
    done = skipped = 0
    for out in parallel(*[
        (lambda k=k: chk.driver('drv_marshal.py', {'mode': 'replay', 'seed': chk.seed * 10 + k, 'elems': elems, 'cases': types[k::2]},
                                hashseed=chk.seed * 3 + k)) for k in range(2)]):
        for ev in out:
            if 'done' in ev:
                done += ev['done']
            elif 'skip' in ev:
                skipped += 1
            else:
                chk.violation({'what': 'a value of the specification is marshaled otherwise', 'event': ev})
    if not total or skipped > len(types) // 20:
        raise AssertionError('too few values')
    with chk.lock:
        chk.traces += total
        chk.notes['values_enumerated'] = chk.notes.get('values_enumerated', 0) + total


def run(chk):
    def recorded():
        events = []
        for part in parallel(*[
            (lambda k=k: chk.driver('drv_marshal.py', {
                'mode': 'record', 'seed': chk.seed * 100 + k, 'n': chk.pick(2500, 15000)},
                hashseed=chk.seed + 5 + k)) for k in range(4)]):
            events += part
        skipped = [ev for ev in events if 'skip' in ev]
        events = [ev for ev in events if 'skip' not in ev]
        chk.notes['types_python_does_not_allow'] = len(skipped)
        chk.judge('JudgeMarshal', events, workers=6)
        chk.notes['round_trips'] = len(events)
        chk.notes['through_config_files'] = sum('via' in ev for ev in events)
        chk.notes['through_text'] = sum('text' in ev for ev in events)
        chk.sample({k: v for k, v in events[0].items() if k != 'src'})

    parallel(recorded, *[(lambda w=w: model(chk, w)) for w in ('U01', 'U02', 'U03', 'U05', 'U07', 'U08')])
    chk.assumptions.append('date and time objects, init-only fields and keys that are not primitives, enum members, bytes or '
                           'dates are not promised to come back; interpolations (${...}) and unprintable characters are not '
                           'written to config files')
