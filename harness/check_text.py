"""T01-T04: paths, elements and overrides as text."""
from lib import parallel


MODEL = {   # what, (alphabet, quick length, thorough length)..., law
    'T01': ('path', [('path', 5, 6)], 'PathRoundTrip'),
    'T02': ('element', [('all', 3, 4), ('nested', 4, 5), ('number', 4, 5)],
            'ElementRoundTrip'),
    'T03': ('element', [('quoting', 4, 5), ('maps', 4, 5)], 'ElementRoundTrip'),
    'T04': ('override', [('edits', 4, 5), ('quoted', 4, 5)], 'OverrideKinds'),
}
MODE = {'T01': 'path', 'T02': 'grammar', 'T03': 'written', 'T04': 'override'}


def run(chk):
    what, alphabets, law = MODEL[chk.prop]

    def model(n):
        alphabet, quick, thorough = alphabets[n]
        cfg = f'CONSTANTS What = "{what}" MaxLen = {chk.pick(quick, thorough)} ' \
              f'Chars0 = "{alphabet}"\nSPECIFICATION Spec\nINVARIANT {law}\n'
        res = chk.tlc('MCText', cfg, workers=2)
        cases = [p for p in res.prints if 't' in p]
        for ev in chk.driver('drv_text.py', {'mode': 'replay', 'what': what, 'cases': cases},
                             hashseed=chk.seed):
            if 't' in ev:
                chk.violation({'what': f'a text is not read as the specified {what}', 'event': ev})
        chk.traces += len(cases)
        chk.notes[f'texts_{alphabet}'] = len(cases)
        chk.sample(cases[-1])

    def recorded():
        events = []
        for part in parallel(*[
            (lambda k=k: chk.driver('drv_text.py', {
                'mode': MODE[chk.prop], 'seed': chk.seed * 100 + k, 'n': chk.pick(8000, 40000)},
                hashseed=chk.seed + 5 + k)) for k in range(2)]):
            events += part
        chk.judge('JudgeText', events, workers=3)
        chk.notes['recorded'] = len(events)
        chk.sample(events[0])

    def applied():
        events = []
        for part in parallel(*[
            (lambda k=k: chk.driver('drv_config.py', {
                'mode': 'record', 'seed': chk.seed * 1000 + 500 + k, 'n': chk.pick(500, 4000), 'weight': 0.11},
                hashseed=chk.seed * 7 + k)) for k in range(2)]):
            events += part
        for ev in events:
            ev['ops'] = [o for o in ev['ops'] if o['op'] not in ('find', 'tree', 'load')]
        chk.judge('JudgeConfig', events, workers=2)
        chk.notes['histories_of_commands'] = len(events)

    def lists():
        res = chk.tlc('MCCommands', f'CONSTANT Length = {chk.pick(2, 3)}\nSPECIFICATION Spec\nINVARIANT Emit\n'
                      'INVARIANT Assigns\nINVARIANT Removes\nINVARIANT Fails\n', workers=2)
        cases = [p for p in res.prints if 'texts' in p]
        fs = next(p['fs'] for p in cases if p['fs'])
        for out in parallel(*[
            (lambda k=k: chk.driver('drv_config.py', {
                'mode': 'commands', 'seed': chk.seed + k, 'fs': fs, 'cases': cases[k::2]}, hashseed=chk.seed + k))
                for k in range(2)]):
            for ev in out:
                if 'done' not in ev:
                    chk.violation({'what': 'a list of commands differs from the specification', 'event': ev})
        chk.traces += len(cases)
        chk.notes['lists_of_commands'] = len(cases)

    more = [applied, lists] if chk.prop == 'T04' else []
    parallel(recorded, *more, *[(lambda n=n: model(n)) for n in range(len(alphabets))])
    chk.assumptions.append('texts over ASCII digits; numbers with at most 4300 digits; single '
                           'character delimiters other than quotes and backslash')
