"""D01: documentation and help."""
from lib import parallel

LAWS = ['SetIffShown', 'DefaultsAreShown', 'ShownCanBeAskedFor', 'ErrorsNamePrefixes']


def record(chk):
    events = []
    for part in parallel(*[
        (lambda k=k: chk.driver('drv_doc.py', {
            'mode': 'record', 'seed': chk.seed * 100 + k, 'n': chk.pick(2200, 12000)},
            hashseed=chk.seed + 3 * k)) for k in range(4)]):
        events += part
    skipped = [ev for ev in events if 'skip' in ev]
    events = [ev for ev in events if 'skip' not in ev]
    if len(skipped) > 0.1 * len(events):
        raise AssertionError(f'too many types could not be built: {skipped[0]}')
    chk.judge('JudgeDoc', events, workers=8)
    for op in ('doc', 'lines', 'select', 'help'):
        chk.notes[f'{op}_judged'] = sum(ev['op'] == op for ev in events)
    for ev in events[:3]:
        chk.sample({k: v for k, v in ev.items() if k != 'src'})


def model(chk):
    res = chk.tlc('MCDoc', f"CONSTANT Few = {chk.pick('TRUE', 'FALSE')}\nSPECIFICATION Spec\n"
                  + ''.join(f'INVARIANT {law}\n' for law in LAWS), workers=4)
    cases = [p for p in res.prints if 'docs' in p]
    n = chk.pick(800, 8000)
    if len(cases) > n:
        cases = chk.rng.sample(sorted(cases, key=str), n)
    done = 0
    for out in parallel(*[
        (lambda k=k: chk.driver('drv_doc.py', {'mode': 'replay', 'cases': cases[k::4], 'seed': chk.seed + k, 'part': k},
                                hashseed=chk.seed + k)) for k in range(4)]):
        for ev in out:
            if 'done' in ev:
                done += ev['done']
            else:
                chk.violation({'what': 'documentation differs from the specification', 'event': ev})
    if not done:
        raise AssertionError('nothing enumerated')
    chk.traces += done
    chk.notes['types_enumerated'] = len(res.prints)
    chk.notes['answers_replayed'] = done


def run(chk):
    parallel(lambda: record(chk), lambda: model(chk))
