"""D02: the texts that describe types and fields."""
from lib import parallel

LAWS = ['RightAbove', 'OneEach', 'Nothing', 'Closest']


def record(chk):
    events = []
    for part in parallel(*[
        (lambda k=k: chk.driver('drv_describe.py', {
            'mode': 'record', 'seed': chk.seed * 100 + k, 'n': chk.pick(500, 4000)},
            hashseed=chk.seed + 3 * k)) for k in range(4)]):
        events += part
    chk.judge('JudgeDescribe', events, workers=4)
    for op in ('texts', 'lines', 'page', 'help', 'sections', 'tree', 'components'):
        chk.notes[f'{op}_judged'] = sum(ev['op'] == op for ev in events)
    for ev in events[:2]:
        chk.sample({k: v for k, v in ev.items() if k != 'src'})


def model(chk):
    res = chk.tlc('MCDescribe', f"CONSTANT Long = {chk.pick(4, 6)}\nSPECIFICATION Spec\nINVARIANT Emit\n"
                  + ''.join(f'INVARIANT {law}\n' for law in LAWS) + 'PROPERTY Stable\n', workers=4)
    cases = [p for p in res.prints if 'chain' in p]
    n = chk.pick(1500, 12000)
    if len(cases) > n:
        cases = chk.rng.sample(sorted(cases, key=str), n)
    done = 0
    for out in parallel(*[
        (lambda k=k: chk.driver('drv_describe.py', {'mode': 'replay', 'cases': cases[k::4], 'seed': chk.seed + k, 'part': k},
                                hashseed=chk.seed + k)) for k in range(4)]):
        for ev in out:
            if 'done' in ev:
                done += ev['done']
            else:
                chk.violation({'what': 'a text differs from the specification', 'event': ev})
    if not done:
        raise AssertionError('nothing enumerated')
    chk.traces += done
    chk.notes['bodies_enumerated'] = len(res.prints)
    chk.notes['bodies_replayed'] = done


def run(chk):
    parallel(lambda: record(chk), lambda: model(chk))
