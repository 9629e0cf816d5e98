"""U11: histories of uses of types."""
from lib import parallel

CFG = 'SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT Transparent\n'


def record(chk):
    parts = 6
    events = []
    for part in parallel(*[
        (lambda k=k: chk.driver('drv_history.py', {
            'mode': 'record', 'seed': chk.seed * 1000 + k, 'n': chk.pick(10000, 60000) // parts},
            hashseed=chk.seed * 11 + k)) for k in range(parts)]):
        events += part
    chk.judge('JudgeUnmarshal', events, workers=8)
    chk.notes['histories_recorded'] = sum(ev['step'] == 0 for ev in events)
    chk.notes['uses_judged'] = len(events)
    for ev in events[:3]:
        chk.sample({k: v for k, v in ev.items() if k != 'src'})


def model(chk):
    res = chk.tlc('MCHistory', f'CONSTANT Depth = {chk.pick(3, 4)}\nCONSTANT Bypass = TRUE\n' + CFG, workers=4)
    types = next(p['types'] for p in res.prints if 'types' in p)
    cases = [p for p in res.prints if 'ops' in p]
    chk.sample(cases[0])
    parts = 4
    for out in parallel(*[
        (lambda n=n: chk.driver('drv_history.py', {'mode': 'replay', 'types': types, 'cases': cases[n::parts]},
                                hashseed=chk.seed + n)) for n in range(parts)]):
        for ev in out:
            if 'done' not in ev:
                chk.violation({'what': 'a history differs from the specification', 'event': ev})
    chk.traces += len(cases)
    chk.notes['histories_replayed'] = len(cases)


def run(chk):
    parallel(lambda: record(chk), lambda: model(chk))
