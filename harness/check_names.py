"""R02: namespaces."""
from lib import parallel


def record(chk):
    parts = 4
    events = []
    for part in parallel(*[
        (lambda k=k: chk.driver('drv_names.py', {
            'mode': 'record', 'seed': chk.seed * 1000 + k, 'n': chk.pick(2400, 24000) // parts},
            hashseed=chk.seed * 11 + k)) for k in range(parts)]):
        events += part
    chk.judge('JudgeNames', events, workers=8)
    chk.notes['histories_recorded'] = len(events)
    chk.notes['calls_judged'] = sum(len(ev['ops']) for ev in events)
    for ev in events[:3]:
        chk.sample(ev)


def model(chk):
    res = chk.tlc('MCNames', f'CONSTANT Depth = {chk.pick(4, 5)}\nSPECIFICATION Spec\nINVARIANT Emit\n'
                  'INVARIANT IsFoundAgain\nINVARIANT IsLast\n', workers=4)
    cases = [p for p in res.prints if 'ops' in p]
    n = chk.pick(2500, 25000)
    if len(cases) > n:
        cases = chk.rng.sample(sorted(cases, key=str), n)
    chk.sample(cases[0])
    parts = 4
    for out in parallel(*[
        (lambda k=k: chk.driver('drv_names.py', {'mode': 'replay', 'cases': cases[k::parts]},
                                hashseed=chk.seed + k)) for k in range(parts)]):
        for ev in out:
            if 'done' not in ev:
                chk.violation({'what': 'a history differs from the specification', 'event': ev})
    chk.traces += len(cases)
    chk.notes['histories_replayed'] = len(cases)


def run(chk):
    parallel(lambda: record(chk), lambda: model(chk))
